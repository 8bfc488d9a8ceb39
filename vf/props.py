"""Source of properties.jsonl and MANIFEST.json (run: python3 vf/props.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
SEED = 'generated by seeded random workloads, judged by an independent oracle'


def P(id, title, statement, over, quant, why, files, mech, technique, note,
		observe=None, level='exploration', thorough=True, na=None):
	PROPS.append(dict(id=id, title=title, statement=statement, over=over,
			quant=quant, why=why, files=files, mech=mech, observe=observe,
			technique=technique, note=note, level=level, thorough=thorough,
			na=na))


NOTE = ('Held on the executions counted in the evidence file; says nothing '
		'about inputs the workload does not generate. ')

P('C01', 'Parent links mirror the tree under every edit history',
	'After any sequence of edits of a parented tree (append, insert, extend, '
	'item and slice assignment or deletion, pop, remove, detach, disown, '
	'prune, splicing), including edits rejected with an error, the parent, '
	'parent index, siblings, root and position reported by every node agree '
	'with the actual child lists, and nodes that were taken out have no '
	'parent. The child lists are those that the same edits produce on plain '
	'lists, and reusing a node that still has a parent is always refused.',
	['histories'], 'all edit histories over all trees of a parented forest',
	'The doctests show one or two edits on one tree; the invariant concerns '
	'every reachable state, including after failed operations.',
	['discodop/tree.py', 'discodop/util.py'],
	[('parent pointer maintenance', 'discodop/tree.py ParentedTree'),
	('slice bounds', 'discodop/util.py slice_bounds')],
	'history monitor: random edit histories against a plain-list model with a '
	'structural invariant walked after every step',
	NOTE + 'Trusts the 60-line list model in checks/c01.py.')

P('C02', 'Trees are faithful values: text form, copy, freeze, equality, hash',
	'Writing any tree to bracket notation (flat or pretty-printed) and reading '
	'it back gives an equal tree; copying and freezing give equal trees that '
	'share no mutable state with the original; malformed bracketings are '
	'refused with a ValueError. Frozen trees refuse every modification, equal '
	'frozen trees have equal hashes, and trees paired with sentences compare '
	'equal exactly when labels, shape and words coincide. The traversals and '
	'positions (leaves, pre- and postorder, POS tags, height, tree positions) '
	'all describe the same tree, and edits of a plain tree by index or position '
	'act on its child lists as on lists, invalid positions being refused.',
	['inputs'], 'all ordered labeled trees with index or word leaves',
	'Doctests show a handful of trees; equality/hash/round-trip laws quantify '
	'over all (pairs of) trees.',
	['discodop/tree.py'],
	[('bracket parser', 'discodop/tree.py Tree.parse'),
	('printer', 'discodop/tree.py Tree.pprint'),
	('immutability', 'discodop/tree.py ImmutableTree'),
	('discontinuous equality', 'discodop/tree.py DiscTree')],
	'reference-model monitor: tree values compared with nested-tuple model',
	NOTE + 'Labels and words without whitespace/brackets.')

P('C03', 'Tree drawings show every node and token once, in consistent places',
	'For any continuous or discontinuous tree and sentence, the drawing places '
	'every node and every token in its own grid cell, tokens in sentence order '
	'from left to right, each parent strictly above its children, with exactly '
	'one edge from each non-root node to its actual parent. The plain text, '
	'SVG, HTML and LaTeX renderings contain every label and every token as '
	'often as the tree does, with markup characters escaped so that the SVG '
	'stays well-formed.',
	['inputs'], 'all trees (unary chains, discontinuity, any labels/tokens)',
	'One module test draws a few fixed trees and only checks that there is no '
	'exception.',
	['discodop/tree.py'],
	[('grid placement', 'discodop/tree.py DrawTree.nodecoords'),
	('renderers', 'discodop/tree.py DrawTree.text/svg/svghtml/tikzqtree')],
	'invariant monitor on the layout plus independent parse of the rendered '
	'output',
	NOTE + 'Geometry of line art is checked for the text renderer only through '
	'label/token placement.')

P('C04', 'The agenda delivers entries in priority order under any history',
	'Whatever sequence of insertions, priority updates, deletions, lookups and '
	'pops is applied, the agenda holds exactly the '
	'entries of a dictionary that underwent the same operations: its length, '
	'membership and lookups agree, and pop and peek yield an entry with the '
	'lowest current priority, ties in order of first insertion. The native '
	'agenda of the parsers does the same for insertions, decrease-only updates '
	'and k-best selection. No entry is lost, '
	'duplicated or delivered with an outdated priority.',
	['histories'], 'all operation histories on the agenda',
	'Unit tests run fixed sequences of adds, updates and pops; lazy '
	'invalidation bugs need specific interleavings of updates and deletions.',
	['discodop/util.py', 'discodop/_containers.h', 'discodop/containers.pyx'],
	[('lazy deletion heap', 'discodop/util.py PyAgenda')],
	'linear history checked online against a sequential model',
	NOTE + 'Single-threaded histories (the agenda is not shared).')

P('C05', 'Bit-vector operations agree with sets of integers',
	'The exported bit-set functions (fan-out, set and unset bit search, bit '
	'count, bit length and range tests) give, for every bit vector, the '
	'result that the corresponding set of positions has, at word boundaries, '
	'for empty and full vectors, and for vectors longer than one machine word. '
	'None of them reads outside its operands or relies on undefined '
	'behaviour for arguments in range.',
	['inputs'], 'all bit vectors of 0..300 bits and all positions in range',
	'The module test evaluates a few small constants.',
	['discodop/bit.pyx', 'discodop/bit.pxd', 'discodop/bitcount.h',
	'discodop/macros.h'],
	[('fanout / span tests', 'discodop/bit.pyx'),
	('word-level loops', 'discodop/bit.pxd')],
	'ASan/UBSan build driven with boundary vectors, judged by Python integer '
	'and set arithmetic',
	NOTE)

P('C06', 'Treebank formats round-trip without loss',
	'Writing a tree and sentence in a corpus format (export, bracket, '
	'discontinuous bracket) and reading it back yields the same tree: '
	'structure, labels, words, and in the export format also morphology, '
	'lemmas, function tags, secondary edges and comments; in discontinuous formats '
	'discontinuous constituents survive. Words with brackets, slashes, '
	'equals signs, quotes or non-ASCII characters come back unchanged, '
	'sentence order and count are kept, and the order of children is the '
	'canonical left-to-right order. Corpora in the XML formats (Alpino, Tiger, '
	'French treebank) are read with the structure, words, lemmas, morphology, '
	'function tags and secondary edges in the file, and keep these '
	'when converted to the export format.',
	['inputs', 'configurations'],
	'all trees and sentences representable in the format, all encodings and '
	'readers options',
	'The reader tests convert one sample corpus; escaping and indexing depend '
	'on particular words, depths and crossing structures.',
	['discodop/treebank.py', 'discodop/tree.py'],
	[('readers', 'discodop/treebank.py *CorpusReader'),
	('writers', 'discodop/treebank.py writetree'),
	('bracket escaping', 'discodop/tree.py escape/unescape, brackettree')],
	'differential monitor: generator-side model vs the tree read back',
	NOTE + 'Literal token strings that the format documents as escapes '
	'(#LRB# etc.) are excluded.')

P('C07', 'All views of a corpus agree and no sentence is lost',
	'For every corpus, the trees, sentences, raw blocks, tagged sentences and '
	'the iterating interfaces list the same sentences under the same '
	'identifiers in corpus order; a slice by position gives exactly that '
	'part of the full listing. Reading several files gives the concatenation of reading each, '
	'and compressed files give the same result as plain ones. Feeding any raw '
	'block back through a reader gives the same tree.',
	['inputs', 'configurations'],
	'all corpora, file splits, slices, compression and reader options',
	'Tests use a single 3-sentence sample with full listing only.',
	['discodop/treebank.py', 'discodop/util.py'],
	[('itertrees/trees/sents/blocks', 'discodop/treebank.py CorpusReader'),
	('openread', 'discodop/util.py')],
	'cross-view consistency monitor over generated corpora on disk',
	NOTE)

P('C08', 'Streaming tree input gives the same trees as reading at once',
	'The incremental reader yields exactly the trees of its input, in order, '
	'however the input is divided into lines and whatever text surrounds the '
	'trees; trees in bracket, discontinuous bracket, export and Alpino XML '
	'notation are recognized, and the text between trees is reported when requested. '
	'Malformed or truncated material never changes, drops or merges the '
	'complete trees before it.',
	['inputs'], 'all sequences of trees, line splits and noise between them',
	'The unit test feeds one fixed mixture.',
	['discodop/treebank.py'],
	[('segmenting parentheses', 'discodop/treebank.py segmentbrackets, '
		'incrementaltreereader')],
	'metamorphic monitor: same stream under different chunking, against '
	'generator ground truth',
	NOTE)

P('C09', 'Removing or moving punctuation and empty elements keeps the rest',
	'Removing punctuation, empty elements or other terminals deletes exactly '
	'those tokens and the constituents left without tokens: all other tokens '
	'remain in order with their tags, and every remaining constituent covers '
	'the same remaining tokens as before. Moving punctuation (raising, '
	'balancing, lowering, or attaching to the root) keeps every token, and every '
	'constituent with other tokens keeps its label, its place in the hierarchy '
	'and its non-punctuation tokens; raising and balancing never introduce '
	'discontinuity that was not there, raised marks join the topmost constituent '
	'with a child starting right after them, a pair of marks of which one '
	'borders on the parent of the other ends up under the same constituent, and '
	'in continuous trees a lowered mark has no sister constituent that spans its '
	'position.',
	['inputs'], 'all trees and sentences with any punctuation/empty pattern',
	'Tests check a few hand-made sentences.',
	['discodop/punctuation.py', 'discodop/treebank.py',
	'discodop/treetransforms.py'],
	[('punctuation transforms', 'discodop/punctuation.py applypunct'),
	('terminal removal', 'discodop/treetransforms.py removeterminals, '
		'discodop/treebank.py')],
	'conservation monitor on (label, yield) multisets before and after',
	NOTE)

P('C10', 'Binarization is reversible and bounded',
	'For every binarization setting (left or right factored, any horizontal '
	'and vertical markovization, head-outward, tail marker, unary markers, '
	'left/right-most unary, reversed, direction, dotted or with unique '
	'identifiers), the binarized tree has the same tokens and at most two children '
	'per node, and unbinarizing it gives the original tree back. The original '
	'constituents all occur in the binarized tree, and collapsing unary chains and '
	'expanding them again restores the tree. New nodes have the shape and context '
	'that the factorization, head position and Markov orders prescribe. Introducing '
	'preterminals gives exactly the terminals with siblings a preterminal.',
	['inputs', 'configurations'],
	'all trees and all documented binarization option combinations',
	'The unit tests binarize sample trees under a few option settings.',
	['discodop/treetransforms.py'],
	[('binarize/unbinarize', 'discodop/treetransforms.py'),
	('collapseunary', 'discodop/treetransforms.py')],
	'inverse-function monitor over option grid with structural oracle',
	NOTE + 'Excludes factor=left with headoutward (documented FIXME).')

P('C11', 'Removing discontinuity is reversible and yields continuous trees',
	'Splitting discontinuous constituents gives a tree in which every '
	'constituent is continuous and which has the same tokens, with one node per '
	'contiguous part, and merging gives the original tree back (when '
	'discontinuous sisters can be told apart by their label, or their parts '
	'alternate in order). Fan-out markers added to labels state the true number of contiguous parts of each constituent and are '
	'removed without trace; raising discontinuous nodes gives a continuous '
	'tree over the same tokens and the same bag of labels. Canonicalization '
	'only reorders children by their leftmost token.',
	['inputs'], 'all (dis)continuous trees',
	'Unit tests transform the sample treebank only.',
	['discodop/treetransforms.py', 'discodop/bit.pyx'],
	[('splitdiscnodes/mergediscnodes/raisediscnodes',
		'discodop/treetransforms.py'),
	('addfanoutmarkers', 'discodop/treetransforms.py')],
	'inverse-function and invariant monitor with independent span computation',
	NOTE)

P('C12', 'Optimal binarization is reversible and really minimal',
	'Optimal binarization of any tree (plain or head-driven, with any '
	'markovization) gives a tree with at most two children per node that '
	'unbinarizes to the original. No binarization in the searched family of '
	'the same constituent has a lower maximum of the chosen objective '
	'(parsing complexity then fan-out, or fan-out then complexity), as '
	'measured by enumerating them all.',
	['inputs', 'configurations'], 'all nodes with up to 7 children',
	'A unit test checks a sample for one setting and does not establish '
	'minimality.',
	['discodop/treetransforms.py'],
	[('minimalbinarization', 'discodop/treetransforms.py')],
	'brute-force enumeration oracle over observed binarizations',
	NOTE)

P('C13', 'Every constituent has one head; dependencies form a tree',
	'With any head rules, every constituent gets exactly one head child, '
	'chosen by the first matching rule in the documented order, and existing '
	'head annotation is respected where documented. The dependencies read off '
	'give every token exactly one head, the heads of the children of the root node are attached to the '
	'root, there are no cycles, and the CoNLL output lists all '
	'tokens in order with consistent head numbers. The mean dependency length '
	'equals that of the reported dependencies. The heads inferred from a '
	'head-outward binarized tree are those by which it was binarized.',
	['inputs', 'configurations'], 'all trees and head rule tables',
	'Only one smoke test reads head rules.',
	['discodop/heads.py', 'discodop/treebank.py', 'discodop/treetransforms.py'],
	[('headfinder/applyheadrules', 'discodop/heads.py'),
	('dependencies', 'discodop/treebank.py')],
	'invariant monitor plus independent re-implementation of the rule order',
	NOTE)

P('C14', 'Treebank transformations keep tokens and undo cleanly',
	'Applying any documented set of treebank transformations to a tree never '
	'loses, adds or reorders tokens and leaves a well-formed tree with '
	'consistent parent links; for the transformations documented as reversible, the '
	'reverse transformation gives the original labels and structure back when '
	'the tree did not already contain the configuration that marks a transformed '
	'constituent. '
	'Relational-realizational conversion and its inverse restore the original '
	'tree, and morphology, function and state-split annotation changes labels only. '
	'Annotations and introduced levels appear exactly at the constituents that '
	'their descriptions name.',
	['inputs', 'configurations'],
	'all trees and subsets of the transformation presets',
	'The module cannot be imported by the stock build and has no test.',
	['discodop/treebanktransforms.py'],
	[('transform/reversetransform', 'discodop/treebanktransforms.py'),
	('rrtransform/rrbacktransform', 'discodop/treebanktransforms.py')],
	'conservation and inverse-function monitor',
	NOTE)

P('C15', 'Extracted rules describe exactly the tree they come from',
	'The rules read off a tree have one rule per node in the order of '
	'traversal, each naming the node, its children and a yield function that '
	'uses every child component exactly once and in order, and recombining '
	'the rules top-down yields the original tree and its discontinuous spans. Rules for '
	'continuous trees are context-free, and fan-out and parsing-complexity '
	'figures derived from a rule equal those computed from spans.',
	['inputs'], 'all (dis)continuous trees, with frontier nonterminals and '
	'empty-free sentences',
	'Doctests show a single tree.',
	['discodop/grammar.py'],
	[('lcfrsproductions', 'discodop/grammar.py'),
	('ranges/subst/rangeheads', 'discodop/grammar.py')],
	'reconstruction oracle on recorded rules',
	NOTE)

P('C16', 'Treebank grammars conserve counts',
	'A grammar read off a treebank contains each rule exactly once, with as '
	'its frequency the number of occurrences in the trees, so that weights sum '
	'to the number of nodes per left-hand side and to one when normalized. '
	'The order of rules does not depend on hashing, the '
	'lexicon contains exactly the observed tag/word pairs, and every training '
	'tree is derivable with the probability given by multiplying its rules.',
	['inputs'], 'all treebanks',
	'The doctests show one two-tree corpus.',
	['discodop/grammar.py'],
	[('treebankgrammar', 'discodop/grammar.py'),
	('sortgrammar', 'discodop/grammar.py')],
	'conservation monitor against independent counting',
	NOTE)

P('C17', 'The DOP reduction is equivalent to the all-fragments grammar',
	'Summing over derivations, the DOP reduction of a treebank gives each tree '
	'the same probability as the explicit grammar of all fragments with '
	'relative-frequency, equal-weights or Bonnema estimates, in plain and in '
	'packed-graph form. Addressed nodes are unique, every training tree is '
	'derivable, and stripping addresses from any derivation gives a tree over '
	'treebank rules.',
	['inputs'], 'all small binarized treebanks',
	'Doctests print the rules of one toy treebank; nothing compares weights '
	'with fragments.',
	['discodop/grammar.py'],
	[('dopreduction/packed graph', 'discodop/grammar.py dopreduction'),
	('TreeDecorator', 'discodop/grammar.py')],
	'brute-force oracle: explicit enumeration of fragments and derivations',
	NOTE)

P('C18', 'Fragment grammars derive their fragments and keep their weights',
	'Compiling tree fragments to a grammar gives each fragment a unique rule '
	'(plus auxiliary rules whose symbols expand in exactly one way) whose weight is the given count, and '
	'substituting rules back recovers exactly the original fragment with its '
	'discontinuities, words and frontier nodes. For every derivation the '
	'recovered tree has no auxiliary symbols, and the total weight of the '
	'fragments with a given root equals the weight of the rules of that root.',
	['inputs'], 'all sets of fragments extracted from all treebanks',
	'Doctests flatten three fragments.',
	['discodop/grammar.py', 'discodop/disambiguation.pyx'],
	[('flatten/dopgrammar/compiletsg', 'discodop/grammar.py'),
	('recoverfragments', 'discodop/disambiguation.pyx')],
	'conservation and reconstruction monitor',
	NOTE)

P('C19', 'Grammar files round-trip and merging adds up',
	'Writing a grammar to its rule and lexicon files and reading those back '
	'gives the same rules, words and weights, also for large, fractional and '
	'tiny weights and words with special characters. Merging sorted rule, '
	'lexicon or fragment files gives a sorted file in which each entry occurs '
	'once with as weight the sum of its weights in the inputs divided by the '
	'number of inputs, and no entry is lost. The reported grammar statistics equal those counted from the rules.',
	['inputs', 'configurations'], 'all grammars and any number of files',
	'util.merge has a doctest on numbers; merging grammar files has no test.',
	['discodop/grammar.py', 'discodop/util.py', 'discodop/cli.py'],
	[('writegrammar/write_lcfrs', 'discodop/grammar.py'),
	('merge/sumrules/sumlex/sumfrags', 'discodop/grammar.py, util.py')],
	'round-trip and conservation monitor on files',
	NOTE)

P('C20', 'The compiled grammar represents exactly the rules it was given',
	'The compiled grammar lists the same rules, lexical entries and weights as '
	'the text or rule list it was built from; switching estimators, masking, '
	'incremental addition of rules, storing and loading in binary form, '
	'pickling a grammar as it was loaded and switching between '
	'probabilities and log probabilities preserve this, and after '
	'normalization the probabilities for each left-hand side sum to one. '
	'Invalid grammar text is refused with an error, and labels map to '
	'coarse labels consistently.',
	['inputs', 'histories'],
	'all grammars and histories of switch/mask/add/pickle operations',
	'Not importable in the stock build; only indirectly used by unit tests.',
	['discodop/containers.pyx', 'discodop/_grammar.pxi'],
	[('Grammar', 'discodop/_grammar.pxi')],
	'history monitor against a dictionary model of the grammar',
	NOTE + 'Extension modules built from the current tree with stand-ins for '
	'three absent header-only libraries.')

P('C21', 'Context-free parsing finds all and only the grammar\'s parses',
	'For every context-free grammar (binary, unary including cycles, lexical) and sentence, '
	'the parser succeeds exactly if the grammar derives the sentence; the best '
	'derivation it returns has the maximum probability, its probability is '
	'the product of its rules, and its yield is the sentence. The dense '
	'and sparse charts and the general parser agree, supplied tags and a '
	'chosen start symbol are respected, and unknown words never parse silently.',
	['inputs', 'configurations'], 'all small PCFGs and sentences',
	'The unit tests parse a few sentences with one grammar.',
	['discodop/pcfg.pyx', 'discodop/containers.pyx', 'discodop/kbest.pyx'],
	[('CKY with unary closure', 'discodop/pcfg.pyx')],
	'independent CKY/Bellman reference parser as oracle on each execution',
	NOTE + 'Weights compared with relative tolerance 1e-9.')

P('C22', 'Discontinuous parsing finds all and only the grammar\'s parses',
	'For every binarized linear context-free rewriting system and sentence, the '
	'parser succeeds exactly if the grammar derives the sentence, and the best '
	'derivation it returns has the maximum probability, with spans that respect '
	'the yield functions. Exhaustive and best-first parsing, short and long '
	'(64 words or more) sentence representations, and parsing with outside '
	'estimates agree on the best probability; supplied tags are respected.',
	['inputs', 'configurations'], 'all small binarized LCFRSs and sentences, '
	'lengths below and above 64 words',
	'Unit tests parse a few fixed sentences.',
	['discodop/plcfrs.pyx', 'discodop/containers.pyx',
	'discodop/estimates.pyx'],
	[('agenda-driven deduction', 'discodop/plcfrs.pyx'),
	('chart items', 'discodop/containers.pyx')],
	'independent deductive reference parser as oracle on each execution',
	NOTE)

P('C23', 'k-best lists are sorted, distinct, correct and complete',
	'The k-best derivations of any chart are pairwise distinct, sorted from '
	'most to least probable, each a valid derivation of the sentence with the '
	'stated probability, and they are the k most probable derivations of the '
	'grammar (all of them when there are fewer); asking for a larger k extends '
	'the list without changing its prefix probabilities.',
	['inputs'], 'all charts of acyclic small grammars, all k',
	'Unit tests request a fixed k on one grammar without enumerating.',
	['discodop/kbest.pyx', 'discodop/containers.pyx'],
	[('lazykbest', 'discodop/kbest.pyx')],
	'exhaustive derivation enumeration as oracle',
	NOTE)

P('C24', 'Coarse-to-fine pruning keeps what the coarse parses license',
	'Parsing with a fine grammar restricted by a coarse chart yields only '
	'derivations whose coarse projection uses items in the retained coarse '
	'derivations, and if the best unrestricted fine derivation '
	'uses only retained items, the restricted parse finds that same derivation. '
	'The retained items are those of the k best coarse derivations (or of all '
	'of them), or those whose posterior probability exceeds the threshold. '
	'With an unlimited number of coarse derivations pruning changes nothing, '
	'and required or blocked spans are always respected.',
	['inputs', 'configurations'], 'all coarse/fine grammar pairs, thresholds k '
	'and posteriors, split and unsplit stages',
	'One end-to-end unit test runs the pipeline on a sample.',
	['discodop/coarsetofine.pyx', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx'],
	[('prunechart/whitelist', 'discodop/coarsetofine.pyx'),
	('checkwhitelist', 'discodop/plcfrs.pyx, discodop/pcfg.pyx')],
	'metamorphic and reference-model monitor on the whitelist',
	NOTE)

P('C25', 'Disambiguation maximizes its objective over the derivations',
	'Given the derivations of a sentence, each objective (most probable '
	'derivation, most probable parse, shortest derivation, simplicity-'
	'likelihood, maximum constituents) returns trees with the score that the '
	'objective assigns to them when computed from those derivations one by '
	'one, and the winner is maximal; the maximum constituents parse is a '
	'complete tree that maximizes the expected number of correct constituents '
	'(minus weighted mistakes). Parse probabilities are the sums of their '
	'derivations, and probabilities of given trees under the reduction equal '
	'brute-force sums. Required and blocked spans select exactly the trees '
	'that fulfill them, and the fragments reported for a tree are those of one '
	'of its best derivations, with weights whose product is the probability of '
	'that derivation.',
	['inputs', 'configurations'], 'all small DOP grammars, sentences, '
	'objectives and k',
	'A module test prints results for one grammar.',
	['discodop/disambiguation.pyx'],
	[('marginalize', 'discodop/disambiguation.pyx'),
	('dopparseprob', 'discodop/disambiguation.pyx')],
	'recomputation oracle from the recorded derivation list',
	NOTE)

P('C27', 'The parser always returns a complete analysis of the sentence',
	'For every input sentence, known words or not, the parsing pipeline '
	'returns for each stage a tree over exactly the input tokens in order, '
	'free of binarization, fan-out and split markers, with a flag that truly tells whether the '
	'parse is a fallback. Results do not depend on the number of worker processes or on '
	'what was parsed before, and given tags appear in the result.',
	['inputs', 'histories', 'configurations'],
	'all sentences, stage configurations and orders of parsing',
	'One unit test runs a small experiment and looks at no output.',
	['discodop/parser.py', 'discodop/runexp.py'],
	[('Parser.parse/postprocess', 'discodop/parser.py')],
	'end-to-end monitor on trained pipelines under hostile sentences',
	NOTE)

P('C28', 'Unknown word handling keeps every token and is consistent',
	'Replacing rare words for training and unknown words for parsing maps each '
	'token to itself, its lower-case form, a number class or a signature that '
	'the model has seen, one output token per input token, and training and '
	'test replacement agree for words in the lexicon; the signature is the one '
	'that the model defines for the shape of the word. Words above the threshold '
	'and closed-class words are never replaced, the collected statistics '
	'equal the counts in the corpus, and smoothing only adds rules. With an '
	'external tagger, each token gets the tag assigned to it, or its override, '
	'and a tagger that changes the number of tokens is noticed.',
	['inputs', 'configurations'],
	'all tagged corpora, thresholds and signature models',
	'No test touches this module in the stock build.',
	['discodop/lexicon.py', 'discodop/runexp.py'],
	[('getunknownwordmodel', 'discodop/lexicon.py'),
	('signatures', 'discodop/lexicon.py unknownword*')],
	'conservation monitor and recount oracle',
	NOTE)

P('C29', 'Fragment extraction returns exactly the recurring fragments',
	'The fragments extracted from a treebank (or pair of treebanks) are exactly the '
	'maximal connected overlaps of pairs of trees, each occurring where it is '
	'claimed, and each reported count or index set equals the number of occurrences '
	'found by naive matching in all trees. The result does not depend on '
	'the number of worker processes, on batching, or on the order of processing.',
	['inputs', 'configurations', 'schedules'],
	'all small treebanks, continuous and discontinuous, and option sets',
	'A unit test compares two fixed treebanks.',
	['discodop/_fragments.pyx', 'discodop/fragments.py'],
	[('extractfragments/fastextract', 'discodop/_fragments.pyx'),
	('exactcounts', 'discodop/_fragments.pyx')],
	'naive quadratic matcher as oracle',
	NOTE)

P('C30', 'Bounded fragment enumeration is complete',
	'Enumerating all fragments up to a depth and frontier bound yields each '
	'fragment within the bounds once, with its exact number of occurrences, and none beyond '
	'them. Cover fragments contain every production of the treebank.',
	['inputs', 'configurations'], 'all small treebanks and bounds',
	'No test enumerates fragments independently.',
	['discodop/_fragments.pyx', 'discodop/fragments.py'],
	[('allfragments', 'discodop/_fragments.pyx')],
	'recursive enumeration oracle',
	NOTE)

P('C31', 'Packed treebanks and vocabularies survive storage unchanged',
	'Converting trees to the packed representation and extracting them again '
	'gives the same trees and words; writing the packed treebank and its '
	'vocabulary to disk, loading or memory-mapping them and adding trees '
	'afterwards gives the same content as building it at once.',
	['inputs', 'histories'], 'all treebanks and save/load/append histories',
	'No stock test covers the binary formats.',
	['discodop/containers.pyx', 'discodop/_fragments.pyx'],
	[('Ctrees/Vocabulary', 'discodop/containers.pyx')],
	'round-trip history monitor',
	NOTE)

P('C32', 'Evaluation scores equal their definitions',
	'Labeled precision, recall, F-measure, exact match, tagging, leaf-ancestor '
	'and dependency scores reported for gold and candidate files equal an '
	'independent computation from labeled spans under the same parameters '
	'(deleted labels and words, equivalences, length cutoff, discontinuous only). '
	'Identical files score 100, swapping gold and candidate swaps precision '
	'and recall, and sentence order does not change totals.',
	['inputs', 'configurations'],
	'all gold/candidate pairs and parameter settings',
	'The module has no test in the stock build.',
	['discodop/eval.py'],
	[('Evaluator/EvalAccumulator', 'discodop/eval.py'),
	('transform/bracketings', 'discodop/eval.py')],
	'independent re-computation and metamorphic monitor',
	NOTE)

P('C33', 'Tree edit distance is the true minimum and a metric',
	'The tree edit distance between any two trees equals the minimum number of '
	'node insertions, deletions and relabelings found by an exhaustive '
	'algorithm; it is zero exactly for equal trees, symmetric, and satisfies '
	'the triangle inequality. The reported counts of each kind of edit '
	'operation add up to the distance and to the difference in '
	'size.',
	['inputs'], 'all pairs of ordered labeled trees',
	'One module test compares two hard-coded trees.',
	['discodop/treedist.py'],
	[('treedist', 'discodop/treedist.py'),
	('newtreedist', 'discodop/treedist.py')],
	'independent forest-recursion oracle and metamorphic monitor',
	NOTE)

P('C34', 'Corpus queries report exactly the matches there are',
	'For every corpus and query, counts, matching sentences, trees and batch '
	'results agree with each other and with a naive scan of the corpus; '
	'restricting to files, ranges or a maximum number gives the corresponding '
	'part of the full result. Results do not depend on the number of worker '
	'processes, earlier queries, or caching; indices are renewed when files '
	'or the list of files change. Extracting sentences or trees by number '
	'gives those of the corpus.',
	['inputs', 'histories', 'configurations'],
	'all corpora, fragment and regular expression queries, ranges',
	'No test covers searching in the stock build.',
	['discodop/treesearch.py'],
	[('RegexSearcher', 'discodop/treesearch.py'),
	('FragmentSearcher', 'discodop/treesearch.py'),
	('result cache', 'discodop/treesearch.py')],
	'naive-scan oracle over query histories',
	NOTE)

P('C35', 'Generated sentences are licensed by the grammar',
	'Every sentence sampled from a grammar comes with a derivation that uses '
	'only rules of the grammar and ends in words; rules are chosen with '
	'frequencies that match their weights; reading a grammar file keeps all '
	'its rules and words.',
	['inputs'], 'all grammars, sampled derivations',
	'A module test prints sentences without checking them.',
	['discodop/gen.py'],
	[('gen', 'discodop/gen.py')],
	'derivation checker and frequency test with fixed thresholds',
	NOTE)

P('C36', 'No input makes the native code access memory it does not own',
	'Whatever trees, sentences, grammars, or fragments are given to the '
	'compiled parts — including malformed text, truncated binary files, '
	'closed treebanks, empty treebanks, very long words, and trees and '
	'sentences around the word-size limits — they either produce a result or '
	'raise a Python exception. They never read or write outside their '
	'allocations, use freed memory, or execute undefined arithmetic.',
	['inputs', 'histories'], 'all inputs to the extension modules',
	'Tests run without sanitizers and on well-formed input only.',
	['discodop/bit.pxd', 'discodop/containers.pyx', 'discodop/_fragments.pyx',
	'discodop/pcfg.pyx', 'discodop/plcfrs.pyx', 'discodop/kbest.pyx',
	'discodop/coarsetofine.pyx', 'discodop/disambiguation.pyx',
	'discodop/estimates.pyx', 'discodop/_grammar.pxi'],
	[('native code', 'discodop/*.pyx')],
	'AddressSanitizer + UndefinedBehaviorSanitizer builds of all extension '
	'modules under hostile workloads',
	NOTE + 'Red-zone detection misses non-adjacent overflows inside valid '
	'allocations.')

P('C37', 'Outside estimates never underestimate what is achievable',
	'For every grammar and every item of a sentence, the context-summary '
	'outside estimate is at least as probable as the best completion of the '
	'item to a full parse, and the inside estimate matches the best '
	'derivation of the item; parsing with estimates therefore finds the same '
	'best parse as parsing without them.',
	['inputs'], 'all small grammars and sentences up to the table length',
	'The module test fails to run with current NumPy and asserts nothing.',
	['discodop/estimates.pyx'],
	[('getestimates/getpcfgestimates', 'discodop/estimates.pyx')],
	'reference inside/outside computation as oracle',
	NOTE)

P('C38', "The TAG reduction generates exactly the grammar's derivations",
	'For every set of initial and auxiliary trees, the grammar produced by the '
	'off-spine TAG reduction derives exactly the trees that substitution and '
	'adjunction off the spine can build, with one grammar derivation per TAG '
	'derivation, and no others; initial trees keep their relative weights, extra '
	'lexical rules are included with their words intact, and '
	'disambiguation sums the derivations of one tree. Inducing such a '
	'grammar from fragments splits recursive fragments into an initial and '
	'an auxiliary tree that recombine to the original and keeps other large '
	'fragments, except initial trees that are also auxiliary trees; the grammar extracted from a treebank derives every '
	'training tree.',
	['inputs'], 'all tree sets and sentences',
	'No unit test covers the TAG reduction.',
	['discodop/grammar.py', 'discodop/runexp.py', 'discodop/disambiguation.pyx'],
	[('ostagreduction', 'discodop/grammar.py')],
	'enumeration of TAG derivations as oracle for parses of the reduction',
	NOTE)

P('C39', 'Command-line conversions conserve the corpus',
	'Converting a treebank on the command line with any combination of '
	'documented options writes one tree per selected input tree in order, '
	'with the tokens and structure that the corresponding library functions '
	'give; options given on the command line take effect, and reversible '
	'conversions applied in both directions restore the input.',
	['inputs', 'configurations'], 'all corpora and option combinations',
	'No test runs the command-line tools.',
	['discodop/cli.py', 'discodop/treebank.py', 'discodop/treetransforms.py'],
	[('treetransforms command', 'discodop/cli.py')],
	'differential monitor: tool output vs library pipeline',
	NOTE)

P('C40', 'Adding trees to a running parser equals retraining on all trees',
	'After any sequence of additions of new trees to a running parser, '
	'interleaved with parsing, each treebank grammar has exactly the rules and '
	'counts of a grammar trained on all trees so far, each fragment grammar '
	'has all recurring fragments of those trees with counts that never decrease or exceed '
	'the number of occurrences, weights are normalized, the added trees are not '
	'modified, and all sentences added or trained on can be parsed by every '
	'stage that does not prune them.',
	['inputs', 'histories'], 'all treebanks and batches of additions',
	'No test calls this part of the parser.',
	['discodop/parser.py', 'discodop/_grammar.pxi', 'discodop/containers.pyx',
	'discodop/_fragments.pyx'],
	[('Parser.augmentgrammar', 'discodop/parser.py'),
	('Grammar.addrules', 'discodop/_grammar.pxi')],
	'differential monitor: incremental history vs retrained parser',
	NOTE)


P('C41', 'Experiments use the selected sentences and report their true scores',
	'An experiment trains on exactly the sentences that its parameters select '
	'(number or fraction, sentences to skip, maximum length, in any supported '
	'corpus format and any number of files) and parses exactly the selected '
	'test sentences, which start after the training sentences when requested; '
	'the grammars contain just the words, tags and labels of the training '
	'sentences. The gold standard and result files hold one tree per test '
	'sentence, in order, with its words; the logged scores are '
	'those of the result file against the gold standard, the same when '
	'repeated with other processes. Existing results are not '
	'overwritten unless requested, and empty selections are refused.',
	['inputs', 'configurations'],
	'all corpora, selections and evaluation parameters',
	'The test runs one fixed parameter file and does not look at its results.',
	['discodop/runexp.py', 'discodop/parser.py', 'discodop/treebank.py'],
	[('startexp, loadtraincorpus', 'discodop/runexp.py'),
	('doparsing, writeresults', 'discodop/runexp.py')],
	'differential monitor: expected selection and independent evaluation vs '
	'files and log of the experiment',
	NOTE)


P('C42', 'Predicted function tags go to the constituents they are meant for',
	'The classifier of function tags is trained on one pair per constituent '
	'(except roots, and except preterminals when no preterminal in the '
	'treebank has a function tag): the features of the constituent (category, '
	'head word and its tag, parent, grandparent, head sister and offset to it, '
	'size, and those of its neighbors) with its own function tags. Applying a '
	'classifier computes the same features and assigns each of these '
	'constituents exactly the tags predicted for it, whether or not the tree '
	'had attributes before, and changes nothing else; experiments with this '
	'option write the predicted tags to their results, also when repeated.',
	['inputs', 'configurations'],
	'all treebanks with heads and function tags, and all classifiers',
	'No test covers it; the library with the classifier is optional.',
	['discodop/functiontags.py', 'discodop/heads.py', 'discodop/parser.py',
	'discodop/runexp.py'],
	[('trainfunctionclassifier, applyfunctionclassifier',
		'discodop/functiontags.py'),
	('functionfeatures, basefeatures', 'discodop/functiontags.py'),
	('Parser.postprocess', 'discodop/parser.py')],
	'recording monitor: a stand-in classifier logs what it is given and '
	'predicts; an independent featurization and the resulting trees are '
	'compared with the log',
	NOTE)

P('C43', 'The D-level of a tree follows the definition of its levels',
	'The measure of syntactic complexity of a Dutch tree is the highest level '
	'whose criterion its annotation meets: 7 more than two finite verbs beyond '
	'the number of coordinators; 6 a clause as subject, or a relative clause or '
	'participle modifying it; 5 a subordinating conjunction other than "dat"; 4 '
	'a non-finite object clause with overt subject; 3 a finite object clause or '
	'equivalent; 2 a coordinator; 1 a non-finite object clause whose subject is '
	'that of the main clause; otherwise 0. It does not depend on the order of '
	'constituents, on state splits or features added to labels, or on the tree '
	'being stored and read again, and measuring leaves the tree as is.',
	['inputs'],
	'all trees with functions, morphological features and secondary edges',
	'No test covers it; each criterion combines categories, functions, features '
	'and secondary edges of several nodes.',
	['discodop/treebanktransforms.py', 'discodop/treebank.py'],
	[('dlevel', 'discodop/treebanktransforms.py'),
	('hassecedge, morphfeats', 'discodop/treebanktransforms.py')],
	'generated trees around each criterion and near misses; independent '
	'evaluation of all criteria on the blueprint of the tree',
	NOTE)

P('C44', 'Text is read, decompressed and tokenized without loss',
	'Tokenizing a text keeps all its characters except whitespace, in order, '
	'and returns the tokens of the English/French treebank conventions: '
	'contractions are split, punctuation and brackets are separated, numbers, '
	'abbreviations, hyphenated and slashed words are kept. Reading a plain or '
	'compressed file gives exactly what was written, as text in the given '
	'encoding or as bytes; compressing gives a file that expands to what was '
	'written; damaged files raise an error, and not reading to the end does '
	'not block; centering text counts graphemes and ordered sets behave as '
	'sets that keep their order.',
	['inputs', 'fault_sequences'],
	'all texts, encodings and compression formats that are installed',
	'Tests tokenize a few sentences at most and read intact files completely.',
	['discodop/util.py'],
	[('tokenize', 'discodop/util.py'),
	('openread, genericdecompressor, genericcompressor', 'discodop/util.py'),
	('graphemecenter, OrderedSet', 'discodop/util.py')],
	'sentences generated along with their tokens; round trips of files with '
	'truncation and prefix faults and a watchdog; model sets',
	NOTE)
P('C45', 'Parsing respects constraints; grammars learn from new trees',
	'Every tree returned by the parser for a set of required and blocked '
	'labeled spans contains all required and no blocked spans; stages that do '
	'not prune with them return exactly those trees (with their scores) that '
	'are found without constraints and satisfy them, an error is only raised '
	'when no coarse analysis satisfies them, and the chart contains all items '
	'of a tree that the grammar was trained on. Augmenting the grammars of '
	'part of a treebank with further trees, at once or in steps, leaves the '
	'given trees intact and gives grammars with the rules, weights and '
	'fragment frequencies (at least those), hence parse trees and '
	'probabilities, of grammars read off the whole treebank. The label sets '
	'of the loaded treebank are those of its trees.',
	['inputs', 'configurations', 'histories'],
	'all treebanks, pipelines with or without coarse-to-fine pruning, '
	'sentences, sets of spans, and orders of adding trees',
	'No test uses constraints or augments a grammar.',
	['discodop/parser.py', 'discodop/disambiguation.pyx',
		'discodop/coarsetofine.pyx', 'discodop/_grammar.pxi',
		'discodop/_fragments.pyx'],
	[('Parser.parse, Parser.augmentgrammar', 'discodop/parser.py'),
	('marginalize, testconstraints', 'discodop/disambiguation.pyx'),
	('prunechart, getmatchingitems', 'discodop/coarsetofine.pyx'),
	('Grammar.addrules', 'discodop/_grammar.pxi')],
	'unconstrained results filtered by an independent reading of the trees; '
	'differential comparison of augmented grammars with grammars of the '
	'whole treebank',
	NOTE)


def main():
	with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
		for p in PROPS:
			assert len(p['title']) <= 80, p['title']
			anchors = dict(files=p['files'], mechanism=[
					dict(name=a, where=b) for a, b in p['mech']],
					hook_needed=None)
			if p['observe']:
				anchors['observe_at'] = p['observe']
			out.write(json.dumps(dict(id=p['id'], title=p['title'],
					statement=p['statement'],
					quantifier=dict(over=p['over'], text=p['quant']),
					why_tests_cant=p['why'], anchors=anchors),
					ensure_ascii=False) + '\n')
	checks, na = [], []
	for p in PROPS:
		if p['na']:
			na.append(dict(property=p['id'], reason=p['na']))
			continue
		if not os.path.exists(os.path.join(VERIF, 'checks',
				p['id'].lower() + '.py')):
			na.append(dict(property=p['id'],
					reason='check not built yet (work in progress)'))
			continue
		c = dict(property=p['id'],
				quick_cmd='python3 vf/run.py %s --tier quick' % p['id'],
				technique=p['technique'], level=p['level'],
				level_note=p['note'])
		if p['thorough']:
			c['thorough_cmd'] = ('python3 vf/run.py %s --tier thorough'
					% p['id'])
		checks.append(c)
	with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as out:
		json.dump(dict(version=1, setup_cmd='python3 vf/run.py setup',
				checks=checks, not_applicable=na,
				notes='No hooks in /repo: all monitors observe the public '
				'interfaces and sanitizer reports.'), out, indent=1)
		out.write('\n')
	print(len(PROPS), 'properties', len(checks), 'checks')


if __name__ == '__main__':
	main()

"""Write the per-property part of DESIGN.md (run: python3 vf/design.py)."""
import ast
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- begin properties -->\n', '<!-- end properties -->\n'

# monitor and oracle; what is left out
DESIGN = dict(
C01=('Online monitor: every edit is also applied to a model of plain lists '
	'(identity of nodes matters); after each step, including rejected ones, '
	'all links of all nodes of the forest are recomputed from the child lists.',
	'Edits that the list interface itself does not define.'),
C02=('Values are compared with a nested-tuple model: printer output is parsed '
	'by an independent bracket reader, copies are mutated to detect sharing, '
	'every mutating method of frozen trees is called.',
	'Labels and words with whitespace or brackets.'),
C03=('The grid of the drawing is decoded (cells, edges) and compared with the '
	'tree; renderings are parsed back (XML parser for SVG, tokenizers for '
	'the rest) and their labels counted; LaTeX and qtree code is compared '
	'node by node; secondary edges are shown as coindexation.',
	'Geometry of the SVG beyond lines and labels.'),
C04=('Offline checker over operation histories: dictionary plus insertion '
	'counter as model; the native agendas are driven through `_vfagenda.pyx`.',
	'Priorities NaN.'),
C05=('Sets of integers as reference for every inline function of `bit.pxd`, '
	'called through `_vfbit.pyx`, with ASan and UBSan.',
	'Positions beyond the vector.'),
C06=('Trees are generated as models, written by the code, and read back by '
	'the code and by an independent reader of each format; compared field by '
	'field.', 'Words that a format reserves (`%%`, `#5xx` in export).'),
C07=('One corpus model against all listing interfaces, slices, several '
	'files and directories, gzip; blocks are fed back through the readers.',
	'-'),
C08=('Input with known trees, divided into random pieces, with text around '
	'and malformed or truncated material after; yielded trees are compared '
	'with the list of trees.', 'Unspecified resynchronization after garbage '
	'that contains brackets.'),
C09=('The remaining tokens and the token sets of all constituents before and '
	'after, computed on tuple models; no sister of a lowered mark spans it.',
	'-'),
C10=('Model of yields and constituents before and after; binarized labels are '
	'checked against the setting (extra context: marked heads, dots, reverse '
	'Markov order, filtered labels); reversal compared node by node.',
	'Labels with the reserved `|<`.'),
C11=('Spans and bags of labels computed from the model; the round trip is only '
	'demanded when the parts can be told apart (`separable`).', '-'),
C12=('Exhaustive enumeration of the binarizations of the family, scored by an '
	'independent fan-out and complexity function.', 'More than 6 children.'),
C13=('Head rules are interpreted by an independent implementation; '
	'dependencies are recomputed from the heads and checked for being a tree; '
	'heads inferred from binarized trees are compared with the original ones.',
	'source[FUNC] None.'),
C14=('Tokens, links and reversals judged on models for each documented '
	'transformation alone and in presets, over hand-tuned tree generators that '
	'trigger each of them.', 'Trees that already contain the marking.'),
C15=('Rules recomputed from spans; recombination with an independent LCFRS '
	'evaluator.', '-'),
C16=('Counter over the trees; grammar extraction repeated in child processes '
	'with other hash seeds; probabilities by multiplying rules.', '-'),
C17=('Brute force enumeration of all fragments of small treebanks with exact '
	'fractions; sum over derivations by an independent chart (`lc.py`).', '-'),
C18=('Rules expanded by substitution compared with the fragments; derivations '
	'of fragment grammars through the real parser, judged by matching; weights '
	'of the other estimators recomputed.', '-'),
C19=('Independent reader of the text formats; merging compared with a sum of '
	'dictionaries.', '-'),
C20=('History monitor: the grammar under switch, mask, addrules, binary '
	'storage and pickling, against a dictionary of rules; mutated text must be '
	'refused or mean the same.', 'Pickling after addrules.'),
C21=('Independent weighted deduction (`lc.py`, exhaustive with fixpoint for '
	'cycles): items, edges, best probability, and derivation validity are '
	'compared through `_vfchart.pyx`.', 'Pruning decisions of the beam.'),
C22=('As C21, for LCFRS with fan-out 1-3, also sentences of 60-127 words '
	'(other chart item type) and with estimates.', 'More than 127 words.'),
C23=('All derivations of the chart enumerated independently and sorted; the '
	'k-best list is compared including ties (as multisets of probabilities), '
	'each derivation is evaluated by itself.', 'k > 30 with cycles.'),
C24=('Reference chart of coarse and fine grammar; retained items recomputed '
	'from k-best derivations or exact inside-outside; the restricted fine '
	'chart must equal the filtered deduction. Runs under ASan and UBSan.', '-'),
C25=('Scores recomputed derivation by derivation; brute force for maximum '
	'constituents and tree probabilities.', 'ostag.'),
C27=('Full pipeline (`runexp` extraction, grammars on disk, `parser`) on '
	'random treebanks and parameter files; each result judged for tokens, '
	'markers, tags, flags with an independent recognizer on the grammar files, '
	'and metamorphic: number of processes, order, history, API vs. tool.',
	'Words `#LRB#` and `_UNK...`; transformations changing the root; '
	'collapse with split; relational-realizational; sl-dop with m<500 may give '
	'no parse; the fallback flag is only judged for first stages without beam '
	'and given tags; empty sentences; require/block; augmentgrammar; external '
	'taggers; `parser grammar - out`; dop-rerank probability 0 with smoothed '
	'tags; `--simple -b>1` for non-DOP grammars.'),
C28=('Counts recomputed from the corpus; each replacement class checked with '
	'independent predicates; two-sided comparison of training and test; '
	'signatures against an independent definition of the four models; external '
	'taggers are replaced by stand-in executables with the same interface, in '
	'a scratch directory.', 'real taggers'),
C29=('Naive pairwise tree matching (`fr.py`), for all pairs; counts by naive '
	'matching in all trees; repeated with other numbers of processes, batches, '
	'order, and on the command line.',
	'--numtrees with two treebanks, --relfreq with --complete zero lines, '
	'approx with indices, frontier nonterminals in the input, more than 32 '
	'components.'),
C30=('Direct recursive enumeration of bounded fragments.', '-'),
C31=('Histories of add, store, load, map, pickle, extract, close against '
	'a list of trees; with ASan and UBSan.', '-'),
C32=('Independent EVALB-style implementation (`checks/c32.py`).',
	'EQ_WORD overlapping DELETE_WORD, EQ_LABEL overlapping DELETE_LABEL; '
	'dependency scores when the head child is deleted.'),
C33=('Minimum over all mappings of nodes for small trees; an independent '
	'Zhang-Shasha for larger; edit scripts are replayed.', '-'),
C34=('Naive scans of the corpus for the regular expression and fragment '
	'searchers (library and command line) over query histories with file '
	'changes, ranges, limits, batches, processes.',
	'TgrepSearcher (no tgrep2 here), several live FragmentSearchers sharing '
	'index files, whitespace-only lines, maxresults=0, `-LRB-` words, words '
	'like `3=x`, order of matches within a sentence.'),
C35=('Derivation checker and chi-square like bounds with fixed thresholds '
	'(false alarm below 1e-9 per case).', '-'),
C36=('ASan and UBSan builds of all modules; hostile text, sizes around 16-bit '
	'and 64-bit limits, truncated binary files, closed or read-only objects, '
	'odd arguments; plus the workloads of sixteen other checks. An exception '
	'is fine; a report, signal, or SystemError is a violation.',
	'Arbitrary bytes in binary files; files cut within the index that belongs '
	'to the roaringbitmap library; item, rule, and node numbers that do not '
	'come from the same object; memset(NULL, 0, 0) in Cython\'s array clone. '
	'UBSan and ASan do not see overflows that stay inside an allocation.'),
C37=('Exact inside and outside values by independent deduction for each '
	'item; admissibility of every estimate that the parser would look up; '
	'parses with and without estimates compared.',
	'Supplied tags unseen for a word; getpcfgestimatesrec only without '
	'unaries.'),
C38=('Independent enumerator of TAG derivations (substitution, off-spine '
	'adjunction) for random initial and auxiliary trees; compared with the parse '
	'forest of the reduced grammar; induction recombined and compared, '
	'including fragments that are both initial and auxiliary.',
	'Trees with discontinuities; adjunction chains beyond the sentence length.'),
C39=('Corpus model against the output of each conversion command with random '
	'options: formats, selection, order, encodings, standard streams; '
	'transformations against the composition of library functions; drawings '
	'likewise; merged grammars against a sum of dictionaries.',
	'Bracket output of discontinuous trees, PCFG of discontinuous treebanks, '
	'negative slices parse trees outside of the selection, '
	'alpinocompact with head rules, `export` drops the root label.'),
C40=('Parser trained on a part of the corpus and augmented in batches, '
	'compared with a parser retrained on all trees: rule and fragment counts, '
	'parses, probabilities.',
	'DOP models other than doubledop (not implemented); fragments that are not '
	'maximal in new trees are not recounted; rules with an unknown word model.'),
C41=('Corpora written independently in six formats; the selection computed '
	'from the parameters; lexicon, labels, gold standard, result files and '
	'statistics compared with it; the logged scores with the reference '
	'evaluation of C32 applied to the result file.',
	'External taggers, function tag classifier (see C42), '
	'relational-realizational models; bracket format with discontinuities; '
	'sentences over 40 words (two columns are covered by C32).'),
C42=('scikit-learn and joblib are not installed; stand-ins record the data that '
	'the classifier is trained on and what it predicts, and memorize the '
	'training data. Features and targets from an independent featurization on '
	'plain dictionaries; trees after applying the classifier compared with the '
	'predictions node by node, and with the original except for the tags; '
	'experiments: result files compared with the recorded predictions.',
	'The quality of the real classifier and its parameters.'),
C43=('All criteria evaluated on the blueprint that the tree was built from; '
	'the maximum must be the reported level; repeated with decorated labels, '
	'reversed children, and after the export format.',
	'Verbs or clauses with the function of a provisional subject.'),
C44=('Tokens are known by construction; arbitrary strings must keep their '
	'characters. Files are written and compressed by other tools and read in '
	'full, line by line, and in part under a watchdog; truncated files and '
	'files with a bad header must raise errors; model sets and counts.',
	'lz4 (not installed); compressed files used without a with-statement; '
	'a comma or quote after a single character, or not followed by space.'),
C45=('Unconstrained results, filtered by the spans of the postprocessed '
	'trees, are the reference for unpruned stages (and for stages whose pruning '
	'does not use the constraints); other stages must satisfy the constraints. '
	'Augmented parsers are compared with parsers trained on all trees: '
	'fragment frequencies, trees and probabilities.',
	'Augmenting with head rules (heads are to be assigned by the caller), '
	'unknown word models (documented FIXME), split 2DOP (idem), estimators '
	'other than RFE and the shortest derivation objective (KeyError after '
	'augmenting: these weights are documented as not updated). DOP grammars '
	'also get the complete new trees as fragments, so that their '
	'probabilities are not compared. Numbers of gold items of pruned stages.'),
)


def plan(path):
	for node in ast.parse(open(path).read()).body:
		if isinstance(node, ast.Assign) and node.targets[0].id == 'PLAN':
			return {a.arg: ast.literal_eval(a.value)
					for a in node.value.keywords
					if a.arg in ('mods', 'rule', 'require', 'variant')}


def main():
	props = [json.loads(a) for a in open(VERIF + '/properties.jsonl')]
	out = []
	for p in props:
		pid = p['id']
		path = '%s/checks/%s.py' % (VERIF, pid.lower())
		if not os.path.exists(path):
			continue
		pl = plan(path)
		how, excl = DESIGN[pid]
		seeded = []
		for m in sorted(glob.glob(VERIF + '/seeded/*/meta.json')):
			if json.load(open(m))['property'] == pid:
				seeded.append('`%s`' % m.split('/')[-2])
		out.append('### %s %s\n\n*Monitor and oracle.* %s\n\n*Workload.* %s.\n\n'
				'*Not judged.* %s\n\n*Deciding events required per run '
				'(else inconclusive).* %s\n' % (pid, p['title'], how,
				pl['rule'], excl, ', '.join('%s %d' % a
					for a in pl['require'].items())))
		if pl['mods']:
			out[-1] += '\n*Build.* %s; modules: %s\n' % (
					'ASan + UBSan' if pl.get('variant') == 'san' else 'plain',
					' '.join(pl['mods']))
		if seeded:
			out[-1] += '\n*Planted bugs caught.* %s\n' % ', '.join(seeded)
	text = open(VERIF + '/DESIGN.md').read()
	i, j = text.index(BEGIN) + len(BEGIN), text.index(END)
	with open(VERIF + '/DESIGN.md', 'w') as fp:
		fp.write(text[:i] + '\n' + '\n'.join(out) + '\n' + text[j:])


main()

"""C28: unknown word handling keeps every token and is consistent."""
import os
import re
import sys
import tempfile
from collections import Counter, OrderedDict, defaultdict
from discodop import lexicon as lex
from discodop.grammar import treebankgrammar
from discodop.tree import Tree, escape
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='random tagged corpora of 1-40 sentences with Zipf-like words, '
	'capitalization, numbers, punctuation, brackets, non-ASCII and suffixed '
	'words, split tags, thresholds 0-6 and all signature models; test sentences '
	'with known, rare, capitalized and unseen tokens; nontrivial: training '
	'words replaced and unseen test tokens present; counted by corpus',
	require={'corpora': 500, 'train tokens': 20000, 'test tokens': 20000,
		'replaced in training': 4000, 'numbers': 1000, 'years': 300,
		'lower-cased': 300, 'seen signature': 800, 'default signature': 500,
		'closed class words': 500, 'rare closed class words': 150,
		'no open class threshold': 50, 'collapsed tags': 200,
		'smoothed rules': 3000, 'unknown number': 60, 'rare numbers': 100,
		'words with brackets': 60, 'numbers known by value': 100,
		'externally tagged treetagger': 100, 'externally tagged frog': 100,
		'externally tagged stanford': 80, 'tags overridden': 20,
		'mismatch noticed': 1, 'signatures by definition': 2000},
)
TAGS = ['NN', 'NN-SB', 'NN^NP', 'NN-SB^VP', 'NN-OA/Acc', 'NN_2', 'VB', 'VB^S',
		'VB-HD', 'DT', 'IN', 'CD', 'JJ', '$,', '-NONE-', ':', '$(', 'NE', 'NE^PP']
SUFF = ['ed', 'ing', 'ion', 'er', 'est', 'ly', 'ity', 'y', 'al', 's', 'ss',
		'us', 'ement', 'ité', 'é', 'ux', 'ß', '.', ',', '-', '1', '%', 'ière']
STEMS = ['walk', 'x', 'Abc', 'NATO', 'e-mail', 'été', 'Él', 'I', 'a', 'word',
		'U.S', '日本', 'q', 'to', 'K\u2011', 'and', 'İstanbul', '13', 'mid']


def word(rng):
	r = rng.random()
	if r < 0.1:
		return rng.choice(['%d' % rng.randrange(3), '%d' % rng.randrange(3000),
				'1,%03d' % rng.randrange(1000), '.5', "'68", '%d.%d' % (
				rng.randrange(9), rng.randrange(99)), '19%02d' % rng.randrange(
				100), '2%03d' % rng.randrange(200), '000', '1970', '1,2,3',
				'1.000.000', '12th', '13%', '-4', '1-2', '٣٤', '½', '5,', '1e5'])
	if r < 0.2:
		return rng.choice(g.HOSTILE)
	if r < 0.5:
		w = rng.choice(g.WORDS)
	else:
		w = rng.choice(STEMS) + rng.choice(SUFF)
	r = rng.random()
	return (w.capitalize() if r < 0.15 else w.upper() if r < 0.2
			else w.lower() if r < 0.5 else w)


def gen(rng, ctx):
	vocab = [word(rng) for _ in range(rng.choice([5, 30, 100]))]
	vocab = [w for w in vocab if w]
	tags = rng.sample(TAGS, rng.choice([2, 5, 12, 19]))
	prefer = {w: rng.sample(tags, min(2, len(tags))) for w in vocab}

	def tok():
		w = vocab[min(len(vocab) - 1, int(rng.paretovariate(0.6)) - 1)]
		if rng.random() < 0.1:
			w = rng.choice([w.capitalize(), w.lower(), w.upper()])
		t = rng.choice(prefer.get(w, tags)) if rng.random() < 0.9 else rng.choice(
				tags)
		return w, t
	train = [[tok() for _ in range(rng.choice([1, 2, 5, 9, 20]))]
			for _ in range(rng.choice([1, 3, 12, 40]))]
	test = [[tok()[0] if rng.random() < 0.6 else word(rng)
			for _ in range(rng.choice([1, 3, 8, 20]))] for _ in range(8)]
	return (rng, train, test, rng.choice(sorted(lex.UNKNOWNWORDFUNC)),
			rng.choice([0, 1, 1, 2, 4, 6]), rng.choice([0, 1, 2, 4, 10, 50]))


def isyear(w):
	return len(w) == 4 and w[:2] in ('19', '20') and all(
			c in '0123456789' for c in w)


def isnumber(w):
	digits = '0123456789'
	end = len(w)
	n = end
	while n and w[n - 1] in digits:
		n -= 1
	if n == end:
		return False
	return n == 0 or (w[n - 1] in ",.'" and all(c in digits for c in w[:n - 1]))


def basetag(tag):
	"""Tag without function, morphology, parent annotation, split."""
	if tag in ('-NONE-', ':'):
		return tag
	return re.split(r'[-/^]|_[0-9]', tag)[0]


LOW = set('abcdefghijklmnopqrstuvwxyz' 'çéàìùâêîôûëïüÿœæ')
UP = {{'ÿ': 'Ÿ'}.get(c, c.upper()) for c in LOW}
NOUN = ('ier ière ité ion ison isme ysme iste esse eur euse ence eau erie ng '
	'ette age ade ance ude ogue aphe ate duc anthe archie coque érèse ergie '
	'ogie lithe mètre métrie odie pathie phie phone phore onyme thèque scope '
	'some pole ôme chromie pie').split()
ADJ = ('iste ième uple issime aire esque atoire ale al able ible atif ique if '
	'ive eux aise ent ois oise ante el elle ente oire ain aine').split()
VERB = ('ir er re ez ont ent ant ais ait ra era eras é és ées isse it').split()


def ispunct(c):
	o = ord(c)
	return (o < 128 and c.isprintable() and not c.isalnum() and c != ' '
			or 0xa1 <= o <= 0xbf or 0x2010 <= o <= 0x2027
			or 0x2030 <= o <= 0x205e or 0x20a0 <= o <= 0x20b5)


def signature(model, w, n, known):
	"""Signature by the definitions of the models of the Stanford parser."""
	ends = lambda xs, plural=False: any(w.endswith(x) or plural and w.endswith(
			x + 's') for x in xs)
	digit = any(c.isdecimal() for c in w)
	other = any(not c.isdecimal() for c in w)
	upper = [c for c in w if c in UP]
	lower = any(c in LOW for c in w)
	f = []
	if model == 'ftb':
		if ends(['iment', 'ement', 'emment', 'amment']):
			f.append('ADV')
		elif ends(VERB):
			f.append('VB')
		elif ends(NOUN, True):
			f.append('NN')
		if ends(ADJ, True):
			f.append('ADV')
		if digit:
			f.append('NUM')
		if ends(['s', 'ux']):
			f.append('PL')
		if w and ispunct(w[-1]):
			# NB: whether this requires all characters to be punctuation is
			# left open by the definition; see same()
			f.append('ISPUNC')
		elif any(map(ispunct, w)):
			f.append('HASPUNC')
		if n > 0 and w[:1] and w[0] in UP:
			f.append('UP')
	elif model == '6':
		dash = set(w) & set('-\u2010\u2011')
		l = w.lower()
		if len(upper) > 1:
			f.append('CAPS')
		elif upper and n == 0:
			f.append('INITC' + '-KNOWNLC' * (l in known))
		elif upper:
			f.append('CAP')
		elif lower:
			f.append('LC')
		if digit:
			f.append('NUM')
		if dash:
			f.append('DASH')
		if l[-1:] == 's' and len(w) >= 3:
			if l[-2] not in 'siu':
				f.append('s')
		elif len(w) >= 5 and not dash and not (digit and upper):
			f.extend([x for x in ('ed', 'ing', 'ion', 'er', 'est', 'ly', 'ity',
					'y', 'al') if l.endswith(x)][:1])
	else:
		if model == 'base':
			f.append('C' if w[0] in UP else 'c')
		elif w[0] in UP:
			f.append('AC' if not lower else 'C' if n else 'SC')
		else:
			f.append('L' if lower else 'U' if upper else 'S')
		if digit:
			f.append('n' if other else 'N')
		if '-' in w:
			f.append('H')
		if w == '.' or model == '4' and '.' in w:
			f.append('P')
		if w == ',' or model == '4' and ',' in w:
			f.append('C')
		if len(w) > 3 and w[-1] in LOW | UP:
			f.append(w[-2:].lower())
	return '-'.join(['_UNK'] + f)


def same(model, w, sig, want):
	"""Compare signatures, leaving open whether x% is ISPUNC or HASPUNC."""
	if model == 'ftb' and w and ispunct(w[-1]) and not all(map(ispunct, w)):
		return sig in (want, want.replace('ISPUNC', 'HASPUNC'))
	return sig == want


def check(case, ctx):
	rng, train, test, model, threshold, openclass = case
	func = lex.UNKNOWNWORDFUNC[model]
	ctx.ev('corpora')
	desc = (model, threshold, openclass, train)
	calls = []

	def monitored(w, n, known):
		res = func(w, n, known)
		ctx.ok(isinstance(res, str) and res.startswith('_UNK')
				and not re.search(r'\s', res), 'not a signature', '%r %r', w, res)
		ctx.eq(func(w, n, known), res, 'signature is not a function', w)
		ctx.ev('signatures by definition')
		want = signature(model, w, n, known)
		ctx.ok(same(model, w, res, want), 'signature is not the one defined',
				'%r got: %r want: %r', (model, w, n), res, want)
		calls.append((w, n, res))
		return res
	before = repr(train)
	lexmodel, msg = lex.getunknownwordmodel(
			train, monitored, threshold, openclass)
	sigs, words, lexicon, closed, tags, wordtags = lexmodel
	# statistics
	freq = Counter(w for s in train for w, _ in s)
	ctx.eq(dict(words), dict(freq), 'counts of words', desc)
	ctx.eq(dict(tags), dict(Counter(t for s in train for _, t in s)),
			'counts of tags', desc)
	ctx.eq(dict(wordtags), dict(Counter(x for s in train for x in s)),
			'counts of words with tags', desc)
	wantclosed = set()
	if openclass:
		fortag, base = defaultdict(set), defaultdict(set)
		for s in train:
			for w, t in s:
				fortag[t].add(w)
				base[basetag(t)].add(w.lower())
		ctx.ev('collapsed tags', len(base) < len(fortag))
		for t in fortag:
			if len(base[basetag(t)]) < openclass:
				wantclosed |= fortag[t]
	else:
		ctx.ev('no open class threshold')
	ctx.eq(set(closed), wantclosed, 'closed class words', desc)
	common = {w for w, n in freq.items() if n > threshold}
	ctx.eq(set(lexicon), common | wantclosed, 'words in lexicon', desc)
	ctx.ev('closed class words', len(wantclosed))
	ctx.ev('rare closed class words', len(wantclosed - common))
	# training
	new = lex.replaceraretrainwords(train, monitored, lexicon)
	ctx.eq(repr(train), before, 'training corpus modified')
	ctx.eq([len(s) for s in new], [len(s) for s in train],
			'number of training tokens', desc)
	wantsigs = Counter()
	for old, repl in zip(train, new):
		for n, ((w, _), x) in enumerate(zip(old, repl)):
			ctx.ev('train tokens')
			ctx.ev('replaced in training', w != x)
			ctx.ev('words with brackets', '(' in w or ')' in w)
			if isyear(w):
				ctx.ev('years')
				want = '1970'
			elif isnumber(w):
				ctx.ev('numbers')
				ctx.ev('rare numbers', w not in lexicon)
				want = '000'
			elif w in lexicon:
				want = w
			else:
				want = func(w, n, lexicon)
				wantsigs[want] += 1
			ctx.eq(x, want, 'training token', (w, n, desc))
	ctx.eq({a: b for a, b in sigs.items() if a.startswith('_UNK') and b},
			dict(wantsigs), 'counts of signatures', desc)
	# grammar
	trees = [Tree('S', [Tree(t, [n]) for n, (_, t) in enumerate(s)])
			for s in train]
	plain = dict(treebankgrammar(trees, new))
	extra = lex.simplesmoothlexicon(lexmodel)
	ctx.ev('smoothed rules', len(extra))
	smoothed = dict(treebankgrammar(trees, new, extrarules=extra))
	for r in plain:
		ctx.ok(r in smoothed and smoothed[r] >= plain[r],
				'rule lost in smoothing', '%r %r %r', r, smoothed.get(r), desc)
	for r in smoothed:
		ctx.ok(smoothed[r] > 0, 'weight of rule', '%r %r', r, smoothed[r])
		if r not in plain:
			ctx.eq((len(r[0]), r[0][1], len(r[1])), (2, 'Epsilon', 1),
					'smoothing adds something else', (r, desc))
			ctx.ok(r[0][0] in tags, 'smoothing adds unknown tag', '%r %r', r, desc)
	known = {r[1][0] for r in smoothed if r[0][1:] == ('Epsilon', )}
	fortoken = defaultdict(set)
	for r in smoothed:
		if r[0][1:] == ('Epsilon', ):
			fortoken[r[1][0]].add(r[0][0])
	for w, t in wordtags:
		if not isnumber(w):
			ctx.ok(t in fortoken[escape(w)], 'known tag of word lost',
					'%r %r %r', w, t, desc)
	ctx.eq(fortoken['_UNK'] >= set(tags), True, 'tags of unknown words', desc)
	# testing
	nontrivial = False
	for known1, which in ((words, 'all words'), (lexicon, 'lexicon')):
		for sent in test:
			res = list(lex.replaceraretestwords(
					sent, monitored, known1, sigs))
			ctx.eq(len(res), len(sent), 'number of test tokens', (sent, res))
			for n, (w, x) in enumerate(zip(sent, res)):
				ctx.ev('test tokens')
				info = (w, n, x, which, desc)
				ctx.ok(escape(x) in known, 'token not known to model', '%r %r', x,
						info)
				if isyear(w) or isnumber(w):
					cls = ['1970'] * isyear(w) + ['000']
					seen = [c for c in cls if c in known and any(
							c == z for s in new for z in s)]
					ctx.ev('unknown number', not seen)
					ctx.ev('numbers known by value', w in words)
					if seen:
						ctx.eq(x, seen[0], 'number class', info)
					elif x != w:
						ctx.ok(x.startswith('_UNK'), 'unknown number', '%r', info)
				elif w in known1:
					ctx.eq(x, w, 'known word replaced', info)
				elif w.lower() in known1:
					ctx.ev('lower-cased')
					ctx.eq(x, w.lower(), 'word known in lower case', info)
				else:
					nontrivial = True
					sig = func(w, n, known1)
					want = signature(model, w, n, known1)
					ctx.ok(same(model, w, sig, want),
							'signature is not the one defined',
							'%r got: %r want: %r', (model, w, n), sig, want)
					ctx.ev('kind ' + '-'.join(sig.split('-')[1:3]))
					if sig in wantsigs:
						ctx.ev('seen signature')
						ctx.eq(x, sig, 'signature', info)
					else:
						ctx.ev('default signature')
						ctx.eq(x, '_UNK', 'default signature', info)
				if w in known1 and w in lexicon:
					again = lex.replaceraretrainwords([[('', '')] * n + [(w, 'X')]],
							lambda *x: '_UNK', lexicon)[0][-1]
					ctx.eq(x, again, 'training and test disagree', info)
	if nontrivial and sum(wantsigs.values()):
		ctx.nontrivial(desc)
		ctx.sample((model, threshold, openclass, train[0], new[0]))


TAGGER = """#!%s
# stand-in for an external tagger: tags depend on the word and its position
import sys
sys.path.insert(0, %%r)
import standin
standin.main(%%r, sys.argv[1:])
""" % sys.executable
STANDIN = """
import sys

def tag(word, n):
	if (len(word) + n) % 5 == 0:
		return ['$(', 'PAV', 'PIS'][(len(word) + n) % 3]
	return 'T%d' % (len(word) % 10)

def main(kind, argv):
	open('argv', 'w').write(' '.join(argv))
	if kind == 'filter':
		for line in sys.stdin.buffer:
			sys.stdout.buffer.write(line)
		return
	if kind == 'frog':
		data = sys.stdin.buffer.read()
	elif kind == 'treetagger':
		data = open(argv[3], 'rb').read()
	else:
		data = open(argv[argv.index('-textFile') + 1], 'rb').read()
	data = data.decode('utf-8')
	out = []
	if kind == 'treetagger':
		for sent in data.split('\\n<S>\\n')[:-1]:
			out.extend('%s\\t%s' % (w, tag(w, n))
					for n, w in enumerate(sent.split('\\n')))
			out.append('<S>')
	else:
		for sent in data.splitlines():
			x = [(w, tag(w, n)) for n, w in enumerate(sent.split(' '))]
			if kind == 'frog':
				out.extend('%d\\t%s\\t%s\\t%s\\t0.9' % (n, w, w.lower(), t)
						for n, (w, t) in enumerate(x, 1))
				out.append('')
			else:
				out.append(' '.join('%s_%s' % a for a in x))
	sys.stdout.buffer.write(('\\n'.join(out) + '\\n').encode('utf-8'))
"""


def gentagger(rng, ctx):
	ws = [w for w in g.WORDS + g.HOSTILE + STEMS
			if w and w.split() == [w] and len(w.splitlines()) == 1]
	sents = OrderedDict((n, [(rng.choice(ws), rng.choice(TAGS))
			for _ in range(rng.choice([1, 2, 5, 12]))])
			for n in rng.sample(range(100), rng.choice([1, 3, 8])))
	override = {'PTKANT': set(rng.sample(ws, 8)), 'PIDAT': set(
			rng.sample(ws, rng.randrange(4)))}
	return (rng.choice(['treetagger', 'stanford', 'frog']),
			rng.choice(['', 'models/x.par']), sents, override,
			rng.choice([{'$(': '$[', 'PAV': 'PROAV'}, {}]), rng.random() < 0.15)


def checktagger(case, ctx):
	"""Run external taggers through stand-ins with the same interface."""
	kind, model, sents, override, tagmap, broken = case
	cwd, path, popen = os.getcwd(), os.environ['PATH'], lex.Popen
	cmds = []

	def standin(args, **kw):
		"""Replace the path of the java executable; leave the rest."""
		if not isinstance(args, str) and args[0].endswith('java'):
			cmds.append(args)
			args = [os.path.join(tmp, 'java')] + args[1:]
		return popen(args=args, **kw)

	with tempfile.TemporaryDirectory() as tmp:
		for a, k in [('tree-tagger/bin/tree-tagger', 'treetagger'),
				('tree-tagger/cmd/filter-german-tags', 'filter'),
				('stanford-postagger-full-2012-07-09/x', ''),
				('java', 'stanford'), ('frog', 'frog')]:
			fn = os.path.join(tmp, a)
			os.makedirs(os.path.dirname(fn), exist_ok=True)
			with open(fn, 'w', encoding='utf8') as out:
				out.write(TAGGER % (tmp, k))
			os.chmod(fn, 0o755)
		with open(os.path.join(tmp, 'standin.py'), 'w') as out:
			out.write(STANDIN)
		ns = {}
		exec(STANDIN, ns)
		if broken:  # tagger that changes the number of tokens
			with open(os.path.join(tmp, 'standin.py'), 'a') as out:
				out.write('\n_main = main\ndef main(kind, argv):\n'
						'\tif kind == "filter":\n'
						'\t\treturn _main(kind, argv)\n'
						'\tprint({"treetagger": "a\\tX\\n<S>", '
						'"stanford": "a_X", "frog": "1\\ta\\ta\\tX\\t1\\n"'
						'}[kind])\n')
		before = repr(sents)
		os.environ['PATH'] = tmp + ':' + path
		os.environ['TMPDIR'] = tmp
		tempfile.tempdir = None
		lex.Popen = standin
		os.chdir(tmp)
		left = set(os.listdir(tmp))
		try:
			res = lex.externaltagging(kind, model, sents, override, tagmap)
		except ValueError as err:
			if not broken:
				raise
			ctx.ok('mismatch' in str(err), 'error for tagger', '%r', err)
			ctx.ev('mismatch noticed')
			return
		finally:
			os.chdir(cwd)
			os.environ['PATH'] = path
			del os.environ['TMPDIR']
			tempfile.tempdir = None
			lex.Popen = popen
		ctx.eq(sorted(set(os.listdir(tmp)) - left - {'__pycache__', 'argv'}),
				[], 'temporary files left behind')
	if broken:
		ctx.ok(len(sents) == 1 and [len(a) for a in sents.values()] == [1],
				'mismatch in tokens not noticed', '%r', case)
		return
	ctx.eq(repr(sents), before, 'sentences changed')
	ctx.eq(list(res), list(sents), 'sentences after tagging')
	for n, sent in sents.items():
		want = []
		for m, (w, _) in enumerate(sent):
			t = ns['tag'](w, m)
			if kind == 'frog':
				t = t.replace('(', '[')
			else:
				for a in override:
					if w in override[a]:
						t = a
						ctx.ev('tags overridden')
				t = tagmap.get(t, t)
			want.append((w, t))
			ctx.ev('externally tagged ' + kind)
		ctx.eq(res[n], want, 'tags of external tagger', (kind, model))
	if len(sents) > 1:
		ctx.nontrivial((kind, model, repr(sents)))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'tagger': (gentagger, checktagger, 60 * k), 'corpora': (gen, check, 1500 * k)}

"""C41: experiments use the selected sentences and report their true scores."""
import contextlib
import csv
import gzip
import io
import logging
import os
import re
import shutil
from collections import Counter
from fractions import Fraction
from discodop import parser, runexp
from discodop.tree import ParentedTree
from discodop.treebank import READERS, EXPORTHEADER, writetree
from checks import c27, c32
import g
import xmlw

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random treebanks in six corpus formats, spread over one or more '
	'files, and parameter files with random selections of training and test '
	'sentences (number or fraction, skipped sentences, maximum length, test '
	'set following the training set) and evaluation parameters; the lexicon '
	'and labels of the grammar, the log, the gold standard file, the parse '
	'trees and the statistics are compared with what follows from the '
	'selected sentences and an independent evaluation; nontrivial: a '
	'selection that leaves out sentences; counted by parameters and corpora',
	require={'experiments': 450, 'test sentences': 2000,
		'lexicon entries': 4000, 'lexical probabilities': 3000, 'scores': 500,
		'left out of training': 1000, 'left out of test': 1000,
		'skiptrain': 130, 'skip training': 80, 'fractions': 180,
		'too long': 180, 'xml corpora': 150, 'several files': 100,
		'empty selections': 100, 'refused directories': 120, 'reruns': 60,
		'worker processes': 30, 'option functions': 40,
		'option removeempty': 20, 'option ensureroot': 20, 'option punct': 50, 'imperfect scores': 200},
)
ROOT = dict(export='ROOT', bracket='ROOT', discbracket='ROOT', alpino='TOP',
		tiger='VROOT', ftb='SENT')


class Errors(logging.Filter):
	def __init__(self):
		logging.Filter.__init__(self)
		self.msgs = []

	def filter(self, record):
		if record.levelno >= logging.ERROR:
			self.msgs.append(record.getMessage())
		return True


@contextlib.contextmanager
def logged():
	"""Start without logging configuration; collect errors, restore."""
	root = logging.getLogger('')
	old, level = root.handlers[:], root.level
	root.handlers[:] = []
	errors = Errors()
	root.addFilter(errors)
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
			yield errors
	finally:
		for x in root.handlers:
			x.close()
		root.removeFilter(errors)
		root.handlers[:] = old
		root.setLevel(level)


def stages(rng, disc):
	kind = rng.choice(['pcfg', 'plcfrs', 'ctf', 'dop'])
	pcfg = dict(name='pcfg', mode='pcfg')
	if disc:
		pcfg.update(split=True, markorigin=rng.random() < 0.5)
	plcfrs = dict(name='plcfrs', mode='plcfrs')
	if kind == 'pcfg':
		return [pcfg]
	elif kind == 'plcfrs':
		return [plcfrs]
	elif kind == 'ctf':
		return [pcfg, dict(plcfrs, prune='pcfg', k=rng.choice([0, 50, 1000]))]
	return [plcfrs, dict(name='dop', mode='plcfrs', prune='plcfrs', k=50,
			dop=rng.choice(['doubledop', 'reduction']), m=100, objective='mpp')]


def corpus(rng, fmt, n, words, disc, labels, tags):
	trees, sents = g.randtreebank(rng, n, maxlen=rng.choice([4, 7]),
			disc=disc, maxar=4, words=words, labels=labels, tags=tags)
	case = upper if fmt == 'alpino' else (lambda m: m)
	return [(case((ROOT[fmt], m[1])), list(s)) for m, s in zip(trees, sents)]


def upper(m):
	if not isinstance(m, tuple):
		return m
	return (m[0].lower() if g.preterminal(m) else m[0].upper(),
			tuple(upper(c) for c in m[1]))


def decorate(rng, m, sent, funcs, empty):
	"""Add function tags, empty elements."""
	def rec(m, root=False):
		if not isinstance(m, tuple):
			return m
		lab = m[0]
		if funcs and not root and rng.random() < 0.4:
			lab += rng.choice(['-SBJ', '-LOC-PRD', '=2', '-1'])
		ch = [rec(c) for c in m[1]]
		if empty and not g.preterminal(m) and rng.random() < 0.2:
			x = ('-NONE-', (None, ))
			if rng.random() < 0.5:
				x = (rng.choice(c27.LABELS), (x, ))
			ch.insert(rng.randint(0, len(ch)), x)
		return lab, tuple(ch)
	m = rec(m, True)
	new = []

	def number(m):
		if m[1] == (None, ):
			new.append(rng.choice(['*T*-1', '0', '*']))
		elif g.preterminal(m):
			new.append(sent[m[1][0]])
		else:
			return (m[0], tuple(number(c) for c in m[1]))
		return (m[0], (len(new) - 1, ))
	return (number(m), new) if empty else (m, sent)


def process(m, sent, prm):
	"""What a reader makes of a tree."""
	if prm.get('removeempty'):
		new = []

		def rec(m):
			if not g.preterminal(m):
				ch = tuple(x for x in map(rec, m[1]) if x)
				return (m[0], ch) if ch else None
			elif m[0] == '-NONE-':
				return None
			new.append(sent[m[1][0]])
			return (m[0], (len(new) - 1, ))
		m, sent = rec(m), new
	if prm.get('functions') == 'remove':
		def strip(m):
			if not isinstance(m, tuple):
				return m
			return (re.split('(?<=.)[-=]', m[0])[0], tuple(map(strip, m[1])))
		m = strip(m)
	root = prm.get('ensureroot')
	if root and m[0] != root:
		m = (root, (m, ))
	return m, sent


def gen(rng, ctx):
	fmt = rng.choice(['export', 'export', 'bracket', 'bracket', 'discbracket',
			'alpino', 'tiger', 'ftb'])
	disc = 0 if fmt in ('bracket', 'ftb') else rng.choice([0, 0.5])
	words = rng.sample(g.WORDS, rng.choice([3, 6]))
	labels = rng.sample(c27.LABELS, 3)
	tags = rng.sample(c27.TAGS, 3)
	one = rng.random() < 0.5  # same file
	a = corpus(rng, fmt, rng.randint(3, 9), words, disc, labels, tags)
	b = a if one else corpus(rng, fmt, rng.randint(1, 7), words + ['new'],
			disc, labels, tags)

	def select(n):
		x = dict(numsents=rng.choice([rng.randint(1, n), rng.randint(1, n), n,
				n + 3]), maxwords=rng.choice([40, 40, 6, 3]))
		if rng.random() < 0.3:
			x['skip'] = rng.choice([0, 1, 2])
		if rng.random() < 0.25:
			x['numsents'] = rng.choice([0.3, 0.5, 0.75, 0.99])
		return x
	train, test = select(len(a)), select(len(b))
	test['skiptrain'] = one and rng.random() < 0.6
	if test['skiptrain'] and rng.random() < 0.7:
		train['numsents'] = rng.randint(1, len(a) - 1)
	prm = {}
	if fmt in ('bracket', 'discbracket', 'export'):
		funcs = rng.random() < 0.2
		empty = fmt == 'bracket' and rng.random() < 0.3
		a = [decorate(rng, *x, funcs, empty) for x in a]
		b = a if one else [decorate(rng, *x, funcs, empty) for x in b]
		if funcs and rng.random() < 0.7:
			prm['functions'] = 'remove'
		if empty:
			prm['removeempty'] = True
		if fmt != 'export' and rng.random() < 0.2:
			prm['ensureroot'] = 'TOP'
			a = [(m if rng.random() < 0.5 else ('TOP', m[1]), s) for m, s in a]
			b = a if one else b
	if fmt != 'bracket' and rng.random() < 0.2:
		# may introduce discontinuity
		prm['punct'] = rng.choice(['move', 'root'])
	return rng, fmt, one, a, b, train, test, stages(rng, disc or (
			'punct' in prm)), prm


def write(rng, fmt, items, d, prefix):
	"""Write corpus to one or more files; returns (path, [block, ...])."""
	os.makedirs(d)
	nfiles = 1 if fmt == 'alpino' else rng.choice([1, 1, 1, 2])
	cuts = sorted(rng.sample(range(len(items) + 1), nfiles - 1))
	cuts = [0] + cuts + [len(items)]
	comp = rng.choice(['', '', '.gz']) if fmt != 'alpino' else ''
	keys = []
	for k in range(nfiles):
		text = EXPORTHEADER if fmt == 'export' and rng.random() < 0.5 else ''
		for n in range(cuts[k], cuts[k + 1]):
			m, s = items[n]
			if fmt == 'alpino':
				with open('%s/%d.xml' % (d, n + 1), 'w', encoding='utf8') as f:
					f.write(xmlw.alpino(rng, m, s)[0])
				keys.append('%s/%d' % (d, n + 1))
			elif fmt == 'tiger':
				keys.append('%s%d' % (prefix, n + 1))
				text += xmlw.tiger(rng, m, s, keys[-1])[0]
			elif fmt == 'ftb':
				keys.append('%d%s-%d' % (k, '.xml' if comp else '', n + 1))
				text += xmlw.ftb(rng, m, s, str(n + 1))[0]
			else:
				keys.append(str(n + 1))
				text += writetree(g.totree(m, ParentedTree), s, keys[-1], fmt)
		if fmt == 'alpino':
			break
		head = dict(tiger=('<corpus id="x"><head><meta /></head><body>\n',
				'</body></corpus>\n'), ftb=('<text>\n', '</text>\n')).get(
				fmt, ('', ''))
		with (gzip.open if comp else open)('%s/%d.xml%s' % (d, k, comp), 'wt',
				encoding='utf8') as f:
			f.write(head[0] + text + head[1])
	return '%s/*.xml%s' % (d, comp), keys, nfiles


def chosen(n, items, sel, skip):
	num = sel['numsents']
	if isinstance(num, float):
		num = int(num * n)
	every = list(enumerate(items))[skip:skip + num]
	return num, [(i, m, s) for i, (m, s) in every if len(s) <= sel['maxwords']]


def check(case, ctx):
	rng, fmt, one, a, b, train, test, stgs, opts = case
	for name in os.listdir('.'):
		shutil.rmtree(name) if os.path.isdir(name) else os.unlink(name)
	apath, akeys, nfiles = write(rng, fmt, a, 'tr', 'a')
	bpath, bkeys = apath, akeys
	if not one:
		bpath, bkeys, _ = write(rng, fmt, b, 'te', 'b')
	p = c32.genparam(rng)
	p['dep'] = p['funcs'] = False
	p['cutoff'] = 40
	c32.writeparam(p, 'eval.prm', rng)
	prm = dict(stages=stgs, corpusfmt=fmt, verbosity=rng.choice([0, 1, 2]),
			numproc=1, evalparam='eval.prm', binarization=dict(
			method='default', h=rng.choice([1, 2, 99]), v=1),
			traincorpus=dict(train, path=apath), testcorpus=dict(test,
				path=bpath))
	prm.update(opts)
	if rng.random() < 0.2:
		prm['postagging'] = dict(method='unknownword', model='4',
				unknownthreshold=1, openclassthreshold=0)
	with open('x.prm', 'w', encoding='utf8') as f:
		f.write(',\n'.join('%s=%r' % x for x in prm.items()))
	desc = (prm, a, b)
	# what should be selected
	orig = b
	a, b = [[process(m, s, prm) for m, s in x] for x in (a, b)]
	num, seltrain = chosen(len(a), a, train, train.get('skip', 0))
	skip = test.get('skip', 0)
	if test['skiptrain']:
		skip += train.get('skip', 0) + num
	_, seltest = chosen(len(b), b, test, skip)
	params = parser.readparam('x.prm')
	if rng.random() < 0.15:
		os.mkdir('x')
		with open('x/keep', 'w') as f:
			f.write('me')
		refused(ctx, params, False, 'existing directory', desc)
		ctx.eq(os.listdir('x'), ['keep'], 'existing directory', desc)
		shutil.rmtree('x')
		params = parser.readparam('x.prm')
	elif rng.random() < 0.1:
		refused(ctx, params, True, 'rerun without directory', desc)
		params = parser.readparam('x.prm')
	if not seltrain or not seltest:
		ctx.ev('empty selections')
		refused(ctx, params, False, 'empty selection', desc)
		return
	with logged() as log:
		top = runexp.startexp(params, resultdir='x')
	ctx.eq(log.msgs, [], 'errors logged', desc)
	ctx.ev('experiments')
	ctx.ev('left out of training', len(a) - len(seltrain))
	ctx.ev('left out of test', len(b) - len(seltest))
	ctx.ev('skiptrain', test['skiptrain'])
	ctx.ev('skip training', train.get('skip', 0) > 0)
	ctx.ev('fractions', isinstance(train['numsents'], float)
			or isinstance(test['numsents'], float))
	ctx.ev('too long', any(len(s) > test['maxwords'] for _, s in b)
			or any(len(s) > train['maxwords'] for _, s in a))
	ctx.ev('xml corpora', fmt in ('alpino', 'tiger', 'ftb'))
	ctx.ev('several files', nfiles > 1)
	if len(seltrain) < len(a):
		ctx.nontrivial(desc)
		ctx.sample(desc)
	ctx.eq(top, prm.get('ensureroot', ROOT[fmt]), 'root', desc)
	for x in opts:
		ctx.ev('option ' + x)
	training(ctx, prm, [x[1:] for x in seltrain], desc)
	report(ctx, fmt, prm, p, seltest, orig, bkeys, desc)
	if rng.random() < 0.15 and not isinstance(train['numsents'], float):
		before = c27.output(params, 'x') if fmt in c27.EXT else None
		with open('x/params.prm', 'w') as f:
			f.write(open('x.prm').read())
		os.unlink('x/output.log')
		params = parser.readparam('x.prm')
		params.numproc = rng.choice([1, 2])
		ctx.ev('reruns')
		ctx.ev('worker processes', params.numproc > 1)
		with logged() as log:
			runexp.startexp(params, resultdir='x', rerun=True)
		ctx.eq(log.msgs, [], 'errors logged', desc)
		report(ctx, fmt, prm, p, seltest, orig, bkeys, desc)
		if before:
			ctx.eq(c27.output(params, 'x'), before, 'rerun', desc)


def refused(ctx, params, rerun, what, desc):
	ctx.ev('refused directories', what != 'empty selection')
	try:
		with logged():
			runexp.startexp(params, resultdir='x', rerun=rerun)
	except ValueError:
		return
	ctx.fail('not refused: ' + what, '%r', desc)


def training(ctx, prm, items, desc):
	"""Grammar has exactly the words, tags and labels of training sentences."""
	stgs, unknown = prm['stages'], 'postagging' in prm
	pos, labels = Counter(), Counter()
	for m, s in items:
		for x in g.nodes(m):
			if g.preterminal(x):
				pos[x[0], s[x[1][0]]] += 1
				labels[x[0]] += 1
			else:
				labels[x[0]] += 1
	for stage in stgs:
		with gzip.open('x/%s.lex.gz' % stage['name'], 'rt',
				encoding='utf8') as f:
			text = f.read()
		got = {}
		for line in text.splitlines():
			word, *rest = line.split('\t')
			for x in rest:
				tag, w = x.rsplit(' ', 1)
				got[tag, word] = w
		words = {w for _, w in pos}
		if unknown:
			ctx.ok({w for _, w in got if not w.startswith('_UNK')} <= words,
					'words not in training set', '%r %r', got, desc)
			continue
		base = {(re.split('@', t)[0], w) for t, w in got}
		ctx.ev('lexicon entries', len(got))
		ctx.eq({w for _, w in got}, words, 'words of grammar', desc)
		if not stage.get('dop'):
			ctx.eq(base, set(pos), 'lexicon', desc)
			total = Counter()
			for (t, w), x in got.items():
				total[t] += Fraction(x)
			for (t, w), x in got.items():
				ctx.ev('lexical probabilities')
				ctx.ok(abs(Fraction(x) / total[t] - Fraction(pos[re.split(
						'@', t)[0], w], labels[re.split('@', t)[0]])) < 1e-9,
						'lexical probability', '%r %r %r', (t, w), x, desc)
	if not stgs[0].get('split') and 'punct' not in prm:
		with gzip.open('x/%s.rules.gz' % stgs[0]['name'], 'rt',
				encoding='utf8') as f:
			got = {re.split('[|_]', x)[0] for line in f
					for x in line.split('\t')[:-2]}
		ctx.eq({re.split('[|_]', x)[0] for x in got}, set(labels),
				'labels of grammar', desc)


def report(ctx, fmt, prm, p, seltest, orig, keys, desc):
	"""Files and log of the experiment."""
	native = fmt in c27.EXT
	outfmt = fmt if native else 'export'
	ext = c27.EXT[outfmt]
	wanted = [keys[i] for i, _, _ in seltest]

	def read(name):
		reader = READERS[outfmt]('x/%s.%s' % (name, ext))
		return list(reader.itertrees())
	gold = read('gold')
	ctx.eq([(g.tomodel(x.tree)[1], x.sent) for _, x in gold],
			[(orig[i][0][1], orig[i][1]) for i, _, _ in seltest],
			'gold standard', desc)
	if outfmt == 'export':
		ctx.eq([k for k, _ in gold], wanted, 'keys of gold standard', desc)
	with open('x/output.log', encoding='utf8') as f:
		out = f.read()
	with open('x/stats.tsv', encoding='utf8') as f:
		stats = [dict(x) for x in csv.DictReader(f, dialect='excel-tab')]
	ctx.eq([(x['sentid'], x['len'], x['stage']) for x in stats], [(k,
			str(len(s)), y['name']) for k, (_, _, s) in zip(wanted, seltest)
			for y in prm['stages']], 'statistics', desc)
	for stage in prm['stages']:
		name = stage['name']
		res = read(name)
		d = (name, out[-1500:], desc)
		ctx.eq(len(res), len(seltest), 'number of parse trees', d)
		if outfmt == 'export':
			ctx.eq([k for k, _ in res], wanted, 'keys of parse trees', d)
		pairs = []
		for (_, x), (_, m, s) in zip(res, seltest):
			ctx.ev('test sentences')
			ctx.eq(x.sent, s, 'words of parse tree', d)
			pairs.append(c32.Pair(c32.frommodel(m), s, c32.frommodel((m[0],
					g.tomodel(x.tree)[1])), s, p))
		if prm['verbosity'] == 0:
			continue  # no results in log
		parts = re.split('=+ %s =+\n' % name.upper(), out)
		ctx.eq(len(parts), 2, 'summary in log', d)
		text, rest = parts[1].split('coverage:', 1)
		total = c32.checksummary(ctx, text, pairs, p, d)
		ctx.ev('scores')
		ctx.ev('imperfect scores', total['labeled f-measure'] not in (None, 1))
		x, y, z = re.match(r' *(\d+) / (\d+) = *([0-9.]+)', rest).groups()
		ctx.eq(int(y), len(seltest), 'number of sentences in coverage', d)
		ctx.ok(abs(float(z) - 100 * int(x) / int(y)) < 0.006, 'coverage',
				'%r', d)
		noparse = sum(any(n[0] == 'NOPARSE' for n in g.nodes(g.tomodel(i.tree)))
				for _, i in res)
		ctx.ok(int(x) <= len(seltest) - (noparse if native else 0),
				'coverage too high', '%r', d)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'experiment': (gen, check, 1500 * k)}

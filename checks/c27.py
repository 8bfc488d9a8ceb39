"""C27: parsing pipeline."""
import contextlib
import csv
import gzip
import io
import logging
import math
import os
import random
import re
import shutil
import subprocess
import sys
import numpy as np
from discodop import cli as maincli
from discodop import parser, runexp, treebank, lexicon
from discodop.tree import Tree, ParentedTree
from discodop.treebank import READERS, EXPORTHEADER, writetree
import g
import lc

REPO = os.environ.get('VF_REPO', '/repo')
PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random treebanks and parameter files (binarization, coarse-to-fine '
	'stages, DOP models, unknown-word models, transformations); grammars '
	'extracted with runexp and read back; sentences with known, rare and '
	'unknown words, with and without given tags, parsed in random order; each '
	'result judged against the input, the labels of the treebank, a reference '
	'recognizer on the grammar file, and the results of other runs (order, '
	'worker processes, reloaded grammars, command line); nontrivial: sentence '
	'not in training data; counted by parameters and sentence',
	require={'simple --bt': 20, 'pipelines': 200, 'sentences': 1000, 'labels checked': 7000,
		'parsable': 300, 'not parsable': 180, 'partial parses': 350,
		'given tags': 700, 'tagged sentences': 400, 'stage results': 2000,
		'fallbacks': 700, 'fallback to earlier stage': 300, 'repeated': 2000,
		'cli': 35, 'separate extraction': 50, 'cli probabilities': 30, 'cli experiment': 100,
		'experiment parses': 1600, 'oracle evaluations': 50000},
)
WORDS = ['the', 'cat', 'sat', 'on', 'mat', 'a', 'dog', 'saw', 'red', 'Big']
HOSTILE = ['(', ')', '-LRB-', 'a=b', '1/2', '0', '5=x', '*', '|', '@',
		'1984', '3.14', 'Ünïcode', '``', ':', '[', '{', '_', '$', '+', '<x>',
		'NP', 'Epsilon', '\\', '%', 'ROOT', 'a_b', "'", '"', '^', 'x-y', 'x*1',
		'İ', 'ß', '123,456', 'and/or', 'UNK', '7', '-']
LABELS = ['NP', 'VP', 'PP', 'S', 'AP', 'CNP']
TAGS = ['NN', 'DT', 'VB', 'IN', 'JJ', '$,', 'NE']


class Errors(logging.Handler):
	def __init__(self):
		logging.Handler.__init__(self, logging.ERROR)
		self.msgs = []

	def emit(self, record):
		self.msgs.append(record.getMessage())


@contextlib.contextmanager
def quiet():
	"""Restore logging configuration; collect errors that are logged."""
	root = logging.getLogger('')
	old, level = root.handlers[:], root.level
	h = Errors()
	root.handlers[:] = [h]
	out = io.StringIO()
	try:
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
			yield h
	finally:
		for x in root.handlers:
			if x not in old and x is not h:
				x.close()
		root.handlers[:] = old
		root.setLevel(level)


def randbinarization(rng):
	b = dict(method=rng.choice(['default'] * 4 + ['optimal', 'optimalhead']),
			factor=rng.choice(['right', 'right', 'left']),
			v=rng.choice([1, 1, 2, 3]), h=rng.choice([0, 1, 1, 2, 99]))
	if rng.random() < 0.4:
		b['headrules'] = os.path.join(REPO, rng.choice(['negra.headrules',
				'ptb.headrules']))
		b['markhead'] = rng.random() < 0.4
		if b['method'] == 'default' and rng.random() < 0.5:
			b['rightmostunary'] = True
			b['tailmarker'] = rng.choice(['', '$'])
	elif b['method'].startswith('optimalh'):
		b['headrules'] = os.path.join(REPO, 'negra.headrules')
	for name, p, vals in (('revh', 0.2, [1, 2]), ('leftmostunary', 0.3, [True]),
			('rightmostunary', 0.3, [True]), ('markovthreshold', 0.15, [1, 3]),
			('direction', 0.3, [False]), ('dot', 0.2, [True]),
			('fanout_marks_before_bin', 0.15, [True]),
			('filterlabels', 0.1, [('NN', ), ('NP', 'VP')])):
		if rng.random() < p:
			b[name] = rng.choice(vals)
	return b


def randdop(rng):
	x = dict(dop=rng.choice(['doubledop', 'doubledop', 'reduction', 'dop1']),
			m=rng.choice([1, 5, 50, 500]))
	x['estimator'] = rng.choice(['rfe', 'rfe', 'ewe', 'bon'])
	x['objective'] = rng.choice(['mpp', 'mpp', 'mpd', 'mcp', 'shortest',
			'sl-dop', 'sl-dop-simple'])
	if x['dop'] == 'reduction':
		x['packedgraph'] = rng.random() < 0.3
	if x['dop'] != 'reduction':
		x['maxdepth'] = rng.choice([1, 1, 2, 3])
	return x


def randstages(rng, disc):
	"""A random sequence of coarse-to-fine stages."""
	pcfg = dict(name='pcfg', mode='pcfg')
	if disc or rng.random() < 0.2:
		pcfg.update(split=True, markorigin=rng.random() < 0.6)
	plcfrs = dict(name='plcfrs', mode='plcfrs')
	kind = rng.choice(['plcfrs', 'pcfg', 'ctf', 'ctf', 'ctfdop', 'ctfdop', 'dop',
			'full', 'full', 'full', 'rerank', 'splitdop', 'estimates', 'indep',
			'mcrerank', 'collapse', 'ostag'])
	k = lambda: rng.choice([0, 1, 5, 50, 50, 1e-5, 1000])  # noqa
	if kind == 'plcfrs':
		res = [plcfrs]
	elif kind == 'pcfg':
		res = [pcfg]
	elif kind == 'ctf':
		res = [pcfg, dict(plcfrs, prune='pcfg', k=k())]
	elif kind == 'ctfdop':
		res = [plcfrs, dict(randdop(rng), name='dop', mode='plcfrs',
				prune='plcfrs', k=k())]
	elif kind == 'dop':
		res = [dict(randdop(rng), name='dop', mode='plcfrs')]
	elif kind == 'full':
		res = [pcfg, dict(plcfrs, prune='pcfg', k=k()), dict(randdop(rng),
				name='dop', mode='plcfrs', prune='plcfrs', k=k())]
	elif kind == 'rerank':
		res = [rng.choice([pcfg, plcfrs])]
		res.append(dict(name='rerank', mode='dop-rerank', dop='reduction',
				objective='mpp', prune=res[0]['name'], k=rng.choice([2, 10, 50]),
				split=res[0].get('split', False), markorigin=res[0].get(
					'markorigin', False)))
	elif kind == 'splitdop':
		res = [pcfg, dict(randdop(rng), name='sdop', mode='pcfg', prune='pcfg',
				k=k(), split=pcfg.get('split', False),
				markorigin=pcfg.get('markorigin', False))]
	elif kind == 'estimates':
		res = [dict(plcfrs, estimates='SXlrgaps' if disc or rng.random() < 0.4
				else 'SX')]
	elif kind == 'indep':
		res = [pcfg, plcfrs]
	elif kind == 'ostag':
		mode = dict(mode=rng.choice(['pcfg', 'plcfrs'])) if not disc else dict(
				mode='pcfg', split=True, markorigin=pcfg.get('markorigin', False))
		res = [dict(mode, name='ostag', dop='ostag', objective='mpp',
				m=rng.choice([1, 50, 1000]))]
		if rng.random() < 0.5:
			pcfg.update(split=res[0].get('split', False))
			res = [pcfg, dict(res[0], prune='pcfg', k=k())]
	elif kind == 'mcrerank':
		res = [plcfrs, dict(name='mc', mode='mc-rerank', prune='plcfrs',
				k=rng.choice([2, 10]))]
	elif kind == 'collapse':
		level = rng.choice([0, 1])
		res = [dict(plcfrs, name='l0', collapse=('negra', level)),
				dict(plcfrs, name='l1', prune='l0', k=k())]
		if level == 0 and rng.random() < 0.5:
			res[1]['collapse'] = ('negra', 1)
			res.append(dict(plcfrs, name='l2', prune='l1', k=k()))
	if rng.random() < 0.1:
		res[-1]['beam_beta'] = rng.choice([1e-3, 1e-6])
	return kind, [{a: b for a, b in x.items()} for x in res]


def gen(rng, ctx):
	disc = rng.choice([0, 0.3, 0.6])
	punct = rng.choice(['move', 'root']) if rng.random() < 0.2 else None
	kind, stages = randstages(rng, disc or punct)
	vocab = rng.sample(WORDS, rng.choice([3, 6, 10])) + rng.sample(HOSTILE,
			rng.choice([0, 0, 2, 5]))
	labels = rng.sample(LABELS, rng.randint(2, len(LABELS)))
	tags = rng.sample(TAGS, rng.randint(2, 5))
	trees, sents = g.randtreebank(rng, rng.randint(2, 8), maxlen=7, disc=disc,
			maxar=4, words=vocab, labels=labels, tags=tags)
	fmt = 'bracket' if not disc and rng.random() < 0.4 else rng.choice([
			'export', 'discbracket'])
	prm = dict(stages=stages, binarization=randbinarization(rng), corpusfmt=fmt,
			verbosity=rng.choice([0, 1, 2]), numproc=1, evalparam=os.path.join(
				REPO, 'proper.prm'))
	if rng.random() < 0.4:
		prm['postagging'] = dict(method='unknownword', model=rng.choice(
				sorted(lexicon.UNKNOWNWORDFUNC)), unknownthreshold=rng.choice(
				[1, 2, 4]), openclassthreshold=rng.choice([0, 1, 3, 50]),
				simplelexsmooth=rng.random() < 0.8)
	if rng.random() < 0.15:
		prm['transformations'] = [rng.choice(['PARENT', 'MARK-YEAR', 'NP-PP'])]
	if punct is not None:
		prm['punct'] = punct
	test = g.randtreebank(rng, rng.randint(1, 4), maxlen=7, disc=disc, maxar=4,
			words=vocab + ['unknown', 'zzing'], labels=labels, tags=tags)
	for n in rng.sample(range(len(trees)), 2):
		test[0].append(trees[n])
		test[1].append(sents[n])
	if fmt != 'export' and rng.random() < 0.5:
		root = rng.choice(['TOP', 'SENT', 'X0'])
		trees = [(root, m[1]) for m in trees]
		test = [(root, m[1]) for m in test[0]], test[1]
	return rng, kind, prm, trees, sents, vocab, tags, test


def gensimple(rng, ctx):
	"""Experiments whose grammars the parser can also use on their own."""
	while True:
		_, kind, prm, *rest = gen(rng, ctx)
		prm.pop('postagging', None)
		prm.pop('transformations', None)
		prm.pop('punct', None)
		b = prm['binarization']
		if b.get('headrules') and b.get('rightmostunary'):
			del b['headrules']
			b.pop('markhead', None)
			b.pop('tailmarker', None)
			b['method'] = 'default'
		if kind not in ('plcfrs', 'pcfg', 'dop') or len(prm['stages']) != 1:
			continue
		stage = prm['stages'][0]
		stage.pop('beam_beta', None)
		if 'dop' in stage:
			stage.update(dop=rng.choice(['doubledop', 'dop1']), estimator='rfe',
					objective=rng.choice(['mpp', 'mpd']), m=1000, maxdepth=rng.choice([1, 2, 3]))
			stage.pop('packedgraph', None)
		elif rng.random() < 0.7:
			continue
		return (rng, 'simple', prm) + tuple(rest)


def sentences(rng, trees, sents, vocab, tags):
	"""Sentences to parse, tags to give."""
	res = []
	gold = [{x[1][0]: x[0] for x in g.nodes(m) if g.preterminal(x)}
			for m in trees]
	for _ in range(rng.choice([3, 5, 8])):
		i = rng.randrange(len(sents))
		sent = list(sents[i])
		tag = [gold[i][n] for n in range(len(sent))]
		kind = rng.random()
		if kind < 0.4:
			sent = [rng.choice(vocab) if rng.random() < 0.3 else w for w in sent]
		elif kind < 0.55:
			n = rng.choice([1, 1, 2, 4, 8, 12])
			sent = [rng.choice(vocab) for _ in range(n)]
			tag = [rng.choice(tags) for _ in range(n)]
		elif kind < 0.7:
			j = rng.randrange(len(sents))
			sent = sent + list(sents[j])
			tag = tag + [gold[j][n] for n in range(len(sents[j]))]
		if rng.random() < 0.3:  # unknown words
			for n in range(len(sent)):
				if rng.random() < 0.4:
					sent[n] = rng.choice(['unknown', 'Xyz', 'zzing', '77'] + HOSTILE)
		if rng.random() < 0.1:
			tag = [rng.choice(tags + ['ZZ']) for _ in tag]
		res.append((sent, tag if rng.random() < 0.4 else None))
	return res


def summary(results):
	"""Observable outcome for a sentence."""
	return [(r.name, str(r.parsetree), r.prob, r.noparse,
			sorted((a, b) for a, b, _ in r.parsetrees)
			if r.parsetrees else None) for r in results]


def same(a, b):
	"""Compare summaries, modulo rounding."""
	if len(a) != len(b):
		return False
	for x, y in zip(a, b):
		if (x[0], x[1], x[3]) != (y[0], y[1], y[3]) or not close(x[2], y[2]):
			return False
	return True


def close(x, y):
	if isinstance(x, tuple):
		return isinstance(y, tuple) and all(map(close, x, y))
	return abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def check(case, ctx):
	rng, kind, prm, trees, sents, vocab, tags, test = case
	for name in os.listdir('.'):
		shutil.rmtree(name) if os.path.isdir(name) else os.unlink(name)
	fmt = prm['corpusfmt']
	for name, (a, b) in (('test', test), ('train', (trees, sents))):
		text = EXPORTHEADER if fmt == 'export' else ''
		for n, (m, s) in enumerate(zip(a, b), 1):
			text += writetree(g.totree(m, ParentedTree), s, str(n), fmt)
		with open(name + '.txt', 'w', encoding='utf8') as f:
			f.write(text)
	prm = dict(prm, traincorpus=dict(path='train.txt', numsents=len(trees)),
			testcorpus=dict(path='test.txt', numsents=len(test[0]),
				skiptrain=False))
	with open('x.prm', 'w', encoding='utf8') as f:
		f.write(',\n'.join('%s=%r' % a for a in prm.items()))
	desc = (prm, text)
	usecli = rng.random() < 0.5
	with quiet() as log:
		if usecli:
			maincli.runexp(['x.prm'])
		else:
			params = parser.readparam('x.prm')
			top = runexp.startexp(params, resultdir='x')
	forgive(kind, prm, log)
	ctx.eq(log.msgs, [], 'errors logged', desc)
	ctx.ev('pipelines')
	ctx.ev('pipeline ' + kind)
	if usecli:
		ctx.ev('cli experiment')
	else:
		ctx.eq(top, trees[0][0], 'root label', desc)
		with open('x/params.prm', 'w', encoding='utf8') as f:
			f.write("top='%s',\n" % top)
			f.write(open('x.prm', encoding='utf8').read())
	with quiet() as log:
		params = parser.readparam('x/params.prm')
		params.update(resultdir='x')
		parser.readgrammars('x', params.stages, params.postagging,
				params.transformations, top=params.top)
		theparser = parser.Parser(params)
	experiment(ctx, rng, kind, prm, params, theparser, test, desc)
	ctx.eq(params.top, trees[0][0], 'root label', desc)
	labels = {x[0] for m in trees for x in g.nodes(m)}
	todo = sentences(rng, trees, sents, vocab, tags)
	ref = reference(ctx, params) if not prm.get('transformations') else None
	results = []
	for sent, tag in todo:
		given = list(sent)
		with quiet() as log:
			res = list(theparser.parse(given, tags=tag and list(tag)))
		d = (sent, tag, desc)
		forgive(kind, prm, log)
		ctx.eq(log.msgs, [], 'errors logged', d)
		ctx.eq(given, sent, 'input modified', d)
		ctx.ev('sentences')
		ctx.ev('tagged sentences', tag is not None)
		if sent not in sents:
			ctx.nontrivial((repr(prm), sent, tag))
		judge(ctx, params, res, sent, tag, labels, ref, d)
		results.append(summary(res))
	if rng.random() < 0.2 or kind == 'simple':
		cli(ctx, rng, kind, params, theparser, todo, desc)
	if rng.random() < 0.3:
		extraction(ctx, rng, params, desc)
	# order does not matter
	order = list(range(len(todo))) * 2
	rng.shuffle(order)
	for i in order:
		sent, tag = todo[i]
		with quiet() as log:
			res = summary(theparser.parse(list(sent), tags=tag and list(tag)))
		ctx.ev('repeated')
		ctx.ok(same(res, results[i]), 'depends on order',
				'got %r\nexpected %r\n%r', res, results[i], (todo[i], desc))


EXT = {'export': 'export', 'bracket': 'mrg', 'discbracket': 'dbr'}


def output(params, resultdir):
	"""Files with results of an experiment."""
	texts = {s.name: open('%s/%s.%s' % (resultdir, s.name, EXT[
			params.corpusfmt]), encoding='utf8').read() for s in params.stages}
	with open(resultdir + '/stats.tsv', encoding='utf8') as f:
		stats = [dict(a) for a in csv.DictReader(f, dialect='excel-tab')]
	for a in stats:
		a.pop('elapsedtime')
	return texts, stats


def experiment(ctx, rng, kind, prm, params, theparser, test, desc):
	"""The results of the experiment are the same parse trees as obtained with
	the grammars that were read back, whatever the number of processes."""
	got, stats = output(params, 'x')
	ctx.eq([(a['sentid'], a['stage']) for a in stats], [(str(n), s.name)
			for n, _ in enumerate(test[0], 1) for s in params.stages],
			'stats', desc)
	expected = dict.fromkeys(got, '')
	res = []
	for n, (m, sent) in enumerate(zip(*test), 1):
		tags = None
		if not params.postagging:
			tags = {x[1][0]: x[0] for x in g.nodes(m) if g.preterminal(x)}
			tags = [tags[i] for i in range(len(sent))]
		with quiet() as log:
			for r in theparser.parse(list(sent), tags=tags):
				res.append(r)
				expected[r.name] += writetree(r.parsetree.copy(True),
						list(sent), str(n), params.corpusfmt)
		forgive(kind, prm, log)
		ctx.eq(log.msgs, [], 'errors logged', desc)
	for r, a in zip(res, stats):
		ctx.ev('experiment parses')
		if 'partition' not in r.msg and not isinstance(r.prob, tuple):
			p = 0.0 if a['logprob'] == '300.0' else math.exp(float(a['logprob']))
			ctx.ok(close(p, r.prob),
					'direct and reloaded grammar', '%r %r %r', a,
					(r.prob, str(r.parsetree)), (params.postagging and (params.
						postagging.lexicon, params.postagging.sigs), desc))
	if got != expected:
		ctx.fail('different', '%r\n%r\n%r', got, expected, desc)
	for proc in (1, 2):
		if rng.random() < (0.8 if proc == 1 else 0.75):
			break
		with quiet() as log:
			if proc == 1 and rng.random() < 0.3:
				maincli.runexp(rng.choice([['--rerun', 'x.prm'], ['x.prm',
						'--rerun']]))
			else:
				new = parser.readparam('x.prm')
				new.numproc = proc
				runexp.startexp(new, resultdir='x', rerun=True)
		forgive(kind, prm, log)
		ctx.eq(log.msgs, [], 'errors logged', desc)
		ctx.ev('rerun %d' % proc)
		ctx.eq(output(params, 'x'), (got, stats), 'rerun', (proc, desc))


RESULTS = re.compile(r'(output\.log|stats\.tsv|closedclasswords\.txt|'
		r'(gold|.*)\.(export|mrg|dbr))')


def contents(name):
	"""Text of (compressed) file, without order of arrays and lines."""
	if name.endswith('.npz'):
		with np.load(name) as f:
			return {a: f[a].tolist() for a in f.files}
	elif '.pickle' in name:
		return 'pickle'
	with (gzip.open if name.endswith('.gz') else open)(name, 'rt',
			encoding='utf8') as f:
		return f.read()


def extraction(ctx, rng, params, desc):
	"""Extracting just the grammars of a parameter file, possibly one written
	by a previous experiment, gives the grammars of the experiment."""
	again = rng.random() < 0.5
	with quiet():
		command(maincli.grammar, ['param',
				'x/params.prm' if again else 'x.prm', 'y'])
	want = sorted(a for a in os.listdir('x') if not RESULTS.fullmatch(a))
	ctx.eq(sorted(a for a in os.listdir('y') if not RESULTS.fullmatch(a)),
			want, 'grammar param: files', desc)
	ctx.ev('separate extraction')
	for a in want:
		if a == 'params.prm':
			continue
		ctx.ev('extracted files')
		got, exp = contents('y/' + a), contents('x/' + a)
		ctx.ok(got == exp, 'grammar param: contents', '%r %r %r %r', a, got,
				exp, desc)
	with quiet():
		new = parser.readparam('y/params.prm')
		old = parser.readparam('x/params.prm')
	ctx.eq(repr(new), repr(old),
			'grammar param: parameters', desc)


def command(module, argv):
	"""Run command line interface; returns standard error."""
	old = sys.argv[:]
	err = io.StringIO()
	sys.argv[:] = ['discodop', module.__name__.rsplit('.', 1)[-1]] + argv
	try:
		with contextlib.redirect_stderr(err):
			getattr(module, 'main', module)()
	except SystemExit as e:
		raise RuntimeError('%r: exit %r %s' % (argv, e.code, err.getvalue()))
	finally:
		sys.argv[:] = old
	return err.getvalue()


def cli(ctx, rng, kind, params, theparser, todo, desc):
	"""Command line interface of parser gives the same results."""
	usetags = rng.random() < 0.4
	todo = [(a, b) for a, b in todo if not usetags or b is not None]
	if not todo:
		return
	fmt = rng.choice(['discbracket', 'export', 'discbracket', 'tokens'])
	opts = [] if fmt == 'discbracket' and rng.random() < 0.5 else ['--fmt=' + fmt]
	k = rng.choice([1, 1, 1, 2, 5])
	if k != 1:
		opts += ['-b%d' % k]
	if usetags:
		opts += ['--tags']
	sentid = rng.random() < 0.3
	if sentid:
		opts += ['--sentid']
	sep, end = ' ', '\n'
	if rng.random() < 0.2:
		sep, end = '\n', '\n\n'
		opts += ['-x']
	prob = rng.random() < 0.3
	if prob:
		opts += ['--prob']
	proc = rng.random() < 0.3
	if proc:
		opts += ['--numproc=2']
	simple = None
	stage = params.stages[0]
	if ((rng.random() < 0.8 or kind == 'simple') and stage.name != 'mc' and not stage.split
			and not stage.collapse and not params.postagging
			and not params.transformations and stage.beam_beta == 1
			and stage.objective in ('mpp', 'mpd') and not params.punct
			and not stage.estimates and not (params.binarization.headrules
				and params.binarization.rightmostunary)):
		if not stage.dop:
			simple = ['-s', params.top]
		elif stage.dop in ('doubledop', 'dop1') and stage.estimator == 'rfe':
			simple = ['-s', params.top, '--bt=x/%s.backtransform.gz' % stage.name,
				'--obj=' + stage.objective, '-m', str(stage.m)]
	if simple and not stage.dop and k != 1:  # m is number of trees shown
		opts.remove('-b%d' % k)
		k = 1
	if simple and fmt != 'tokens' and not prob:
		prob = True  # to recognize ties
		opts += ['--prob']
	rng.shuffle(opts)
	text, want = '', []
	for n, (sent, tags) in enumerate(todo, 1):
		key = 'id_%d' % n if sentid else str(n)
		if sentid:
			text += key + '|'
		text += sep.join(a + '/' + b for a, b in zip(sent, tags)
				) if usetags else sep.join(sent)
		text += end
		with quiet():
			r = list(theparser.parse(list(sent), tags=tags if usetags else None)
					)[0 if simple else -1]
			if simple and stage.dop and stage.objective == 'mpp' and any(
					int(a) >= stage.m for a in re.findall(
						'([0-9]+) derivations', r.msg)):
				return  # which derivations are included depends on ties
			if r.noparse:
				want.append((key if k == 1 else key + '-1', sent, r.noparse,
						[(r.prob, r.parsetree)]))
			else:
				best = sorted(r.parsetrees, key=lambda a: a[1],
						reverse=True)[:k]
				want.append((key, sent, r.noparse, [(a[1], theparser.postprocess(
						a[0], list(sent), 0 if simple else -1)[0])
						for a in best]))
	with open('in', 'w', encoding='utf8') as f:
		f.write(text if rng.random() < 0.9 else text.rstrip('\n'))
	if simple:
		argv = ['--simple', 'x/%s.rules.gz' % stage.name,
				'x/%s.lex.gz' % stage.name] + opts + simple
		ctx.ev('simple')
		ctx.ev('simple --bt', bool(stage.dop))
	else:
		argv = ['x'] + opts
	desc = (argv, text, desc)
	with quiet():
		err = command(parser, argv + ['in', 'out'])
	ctx.ev('cli')
	m = re.search('unparsed sentences: ([0-9]+)', err)
	ctx.ok(m, 'cli no summary', '%r %r', err, desc)
	ctx.eq(int(m.group(1)), sum(bool(x[2]) for x in want), 'cli unparsed', (
			desc, err))
	got = open('out', encoding='utf8').read()
	exp = ''
	probs = []
	for key, sent, noparse, res in want:
		for i, (p, t) in enumerate(res):
			exp += writetree(t.copy(True), list(sent), key if k == 1 or noparse
					else '%s-%d' % (key, i), fmt)
			probs.append(p[1] if isinstance(p, tuple) else p)
	if simple and any(x[2] for x in want):
		return  # partial parses depend on binarization
	if prob and fmt != 'tokens':
		# probabilities are given as comment in output format
		x = [float(a) for a in re.findall(r'[\t ]prob=(\S+)(?:\n|$)', got)]
		ctx.eq(len(x), len(probs), 'cli number of probabilities', (desc, got))
		ctx.ok(all(map(close, x, probs)), 'cli probabilities', '%r %r %r', x,
				probs, desc)
		ctx.ev('cli probabilities', len(x))
		got = re.sub(r'[\t ]+(?:%% )?(?:subtrees=\d+ )?prob=\S+\n', '\n', got)
	if simple and got != exp and prob:
		ctx.ev('cli ties')  # other tree with the same probability
	elif k == 1 or fmt == 'tokens':
		ctx.eq(got, exp, 'cli output', desc)
	else:  # may contain ties
		ctx.ev('cli k-best')
		ctx.eq(sorted(re.split('[-\n]', got)), sorted(re.split('[-\n]', exp)),
				'cli output', desc)


def reference(ctx, params):
	"""Reference grammar for first stage."""
	stage = params.stages[0]
	rules = []
	read = lambda x: gzip.open('x/%s.%s.gz' % (stage.name, x), 'rt',  # noqa
			encoding='utf8').read().split('\n')
	for line in read('rules'):
		if line.strip():
			*r, yf, w = line.split('\t')
			rules.append(((tuple(r), tuple(tuple(map(int, a))
					for a in yf.split(','))), 1.0))
	for line in read('lex'):
		if line.strip():
			word, *rest = line.split('\t')
			for x in rest:
				tag, w = x.rsplit(' ', 1)
				rules.append((((tag, 'Epsilon'), (word, )), 1.0))
	return lc.LC(rules, start=params.top)


def parsable(ctx, gr, params, sent, tags):
	"""Whether first stage should be able to parse this; None: not judged."""
	words = list(sent)
	if params.postagging:
		words = list(lexicon.replaceraretestwords(words,
				params.postagging.unknownwordfun, params.postagging.lexicon,
				params.postagging.sigs))
	if tags is not None:
		return None
	extra = []
	for n, w in enumerate(words):
		x = []
		if w not in gr.lex:
			x += gr.lex.get(w.lower(), [])
		if (params.postagging and params.postagging.closedclasswords
				and not w.startswith('_UNK')
				and w not in params.postagging.closedclasswords):
			# open class words: also tags of signature
			x += gr.lex.get(params.postagging.unknownwordfun(w, n,
					params.postagging.lexicon), [])
		if w not in gr.lex and not x:
			return False
		extra.append(lambda cand, x=x: cand + x)
	edges = lc.chart(gr, words, extra)
	if edges is None:
		return None
	return (gr.start, (1 << len(sent)) - 1) in edges


def forgive(kind, prm, log):
	# collapsed labels or a beam do not guarantee parse of later stage
	if kind == 'collapse' or any('beam_beta' in x for x in prm['stages']):
		log.msgs = [a for a in log.msgs if 'expected successful' not in a]


def judge(ctx, params, res, sent, tag, labels, ref, desc):
	ctx.eq([r.name for r in res], [s.name for s in params.stages], 'stages',
			desc)
	good = None
	ok = {}
	for n, (r, stage) in enumerate(zip(res, params.stages)):
		t = r.parsetree
		d = (stage.name, str(t), r.noparse, desc)
		ctx.ev('stage results')
		ctx.ev('fallbacks', bool(r.noparse))
		ctx.eq(sorted(t.leaves()), list(range(len(sent))), 'tokens', d)
		m = g.tomodel(t)
		ctx.eq(g.canon(m), m, 'order', d)
		ctx.eq(m[0], params.top, 'root label', d)
		for x in g.nodes(m):
			ctx.ok(len(x[1]) > 0, 'empty node', '%r', d)
			ctx.ok(g.preterminal(x) or not any(isinstance(c, int) for c in x[1]),
					'words and constituents mixed', '%r', d)
		found = {x[0] for x in g.nodes(m)}
		allowed = labels | set(tag or ())
		if r.noparse:
			allowed |= {'NOPARSE', 'NN'}
		if any(s.collapse for s in params.stages[:n + 1 if r.noparse else None]
				) and (r.noparse or stage.collapse):
			allowed |= {'P', 'HP', 'MP'}
		if not params.transformations:
			ctx.ok(found <= allowed, 'labels', '%r: %r', found - allowed, d)
			ctx.ev('labels checked', len(found))
		pos = {x[1][0]: x[0] for x in g.nodes(m) if g.preterminal(x)}
		if tag is not None and not params.transformations:
			ctx.eq([pos[i] for i in range(len(sent))], list(tag), 'given tags', d)
			ctx.ev('given tags')
		# flag
		if (n == 0 and ref is not None and stage.beam_beta == 1
				and (stage.objective != 'sl-dop' or stage.m >= 500)):
			want = parsable(ctx, ref, params, sent, tag)
			if want is not None:
				ctx.ev('parsable', want)
				ctx.ev('not parsable', not want)
				ctx.eq(bool(r.noparse), not want, 'noparse flag', d)
		ok[stage.name] = not r.noparse
		if r.noparse:
			# the last successful or partial parse if there was any
			ctx.ev('partial parses', 'partition: ' in r.msg)
			if 'partition: ' in r.msg:
				good = str(t)
			elif good is not None:
				ctx.eq(str(t), good, 'fallback', d)
				ctx.ev('fallback to earlier stage')
		else:
			good = str(t)
			if stage.prune:
				ctx.ok(ok[stage.prune], 'parse without coarse parse', '%r', d)
		if (stage.prune and ok[stage.prune] and r.noparse
				and stage.beam_beta == 1):
			prev = [x for x in params.stages if x.name == stage.prune][0]
			if (stage.split == prev.split and not prev.collapse
					# only considers m derivations
					and (stage.objective != 'sl-dop' or stage.m >= 500)):
				ctx.fail('lost parse', '%r %r', r.msg, d)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'pipeline': (gen, check, 450 * k),
			'simple': (gensimple, check, 150 * k)}

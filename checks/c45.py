"""C45: parsing with constraints; learning from new trees."""
import collections
import os
import re
import shutil
from discodop import parser, runexp
from discodop.tree import Tree, ParentedTree
from discodop.treebank import EXPORTHEADER, writetree
from discodop.treetransforms import addfanoutmarkers
import g
from checks import c27
from checks.c27 import quiet, close

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random treebanks and parameter files; (a) sentences parsed with and '
	'without random sets of required and blocked labeled spans, with and '
	'without gold trees, each result judged against the spans and the '
	'unconstrained result; (b) grammars of one part of a treebank augmented '
	'with the other part in one or more steps compared with grammars of the '
	'whole treebank; nontrivial: constraints that rule out some but not all '
	'trees, or sentences that need the new trees; counted by parameters, '
	'sentence and constraints',
	require={'pipelines': 30, 'constrained': 300, 'satisfied': 300, 'first': 300,
		'pruned': 12, 'impossible': 5, 'augmented': 24, 'more than one step': 8,
		'fragments': 800, 'dop results': 60, 'probabilities': 4000, 'weights': 3500,
		'label sets': 12, 'gold counts plcfrs': 8, 'gold counts split pcfg': 5},
)


def gen(rng, ctx):
	"""Experiments with stages that support constraints."""
	while True:
		_, kind, prm, trees, sents, vocab, tags, test = c27.gen(rng, ctx)
		if kind in ('rerank', 'mcrerank', 'collapse', 'ostag', 'estimates'):
			continue
		prm.pop('transformations', None)
		prm.pop('punct', None)
		for stage in prm['stages']:
			stage.pop('beam_beta', None)
			stage['m'] = rng.choice([1, 5, 500, 900])
			if stage.get('prune') and rng.random() < 0.4:
				stage['k'] = 1000
		return rng, kind, prm, trees, sents, vocab, tags


def write(rng, prm, trees, sents, name='train'):
	fmt = prm['corpusfmt']
	text = EXPORTHEADER if fmt == 'export' else ''
	for n, (m, s) in enumerate(zip(trees, sents), 1):
		text += writetree(g.totree(m, ParentedTree), s, str(n), fmt)
	with open(name + '.txt', 'w', encoding='utf8') as f:
		f.write(text)
	prm = dict(prm, traincorpus=dict(path=name + '.txt', numsents=len(trees)),
			testcorpus=dict(path=name + '.txt', numsents=1, skiptrain=False))
	with open(name + '.prm', 'w', encoding='utf8') as f:
		f.write(',\n'.join('%s=%r' % a for a in prm.items()))
	return text


def load(name, **kwds):
	"""Extract grammars and read them back."""
	with quiet() as log:
		params = parser.readparam(name + '.prm')
		top = runexp.startexp(params, resultdir='x' + name)
		with open('x%s/params.prm' % name, 'w', encoding='utf8') as f:
			f.write("top='%s',\n" % top)
			f.write(open(name + '.prm', encoding='utf8').read())
		params = parser.readparam('x%s/params.prm' % name)
		params.update(resultdir='x' + name)
		parser.readgrammars('x' + name, params.stages, params.postagging,
				params.transformations, top=params.top)
		return parser.Parser(params, **kwds), log.msgs


def clean():
	for name in os.listdir('.'):
		shutil.rmtree(name) if os.path.isdir(name) else os.unlink(name)


def base(label):
	"""Label in the treebank for a label in the grammar."""
	return re.sub(r'_[0-9]+(\*[0-9]*)?$|\*[0-9]*$', '', label.split('^')[0])


def spans(m):
	return {(x[0], tuple(sorted(g.leaves(x)))) for x in g.nodes(m)}


def check(case, ctx):
	rng, kind, prm, trees, sents, vocab, tags = case
	clean()
	text = write(rng, prm, trees, sents)
	desc = prm, text
	theparser, msgs = load('train')
	ctx.ev('pipelines')
	for sent, tag in c27.sentences(rng, trees, sents, vocab, tags):
		with quiet() as log:
			res = list(theparser.parse(list(sent), tags=tag and list(tag)))
		d = sent, tag, desc
		ctx.ev('sentences')
		# spans of all trees that were found
		found = []
		for n, r in enumerate(res):
			found.append([])
			if not r.noparse:
				for t, _, _ in r.parsetrees:
					m = theparser.postprocess(t, sent, n)[0]
					found[-1].append(spans(g.tomodel(m)))
		allspans = sorted({a for b in found for c in b for a in c})
		if not allspans:
			continue
		if sent in sents and not prm.get('postagging') and not (
				prm['binarization'].get('headrules')
				or prm['binarization'].get('markovthreshold')) and (tag is None or rng.random() < 0.5):
			goldcounts(ctx, theparser, trees[sents.index(sent)], sent, d)
		for _ in range(3):
			require, block = set(), set()
			for _ in range(rng.choice([1, 1, 2])):
				x = rng.choice(allspans)
				if rng.random() < 0.15:
					x = rng.choice(allspans)[0], tuple(sorted(rng.sample(
							range(len(sent)), rng.randint(1, len(sent)))))
				(require if rng.random() < 0.5 else block).add(x)
			constrained(ctx, theparser, res, sent, tag, require, block,
					found, d)


def goldcounts(ctx, theparser, m, sent, desc):
	"""All parts of a tree in the training data should be in the chart."""
	tree = g.totree(m, ParentedTree)
	with quiet():
		res = list(theparser.parse(list(sent), goldtree=tree))
	ctx.eq(g.tomodel(tree), m, 'gold tree modified', desc)
	for n, (r, stage) in enumerate(zip(res, theparser.stages)):
		ctx.ev('gold counts %s%s' % ('split ' if stage.split else '', stage.mode))
		if not stage.prune and (stage.mode == 'pcfg' or stage.dop):
			ctx.eq(r.golditems, r.totalgolditems, 'gold items in chart', (stage.name, r.msg, desc))
			ctx.ok(r.totalgolditems >= len(g.nodes(m)), 'total', '%r', (r.totalgolditems, desc))


def few(r, stage):
	"""Whether all derivations were considered.

	A last stage with mode plcfrs and without DOP is not exhaustive."""
	if stage.prune and stage.mode == 'plcfrs' and not stage.dop:
		return False
	m = re.search('disambiguation: ([0-9]+) derivations', r.msg)
	return m is not None and int(m.group(1)) < stage.m and (
			not stage.dop or stage.objective in ('mpp', 'mpd'))


def constrained(ctx, theparser, res, sent, tag, require, block, allspans,
		desc):
	d = require, block, desc
	with quiet() as log:
		try:
			res1 = []
			for r in theparser.parse(list(sent), tags=tag and list(tag),
					require=require, block=block):
				res1.append(r)
		except ValueError as e:
			# some span is not in any analysis
			ctx.ok('could not fulfill' in str(e), 'error', '%r %r', str(e), d)
			if len(res1) == 1:
				ctx.ok(not any(require <= s for s in allspans[0]), 'error despite '
						'analysis with required spans', '%r %r', str(e), d)
			ctx.ev('impossible')
			return
	ctx.ev('constrained')
	for n, (r, r1) in enumerate(zip(res, res1)):
		stage = theparser.stages[n]
		if not r1.noparse:
			s = spans(g.tomodel(r1.parsetree))
			ctx.ok(require <= s, 'required', '%r\n%r\n%r', str(r1.parsetree), require - s, d)
			ctx.ok(not block & s, 'blocked', '%r\n%r\n%r', (stage.name, r1.parsetrees), block & s, d)
			ctx.ev('satisfied')
		# constraints are not used to prune coarse items, or all are considered
		x, exact = stage, True
		while x.prune:
			m = next(i for i, a in enumerate(theparser.stages)
					if a.name == x.prune)
			exact = exact and (not block and x.k < 1 or (x.k >= 1000
					and few(res[n], stage) and few(res[m], theparser.stages[m])))
			x = theparser.stages[m]
		if exact:
			ctx.ev('pruned' if stage.prune else 'first')
			want = []
			if not r.noparse:
				for t, p, _ in r.parsetrees:
					s = spans(g.tomodel(theparser.postprocess(t, sent, n)[0]))
					if require <= s and not block & s:
						want.append((t, p))
				ctx.eq(bool(r1.noparse), not want, 'satisfiable', d)
			if want:
				got = sorted((t, p) for t, p, _ in r1.parsetrees)
				ctx.eq([t for t, _ in got], sorted(t for t, _ in want), 'trees', d)
				ctx.ok(all(close(x[1], y[1]) for x, y in zip(got, sorted(want))),
						'scores', '%r %r %r', got, want, d)
				ctx.nontrivial((desc[2][0], sent, require, block))


def genaugment(rng, ctx):
	"""Experiments that can be continued with new trees."""
	while True:
		_, kind, prm, trees, sents, vocab, tags = gen(rng, ctx)
		b = prm['binarization']
		b.pop('markovthreshold', None)
		if b.get('headrules') or kind == 'splitdop':
			continue
		prm.pop('postagging', None)
		dops = [x for x in prm['stages'] if x.get('dop')]
		for x in prm['stages']:
			x['m'] = 1000
			if x.get('prune'):
				x['k'] = rng.choice([0, 1000])
			if x.get('dop'):
				x.update(dop='doubledop', estimator='rfe', objective=rng.choice(
						['mpp', 'mpd']))
				x.pop('packedgraph', None)
				x.setdefault('maxdepth', rng.choice([1, 2, 3]))
		return rng, kind, prm, trees, sents, vocab, tags


def weights(ctx, gr, desc):
	"""Weights should be relative frequencies."""
	total = collections.Counter()
	rows = []
	for part in re.split('\n(?:lexicon|labels):\n', str(gr))[:2]:
		for line in part.splitlines():
			m = re.match(r'([-+.0-9e]+) (\S+) => .* ([-+.0-9e]+)/([-+.0-9e]+)(?: \[\d+\])?$', line)
			if m is not None:
				rows.append((float(m.group(1)), m.group(2), float(m.group(3)),
						float(m.group(4)), line))
				total[m.group(2)] += float(m.group(3))
	ctx.ok(len(rows) > 0, 'no rules', '%r', str(gr))
	for p, lhs, a, b, line in rows:
		ctx.ev('weights')
		ctx.eq(b, total[lhs], 'total frequency', (line, desc))
		ctx.ok(abs(p - a / b) < 1e-4, 'weight', '%r %r', line, desc)


def fragments(theparser, n):
	"""Fragments and their frequencies in a DOP grammar."""
	stage = theparser.prm.stages[n]
	gr = stage.grammar
	res = {}
	rules = {}
	for line in str(gr).split('\nlexicon:\n')[0].splitlines()[1:]:
		m = re.search(r' ([-+.0-9e]+)/[-+.0-9e]+ \[([0-9]+)\]$', line)
		rules[int(m.group(2))] = float(m.group(1))
	return {a: rules[b] for a, b in stage.fragments.items()}


def checkaugment(case, ctx):
	rng, kind, prm, trees, sents, vocab, tags = case
	clean()
	todo = c27.sentences(rng, trees, sents, vocab, tags)
	todo += [(list(a), None) for a in sents]
	n = rng.randint(1, len(trees) - 1)
	text = write(rng, prm, trees[:n], sents[:n], 'part')
	desc = n, prm, write(rng, prm, trees, sents, 'all')
	whole, _ = load('all', loadtrees=True)
	part, _ = load('part', loadtrees=True)
	new = [g.totree(m, ParentedTree) for m in trees[n:]]
	newsents = [list(a) for a in sents[n:]]
	steps = 0
	with quiet():
		while new:
			k = rng.randint(1, len(new))
			before = [str(a) for a in new], [list(a) for a in newsents]
			part.augmentgrammar(new[:k], newsents[:k])
			ctx.eq(([str(a) for a in new], newsents), before, 'input modified', desc)
			new, newsents = new[k:], newsents[k:]
			steps += 1
	ctx.ev('augmented')
	ctx.ev('more than one step', steps > 1)
	for i, stage in enumerate(part.prm.stages):
		weights(ctx, stage.grammar, (stage.name, desc))
		if not stage.dop:
			continue
		x, y = fragments(part, i), fragments(whole, i)
		d = stage.name, desc
		ctx.ev('fragments', len(y))
		ctx.eq({a: x.get(a) for a in y}, y, 'fragments', d)
		# complete new trees, and parts that recur in one tree, may be fragments as well
		for a in x.keys() - y.keys():
			ctx.ev('further fragments')
			complete(ctx, a, trees[n:], sents[n:], d)
	nodes = [x for m in trees for x in g.nodes(m)]
	if not prm['binarization'].get('fanout_marks_before_bin') and any(
			not a.split and not a.dop for a in whole.prm.stages):
		pos = {x[0] for x in nodes if g.preterminal(x)}
		ctx.eq(whole.poslabels, pos, 'POS tags', desc)
		ctx.eq(whole.phrasallabels, {x[0] for x in nodes} - pos, 'phrasal labels', desc)
		ctx.ev('label sets')
	for sent, tag in todo:
		with quiet():
			a = list(part.parse(list(sent), tags=tag and list(tag)))
			b = list(whole.parse(list(sent), tags=tag and list(tag)))
		for x, y, stage in zip(a, b, part.stages):
			d = stage.name, sent, tag, desc
			ctx.eq(bool(x.noparse), bool(y.noparse), 'parsable', d)
			ctx.ev('augmented stage results')
			if x.noparse:
				continue
			if any(int(re.search('disambiguation: ([0-9]+) derivations',
					r.msg).group(1)) >= 1000 for r in (x, y)):
				break  # arbitrary selection
			ctx.ev('dop results', bool(stage.dop))
			x, y = [{t: p for t, p, _ in r.parsetrees} for r in (x, y)]
			ctx.eq(len(x), len(y), 'number of trees', d)
			ctx.eq(sorted(x), sorted(y), 'trees', d)
			for t in () if stage.dop else x:
				ctx.ev('probabilities')
				ctx.ok(close(x[t], y[t]), 'probability', '%r %r %r %r', t, x[t], y[t], d)
			ctx.nontrivial((repr(prm), sent, tag))


def escape(word):
	return word.replace('(', '#LRB#').replace(')', '#RRB#')


def complete(ctx, frag, trees, sents, desc):
	"""A fragment should be part of these trees."""
	words = collections.Counter(re.findall(r' [0-9]+=([^\s()]+)\)', frag))
	ctx.ok(any(not words - collections.Counter(map(escape, s)) for s in sents),
			'fragment does not occur', '%r %r', frag, desc)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'constraints': (gen, check, 80 * k),
			'augment': (genaugment, checkaugment, 60 * k)}

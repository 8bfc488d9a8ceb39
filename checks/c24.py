"""C24: coarse-to-fine pruning keeps what the coarse parses license."""
import logging
import math
import re
import sys
from collections import defaultdict
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest, coarsetofine
from discodop._vfchart import contents
import g
import gg
import lc
from ref import Ref, close

PLAN = dict(variant='san',
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'_vfchart'],
	rule='random coarse grammars and fine grammars that split their labels, for '
	'the combinations PCFG-PCFG, PCFG-LCFRS, LCFRS-LCFRS, and a PCFG with split '
	'discontinuous constituents followed by an LCFRS; pruning with k-best '
	'derivations, filtering, and posterior thresholds; required and blocked '
	'spans. nontrivial: pruning changes the fine chart without removing all '
	'parses; counted by grammars and sentence',
	require={'all coarse derivations': 300, 'additional stage': 150, 'blocked spans': 150,
		'required spans': 100, 'cfg': 300, 'cfg-lcfrs': 120, 'lcfrs': 200,
		'split': 700, 'markorigin': 50, 'never blocked': 40, 'fan-out': 150,
		'explicit mapping': 50, 'filter': 300, 'kbest': 700, 'posterior': 100,
		'posterior removed': 20, 'cyclic posterior': 60, 'pruned': 800, 'other best': 40,
		'shifted': 5000, 'unfulfillable': 10, 'too long': 20, 'items compared': 15000},
)
logging.disable(logging.WARNING)
VOCAB = gg.VOCAB
STRIP = re.compile('@[-0-9]+$')
SPLITRE = re.compile(r'^([^-/^|:\s]+?)(-[^/^|:\s]+?)?(/[^^|:\s]+?)?'
		r'(?:\^[^|:\s]+?)?(_[0-9]+(\*[0-9]+)?)?$')
KS = [1, 1, 2, 3, 5, 20, 100000]


def bare(label):
	"""Label without function tags, morphology, parents, fanout."""
	m = SPLITRE.match(label)
	return m and m.group(1)


def closure(fine, coarse):
	"""Make sure that every fine label has a rule."""
	coarse = [r for r, _ in coarse]
	while True:
		have = {r[0] for r, _ in fine}
		new = {a for r, _ in fine for a in r[1:]} - have - {'Epsilon'}
		if not new:
			return
		for a in sorted(new):
			r, yf = [x for x in coarse if x[0][0] == STRIP.sub('', a)][0]
			fine[(a, ) + r[1:], yf] = 1


def splitgrammar(rng, coarse):
	"""A fine grammar with several versions of labels."""
	fine = {}
	n = rng.choice([1, 2, 3])

	def num(a):
		x = rng.randrange(n + 1)
		return '%s@%d-%d' % (a, x, x * 7) if x and a not in ('ROOT', 'TOP') else a
	fanout = {r[0]: 1 if r[1] == 'Epsilon' else len(yf) for (r, yf), _ in coarse}
	for (r, yf), w in coarse:
		if rng.random() < 0.08 and len(coarse) > 4:
			continue
		for _ in range(rng.randint(1, 3)):
			w = gg.weight(rng, 0)
			if r[1] == 'Epsilon':
				fine[(num(r[0]), 'Epsilon'), yf] = w
			else:
				fine[tuple(map(num, r)), yf] = w
	# rules that the coarse grammar does not have
	rules = [r for r, _ in coarse if r[0][1] != 'Epsilon']
	for _ in range(rng.choice([0, 0, 1, 3])):
		if rules:
			r, yf = rng.choice(rules)
			same = [a for a, f in sorted(fanout.items()) if f == fanout[r[0]]]
			fine[tuple(map(num, (rng.choice(same), ) + r[1:])), yf] = 1
	if not any(r[0] == 'ROOT' for r, _ in fine):
		r, yf = [x for x, _ in coarse if x[0][0] == 'ROOT'][0]
		fine[r, yf] = 1
	if not any(r[1] == 'Epsilon' for r, _ in fine):
		r, yf = [x for x, _ in coarse if x[0][1] == 'Epsilon'][0]
		fine[r, yf] = 1
	closure(fine, coarse)
	fine = list(fine.items())
	return ([x for x in fine if x[0][0][1] != 'Epsilon']
			+ [x for x in fine if x[0][0][1] == 'Epsilon'])


def gencase(rng, ctx):
	mode = rng.choice(['cfg', 'cfg', 'cfg-lcfrs', 'lcfrs', 'lcfrs'])
	disc = mode == 'lcfrs'
	coarse = gg.grammar(rng, disc=disc, size=rng.choice([1, 2, 2, 3, 4, 6]),
			vocab=VOCAB[:rng.choice([1, 2, 4])], unary=rng.choice([0, 0.1, 0.3]),
			unarycycles=rng.random() < 0.2,
			labels=[a for a in gg.LABELS if '@' not in a])
	coarse = [x for x in coarse if x[0][0][1] != 'Epsilon'] + [x
			for x in coarse if x[0][0][1] == 'Epsilon']
	fine = splitgrammar(rng, coarse)
	sents = [gg.sentence(rng, rng.choice([coarse, fine]), rng.choice([3, 5, 7]),
			VOCAB, 0) for _ in range(3)]
	return rng, mode, False, coarse, fine, sents


def splitdisc(m, markorigin):
	"""Continuous components of a node."""
	if not isinstance(m[1][0], tuple):
		return [m]
	ch = sorted((c for x in m[1] for c in splitdisc(x, markorigin)),
			key=g.leaves)
	groups = [[ch[0]]]
	for a, b in zip(ch, ch[1:]):
		if max(g.leaves(a)) + 1 == min(g.leaves(b)):
			groups[-1].append(b)
		else:
			groups.append([b])
	if len(groups) == 1:
		return [(m[0], tuple(ch))]
	return [('%s*%s' % (m[0], n if markorigin else ''), tuple(x))
			for n, x in enumerate(groups)]


def gensplit(rng, ctx):
	"""PCFG based on trees in which discontinuous constituents are split."""
	markorigin = rng.random() < 0.5
	coarse, fine, sents = defaultdict(int), defaultdict(int), []
	vocab = VOCAB[:rng.choice([2, 3, 5])]
	for _ in range(rng.randint(1, 5)):
		n = rng.choice([3, 4, 5, 6, 7])
		m = g.randtree(rng, n, disc=rng.choice([0.3, 0.6, 0.9]))
		names = ['A', 'B', 'C'][:rng.choice([1, 2, 3])]
		sent = [rng.choice(vocab) for _ in range(n)]

		def relabel(x):
			if not isinstance(x[1][0], tuple):
				return rng.choice(['T', 'U']), x[1]
			return rng.choice(names), tuple(relabel(c) for c in x[1])
		m = 'ROOT', (relabel(m), )
		m = lc.binarized(rng, m)
		s = lc.binarized(rng, splitdisc(m, markorigin)[0], mark=False)
		for x in g.nodes(m):
			fine[lc.noderule(lc.LC([]), x, sent)] += 1
		for x in g.nodes(s):
			coarse[lc.noderule(lc.LC([]), x, sent)] += 1
		sents.append(sent)
	fine, coarse = [[x for x in a.items() if x[0][0][1] != 'Epsilon']
			+ [x for x in a.items() if x[0][0][1] == 'Epsilon']
			for a in (fine, coarse)]
	sents += [gg.sentence(rng, fine, 8, VOCAB, 0) for _ in range(2)]
	return rng, 'split', markorigin, coarse, fine, sents


def posteriors(edges, root):
	"""Posterior probability of each item; None if there is no convergence."""
	order, seen = [], set()

	def visit(item):
		seen.add(item)
		for _, _, ch in edges.get(item, ()):
			if isinstance(ch, tuple):
				for c in ch:
					if c not in seen:
						visit(c)
		order.append(item)
	visit(root)
	inside = dict.fromkeys(order, 0.0)
	for _ in range(5000):
		old = dict(inside)
		for item in order:
			inside[item] = sum(p * math.prod(inside[c] for c in ch)
					if isinstance(ch, tuple) else p for p, _, ch in edges[item])
		if all(inside[a] - old[a] <= 1e-12 * inside[a] for a in order):
			break
	else:
		return None
	out = dict.fromkeys(order, 0.0)
	for _ in range(5000):
		new = dict.fromkeys(order, 0.0)
		new[root] = 1.0
		for item in order:
			for p, _, ch in edges[item]:
				if isinstance(ch, tuple):
					for i, c in enumerate(ch):
						new[c] += out[item] * p * math.prod(
								inside[d] for j, d in enumerate(ch) if j != i)
		old, out = out, new
		if all(abs(new[a] - old[a]) <= 1e-12 * new[a] for a in order):
			break
	else:
		return None
	return {a: inside[a] * out[a] / inside[root] for a in order}


def derivitems(s):
	return {(x[0], lc.mask(x)) for x in g.nodes(lc.parsetree(s))}


def prefix(rng, coarse, fine, n):
	extra = []
	for i in range(n):
		extra.append(((('P%d' % i, 'W%d' % i, 'P%d' % (i + 1) if i < n - 1 else
			'ROOT'), ((0, 1), )), 1))
		extra.append(((('W%d' % i, 'Epsilon'), ('w%d' % i, )), 1))
	extra.append(((('TOP', 'P0'), ((0, ), )), 1))
	extra = [x for x in extra if x[0][0][1] != 'Epsilon'], [x for x in extra
			if x[0][0][1] == 'Epsilon']
	return extra[0] + coarse + extra[1], extra[0] + fine + extra[1]


def check(case, ctx):
	rng, mode, markorigin, coarse, fine, sents = case
	split = mode == 'split'
	shift = 0
	start = 'ROOT'
	crules, frules = coarse, fine
	if rng.random() < 0.2:
		shift = rng.choice([57, 60, 63, 64, 70, 110])
		if mode != 'lcfrs' and rng.random() < 0.3:
			shift = 128
		start = 'TOP'
		crules, frules = prefix(rng, coarse, fine, shift)
	cg, fg = Grammar(crules, start=start), Grammar(frules, start=start)
	# labels to be ignored
	ctx.ev('markorigin', markorigin and split)
	basis = sorted({STRIP.sub('', r[0]) for (r, _), _ in fine})
	never = None
	if rng.random() < 0.25:
		never = {rng.choice(basis)} - {'ROOT'}
		if not rng.randrange(4):
			never |= {a for a in basis if '|' in a}
	if split:
		# labels that the coarse grammar does not have
		clabels = {r[0] for (r, _), _ in coarse}
		fan = {r[0]: 1 if r[1] == 'Epsilon' else len(yf)
				for (r, yf), _ in fine}
		miss = {a for a in basis if not all(b in clabels for b in components(
				a, fan[a], markorigin))}
		never = (never or set()) | miss
	ctx.ev('never blocked', bool(never))
	mapping = None
	if rng.random() < 0.2:
		ctx.ev('explicit mapping')
		mapping = {STRIP.sub('', a): STRIP.sub('', a) for (r, _), _ in frules
				for a in r + ('Epsilon', )}
		ones = [a for a in basis if a != 'ROOT' and a not in (never or ())]
		if len(ones) > 1 and not split:
			# labels that share a coarse label
			a, b = rng.sample(ones, 2)
			mapping[a] = mapping[b]
	try:
		fg.getmapping(cg, striplabelre=STRIP if not split or rng.random() < 0.5
				else None, neverblockre=re.compile('^(%s)(@|$)' % '|'.join(
				map(re.escape, sorted(never)))) if never else None,
				splitprune=split, markorigin=markorigin, mapping=mapping)
	except KeyError:
		if {STRIP.sub('', r[0]) for (r, _), _ in frules} <= {
				r[0] for (r, _), _ in crules}:
			raise
		return
	project = lambda a: (None if never and STRIP.sub('', a) in never else
			(mapping or {}).get(STRIP.sub('', a), STRIP.sub('', a)))
	lfine = lc.LC(fine)
	nos = {fg.getruleno(r, yf): (r, yf) for (r, yf), _ in frules
			if r[1] != 'Epsilon'}
	for sent in sents:
		cref = Ref(coarse, sent, None, 20000)
		if cref.edges is None or not sent:
			continue
		root = 'ROOT', (1 << len(sent)) - 1
		words = ['w%d' % i for i in range(shift)] + list(sent)
		if mode in ('cfg', 'cfg-lcfrs', 'split'):
			chart, _ = pcfg.parse(words, cg)
		else:
			chart, _ = plcfrs.parse(words, cg, exhaustive=True)
		if root not in cref.edges:
			ctx.ok(not chart, 'coarse parse', '%r %r', sent, coarse)
			continue
		ctx.ok(chart, 'coarse parse', '%r %r', sent, coarse)
		ctx.ev('coarse parses')
		if rng.random() < 0.3:
			# filter first, as with an additional stage in between
			ctx.ev('additional stage')
			cg.getmapping(cg)
			cfg = mode not in ('lcfrs', )
			whitelist, _ = coarsetofine.prunechart(chart, cg, 0, False, False, cfg)
			if cfg:
				chart, _ = pcfg.parse(words, cg, whitelist=whitelist)
			else:
				chart, _ = plcfrs.parse(words, cg, whitelist=whitelist,
						exhaustive=True)
			ctx.ok(chart, 'filtered parse', '%r %r', sent, coarse)
			keep = lc.reachable(cref.edges, root)
			cref.edges = {a: b for a, b in cref.edges.items() if a in keep}
		cyclic = lc.cyclic(cref.edges, root)
		for _ in range(2):
			prune(rng, mode, split, markorigin, words, sent, shift, start, chart,
					cref, root, cyclic, cg, fg, crules, frules, fine, lfine,
					project, nos, (never, mapping, coarse, fine), ctx)


def components(label, fanout, markorigin):
	if fanout == 1:
		return [label]
	return ['%s*%s' % (label, n if markorigin else '') for n in range(fanout)]


def prune(rng, mode, split, markorigin, words, sent, shift, start, chart, cref,
		root, cyclic, cg, fg, crules, frules, fine, lfine, project, nos, desc,
		ctx):
	kind = rng.choice(['kbest', 'kbest', 'filter', 'posterior', 'constraints'])
	require, block = set(), set()
	every = lc.reachable(cref.edges, root)
	if kind == 'constraints':
		kind = rng.choice(['kbest', 'kbest', 'filter'])
		for x in (require, block):
			for _ in range(rng.choice([0, 1, 1, 2])):
				a, m = rng.choice(sorted(every))
				if bare(a) and (a, m) != root and (mode == 'lcfrs'
						or len(g.parts(bits(m))) == 1):
					x.add((bare(a) if rng.random() < 0.9 else 'NP',
							tuple(i + shift for i in bits(m))))
	k = {'filter': 0, 'kbest': rng.choice(KS if not cyclic else KS[:-1]),
			'posterior': rng.choice([1e-9, 0.001, 0.05, 0.3, 0.7])}[kind]
	if k == KS[-1] and lc.count(cref.edges, root) > 3000:
		k = 50
	up = lambda items: {(a, m >> shift) for a, m in items
			if not m & ((1 << shift) - 1) and a not in ('TOP', )
			and not (shift and re.match('[PW][0-9]+$', a))}
	desc = (mode, markorigin, k, require, block, shift, sent) + desc
	# what should remain
	if kind == 'filter':
		retained = every
		# the other items are dropped from the chart
		cref.edges = {a: b for a, b in cref.edges.items() if a in every}
	elif kind == 'posterior':
		post = posteriors(cref.edges, root)
		if post is None or any(abs(p / k - 1) < 1e-4 for p in post.values()):
			return
		ctx.ev('cyclic posterior', cyclic)
		retained = {a for a, p in post.items() if p > k}
		ctx.ev('posterior removed', len(retained) < len(post))
	else:
		derivs = [up(derivitems(s)) for s, _ in kbest.lazykbest(chart, k)]
		if not cyclic and lc.count(cref.edges, root) <= k:
			ctx.ev('all coarse derivations')
			ctx.eq(set().union(*derivs), every, 'all derivations', desc)
		if require:
			tests = [{(a, m) for a, m in cref.edges if bare(a) == b
					and bits(m << shift) == idx} for b, idx in require]
			if not all(tests):
				derivs = None
			else:
				derivs = [d for d in derivs if all(d & t for t in tests)]
			ctx.ev('required spans')
		retained = set().union(*derivs) if derivs is not None else None
	if retained is not None and block:
		ctx.ev('blocked spans')
		# components of discontinuous constituents are not blocked
		retained = {(a, m) for a, m in retained if '*' in a or not any(
				bare(a) == b
				and bits(m << shift) == idx for b, idx in block)}
	try:
		whitelist, msg = coarsetofine.prunechart(chart, fg, k, split, markorigin,
				mode == 'cfg', require or None, block or None)
	except ValueError as err:
		if shift == 128 and mode != 'cfg' and 'too long' in str(err):
			ctx.ev('too long')
			return
		if retained is None and 'could not fulfill' in str(err):
			ctx.ev('unfulfillable')
			return
		raise
	ctx.ok(retained is not None, 'impossible requirement', '%r', desc)
	ctx.ev(kind)
	ctx.sample('%s k=%g require=%r block=%r: %r' % (mode, k, require, block, sent))
	ctx.ev(mode)

	def allowed(item):
		a, m = item
		a = project(a)
		if a is None:
			return True
		if not split:
			return (a, m) in retained
		parts = g.parts(list(bits(m)))
		return all((b, sum(1 << i for i in p)) in retained for b, p in zip(
				components(a, len(parts), markorigin), parts))
	edges = lc.chart(lfine, sent, allowed=allowed, limit=20000)
	if edges is None:
		return
	ref = Ref(fine, sent, None, edges=edges)
	if mode == 'cfg':
		fchart, msg = pcfg.parse(words, fg, whitelist=whitelist)
		exhaustive = True
	else:
		exhaustive = rng.random() < 0.8
		fchart, msg = plcfrs.parse(words, fg, whitelist=whitelist,
				splitprune=split, markorigin=markorigin, exhaustive=exhaustive)
	want = ref.get('ROOT')
	ctx.ev('fine parses' if want is not None else 'no fine parse')
	ctx.ev('shifted', shift)
	ctx.eq(bool(fchart), want is not None, 'parsed', desc)
	# the parser gives up when there is no POS tag for a word
	complete = exhaustive and (retained or not shift) and all(any(
			m == 1 << n and any(not isinstance(e[2], tuple) for e in es)
			for (_, m), es in ref.edges.items()) for n in range(len(sent)))
	seen = 0
	for (a, idx), (cost, es) in contents(fchart).items():
		m = sum(1 << i for i in idx)
		if m & ((1 << shift) - 1) or shift and (a == 'TOP' or re.match(
				'[WP][0-9]+$', a)):
			continue
		m >>= shift
		if not es:
			continue
		ctx.ok(allowed((a, m)), 'pruned item', '%r %r %r', (a, m), desc, retained)
		p = ref.best.get((a, m))
		ctx.ok(p is not None, 'underivable item', '%r %r', (a, m), desc)
		ctx.ev('items compared')
		ctx.ok(-cost <= p + 1e-9 and (close(p, -cost) or not complete),
				'item probability', '%r want %r: %r %r', -cost, p, (a, m), desc)
		if complete:
			ctx.eq(len(es), len(ref.edges[a, m]), 'edges', (a, m, desc))
		seen += 1
	if complete:
		ctx.eq(seen, len(ref.edges), 'items', desc)
	free = lc.chart(lfine, sent, limit=20000)
	if want is None:
		return
	ctx.ev('fan-out', any(len(g.parts(bits(m))) > 1 for _, m in ref.edges))
	s, cost = kbest.lazykbest(fchart, 1)[0]
	ctx.ok(close(want, -cost), 'not the best', '%r want %r: %r', -cost, want, desc)
	bad = [x for x in up(derivitems(s)) if not allowed(x)]
	ctx.ok(not bad, 'pruned item used', '%r %r %r', bad, s, desc)
	if free is not None:
		ctx.ev('pruned', len(free) > len(edges))
		best = lc.viterbi(free).get(('ROOT', (1 << len(sent)) - 1))
		ctx.ev('same best', close(best, want))
		ctx.ev('other best', not close(best, want))
		if len(free) > len(edges):
			ctx.nontrivial(desc[6:])


def bits(m):
	return tuple(i for i in range(m.bit_length()) if m >> i & 1)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'random': (gencase, check, 450 * k),
		'split': (gensplit, check, 260 * k)}

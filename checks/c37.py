"""C37: outside estimates never underestimate what is achievable."""
import contextlib
import io
import math
import random
from collections import defaultdict
import numpy as np
from discodop.tree import Tree
from discodop.containers import Grammar
from discodop import plcfrs, kbest, estimates
import g
import gg
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'estimates',
		'coarsetofine', 'disambiguation', '_fragments'],
	rule='random PCFGs and LCFRSs (fan-out up to 3, unary cycles, recursion, '
	'skewed weights) and grammars of random treebanks; words are kept or '
	'merged into a single word, such that all structures compete; every item of '
	'exhaustive reference charts of sentences up to the table length; '
	'nontrivial: items with words on both sides or with gaps; counted by '
	'grammar, sentence, and item',
	require={'grammars': 100, 'items': 10000, 'finite': 5000,
		'achieved exactly': 2000, 'SX': 3000, 'SXlrgaps': 5000, 'rec': 1000,
		'items with gaps': 500, 'items with fan-out 3': 10,
		'inside by length': 2000, 'inside by yield': 2000,
		'inside by yield with gaps': 300, 'inside impossible': 500,
		'parses': 500, 'treebank grammars': 20, 'sentence of table length': 50,
		'long sentences': 5},
	assumptions='tags are assigned from the lexicon (not supplied tags that are '
	'unseen for a word); getpcfgestimatesrec for grammars without unary '
	'productions, as documented',
)
LABELS = ['A', 'B', 'C', 'D', 'E', 'F']


def outside(edges, best, root):
	"""Best log probability of the completion of each reachable item."""
	out = {root: 0.}
	todo = [root]
	while todo:
		item = todo.pop()
		for p, _, ch in edges[item]:
			if not isinstance(ch, tuple):
				continue
			for n, c in enumerate(ch):
				x = out[item] + math.log(p) + sum(
						best[d] for m, d in enumerate(ch) if m != n)
				if c not in out or x > out[c] + 1e-12:
					out[c] = x
					todo.append(c)
	return out


def gengrammar(rng, ctx, disc=None, unary=None):
	if rng.random() < 0.25 and unary is None:
		from discodop.grammar import treebankgrammar
		from discodop.treetransforms import addbitsets
		trees, sents = g.randtreebank(rng, rng.randint(2, 6), maxlen=8,
				disc=rng.choice([0, 0.8]), maxar=3, labels=g.LABELS[:3],
				tags=g.TAGS[:3], words=g.WORDS[:4])
		trees = [g.totree(lc.binarized(rng, m), Tree) for m in trees]
		root = {t.label for t in trees}
		if len(root) == 1:
			return treebankgrammar([addbitsets(t) for t in trees], [list(map(
					lc.esc, s)) for s in sents]), root.pop(), 1
	disc = rng.random() < 0.6 if disc is None else disc
	res = gg.grammar(rng, disc=disc, size=rng.choice([2, 3, 4, 6]),
			labels=LABELS, vocab=gg.VOCAB[:rng.choice([2, 4])],
			unary=rng.choice([0.1, 0.3, 0.5]) if unary is None else unary)
	if rng.random() < 0.4:
		res = gg.swap(rng, res)
	return res, 'ROOT', 0


def merged(rules):
	"""Replace all words by a single one."""
	lex = defaultdict(int)
	out = []
	for (r, yf), w in rules:
		if r[1] == 'Epsilon':
			lex[r] = lex[r] + w
		else:
			out.append(((r, yf), w))
	return out + [((r, ('a', )), w) for r, w in lex.items()]


def quiet(func, *args):
	with contextlib.redirect_stdout(io.StringIO()):
		return func(*args)


def genadm(rng, ctx):
	unary = 0 if rng.random() < 0.2 else None
	rules, root, tb = gengrammar(rng, ctx, unary=unary,
			disc=False if unary == 0 else None)
	return (merged(rules) if rng.random() < 0.6 else rules, root, tb,
			rng.choice([3, 5, 6, 7, 8]), rng.random())


def checkadm(case, ctx):
	rules, start, tb, maxlen, seed = case
	rng = random.Random(seed)
	gr = Grammar(list(rules), start=start)
	ref = lc.LC(rules, start=start)
	ctx.ev('grammars')
	ctx.ev('treebank grammars', tb)
	toid = {a: n for n, a in enumerate(gr.getlabels(), 1)}
	est = [('SXlrgaps', quiet(estimates.getestimates, gr, maxlen, start))]
	if gr.maxfanout == 1:
		est.append(('SX', quiet(estimates.getpcfgestimates, gr, maxlen, start)))
		if not any(len(r) == 2 and r[1] != 'Epsilon' for (r, _), _ in rules):
			est.append(('rec', quiet(estimates.getpcfgestimatesrec, gr, maxlen,
					toid[start])))
	vocab = sorted({yf[0] for (r, yf), _ in rules if r[1] == 'Epsilon'})
	sents = {(vocab[0], ) * n for n in range(1, maxlen + 1)} if len(
			vocab) == 1 else {tuple(gg.sentence(rng, rules, maxlen, vocab, 0))
			for _ in range(8)}
	for sent in sorted(sents):
		n = len(sent)
		if n > maxlen:
			continue
		edges = lc.chart(ref, sent, limit=6000)
		item = start, (1 << n) - 1
		if edges is None or item not in edges:
			continue
		best = lc.viterbi(edges)
		out = outside(edges, best, item)
		ctx.ev('sentence of table length', n == maxlen)
		for (label, vec), x in out.items():
			length = bin(vec).count('1')
			left = (vec & -vec).bit_length() - 1
			gaps = vec.bit_length() - length - left
			right = n - length - left - gaps
			ctx.ev('items')
			fanout = len(g.parts([i for i in range(n) if vec >> i & 1]))
			ctx.ev('items with gaps', fanout > 1)
			ctx.ev('items with fan-out 3', fanout > 2)
			if fanout > 1 or (left and right):
				ctx.nontrivial((start, len(rules), sent, label, vec))
			for name, table in est:
				e = (table[toid[label], length, left + right, gaps]
						if name == 'SXlrgaps'
						else table[toid[label], left, right, 0])
				ctx.ev(name)
				ctx.ev('finite', bool(0 < e < math.inf))
				ctx.ev('achieved exactly', bool(abs(e + x) < 1e-9))
				ctx.ok(e <= -x + 1e-8 * (1 + abs(x)), 'admissible ' + name,
						'%s %s in %r: estimate %r, best completion %r; '
						'maxlen=%d\n%r', label, bin(vec), sent, e, -x, maxlen,
						rules)
		# parses
		for name, table in est:
			if name == 'rec':
				continue
			for ex in (False, True):
				chart, msg = plcfrs.parse(list(sent), gr, exhaustive=ex,
						estimates=(name, table))
				ctx.ev('parses')
				ctx.ok(chart, 'parse with estimates', '%s %s %r %r', name, msg,
						sent, rules)
				s, cost = kbest.lazykbest(chart, 1)[0]
				ctx.ok(abs(cost + best[item]) <= 1e-6 * (1 + cost),
						'best parse with ' + name, '%r: %r %r; %r\n%r', s, cost,
						-best[item], sent, rules)
	ctx.sample((start, maxlen, rules[:4]))


def geninside(rng, ctx):
	rules, root, tb = gengrammar(rng, ctx)
	return rules, root, tb, rng.choice([1, 2, 4, 6, 7, 9])


def checkinside(case, ctx):
	rules, start, tb, maxlen = case
	gr = Grammar(list(rules), start=start)
	ref = lc.LC(rules, start=start)
	ctx.ev('grammars')
	toid = {a: n for n, a in enumerate(gr.getlabels(), 1)}
	lex = defaultdict(lambda: math.inf)
	for w, tags in ref.lex.items():
		for t, p in tags:
			lex[t] = min(lex[t], -math.log(p))
	# by length
	table = np.empty((gr.nonterminals, maxlen + 1), dtype='d')
	table[...] = np.nan
	quiet(estimates.simpleinside, gr, maxlen, table)
	unary = [(lhs, b, -math.log(p)) for b, x in ref.unary.items()
			for lhs, p, r in x]
	binary = [(lhs, a, b, yf, -math.log(p)) for (a, b, yf), x
			in ref.binary.items() for lhs, p, r in x]
	best = defaultdict(lambda: math.inf)
	for t, x in lex.items():
		best[t, 1] = x
	for n in range(1, maxlen + 1):
		for lhs, a, b, yf, p in binary:
			for m in range(1, n):
				x = best[a, m] + best[b, n - m] + p
				best[lhs, n] = min(best[lhs, n], x)
		change = True
		while change:
			change = False
			for lhs, b, p in unary:
				if best[b, n] + p < best[lhs, n] - 1e-12:
					best[lhs, n] = best[b, n] + p
					change = True
	for a, i in toid.items():
		for n in range(1, maxlen + 1):
			got, want = table[i, n], best[a, n]
			if want == math.inf:
				ctx.ev('inside impossible')
				ctx.ok(got == want or got != got, 'inside by length',
						'%s %d: %r, expected %r\n%r', a, n, got, want, rules)
				continue
			ctx.ev('inside by length')
			if n > 2:
				ctx.nontrivial((a, n, tuple(rules[0][0]), len(rules)))
			ctx.ok(abs(got - want) <= 1e-8 * (1 + want), 'inside by length',
					'%s %d: %r, expected %r\n%r', a, n, got, want, rules)
	# by yield; gaps are normalized to a single position
	if maxlen > 7:
		return
	got = quiet(estimates.inside, gr, maxlen, {})
	got = {(a, vec): x for a, i in toid.items()
			for vec, x in got.get(i, {}).items()}
	fan = {r[0]: len(yf) for (r, yf), _ in rules if r[1] != 'Epsilon'}
	best = {}
	todo = []

	def add(item, x):
		if x < best.get(item, math.inf) - 1e-12:
			best[item] = x
			todo.append(item)
	for t, x in lex.items():
		add((t, (1, )), x)
	while todo:
		b, sp = todo.pop()
		x = best[b, sp]
		for lhs, c, p in unary:
			if c == b:
				add((lhs, sp), x + p)
		for (r, yf), w in rules:
			if len(r) == 3 and b in r[1:]:
				for c, sp2 in list(best):
					for l, s1, rr, s2 in ((b, sp, c, sp2), (c, sp2, b, sp)):
						if r[1:] != (l, rr) or sum(s1) + sum(s2) + len(
								yf) > maxlen + 1:
							continue
						its = iter(s1), iter(s2)
						new = tuple(sum(next(its[k]) for k in comp)
								for comp in yf)
						p = prob(ref, r, yf)
						add((r[0], new), best[l, s1] + best[rr, s2] + p)
	want = {}
	for (a, sp), x in best.items():
		vec = pos = 0
		for n in sp:
			vec |= ((1 << n) - 1) << pos
			pos += n + 1
		want[a, vec] = x
	for k, x in want.items():
		if k[1].bit_length() > maxlen:
			continue
		ctx.ev('inside by yield')
		ctx.ev('inside by yield with gaps', bin(k[1])[2:].count('0') > 0)
		ctx.ok(k in got, 'inside by yield missing', '%r %r\n%r', k, x, rules)
		ctx.ok(abs(got[k] - x) <= 1e-8 * (1 + x), 'inside by yield',
				'%s %s: %r, expected %r\n%r', k[0], bin(k[1]), got[k], x, rules)
	for k, x in got.items():
		ctx.ok(k in want, 'inside by yield extra', '%s %s: %r; maxlen=%d\n%r',
				k[0], bin(k[1]), x, maxlen, rules)


def prob(ref, r, yf):
	for lhs, p, rule in ref.binary[r[1], r[2], yf]:
		if lhs == r[0]:
			return -math.log(p)
	raise KeyError(r)


def genlong(rng, ctx):
	return rng.randint(60, 75), rng.random()


def checklong(case, ctx):
	"""Estimates for sentences around and beyond 64 words."""
	n, seed = case
	rng = random.Random(seed)
	w = [rng.randint(1, 9) for _ in range(9)]
	rules = [((('ROOT', 'A'), ((0, ), )), w[0]),
		((('A', 'T', 'A'), ((0, 1), )), w[1]),
		((('A', 'A', 'U'), ((0, 1), )), w[2]),
		((('A', 'T'), ((0, ), )), w[3]), ((('A', 'U'), ((0, ), )), w[4]),
		((('T', 'Epsilon'), ('a', )), w[5]), ((('T', 'Epsilon'), ('b', )), w[6]),
		((('U', 'Epsilon'), ('a', )), w[7]), ((('U', 'Epsilon'), ('c', )), w[8])]
	gr = Grammar(rules)
	# unambiguous prefix and suffix
	k = rng.randrange(n)
	sent = ['b'] * k + ['a'] + ['c'] * (n - 1 - k)
	maxlen = n if rng.random() < 0.7 else n - 1
	table = quiet(estimates.getpcfgestimates, gr, maxlen, 'ROOT')
	a, msg = plcfrs.parse(sent, gr)
	b, msg = plcfrs.parse(sent, gr, estimates=('SX', table))
	ctx.ev('long sentences')
	ctx.ok(a and b, 'long sentence parsed', '%r', case)
	x, y = kbest.lazykbest(a, 1)[0], kbest.lazykbest(b, 1)[0]
	tot = sum(w[1:5])
	tt, uu = w[5] + w[6], w[7] + w[8]
	lp = {('T', 'a'): w[5] / tt, ('T', 'b'): w[6] / tt,
			('U', 'a'): w[7] / uu, ('U', 'c'): w[8] / uu}
	want = -math.inf
	for j in range(max(0, k - 1), min(n, k + 2)):
		for base in 'TU':
			p = [w[1] / tot * lp.get(('T', x), 0) for x in sent[:j]]
			p += [w[2] / tot * lp.get(('U', x), 0) for x in sent[j + 1:]]
			p.append(w[3 + (base == 'U')] / tot * lp.get((base, sent[j]), 0))
			if all(p):
				want = max(want, sum(map(math.log, p)))
	for z in x, y:
		ctx.ok(abs(z[1] + want) <= 1e-6 * abs(want), 'long sentence probability',
				'%r, expected %r: %r', z, -want, case)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'admissible': (genadm, checkadm, 1000 * k),
		'inside': (geninside, checkinside, 1000 * k),
		'long': (genlong, checklong, 16 * k),
	}

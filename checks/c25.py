"""C25: disambiguation maximizes its objective over the derivations."""
import math
import re
from collections import Counter, defaultdict
from discodop.tree import Tree
from discodop.treetransforms import addbitsets
from discodop.grammar import (dopreduction, dopgrammar, compiletsg,
		treebankgrammar)
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, disambiguation
import g
import lc
from checks import c17, c18

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'disambiguation',
		'_fragments'],
	rule='DOP reductions and fragment grammars (given weights and relative '
	'frequencies, ewe, bon) of random treebanks (1-5 trees up to 9 tokens, '
	'discontinuities, unaries, recurring parts); sentences of up to 7 tokens; '
	'lists with all and with the k best derivations; nontrivial: several '
	'derivations for a tree, and several trees; counted by grammar and sentence',
	require={'reduction': 150, 'fragments': 150, 'derivations': 50000,
		'mpp': 300, 'mpd': 300, 'shortest': 300, 'sl-dop': 100,
		'sl-dop-simple': 300, 'mcp': 500, 'ties for shortest': 40,
		'several trees': 120, 'order differs mpp mpd': 4,
		'shortest is not mpp': 15, 'mcp is not mpp': 40, 'mcp labels': 200,
		'constraints': 300, 'removed by constraints': 300,
		'tree probabilities': 150, 'explicit fragments': 40, 'reranked': 60,
		'fragment lists': 5000, 'weights of fragments': 500, 'discontinuous': 20, 'many fragments': 1000,
		'trees parsed': 150, 'one derivation': 100, 'repeated unaries': 8,
		'direct constraints': 300},
)
REMOVEIDS = disambiguation.REMOVEIDS
REL = 1e-6
GR = lc.LC([])


def noderule(x, words):
	return lc.noderule(GR, x, list(map(lc.esc, words)))


def close(a, b):
	return abs(a - b) <= REL * max(abs(a), abs(b))


def gen(rng, ctx):
	disc = rng.choice([0, 0, 0.9])
	many = rng.random() < 0.4
	trees, sents = g.randtreebank(rng, rng.randint(1, 5),
			maxlen=rng.choice([3, 5, 7]), disc=disc, maxar=3,
			unary=rng.choice([0, 0, 0.1]),
			words=g.WORDS[:rng.choice([1, 2, 2, 3])],
			labels=g.LABELS[:rng.choice([1, 2, 3])],
			tags=g.TAGS[:rng.choice([1, 1, 2])])
	if many:
		m, s = g.randtreebank(rng, 1, maxlen=12, disc=0, maxar=2,
				words=g.WORDS[:2], labels=g.LABELS[:1], tags=g.TAGS[:1])
		trees, sents = trees[:1] + m, sents[:1] + s
	return rng, [lc.binarized(rng, m) for m in trees], sents


# derivations are analyzed as (plain tree, fragments, pattern)
def plain(m):
	"""Tree without addresses."""
	if not isinstance(m, tuple):
		return m
	return m[0].split('@')[0], tuple(map(plain, m[1]))


def shape(m):
	"""Tree where addresses are replaced by a mark."""
	if not isinstance(m, tuple):
		return m
	a, at, _ = m[0].partition('@')
	return a + at, tuple(map(shape, m[1]))


def redfragments(m, words):
	"""Multiset of abstract fragments of a derivation of a reduction."""
	def piece(x):
		if not isinstance(x[1][0], tuple):
			return x[0].split('@')[0], lc.esc(words[x[1][0]])
		a = c17.abstract(x, words)
		return (a[0].split('@')[0], a[1], tuple(piece(c) if '@' in c[0]
				else (c[0], ) for c in x[1]))
	return Counter(piece(x) for x in g.nodes(m) if '@' not in x[0])


def tsgderiv(m, words, templates, depth=0):
	"""Expand derivation -> (tree, Counter of (abstract) fragments)."""
	used = Counter()

	def collapse(x):
		for c in x[1]:
			if isinstance(c, tuple) and '}<' in c[0]:
				yield from collapse(c)
			else:
				yield c

	def get(x):
		if not isinstance(x[1][0], tuple):
			tag = x[0].split('@')[0]
			if '@' not in x[0]:
				used[tag, lc.esc(words[x[1][0]])] += 1
			return tag, x[1]
		rule = noderule(x, words)
		kids = sorted(collapse(x), key=lambda c: min(g.leaves(c)))
		t = templates[rule]
		done = [get(c) for c in kids]
		tree = lc.parsetree(t.format(*['(<%d> 0)' % n for n in range(
				len(kids))]))

		def subst(y):
			if y[0].startswith('<'):
				return done[int(y[0][1:-1])]
			return y[0], tuple(map(subst, y[1]))

		def piece(y):
			if y[0].startswith('<'):
				n = int(y[0][1:-1])
				if '@' in kids[n][0]:
					return done[n][0], lc.esc(words[done[n][1][0]])
				return (done[n][0], )
			full = subst(y)
			return (y[0], c17.abstract(full, words)[1], tuple(map(piece, y[1])))
		used[piece(tree)] += 1
		return subst(tree)
	return get(m), used


class Derivation:
	def __init__(self, tree, pattern, frags, prob, string, n, short=None):
		self.tree, self.pattern, self.frags = tree, pattern, frags
		self.prob, self.string, self.n, self.short = prob, string, n, short


def derivs(ctx, chart, s, templates, desc):
	"""List of derivations; based on the strings from the chart."""
	res = []
	for n, (d, p) in enumerate(chart.derivations):
		m = lc.parsetree(d)
		ctx.ev('derivations')
		if templates is None:
			res.append(Derivation(plain(m), shape(m), redfragments(m, s),
					math.exp(-p), d, n))
		else:
			t, frags = tsgderiv(m, s, templates)
			res.append(Derivation(t, t, frags, math.exp(-p), d, n))
	return res


def modelprob(d, gr, weights, words):
	"""Probability of derivation string given dictionary of weights."""
	p = 1.0
	for x in g.nodes(lc.parsetree(d)):
		p *= weights[noderule(x, words)]
	return p


def astree(s):
	return lc.parsetree(s)


def check(case, ctx):
	rng, trees, sents = case
	red = rng.random() < 0.5
	ab = [c17.abstract(m, s) for m, s in zip(trees, sents)]
	if red and max(map(c17.nfrag, ab)) > 3000:
		return
	desc = (red, trees, sents)
	ts = [g.totree(m, Tree) for m in trees]
	model = None
	est = None
	if red:
		gram, alt = dopreduction(ts, [list(s) for s in sents],
				packedgraph=rng.random() < 0.5)
		est = rng.choice(['default', 'ewe', 'bon'])
		backtransform = templates = None
	else:
		frags = c18.fragset(rng, trees, sents)
		occ = {}
		for f, (a, _) in frags.items():
			occ[f] = [n for n, b in enumerate(ab) for x in c18.subtrees(b)
					if c18.match(a, x) is not None]
		gram, backtransform, alt, _ = dopgrammar(ts, occ)
		est = rng.choice(['default', 'ewe', 'bon'])
		templates = {r: t for (r, _), t in zip(gram, backtransform)}
	gr = Grammar(gram, start='ROOT', altweights=alt,
			backtransform=backtransform)
	if red:
		gr.getmapping(None, striplabelre=REMOVEIDS)
		gr.getrulemapping(gr, re.compile(r'@[-0-9]+\b'))
	else:
		gr.getmapping(None, neverblockre=re.compile('.+}<'))
	mass = Counter()
	for (r, _), w in gram:
		mass[r[0]] += w
	weights = {}
	for k, ((r, yf), w) in enumerate(gram):
		weights[r, yf] = (w / mass[r[0]] if est == 'default'
				else float(alt[est][k]))
	short = {rule: float(x) for (rule, _), x in zip(gram, alt['shortest'])}
	base = sorted({r for a in ab for r in c17.rules(a)})
	# sentence: from the treebank, or another with these words
	ref = lc.LC([(r, 1) for r in base])
	for _ in range(4):
		s = list(rng.choice(sents))
		if rng.random() < 0.5:
			s = [rng.choice(rng.choice(sents)) for _ in range(rng.randint(1, 7))]
		if len(s) > (12 if red else 9):
			continue
		edges = lc.chart(ref, list(map(lc.esc, s)))
		if edges is not None and ('ROOT', (1 << len(s)) - 1) in edges:
			break
	else:
		ctx.ev('no sentence')
		return
	root = ('ROOT', (1 << len(s)) - 1)
	cyc = lc.cyclic(edges, root)
	if not cyc and lc.count(edges, root) > 200:
		ctx.ev('too many derivations')
		return
	k = rng.choice([1, 3, 10, 30]) if cyc or rng.random() < 0.25 else 1200
	ctx.ev('reduction' if red else 'fragments')
	ctx.ev('discontinuous', gr.maxfanout > 1)
	desc = (desc, est, s, k)
	parser = pcfg if gr.maxfanout == 1 and rng.random() < 0.5 else plcfrs

	def parse(m):
		gr.switch(m, True)
		chart, msg = parser.parse(list(s), gr)
		ctx.ok(chart, 'no parse', '%r', desc)
		return chart

	chart = parse(est)

	def fresh():
		disambiguation.getderivations(chart, k, True)
		return derivs(ctx, chart, s, templates, desc)
	ds = fresh()
	full = len(ds) < k and not cyc
	if not full and not cyc and k == 1200:
		ctx.ev('too many derivations')
		return
	bytree, best = defaultdict(float), defaultdict(float)
	for d in ds:
		ctx.ok(close(d.prob, modelprob(d.string, gr, weights, s)),
				'HARNESS: probability of derivation', '%r %r', d.string, desc)
		bytree[d.tree] += d.prob
		best[d.pattern] = max(best[d.pattern], d.prob)
	ctx.ev('several trees', len(bytree) > 1)
	if len(bytree) > 1 and len(ds) > len(bytree):
		ctx.nontrivial((trees, sents, s, red))
	# spans for constraints
	spans = sorted({(x[0], tuple(sorted(g.leaves(x)))) for t in bytree
			for x in g.nodes(t)})
	mpptree = mpp(ctx, rng, chart, fresh, ds, bytree, spans, red, desc, s)
	mpd(ctx, rng, chart, fresh, ds, best, spans, red, desc, s, mpptree)
	simple(ctx, rng, chart, fresh, ds, bytree, red, desc, s)
	mcp(ctx, rng, chart, fresh, ds, bytree, red, desc, s, mpptree)
	vit, p = disambiguation.viterbiderivation(chart)
	ctx.ok(close(math.exp(-p), max(d.prob for d in ds)), 'viterbi derivation',
			'%r %r %r', vit, p, desc)
	if full and (parser is plcfrs or rng.random() < 0.3):
		fresh()
		sldop(ctx, rng, chart, gr, est, short, ds, bytree, red, desc, s)
	shortest(ctx, rng, parse, gr, est, k, cyc, weights, short, templates, spans,
			red, desc, s, mpptree)
	if red and cyc:
		gr.switch(est, True)
		cyclicgiven(ctx, gr, ab, weights, bytree, s, desc)
	if red and full:
		gr.switch(est, True)
		given(ctx, rng, gr, gram, ds, bytree, s, ab, base, est, trees, sents,
				desc)
	elif full:
		gr.switch(est, True)
		treeparse(ctx, rng, gr, backtransform, ds, bytree, templates, s, desc)
	if rng.random() < 0.02:
		ctx.sample({'sent': s, 'derivations': len(ds), 'trees': len(bytree),
				'reduction': red, 'estimator': est})


def result(ctx, parses, what, desc, dup=False):
	got = {}
	for t, p, fr in parses:
		ctx.ok('}<' not in t and '@' not in t, 'marker in tree', '%s %r %r',
				what, t, desc)
		t1 = lc.parsetree(t)
		if dup:
			got.setdefault(t1, []).append((p, fr))
		else:
			ctx.ok(t1 not in got, 'duplicate tree', '%s %r %r', what, t, desc)
			got[t1] = (p, fr)
	return got


def fraglist(ctx, fr, allowed, s, what, desc):
	"""Reported fragments are those of one of the given derivations."""
	ctx.ev('fragment lists')
	got = Counter()
	for f, _ in fr:
		f1, words = c18.parsefrag(f)
		got[c18.abstract2(f1, words)] += 1
	ctx.ev('many fragments', sum(got.values()) > 5)
	if len(allowed[0].frags) == 1 and not fr:
		ctx.ev('lexical root')
		return
	ctx.ok(any(d.frags == got for d in allowed),
			'fragments of derivation', '%s %r %r', what, fr, desc)
	if all(w for _, w in fr) and what not in ('shortest', 'sl-dop'):
		# weights are printed with 6 digits
		weight = 1.0
		for _, w in fr:
			m = re.match(r'rel. freq: (\S+)/(\S+); weight: (\S+)$', w)
			ctx.ok(m, 'weight of fragment', '%r', w)
			weight *= float(m.group(3))
		ctx.ev('weights of fragments')
		ctx.ok(any(d.frags == got and abs(x - weight)
				<= (len(fr) + 1) * 1e-5 * x for d in allowed
				for x in [d.prob]),
				'product of weights of fragments is not the probability of '
				'the derivation', '%s %r %r %r %r', what, weight,
				[d.prob for d in allowed if d.frags == got], fr, desc)


def constrain(ctx, rng, spans, trees):
	"""Random required / blocked spans and the trees that fulfill them."""
	a = rng.sample(spans, min(len(spans), rng.choice([0, 1, 1, 2])))
	b = rng.sample(spans, min(len(spans), rng.choice([0, 1, 1])))
	if rng.random() < 0.1:
		a.append(('NO', (0, )))
	ctx.ev('constraints')
	res = set()
	for t in trees:
		have = {(x[0], tuple(sorted(g.leaves(x)))) for x in g.nodes(t)}
		if have.issuperset(a) and not have.intersection(b):
			res.add(t)
	ctx.ev('removed by constraints', len(trees) - len(res))
	return (set(a) if a or rng.random() < 0.5 else None), (
			set(b) if b or rng.random() < 0.5 else None), res


def mpp(ctx, rng, chart, fresh, ds, want, spans, red, desc, s):
	fresh()
	require = block = None
	keep = set(want)
	if rng.random() < 0.5:
		require, block, keep = constrain(ctx, rng, spans, want)
	parses, _ = disambiguation.marginalize('mpp', chart, require=require,
			block=block)
	ctx.ev('mpp')
	got = result(ctx, parses, 'mpp', desc)
	ctx.eq(set(got), keep, 'trees', ('mpp', require, block, desc))
	for t, (p, fr) in got.items():
		ctx.ok(close(p, want[t]), 'parse probability', '%r %r %r %r', p,
				want[t], t, desc)
		m = max(d.prob for d in ds if d.tree == t)
		fraglist(ctx, fr, [d for d in ds if d.tree == t and close(m, d.prob)], s,
				'mpp', desc)
	top = max(want.values())
	return [t for t in want if close(want[t], top)]


def mpd(ctx, rng, chart, fresh, ds, want, spans, red, desc, s, mpptree):
	fresh()
	require = block = None
	trees = {d.tree for d in ds}
	keep = trees
	if rng.random() < 0.3:
		require, block, keep = constrain(ctx, rng, spans, trees)
	parses, _ = disambiguation.marginalize('mpd', chart, require=require,
			block=block)
	ctx.ev('mpd')
	got = result(ctx, parses, 'mpd', desc, dup=red)
	ctx.eq(set(got), keep, 'trees', ('mpd', require, block, desc))
	wanted = defaultdict(list)
	for d in ds:
		wanted[d.tree, d.pattern].append(d)
	for t in got:
		w = sorted(best for (t1, pat), x in wanted.items() if t1 == t
				for best in [max(d.prob for d in x)])
		res = got[t] if red else [got[t]]
		ps = sorted(p for p, _ in res)
		ctx.ok(len(ps) == len(w) and all(map(close, ps, w)),
				'probabilities of derivations', '%r %r %r %r', ps, w, t, desc)
		for p, fr in res:
			fraglist(ctx, fr, [d for d in ds if d.tree == t
					and close(d.prob, p)], s, 'mpd', desc)
	top = max(d.prob for d in ds)
	ctx.ev('order differs mpp mpd', not any(close(d.prob, top)
			and d.tree in mpptree for d in ds))


def nfrags(d):
	return sum(d.frags.values())


def simple(ctx, rng, chart, fresh, ds, want, red, desc, s):
	fresh()
	n = rng.choice([1, 2, 3, 7, 10000])
	parses, _ = disambiguation.marginalize('sl-dop-simple', chart, sldop_n=n)
	ctx.ev('sl-dop-simple')
	slcheck(ctx, parses, n, want, {t: min(nfrags(d) for d in ds if d.tree == t)
			for t in want}, ds, 'sl-dop-simple', desc, s)


def slcheck(ctx, parses, n, want, length, ds, what, desc, s):
	got = result(ctx, parses, what, desc)
	ctx.eq(len(got), min(n, len(want)), 'number of trees',
			(what, n, len(want), desc))
	worst = None
	for t, ((a, p), fr) in got.items():
		ctx.ok(t in want, 'tree that is not derived', '%s %r %r', what, t, desc)
		ctx.ok(close(p, want[t]), 'probability of tree', '%s %r %r %r %r', what,
				p, want[t], t, desc)
		ctx.eq(-a, length[t], 'length of shortest derivation',
				(what, t, desc))
		fraglist(ctx, fr, [d for d in ds if d.tree == t
				and nfrags(d) == length[t]], s, what, desc)
		worst = want[t] if worst is None else min(worst, want[t])
	for t, p in want.items():
		ctx.ok(t in got or p <= worst or close(p, worst),
				'not the most probable trees', '%s %d %r %r %r %r', what, n, t, p,
				worst, desc)


def sldop(ctx, rng, chart, gr, est, short, ds, want, red, desc, s):
	n = rng.choice([1, 2, 3, 7, 10000])
	ctx.ev('sl-dop')
	parses, msg = disambiguation.marginalize('sl-dop', chart, sent=list(s),
			k=50000, sldop_n=n)
	ctx.ok(parses, 'no sl-dop parse', '%r %r', msg, desc)
	slcheck(ctx, parses, n, want, {t: min(nfrags(d) for d in ds if d.tree == t)
			for t in want}, ds, 'sl-dop', desc, s)
	ctx.eq(gr.currentmodel, est, 'model of grammar changed', desc)


def shortest(ctx, rng, parse, gr, est, k, cyc, weights, short, templates, spans,
		red, desc, s, mpptree):
	chart = parse('shortest')
	disambiguation.getderivations(chart, k, True)
	ds = derivs(ctx, chart, s, templates, desc)
	gr.switch(est, True)
	low = min(map(nfrags, ds))
	sel = [d for d in ds if nfrags(d) == low]
	ctx.ok(close(max(d.prob for d in ds), 0.5 ** low), 'length of derivation',
			'%r %r', low, desc)
	ctx.ev('ties for shortest', len(sel) > 1)
	want = defaultdict(float)
	for d in sel:
		p = modelprob(d.string, gr, weights, s)
		if red:
			want[d.tree, d.pattern] += p
		else:
			want[d.tree, None] = max(want[d.tree, None], p)
	trees = keep = {t for t, _ in want}
	require = block = None
	if rng.random() < 0.3:
		require, block, keep = constrain(ctx, rng, spans, trees)
	parses, _ = disambiguation.marginalize('shortest', chart, sent=list(s),
			require=require, block=block)
	ctx.ev('shortest')
	ctx.ev('one derivation', low == 1 or len(ds) == 1)
	got = result(ctx, parses, 'shortest', desc, dup=red)
	ctx.eq(set(got), keep, 'trees', ('shortest', require, block, desc))
	for t in got:
		w = sorted(p for (t1, _), p in want.items() if t1 == t)
		res = got[t] if red else [got[t]]
		ps = sorted(p for (_, p), _ in res)
		ctx.eq({abs(a) for (a, _), _ in res}, {low},
				'length of shortest derivation', desc)
		ctx.ok(len(ps) == len(w) and all(map(close, ps, w)),
				'probability of shortest derivation', '%r %r %r %r', ps, w, t,
				desc)
		for _, fr in res:
			fraglist(ctx, fr, [d for d in sel if d.tree == t], s, 'shortest',
					desc)
	top = max(want.values())
	ctx.ev('shortest is not mpp', not any(close(p, top) and t in mpptree
			for (t, _), p in want.items()))


# maximum constituents
def collapsed(m):
	"""Tree with unary chains collapsed, without binarization."""
	lab = m[0]
	while isinstance(m[1][0], tuple) and len(m[1]) == 1:
		m = m[1][0]
		lab += '+' + m[0]
	if not isinstance(m[1][0], tuple):
		return lab, m[1]
	return lab, tuple(sorted(map(collapsed, m[1]), key=g.leaves))


def unbin(m):
	"""Remove artificial nodes of the treebank."""
	if not isinstance(m[1][0], tuple):
		return m
	ch = []
	for c in map(unbin, m[1]):
		if '|<' in c[0]:
			ch.extend(c[1])
		else:
			ch.append(c)
	return m[0], tuple(ch)


def mcpvalue(t, probs, lam, n):
	v = 0.0
	for x in g.nodes(t):
		y = frozenset(g.leaves(x))
		if 1 < len(y) < n:
			p = probs.get((y, x[0]), 0)
			v += p - lam * (1 - p)
	return v


def mcp(ctx, rng, chart, fresh, ds, bytree, red, desc, s, mpptree):
	total = sum(bytree.values())
	probs = defaultdict(float)
	seen = set()
	for t, p in bytree.items():
		c = collapsed(unbin(t))
		for x in g.nodes(c):
			probs[frozenset(g.leaves(x)), x[0]] += p / total
			seen.add(frozenset(g.leaves(x)))
			if isinstance(x[1][0], tuple):
				for n in range(1, len(x[1])):
					seen.add(frozenset(i for y in x[1][n:] for i in g.leaves(y)))
	whole = frozenset(range(len(s)))
	for _ in range(2):
		fresh()
		lam = rng.choice([1.0, 1.0, 0.1, 0.5, 2.0, 5.0])
		labels = None
		if rng.random() < 0.4:
			ctx.ev('mcp labels')
			alllabels = sorted({a for _, a in probs})
			labels = set(rng.sample(alllabels, rng.randint(1, len(alllabels))))
		ctx.ev('mcp')
		parses, msg = disambiguation.marginalize('mcp', chart, mcplambda=lam,
				mcplabels=labels)
		ctx.eq(len(parses), 1, 'mcp fails', (msg, labels, lam, desc))
		t = lc.parsetree(parses[0][0])
		ctx.eq(sorted(g.leaves(t)), list(range(len(s))), 'tokens of mcp parse',
				(t, labels, lam, desc))
		c = collapsed(t)
		pr = {(y, a): p for (y, a), p in probs.items()
				if labels is None or a in labels}
		for x in g.nodes(c):
			y = frozenset(g.leaves(x))
			ctx.ok((y, x[0]) in probs, 'constituent that is not in any '
					'derivation', '%r %r %r', x, t, desc)
		memo = {}
		best = defaultdict(lambda: float('-inf'))
		for (y, a), p in pr.items():
			best[y] = max(best[y], p - lam * (1 - p))

		def value(y):
			if len(y) == 1:
				return 0.0
			if y not in memo:
				m = max([value(a) + value(y - a) for a in seen if a < y
						and min(a) == min(y) and y - a in seen],
						default=float('-inf'))
				if len(y) < len(s):
					m += max(0, best[y])
				memo[y] = m
			return memo[y]
		v = mcpvalue(c, pr, lam, len(s))
		ctx.ok(v >= value(whole) - 1e-6, 'not the maximum constituents parse',
				'%r %r %r %r %r %r', t, v, value(whole), lam, labels, desc)
		for x in g.nodes(c):
			y = frozenset(g.leaves(x))
			if len(y) in (1, len(s)):
				ctx.ok(pr.get((y, x[0]), 0) >= max([p for (y1, _), p in pr.items()
						if y1 == y], default=0) - 1e-6, 'label of root or word',
						'%r %r %r %r', x, t, labels, desc)
		for t1 in bytree:
			ctx.ok(v >= mcpvalue(collapsed(unbin(t1)), pr, lam, len(s)) - 1e-6,
					'derived tree has more constituents', '%r %r %r', t1, t, desc)
	ctx.ev('mcp is not mpp', c not in [collapsed(unbin(x)) for x in mpptree])


def treestr(m):
	if not isinstance(m, tuple):
		return str(m)
	return '(%s %s)' % (m[0], ' '.join(map(treestr, m[1])))


def unaryrepeat(m):
	"""Unary chain with more than one node with the same label."""
	for x in g.nodes(m):
		seen = {x[0]}
		while isinstance(x[1][0], tuple) and len(x[1]) == 1:
			x = x[1][0]
			if x[0] in seen:
				return True
			seen.add(x[0])
	return False


def cyclicgiven(ctx, gr, ab, weights, bytree, s, desc):
	"""Probabilities of given trees when there are cycles."""
	counts = Counter(r for a in ab for r in c17.rules(a))
	coarse = Grammar([x for x in counts.items() if x[0][0][1] != 'Epsilon']
			+ [x for x in counts.items() if x[0][0][1] == 'Epsilon'],
			start='ROOT')
	gr.getrulemapping(coarse, re.compile(r'@[-0-9]+\b'))
	bylhs = defaultdict(list)
	for (r, yf), p in weights.items():
		bylhs[r[0]].append(((r, yf), p))
	for t in sorted(bytree)[:10]:
		ctx.ev('repeated unaries', unaryrepeat(t))
		lp = disambiguation.dopparseprob(addbitsets(Tree(treestr(t))), list(s),
				coarse, gr)
		want = c17.redprob(c17.abstract(t, s), bylhs)[0]
		ctx.ok(close(math.exp(lp), want), 'probability of given tree',
				'%r %r %r %r', math.exp(lp), want, t, desc)


def given(ctx, rng, gr, gram, ds, bytree, s, ab, base, est, trees, sents, desc):
	"""Probabilities of given trees with a DOP reduction."""
	counts = Counter(r for a in ab for r in c17.rules(a))
	coarse = Grammar([x for x in counts.items() if x[0][0][1] != 'Epsilon']
			+ [x for x in counts.items() if x[0][0][1] == 'Epsilon'],
			start='ROOT')
	gr.getrulemapping(coarse, re.compile(r'@[-0-9]+\b'))
	todo = sorted(bytree)
	rng.shuffle(todo)
	for t in todo[:4]:
		ctx.ev('tree probabilities')
		lp = disambiguation.dopparseprob(addbitsets(Tree(treestr(t))), list(s),
				coarse, gr)
		ctx.ok(close(math.exp(lp), bytree[t]), 'probability of given tree',
				'%r %r %r %r', math.exp(lp), bytree[t], t, desc)
		ctx.ev('repeated unaries', unaryrepeat(t))
	if todo:
		parses = [(treestr(t), rng.random(), None) for t in todo[:20]]
		k = rng.choice([1, 3, 20])
		order = sorted(parses, key=lambda x: -x[1])[:k]
		ctx.ev('reranked')
		res, msg = disambiguation.doprerank(parses, list(s), k, coarse, gr)
		ctx.eq([t for t, _, _ in res], [t for t, _, _ in order],
				'reranked trees', desc)
		for t, p, _ in res:
			ctx.ok(close(p, bytree[lc.parsetree(t)]), 'probability of reranked '
					'tree', '%r %r %r', t, p, desc)
	# explicit fragments
	if est == 'default' and max(map(c17.nfrag, ab)) < 1000:
		freq, total = Counter(), Counter()
		for a in ab:
			for x in c17.subtrees(a):
				for f, _ in c17.fragments(x):
					freq[f] += 1
					total[f[0]] += 1
		model = {f: n / total[f[0]] for f, n in freq.items()}
		for t in todo[:4]:
			a = c17.abstract(t, s)
			if c17.nfrag(a) < 1000:
				ctx.ev('explicit fragments')
				w = c17.treeprob(a, model)[0]
				ctx.ok(close(w, bytree[t]), 'sum over fragments',
						'%r %r %r %r', w, bytree[t], t, desc)
	# absent production
	if len(s) > 1:
		bad = Tree('ROOT', [Tree('NEW', [Tree('t', [n])]) if n == 0 else
				Tree('t', [n]) for n in range(2)])
		ctx.eq(disambiguation.dopparseprob(addbitsets(bad), list(s), coarse, gr),
				float('-inf'), 'probability of tree with another rule', desc)
	gr.getrulemapping(gr, re.compile(r'@[-0-9]+\b'))
	treeparse(ctx, rng, gr, None, ds, bytree, None, s, desc)


def treeparse(ctx, rng, gr, backtransform, ds, bytree, templates, s, desc):
	"""All derivations of given trees are found by parsing them."""
	n = rng.choice([1, 1, 2, 3])
	sel = rng.sample(sorted(bytree), min(n, len(bytree)))
	mask = backtransform is None and rng.random() < 0.7
	res, msg, chart = disambiguation.treeparsing([treestr(t) for t in sel],
			list(s), gr, 20000, backtransform, maskrules=mask)
	ctx.ev('trees parsed')
	ctx.ok(chart, 'no parse for given tree', '%r %r', msg, desc)
	got = defaultdict(float)
	allowed = {(x[0], frozenset(g.leaves(x))) for t in sel for x in g.nodes(t)}
	for d, p in res:
		m = lc.parsetree(d)
		t = plain(m) if templates is None else tsgderiv(m, s, templates)[0]
		got[t] += math.exp(-p)
		for x in g.nodes(m):
			if '}<' not in x[0]:
				ctx.ok((x[0].split('@')[0], frozenset(g.leaves(x))) in allowed,
						'constituent not in given trees', '%r %r', x, desc)
	for t in sel:
		ctx.ok(close(got[t], bytree[t]), 'sum of derivations of given tree',
				'%r %r %r %r', got[t], bytree[t], t, desc)


# direct tests of constraints
def genspans(rng, ctx):
	m = g.randtree(rng, rng.randint(1, 7), disc=rng.choice([0, 0.8]))
	return rng, m


def checkspans(case, ctx):
	rng, m = case

	def mark(x):
		if not isinstance(x, tuple):
			return x
		lab = x[0] + rng.choice(['', '', '^S', '^A-B'])
		return lab, tuple(map(mark, x[1]))
	t = treestr(mark(m))
	have = {(x[0], tuple(sorted(g.leaves(x)))) for x in g.nodes(m)}
	cand = sorted(have) + [('X', (0, )), (m[0], (0, )), (m[0], ())]
	for _ in range(5):
		a = set(rng.sample(cand, rng.randint(0, min(3, len(cand)))))
		b = set(rng.sample(cand, rng.randint(0, min(2, len(cand)))))
		ctx.ev('direct constraints')
		ctx.eq(disambiguation.testconstraints(t, a, b), have.issuperset(a)
				and not have.intersection(b), 'constraints', (t, a, b))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'parses': (gen, check, 1000 * k),
			'constraints': (genspans, checkspans, 300 * k)}

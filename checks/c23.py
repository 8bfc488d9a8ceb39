"""C23: k-best lists are sorted, distinct, correct and complete."""
import math
import sys
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest, disambiguation
import g
import gg
import lc
from ref import Ref, close

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'disambiguation'],
	rule='random ambiguous PCFGs and LCFRSs (uniform, skewed and real-valued '
	'weights; with and without unary cycles), all kinds of charts, k from 1 to '
	'more than the number of derivations; deep derivations of long sentences. '
	'nontrivial: at least three derivations; counted by grammar and sentence',
	require={'general': 3000, 'dense': 1600, 'fat': 800,
		'deep': 25, 'cyclic': 200, 'derivations': 60000, 'ties': 40000,
		'all derivations': 4500, 'more derivations': 900, 'prefixes': 1800,
		'getderivations': 2500, 'no derivation': 3500},
)
VOCAB = gg.VOCAB
sys.setrecursionlimit(20000)
KS = [1, 2, 3, 5, 10, 30, 100, 1000, 10000]


def gencase(rng, ctx):
	disc = rng.random() < 0.5
	rules = gg.grammar(rng, disc=disc, size=rng.choice([1, 1, 2, 2, 3, 4, 6]),
			vocab=VOCAB[:rng.choice([1, 2, 3])], unary=rng.choice([0, 0.1, 0.3, 0.4]),
			unarycycles=rng.random() < 0.6)
	if rng.random() < 0.4:
		rules = [(r, 1) for r, _ in rules]
	return rng, disc, rules


def check(case, ctx):
	rng, disc, rules = case
	gr = Grammar(list(rules))
	sparse = None
	for _ in range(3):
		sent = gg.sentence(rng, rules, rng.choice([3, 5, 7]), VOCAB, 0)
		tags = None
		if rng.random() < 0.15:
			lexlabels = sorted({r[0] for (r, _), _ in rules if r[1] == 'Epsilon'})
			tags = [rng.choice(lexlabels + [None] * 3) for _ in sent]
		ref = Ref(rules, sent, tags, 4000)
		if ref.edges is None:
			continue
		root = 'ROOT', (1 << len(sent)) - 1
		desc = (sent, tags, rules)
		charts = [('general', plcfrs.parse(list(sent), gr, tags=tags,
				exhaustive=True)[0], ref, 0)]
		if not disc and sent:
			charts.append(('dense', pcfg.parse(list(sent), gr, tags=tags)[0],
					ref, 0))
		n = rng.choice([63, 64, 65, 70, 110])
		if rng.random() < 0.25:
			charts.append(shifted(rng, rules, sent, tags, n) + (ref, n))
		for name, chart, ref, n in charts:
			compare(name, chart, ref, root, n, desc, rng, ctx)


def shifted(rng, rules, sent, tags, n):
	"""Place words before the sentence."""
	extra = []
	for i in range(n):
		extra.append(((('P%d' % i, 'W%d' % i, 'P%d' % (i + 1) if i < n - 1 else
			'ROOT'), ((0, 1), )), 1))
		extra.append(((('W%d' % i, 'Epsilon'), ('w%d' % i, )), 1))
	gr = Grammar([((('TOP', 'P0'), ((0, ), )), 1)] + extra + rules, start='TOP')
	return 'fat', plcfrs.parse(['w%d' % i for i in range(n)] + sent, gr,
			tags=[None] * n + tags if tags else None, exhaustive=True)[0]


def move(x, n):
	return x[0], tuple(move(c, n) if isinstance(c, tuple) else c - n for c in x[1])


def compare(name, chart, ref, root, n, desc, rng, ctx):
	"""Compare k-best list to reference."""
	if root not in ref.edges:
		ctx.ok(not chart, 'parsed', '%r', desc)
		try:
			kbest.lazykbest(chart, 2)
		except ValueError:
			ctx.ev('no derivation')
		else:
			ctx.fail('no derivation', '%r', desc)
		return
	cyclic = lc.cyclic(ref.edges, root)
	ctx.ev('cyclic', cyclic)
	ctx.ev(name)
	total = math.inf if cyclic else lc.count(ref.edges, root)
	ks = [k for k in KS if k <= 30] if cyclic else KS
	k = rng.choice(ks)
	if total > 20000:
		k = min(k, 100)
	if rng.random() < 0.3 and not cyclic and total < 3000:
		k = max(1, total + rng.choice([-1, 0, 1]))
	ctx.ev('all derivations', total <= k)
	ctx.ev('more derivations', total > k)
	want = lc.kbestprobs(ref.edges, root, k)
	if rng.random() < 0.5:
		got = kbest.lazykbest(chart, k)
	else:
		ctx.ev('getderivations')
		disambiguation.getderivations(chart, k)
		got = chart.derivations
	ctx.eq(len(got), len(want), 'number of derivations', (name, k, desc))
	ctx.eq(len({s for s, _ in got}), len(got), 'duplicate', (name, k, desc))
	trees = set()
	for i, (s, cost) in enumerate(got):
		ctx.ok(i == 0 or cost >= got[i - 1][1] - 1e-12 * cost, 'order',
				'%r %r %r %r', name, k, [x for _, x in got], desc)
		t = lc.parsetree(s)
		if n:
			ctx.eq(sorted(g.leaves(t)), list(range(n + len(ref.words))), 'yield',
					(s, desc))
			t = move([x for x in g.nodes(t) if x[0] == 'ROOT' and min(
					g.leaves(x)) == n][0], n)
		ctx.eq((t[0], sorted(g.leaves(t))), ('ROOT', list(range(len(ref.words)))),
				'yield', (name, s, desc))
		p = ref.treeprob(t)
		ctx.ok(p is not None, 'not licensed', '%r %r %r', name, s, desc)
		ctx.ok(close(p, -cost), 'stated probability', '%r %r want %r %r %r %r',
				s, -cost, p, name, k, desc)
		ctx.ok(close(want[i], -cost), 'not the k best', '%r %r want %r: %r %r',
				i, -cost, want[i], (name, k), desc)
		trees.add(t)
		ctx.ev('derivations')
		ctx.ev('ties', i and close(cost, got[i - 1][1]))
	ctx.eq(len(trees), len(got), 'duplicate', (name, k, desc))
	if total <= k:
		all_ = lc.derivations(ref.edges, root)
		ctx.eq(trees, {t for _, t, _ in all_}, 'all derivations', (name, k, desc))
	# another k
	k2 = rng.choice(ks)
	if total > 20000:
		k2 = min(k2, 100)
	got2 = kbest.lazykbest(chart, k2)
	m = min(len(got), len(got2))
	ctx.ok(len(got2) == k2 or (len(got2) < k2 and (k <= k2) <= (
			len(got2) >= len(got))), 'number of derivations', '%r', desc)
	ctx.ok(all(close(a[1], b[1]) for a, b in zip(got, got2)), 'prefix',
			'%r: %r %r: %r', name, got[:m], got2[:m], desc)
	ctx.ev('prefixes', m > 1)
	ctx.ok(kbest.lazykbest(chart, k, derivs=False) is None, 'derivs', '')
	if len(got) > 2:
		ctx.nontrivial((ref.words, desc[2]))
	ctx.sample('%s k=%d %d derivations of %s' % (name, k, len(got), ' '.join(
			ref.words)))


def gendeep(rng, ctx):
	n = rng.choice([90, 120, 150, 190, 199, 200, 201, 230, 260, 300, 400])
	chain = rng.choice([0, 0, 1])
	return rng, n, chain


def checkdeep(case, ctx):
	"""Left/right branching derivations of long sentences."""
	rng, n, chain = case
	rules = [((('ROOT', 'A'), ((0, ), )), 1)]
	nest = (0, 1)
	right = rng.random() < 0.5
	rules += [((('A', 'T', 'B') if right else ('A', 'B', 'T'), (nest, )), 3)]
	rules += [((('B', 'A'), ((0, ), )), 1)] if chain else [
			((('B', 'T', 'A') if right else ('B', 'A', 'T'), (nest, )), 3),
			((('B', 'T'), ((0, ), )), 1)]
	rules += [((('A', 'T'), ((0, ), )), 1)]
	rules += [((('T', 'Epsilon'), ('a', )), 1), ((('T', 'Epsilon'), ('b', )), 2)]
	if rng.random() < 0.5:
		rules += [((('U', 'Epsilon'), ('b', )), 2),
				((('A', 'U'), ((0, ), )), 1)]
	gr = Grammar(list(rules))
	sent = [rng.choice('ab') for _ in range(n)]
	chart, msg = pcfg.parse(list(sent), gr)
	ref = Ref(rules, sent, None, edges=linear(rules, sent, right))
	root = 'ROOT', (1 << n) - 1
	ctx.ev('deep')
	compare('deep', chart, ref, root, 0, (sent, None, rules), rng, ctx)


def linear(rules, sent, right):
	"""All useful items of a right (left) branching grammar."""
	gr = lc.LC(rules)
	edges = {}
	n = len(sent)
	full = (1 << n) - 1
	one = [[(t, 1 << i) for t, _ in gr.lex[w]] for i, w in enumerate(sent)]
	for i, w in enumerate(sent):
		for t, p in gr.lex[w]:
			edges[t, 1 << i] = [(p, None, i)]
	for size in range(1, n + 1):
		m = full >> (n - size) << (n - size) if right else full >> (n - size)
		i = n - size if right else size - 1
		if size > 1:
			rest = m & ~(1 << i)
			for t, _ in one[i]:
				for (a, b, yf), res in gr.binary.items():
					x, y = (a, b) if right else (b, a)
					if x == t and (y, rest) in edges:
						ch = ((t, 1 << i), (y, rest))
						for lhs, p, r in res:
							edges.setdefault((lhs, m), []).append((p, r,
									ch if right else ch[::-1]))
		todo = [a for a, m1 in edges if m1 == m]
		for a in todo:
			for lhs, p, r in gr.unary.get(a, ()):
				if lhs not in todo:
					todo.append(lhs)
				edges.setdefault((lhs, m), []).append((p, r, ((a, m), )))
	return edges


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'random': (gencase, check, 4500 * k),
		'deep': (gendeep, checkdeep, 30 * k)}

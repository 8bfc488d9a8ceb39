"""C17: the DOP reduction is equivalent to the all-fragments grammar."""
import math
from collections import Counter, defaultdict
from discodop.tree import Tree, ParentedTree
from discodop.grammar import dopreduction, TreeDecorator, nodefreq
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest
import g
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest'],
	rule='random binarized treebanks (1-5 trees of up to 6 tokens, with '
	'recurring subtrees, unary chains, and discontinuities), with test trees '
	'from the treebank and recombined from its rules; nontrivial: a test tree '
	'with more than one derivation that is not a training tree; counted by '
	'treebank and tree',
	require={'treebanks': 600, 'trees compared': 6000, 'new trees': 500,
		'ambiguous trees': 1500, 'packed graphs': 200, 'repeated subtrees': 200,
		'discontinuous': 100, 'reduction rules': 30000, 'fragments': 30000,
		'parsed with reduction': 200, 'derivations checked': 1000,
		'extra rules': 100},
)


def gen(rng, ctx):
	disc = rng.choice([0, 0.9])
	trees, sents = g.randtreebank(rng, rng.randint(1, 5), maxlen=rng.choice([4, 6, 7] if disc else
			[3, 5, 6]), disc=disc, maxar=3, unary=rng.choice([0, 0.1]),
			words=g.WORDS[:rng.choice([1, 2, 4])],
			labels=g.LABELS[:rng.choice([1, 2, 3])], tags=g.TAGS[:rng.choice(
			[1, 2, 3])])
	if rng.random() < 0.3:  # repeat a tree
		trees.append(trees[0])
		sents.append(sents[0] if rng.random() < 0.5 else g.randsent(rng,
				len(sents[0]), words=g.WORDS[:2]))
	trees, sents = [lc.binarized(rng, m) for m in trees], list(sents)
	for m, s in list(zip(trees, sents)):
		if rng.random() < 0.5:
			t = twin(rng, m, s)
			if t is not None:
				trees.append(t[0])
				sents.append(t[1])
	return rng, trees, sents


def order(m):
	"""Labels and first tokens; to recognize trees with the same shape."""
	if not isinstance(m, tuple):
		return None
	return m[0], g.fanout(m), tuple(map(order, m[1]))


def twin(rng, m, sent):
	"""Same labels, words and shape, with other positions of the tokens.

	In part of the cases below a different context."""
	n = len(sent)
	for _ in range(30):
		perm = list(range(n))
		for _ in range(rng.randint(1, 3)):
			i = rng.randrange(n)
			x = perm.pop(i)
			perm.insert(rng.randrange(n), x)

		def subst(m):
			if not isinstance(m, tuple):
				return perm[m]
			return (m[0], tuple(subst(c) for c in m[1]))

		new = subst(m)
		if new != m and g.canon(new) == new and order(new) == order(m):
			words = [None] * n
			for i, w in enumerate(sent):
				words[perm[i]] = w
			if rng.random() < 0.5:
				new = ('ROOT2', new[1])
			return new, words
	return None


def abstract(m, words):
	"""(label, yf, children) / (tag, word), independent of positions."""
	if not isinstance(m[1][0], tuple):
		return (m[0], lc.esc(words[m[1][0]]))
	owner = {i: k for k, c in enumerate(m[1]) for i in g.leaves(c)}
	yf = tuple(tuple(owner[i] for n, i in enumerate(p)
			if n == 0 or owner[i] != owner[p[n - 1]])
			for p in g.parts(g.leaves(m)))
	return (m[0], yf, tuple(abstract(c, words) for c in m[1]))


def subtrees(a):
	yield a
	if len(a) == 3:
		for c in a[2]:
			yield from subtrees(c)


def fragments(a):
	"""All fragments rooted in this node, each with frontier nodes."""
	if len(a) == 2:
		return [(a, ())]
	result = [((), ())]
	for c in a[2]:
		new = []
		for sub, front in [((c[0], ), (c, ))] + fragments(c):
			for cs, fs in result:
				new.append((cs + (sub, ), fs + front))
		result = new
	return [((a[0], a[1], cs), fs) for cs, fs in result]


def size(frag):
	"""Number of non-root nonterminals."""
	if len(frag) != 3:
		return 0
	return sum(1 + size(c) for c in frag[2])


def nfrag(a):
	if len(a) == 2:
		return 1
	n = 1
	for c in a[2]:
		n *= 1 + nfrag(c)
	return n


def rules(a):
	if len(a) == 2:
		return [((a[0], 'Epsilon'), (a[1], ))]
	res = [((a[0], ) + tuple(c[0] for c in a[2]), a[1])]
	for c in a[2]:
		res.extend(rules(c))
	return res


def treeprob(a, model):
	"""Sum and max over derivations with explicit fragments; and number."""
	memo = {}

	def get(x):
		if id(x) not in memo:
			total, best, n = 0.0, 0.0, 0
			for f, front in fragments(x):
				p = model.get(f, 0)
				if p:
					b, k = p, 1
					for y in front:
						t = get(y)
						p *= t[0]
						b *= t[1]
						k *= t[2]
					total += p
					best = max(best, b)
					n += k
			memo[id(x)] = total, best, n
		return memo[id(x)]
	return get(a)


def redprob(a, bylhs):
	"""Sum and max over derivations of reduction rules."""
	memo = {}

	def strip(x):
		return x.split('@')[0]

	def get(x, label):
		key = id(x), label
		if key not in memo:
			total = best = 0.0
			for (r, yf), p in bylhs.get(label, ()):
				if len(x) == 2:
					if r[1] == 'Epsilon' and yf == (x[1], ):
						total += p
						best = max(best, p)
				elif (r[1] != 'Epsilon' and yf == x[1]
						and len(r) == len(x[2]) + 1 and all(
						strip(b) == c[0] for b, c in zip(r[1:], x[2]))):
					b = p
					for lab, c in zip(r[1:], x[2]):
						t = get(c, lab)
						p *= t[0]
						b *= t[1]
					total += p
					best = max(best, b)
			memo[key] = total, best
		return memo[key]
	return get(a, a[0])


def newtree(rng, prods, start, budget):
	"""Random abstract derivation with rules of the treebank."""
	budget[0] -= 1
	if budget[0] < 0:
		return None
	(r, yf) = rng.choice(prods[start])
	if r[1] == 'Epsilon':
		return (r[0], yf[0])
	ch = []
	for b in r[1:]:
		c = newtree(rng, prods, b, budget)
		if c is None:
			return None
		ch.append(c)
	return (r[0], yf, tuple(ch))


def close(a, b):
	return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def check(case, ctx):
	rng, trees, sents = case
	ab = [abstract(m, s) for m, s in zip(trees, sents)]
	if max(map(nfrag, ab)) > 1500:
		return
	ctx.ev('treebanks')
	ctx.ev('discontinuous', any(g.fanout(x) > 1 for m in trees
			for x in g.nodes(m)))
	packed = rng.random() < 0.5
	ctx.ev('packed graphs', packed)
	cls = rng.choice([Tree, ParentedTree])
	ts = [g.totree(m, cls) for m in trees]
	gram, alt = dopreduction(ts, [list(s) for s in sents], packedgraph=packed)
	ctx.ev('reduction rules', len(gram))
	desc = (packed, trees, sents)
	ctx.eq([g.tomodel(t) for t in ts], trees, 'trees modified', sents)
	ctx.eq(len({r for r, _ in gram}), len(gram), 'duplicate rules', desc)
	ctx.eq({a: len(b) for a, b in alt.items()}, {a: len(gram) for a in
			('ewe', 'shortest', 'bon')}, 'alternate weights', desc)
	base = {r for a in ab for r in rules(a)}
	for (r, yf), _ in gram:
		ctx.ok((tuple(x.split('@')[0] for x in r), yf) in base,
				'rule without addresses is not a treebank rule', '%r %r', r, desc)
	# explicit fragments
	freq = Counter()
	ntfd = Counter()
	for a in ab:
		for x in subtrees(a):
			ntfd[x[0]] += 1
			for f, _ in fragments(x):
				freq[f] += 1
	total = Counter()
	for f, n in freq.items():
		total[f[0]] += n
	ctx.ev('fragments', len(freq))
	mass = defaultdict(float)
	for (r, _), w in gram:
		mass[r[0]] += w
	for a in total:
		ctx.eq(mass[a], total[a], 'number of fragments of root', (a, desc))
	models = {
		'rfe': ({f: n / total[f[0]] for f, n in freq.items()},
			[w / mass[r[0][0]] for r, w in gram]),
		'ewe': ({f: n / (total[f[0]] * ntfd[f[0]]) for f, n in freq.items()},
			list(alt['ewe'])),
		'bon': ({f: 2.0 ** -size(f) * n / ntfd[f[0]]
			for f, n in freq.items()}, list(alt['bon'])),
		'shortest': ({f: 0.5 for f in freq}, list(alt['shortest']))}
	prods = defaultdict(list)
	for r in base:
		prods[r[0][0]].append(r)
	for a in prods:
		prods[a].sort()
	todo = [(a, False) for a in ab]
	for _ in range(6):
		a = newtree(rng, prods, 'ROOT', [14])
		if a is not None and nfrag(a) < 1500:
			todo.append((a, a not in ab))
	for name, (model, weights) in models.items():
		bylhs = defaultdict(list)
		for ((r, yf), _), p in zip(gram, weights):
			bylhs[r[0]].append(((r, yf), p))
		for a, isnew in todo:
			want = treeprob(a, model)
			got = redprob(a, bylhs)
			ctx.ev('trees compared')
			ctx.ev('new trees', isnew)
			ctx.ev('ambiguous trees', want[2] > 1)
			if want[2] > 1 and isnew:
				ctx.nontrivial((desc, a))
			if name == 'shortest':
				ctx.ok(close(got[1], want[1]), 'shortest derivation',
						'%r %r %r %r', got, want, a, desc)
			else:
				ctx.ok(close(got[0], want[0]), 'probability of tree ' + name,
						'%r %r %r %r', got, want, a, desc)
				if name != 'shortest':
					ctx.ok(got[0] > 0 or isnew, 'training tree not derivable',
							'%r %r', a, desc)
		if name == 'bon':
			sums = defaultdict(float)
			for ((r, yf), _), p in zip(gram, weights):
				sums[r[0]] += p
			for a in sums:
				ctx.ok(close(sums[a], 1), 'sum of weights', '%r %r %r', a,
						sums[a], desc)
	addresses(ctx, rng, trees, sents, desc)
	parsed(ctx, rng, gram, alt, models, trees, sents, ab, desc)
	extra(ctx, rng, ts, sents, packed, gram, desc)


def addresses(ctx, rng, trees, sents, desc):
	"""Addresses identify nodes, or (packed) subtrees."""
	for memoize in (False, True):
		dec = TreeDecorator(memoize=memoize)
		seen = {}
		for m, s in zip(trees, sents):
			d = g.tomodel(dec.decorate(g.totree(m, Tree), s))
			for n, (x, y) in enumerate(zip(g.nodes(m), g.nodes(d))):
				lab, _, addr = y[0].partition('@')
				ctx.eq(lab, x[0], 'label of decorated node', desc)
				ctx.eq(g.leaves(x), g.leaves(y), 'structure', desc)
				ctx.eq(bool(addr), n > 0, 'address', (m, d))
				if addr:
					a = abstract(x, s)
					if memoize:
						ctx.ev('repeated subtrees', y[0] in seen)
						ctx.eq(seen.setdefault(y[0], a), a,
								'shared address for different subtrees', desc)
					else:
						ctx.ok(y[0] not in seen, 'address not unique', '%r %r',
								y[0], desc)
						seen[y[0]] = a
		if memoize:
			ctx.eq(len(set(seen.values())), len(seen),
					'identical subtrees with different addresses', desc)


def parsed(ctx, rng, gram, alt, models, trees, sents, ab, desc):
	"""The compiled reduction gives the same sums."""
	n = rng.choice([n for n, m in enumerate(trees) if m[0] == 'ROOT'])
	m, s = trees[n], sents[n]
	est = rng.choice(['rfe', 'ewe', 'bon'])
	base = {r for a in ab for r in rules(a)}
	edges = lc.chart(lc.LC([(r, 1) for r in sorted(base)]), list(map(lc.esc, s)))
	root = 'ROOT', (1 << len(s)) - 1
	if edges is None or lc.cyclic(edges, root) or lc.count(edges, root) > 100:
		ctx.ev('too many derivations')
		return
	gr = Grammar(gram, start='ROOT', altweights=alt)
	if est != 'rfe':
		gr.switch(est)
	chart, _ = (pcfg if gr.maxfanout == 1 and rng.random() < 0.5
			else plcfrs).parse(list(s), gr)
	ctx.ok(chart, 'no parse', '%r', desc)
	kb = kbest.lazykbest(chart, 2000)
	if len(kb) == 2000:
		ctx.ev('too many derivations')
		return
	ctx.ev('parsed with reduction')
	sums = defaultdict(float)
	for d, p in kb:
		ctx.ev('derivations checked')
		t = lc.parsetree(d)
		sums[plain(t)] += math.exp(-p)
	for t, p in sums.items():
		a = abstract(t, s)
		for r in rules(a):
			ctx.ok(r in base, 'derivation is not over treebank rules', '%r %r %r',
					r, t, desc)
		if nfrag(a) > 1500:
			continue
		want = treeprob(a, models[est][0])[0]
		ctx.ok(abs(p - want) <= 1e-6 * want, 'probability from parser',
				'%s %r %r %r %r', est, p, want, t, desc)
	ctx.ok(m in sums, 'training tree not among derivations', '%r %r', m, desc)


def plain(t):
	if not isinstance(t, tuple):
		return t
	return (t[0].split('@')[0], tuple(plain(c) for c in t[1]))


def extra(ctx, rng, ts, sents, packed, gram, desc):
	if rng.random() < 0.7:
		return
	ctx.ev('extra rules')
	tag = rng.choice([r[0] for (r, yf), _ in gram if '@' not in r[0]])
	rule = (tag, 'Epsilon'), ('_UNK', )
	new, alt = dopreduction(ts, sents, packedgraph=packed, extrarules={rule: 2})
	want = dict(gram)
	want[rule] = 2
	ctx.eq({r for r, _ in new}, set(want), 'rules with extra rule', desc)
	for r, w in new:
		if '@' not in ' '.join(r[0]):
			ctx.eq(w, want[r], 'weights with extra rule', (r, desc))


def streams(ctx):
	k = 15 if ctx.thorough else 1
	return {'treebanks': (gen, check, 900 * k)}

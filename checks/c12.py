"""C12: optimal binarization is reversible and really minimal."""
from discodop.tree import Tree, ParentedTree, ImmutableTree
from discodop.treetransforms import (optimalbinarize, minimalbinarization,
		unbinarize, addbitsets, complexityfanout, fanoutcomplexity)
import g

PLAN = dict(
	mods=['bit'],
	rule='random discontinuous trees (1-12 tokens, up to 7 children per node) '
	'with either objective, head-driven or not, and with markovization; all '
	'binarizations of the family are enumerated by dynamic programming over '
	'subsets; nontrivial: a constituent with 3 or more children that are not '
	'all continuous; counted by tree, objective and family',
	require={'optimal binarizations': 1500, 'constituents minimized': 1500,
		'head-driven': 500, 'default is not optimal': 50,
		'binarizations compared': 50000, 'fan-out first': 300,
		'complexity first': 300},
)


def gen(rng, ctx):
	if rng.random() < 0.5:  # one flat constituent
		n = rng.randint(3, 16)
		k = rng.randint(3, min(7 if ctx.thorough else 6, n))
		spans = [[] for _ in range(k)]
		order = list(range(n))
		rng.shuffle(order)
		if rng.random() < 0.5:  # more local
			order.sort(key=lambda i: i + rng.random() * 5)
		for a in range(k):
			spans[a].append(order.pop(rng.randrange(len(order))))
		for a in order:
			rng.choice(spans).append(a)
		if rng.random() < 0.2:  # gaps in the constituent itself
			mapping = sorted(rng.sample(range(n + 4), n))
			spans = [[mapping[i] for i in s] for s in spans]
		labels = rng.choice([g.LABELS, g.LABELS[:2]])
		m = (rng.choice(labels), tuple((rng.choice(labels), tuple(
				('t', (i, )) for i in sorted(s))) for s in spans))
		m = g.canon(m)
	else:
		n = rng.randint(1, 12)
		m = g.randtree(rng, n, disc=0.9, maxar=rng.choice([3, 5, 6]),
				unary=0.1, root=rng.choice(['ROOT', None]))
	if rng.random() < 0.3:
		m = shuffle(rng, m)
	return rng, m


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	if not continuous(m):
		rng.shuffle(ch)
	return (m[0], tuple(ch))


def continuous(m):
	"""Documented to get the default binarization (of ordered children)."""
	return g.fanout(m) == 1 and all(g.fanout(c) == 1 for c in m[1]
			if isinstance(c, tuple))


def mask(m):
	return sum(1 << i for i in g.leaves(m)) if isinstance(m, tuple) else 1 << m


def fo(bits):
	return bin(bits & ~(bits << 1)).count('1')


def scorefun(first):
	def score(bits, kids):
		f = fo(bits)
		c = f + sum(fo(a) for a in kids)
		return (f, c) if first == 'fan-out' else (c, f)
	return score


def best(children, score, head):
	"""Lowest maximum score over the nodes of all binarizations."""
	k = len(children)
	full = (1 << k) - 1
	cover = [0] * (full + 1)
	for s in range(1, full + 1):
		low = (s & -s).bit_length() - 1
		cover[s] = cover[s & (s - 1)] | children[low]
	result = {}
	n = 0
	for s in range(1, full + 1):
		if s & (s - 1) == 0:
			result[s] = (0, 0)
			continue
		opt = None
		if head is None:
			t = (s - 1) & s
			while t:
				u = s ^ t
				if t < u:
					x = max(score(cover[s], (cover[t], cover[u])), result[t],
							result[u])
					n += 1
					if opt is None or x < opt:
						opt = x
				t = (t - 1) & s
		else:
			if not s >> head & 1:
				continue
			for a in range(k):
				if a != head and s >> a & 1:
					t = s ^ (1 << a)
					x = max(score(cover[s], (cover[t], cover[1 << a])),
							result[t])
					n += 1
					if opt is None or x < opt:
						opt = x
		result[s] = opt
	return result[full], n


def pieces(node, orig):
	"""Created nodes, and children of original constituent."""
	created, children = [node], []
	todo = list(node[1])
	while todo:
		c = todo.pop()
		if isinstance(c, tuple) and '|<' in c[0]:
			created.append(c)
			todo.extend(c[1])
		else:
			children.append(c)
	return created, children


def verify(ctx, b, m, first, headidx, desc):
	"""Compare each constituent of binarized tree with enumeration."""
	score = scorefun(first)

	def own(x):
		return (score(mask(x), [mask(c) for c in x[1]])
				if isinstance(x, tuple) else (0, 0))

	def visit(x, orig):
		created, children = pieces(x, orig)
		ctx.eq(sorted(map(mask, children)), sorted(map(mask, orig[1])),
				'children of constituent', desc)
		for c in created[1:]:
			ctx.ok(c[0].startswith(orig[0] + '|<'), 'artificial label', '%r %r',
					c[0], desc)
		if len(orig[1]) > 2:
			ch = [mask(c) for c in orig[1]]
			head = headidx(orig)
			opt, n = best(ch, score, head)
			ctx.ev('constituents minimized')
			ctx.ev('binarizations compared', n)
			inner = [own(c) for c in children]
			got = max(map(own, created))
			ctx.eq(max([got] + inner), max([opt] + inner), 'optimal score',
					(orig, x, desc))
			if all(a <= opt for a in inner):
				ctx.eq(got, opt, 'optimal score of created nodes',
						(orig, x, desc))
			if head is not None and not continuous(orig):
				for c in created:
					ctx.ok(mask(c) & ch[head] == ch[head], 'head-driven',
							'%r %r', c, desc)
			# default binarization
			cur = ch[-1]
			worst = (0, 0)
			for a in ch[-2::-1]:
				worst = max(worst, score(cur | a, (cur, a)))
				cur |= a
			if worst > opt:
				ctx.ev('default is not optimal')
			if any(fo(a) > 1 for a in ch) or fo(mask(orig)) > 1:
				ctx.nontrivial((orig, first, head))
		bymask = {mask(c): c for c in children}
		for c in orig[1]:
			if isinstance(c, tuple):
				visit(bymask[mask(c)], c)
	visit(b, m)


def check(case, ctx):
	rng, m = case
	first = rng.choice(['fan-out', 'complexity'])
	fun = fanoutcomplexity if first == 'fan-out' else complexityfanout
	headdriven = rng.random() < 0.4
	h = rng.choice([1, 2, 3, 999]) if headdriven or rng.random() < 0.2 else None
	v = rng.choice([1, 1, 1, 2, 3])
	cls = rng.choice([Tree, ParentedTree, ImmutableTree]) if h else rng.choice(
			[Tree, ParentedTree])
	desc = (first, headdriven, h, v, cls.__name__, m)
	x = g.canon(m) if h is None else m
	ctx.ev('optimal binarizations')
	ctx.ev(first + ' first')
	ctx.ev('head-driven', headdriven)
	how = rng.random()
	if how < 0.6:
		kw = dict(fun=fun) if first == 'fan-out' or rng.random() < 0.5 else {}
		b = optimalbinarize(g.totree(m, cls), headdriven=headdriven, h=h, v=v,
				**kw)
		orig = x if v == 1 else annotated(x, v, ())
		hidx = (lambda n: len(n[1]) - 1) if headdriven else (lambda n: None)
	else:
		# a single constituent with an arbitrary head
		if not isinstance(m[1][0], tuple):
			return
		head = rng.randrange(len(m[1])) if headdriven else None
		b = minimalbinarization(addbitsets(g.totree(m, Tree)), fun, head=head,
				h=h or 999)
		got = g.tomodel(b)
		ctx.eq(g.canon(g.tomodel(unbinarize(Tree.convert(b)))), g.canon(m),
				'unbinarized constituent', desc)
		verifyone(ctx, got, m, first, head, desc)
		return
	got = g.tomodel(b)
	for n in g.nodes(got):
		if not (len(n[1]) > 2 and all(not isinstance(c, tuple)
				for c in n[1])):
			ctx.ok(len(n[1]) <= 2, 'at most two children', '%r %r', n, desc)
	ctx.eq(sorted(g.leaves(got)), sorted(g.leaves(m)), 'tokens', desc)
	back = g.tomodel(unbinarize(Tree.convert(b)))
	ctx.eq(g.canon(back), g.canon(m), 'unbinarized', (got, desc))
	ctx.eq(b.bitset, mask(m), 'bitset', desc)
	verify(ctx, got, orig, first, hidx, (got, desc))


def verifyone(ctx, got, m, first, head, desc):
	score = scorefun(first)
	created, children = pieces(got, m)
	ctx.eq(sorted(children, key=repr), sorted(m[1], key=repr),
			'children unchanged', desc)
	for c in created:
		ctx.ok(len(c[1]) <= 2, 'at most two children', '%r %r', c, desc)
	if len(m[1]) > 2:
		opt, n = best([mask(c) for c in m[1]], score, head)
		ctx.ev('constituents minimized')
		ctx.ev('binarizations compared', n)
		inner = [score(mask(x), [mask(c) for c in x[1]]) for x in m[1]]
		x = max(score(mask(x), [mask(c) for c in x[1]]) for x in created)
		ctx.eq(max([x] + inner), max([opt] + inner), 'optimal score (one)',
				(got, head, desc))
		if all(a <= opt for a in inner):
			ctx.eq(x, opt, 'optimal score of created nodes (one)',
					(got, head, desc))
		if any(g.fanout(a) > 1 for a in m[1]):
			ctx.nontrivial((m, first, head))


def annotated(m, v, anc):
	if not isinstance(m, tuple):
		return m
	up = ''  # not for root and POS tags, as in binarize()
	if anc and isinstance(m[1][0], tuple):
		up = '^<%s>' % ','.join(anc[:v - 1])
	return (m[0] + up, tuple(
			annotated(c, v, (m[0], ) + anc) for c in m[1]))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 9000 * k)}

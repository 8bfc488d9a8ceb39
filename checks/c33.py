"""C33: tree edit distance is the true minimum and a metric."""
import contextlib
import io
from itertools import combinations
from discodop.tree import Tree, ParentedTree, ImmutableTree, ImmutableParentedTree
from discodop.treedist import (treedist, newtreedist, geteditstats, prepare,
		EditStats, strdist, Terminal)
from discodop.eval import treedisteval
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='pairs and triples of random trees of 1-9 words with few labels: '
	'unrelated, edited, with discontinuities, unary chains, other word order; '
	'nontrivial: distance between 2 and the total number of nodes minus 2; '
	'counted by pair',
	require={'pairs': 3000, 'all mappings': 1200, 'mappings': 100000,
		'triples': 1000, 'equal trees': 300, 'discontinuous': 120,
		'edit scripts': 2000, 'deletions': 500, 'insertions': 500,
		'substitutions': 2000, 'known edits': 300, 'debug': 100,
		'chains': 300, 'other order of children': 300},
)
TYPES = [Tree, ParentedTree]
FROZEN = [ImmutableTree, ImmutableParentedTree]


def gentree(rng, n=None):
	n = n or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
	return g.randtree(rng, n, disc=rng.choice([0, 0, 0.6]),
			labels=g.LABELS[:rng.choice([1, 2, 3])],
			tags=g.TAGS[:rng.choice([1, 2])],
			unary=rng.choice([0, 0.1, 0.4]), maxar=rng.choice([2, 3, 4]))


def edit(rng, m):
	"""A random edit operation on a model tree; None if not possible."""
	nodes = [x for x in g.nodes(m) if isinstance(x[1][0], tuple)]
	x = rng.choice(nodes)
	op = rng.choice('DIS')

	def change(y):
		if not isinstance(y, tuple) or not isinstance(y[1][0], tuple):
			return y
		ch = []
		for c in y[1]:
			if c is x and op == 'D':
				ch.extend(change(c)[1])
			else:
				ch.append(change(c))
		if y is x and op == 'S':
			return 'Q' + y[0], tuple(ch)
		if y is x and op == 'I':
			ch.sort(key=lambda c: min(g.leaves(c)))
			i = rng.randrange(len(ch))
			j = rng.randint(i + 1, len(ch))
			ch[i:j] = [('NEW', tuple(ch[i:j]))]
		return y[0], tuple(ch)
	if op == 'D' and x is m:
		return None
	return change(m)


def gen(rng, ctx):
	a = gentree(rng)
	n = len(g.leaves(a))
	res = [a]
	known = [0, None, None]
	for k in (1, 2):
		kind = rng.choice(['edit', 'edit', 'other', 'other', 'length', 'same'])
		if kind == 'edit':
			b, d = a, 0
			for _ in range(rng.choice([1, 1, 2, 3])):
				c = edit(rng, b)
				if c is not None:
					b, d = c, d + 1
			if not any(g.fanout(x) > 1 for x in list(g.nodes(a)) + list(g.nodes(b))):
				known[k] = d
		elif kind == 'same':
			b = a
		else:
			b = gentree(rng, n if kind == 'other' else None)
		res.append(b)
	if rng.random() < 0.3:
		res = [shuffle(rng, m) for m in res]
		ctx.ev('other order of children')
	return rng, res, known


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(ch)
	return m[0], tuple(ch)


def ordered(m):
	"""(label, children) with the words as part of labels, in order."""
	if not isinstance(m[1][0], tuple):
		return '%s-%d' % (m[0], m[1][0]), ()
	return m[0], tuple(ordered(c) for c in sorted(m[1],
			key=lambda c: min(g.leaves(c))))


def size(t):
	return 1 + sum(map(size, t[1]))


def index(t):
	"""Nodes in postorder: list of (label, preorder number, postorder)."""
	res = []
	pre = [0]

	def visit(x):
		n = pre[0]
		pre[0] += 1
		for c in x[1]:
			visit(c)
		res.append((x[0], n))
	visit(t)
	return res


def allmappings(t1, t2, ctx):
	"""Minimum over all order and ancestor preserving one-to-one mappings."""
	a, b = index(t1), index(t2)
	best = len(a) + len(b)
	for k in range(1, min(len(a), len(b)) + 1):
		for x in combinations(a, k):
			order = sorted(range(k), key=lambda i: x[i][1])
			for y in combinations(b, k):
				ctx.events['mappings'] += 1
				cost = len(a) + len(b) - 2 * k + sum(
						p[0] != q[0] for p, q in zip(x, y))
				if cost < best and all(y[i][1] < y[j][1]
						for i, j in zip(order, order[1:])):
					best = cost
	return best


def forests(t1, t2):
	"""Recursion over leftmost nodes of forests."""
	memo = {}

	def dist(f, h):
		if not f or not h:
			return sum(map(size, f)) + sum(map(size, h))
		key = f, h
		if key not in memo:
			x, y = f[0], h[0]
			memo[key] = min(
					dist(x[1] + f[1:], h) + 1,
					dist(f, y[1] + h[1:]) + 1,
					dist(x[1], y[1]) + dist(f[1:], h[1:]) + (x[0] != y[0]))
		return memo[key]
	return dist((t1, ), (t2, ))


def check(case, ctx):
	rng, ms, known = case
	ts = [ordered(m) for m in ms]
	d = {}
	for i in range(3):
		for j in range(3):
			cls = rng.choice(TYPES)
			x, y = g.totree(ms[i], cls), g.totree(ms[j], cls)
			if rng.random() < 0.2:
				x, y = x.freeze(), y.freeze()
			before = str(x), str(y)
			d[i, j] = int(treedist(x, y))
			ctx.eq((str(x), str(y)), before, 'trees modified', (ms[i], ms[j]))
			if i < j:
				pair(ctx, rng, ms[i], ms[j], ts[i], ts[j], x, y, d[i, j])
	for k in (1, 2):
		if known[k] is not None:
			ctx.ev('known edits')
			ctx.ok(d[0, k] <= known[k], 'more than the edits applied', '%r %r %r',
					d[0, k], known[k], ms)
	ctx.ev('triples')
	for i in range(3):
		for j in range(3):
			ctx.eq(d[i, j], d[j, i], 'symmetry', (ms[i], ms[j]))
			ctx.eq(d[i, j] == 0, ts[i] == ts[j], 'distance zero', (ms[i], ms[j],
					d[i, j]))
			ctx.ev('equal trees', i < j and ts[i] == ts[j])
			for k in range(3):
				ctx.ok(d[i, j] <= d[i, k] + d[k, j], 'triangle inequality',
						'%r %r', d, ms)


def pair(ctx, rng, m1, m2, t1, t2, x, y, got):
	ctx.ev('pairs')
	desc = (m1, m2)
	n1, n2 = size(t1), size(t2)
	ctx.ev('discontinuous', any(g.fanout(z) > 1 for z in list(g.nodes(m1))
			+ list(g.nodes(m2))))
	ctx.ev('chains', any(len(z[1]) == 1 and isinstance(z[1][0], tuple)
			for z in g.nodes(m1)))
	want = forests(t1, t2)
	if n1 + n2 <= 15:
		ctx.ev('all mappings')
		ctx.eq(want, allmappings(t1, t2, ctx), 'HARNESS: oracles', desc)
	ctx.eq(got, want, 'tree edit distance', desc)
	if 2 <= want <= n1 + n2 - 2:
		ctx.nontrivial(desc)
	out = io.StringIO()
	debug = rng.random() < 0.2
	ctx.ev('debug', debug)
	with contextlib.redirect_stdout(out):
		ctx.eq(int(newtreedist(x, y, debug)), want, 'newtreedist', desc)
		if debug:
			ctx.eq(int(treedist(x, y, True)), want, 'distance in debug mode', desc)
	inc = rng.random() < 0.5
	ted, denom = treedisteval(x, y, includeroot=inc)
	ctx.eq((int(ted), denom), (want, n1 + n2 - (0 if inc else 2)),
			'normalized distance', desc)
	# edit script
	a, b = prepare(x), prepare(y)
	a, b = a.freeze(), b.freeze()
	nodes1 = {id(z): n for n, z in enumerate(a.subtrees())}
	nodes2 = {id(z): n for n, z in enumerate(b.subtrees())}
	geteditstats.mem.clear()
	stats = geteditstats((a, ), (b, ))
	script(ctx, stats, want, n1, n2, desc)
	lab1, lab2 = [z.label for z in a.subtrees()], [z.label for z in b.subtrees()]
	if t1 == t2:
		ctx.eq(stats.editscript, (), 'edits for equal trees', desc)
	used1, used2 = [], []
	for op, p, q in stats.editscript:
		if p is not None and op in 'DS':
			used1.append((p.label, str(p)))
		if q is not None and op in 'IS':
			used2.append((q.label, str(q)))
	for used, tree in ((used1, a), (used2, b)):
		have = [(z.label, str(z)) for z in tree.subtrees()]
		for u in set(used):
			ctx.ok(used.count(u) <= have.count(u), 'node edited twice', '%r %r',
					u, desc)
	geteditstats.mem.clear()


def script(ctx, stats, want, n1, n2, desc):
	ctx.ev('edit scripts')
	ctx.eq(stats.distance, want, 'distance of edit script', desc)
	ops = [op for op, _, _ in stats.editscript]
	ctx.ev('deletions', ops.count('D'))
	ctx.ev('insertions', ops.count('I'))
	ctx.ev('substitutions', ops.count('S'))
	ctx.eq(len(ops), want, 'operations add up to distance', (ops, desc))
	ctx.eq(ops.count('D') - ops.count('I'), n1 - n2,
			'operations account for difference in size', (ops, desc))
	ctx.eq(stats.matched + ops.count('S') + ops.count('D'), n1,
			'nodes of first tree accounted for', (ops, stats.matched, desc))
	ctx.eq(stats.matched + ops.count('S') + ops.count('I'), n2,
			'nodes of second tree accounted for', (ops, stats.matched, desc))
	for op, p, q in stats.editscript:
		ctx.eq((p is None, q is None), (op == 'I', op == 'D'),
				'nodes of operation', (op, desc))
		if op == 'S':
			ctx.ok(p.label != q.label, 'relabeled with the same label', '%r %r',
					p, desc)
		else:
			ctx.ok(op in 'DI', 'unknown operation', '%r %r', op, desc)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'triples': (gen, check, 1500 * k)}

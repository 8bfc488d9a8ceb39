"""C01: parent links mirror the tree under every edit history."""
from discodop.tree import ParentedTree, Tree

PLAN = dict(
	mods=['bit'],
	rule='random edit histories (up to 60 operations) over a forest of parented '
	'trees, mirrored on plain lists; a history is nontrivial if at least one '
	'operation changed the structure and one was rejected; counted by its '
	'sequence of (operation, outcome)',
	require={'edits applied': 500, 'edits rejected': 50,
		'node invariants checked': 5000},
)


class M:
	"""Model node: plain label and list of children, identity matters."""
	__slots__ = ('label', 'kids', 'real')

	def __init__(self, label, kids, real):
		self.label, self.kids, self.real = label, kids, real


def ismodel(a):
	return isinstance(a, M)


class World:
	def __init__(self, rng):
		self.rng = rng
		self.nodes = []
		self.n = 0

	def parent(self, m):
		for a in self.nodes:
			if any(c is m for c in a.kids):
				return a
		return None

	def desc(self, m):
		yield m
		for c in m.kids:
			if ismodel(c):
				yield from self.desc(c)

	def new(self, kids=()):
		label = self.rng.choice('ABC')
		kids = list(kids)
		real = ParentedTree(label, [k.real if ismodel(k) else k for k in kids])
		m = M(label, kids, real)
		self.nodes.append(m)
		return m

	def sync(self, m):
		"""adopt real nodes created by the code under test"""

	def leaf(self):
		self.n += 1
		return self.rng.choice([0, 1, self.n])


def build(w, depth):
	rng = w.rng
	kids = []
	for _ in range(rng.randint(0, 4)):
		if depth and rng.random() < 0.6:
			kids.append(build(w, depth - 1))
		else:
			kids.append(w.leaf())
	return w.new(kids)


def r(a):
	return a.real if ismodel(a) else a


def structeq(a, b):
	"""equality by value, as documented for remove() and index()."""
	if ismodel(a) != ismodel(b):
		return False
	if not ismodel(a):
		return a == b
	return (a.label == b.label and len(a.kids) == len(b.kids)
			and all(structeq(x, y) for x, y in zip(a.kids, b.kids)))


def verify(w, ctx, log):
	parentof = {}
	for m in w.nodes:
		for c in m.kids:
			if ismodel(c):
				assert id(c) not in parentof, 'model broken'
				parentof[id(c)] = m
	for m in w.nodes:
		t = m.real
		kids = list(t)
		ctx.ev('node invariants checked')
		ctx.ok(len(kids) == len(m.kids) == len(t) and all(
				a is r(b) if ismodel(b) else a == b and not isinstance(a, Tree)
				for a, b in zip(kids, m.kids)),
				'children', 'children differ from list model: %s vs %s after '
				'%s', kids, [r(a) for a in m.kids], log)
		p = parentof.get(id(m))
		if p is None:
			ctx.ok(t.parent is None, 'parent', 'node without parent has '
					'parent %s; log %s', t.parent, log)
			ctx.ok(t.parent_index is None and t.left_sibling is None
					and t.right_sibling is None and t.root is t
					and t.treeposition == (), 'root props', 'root properties '
					'wrong; log %s', log)
			continue
		i = next(n for n, c in enumerate(p.kids) if c is m)
		ctx.ok(t.parent is p.real, 'parent', 'parent is %s, expected %s after '
				'%s', t.parent, p.real, log)
		ctx.ok(t.parent_index == i, 'parent_index', 'parent_index %s expected '
				'%s; log %s', t.parent_index, i, log)
		left = r(p.kids[i - 1]) if i else None
		right = r(p.kids[i + 1]) if i + 1 < len(p.kids) else None
		for got, want in ((t.left_sibling, left), (t.right_sibling, right)):
			ctx.ok(got is want or (not isinstance(want, Tree)
					and got == want), 'sibling', 'sibling %s expected '
					'%s; log %s', got, want, log)
		pos, top = (), m
		while id(top) in parentof:
			q = parentof[id(top)]
			pos = (next(n for n, c in enumerate(q.kids) if c is top), ) + pos
			top = q
		ctx.ok(t.treeposition == pos, 'treeposition', 'position %s expected '
				'%s; log %s', t.treeposition, pos, log)
		ctx.ok(t.root is top.real, 'root', 'root wrong; log %s', log)
		ctx.ok(top.real[pos] is t, 'root[treeposition]', 'root[treeposition] '
				'is not the node; log %s', log)


def gen(rng, ctx):
	return rng


def bounds(sl, n):
	return sl.indices(n)


def check(rng, ctx):
	w = World(rng)
	for _ in range(rng.randint(1, 3)):
		build(w, rng.randint(1, 3))
	log = []
	verify(w, ctx, log)
	applied = rejected = 0
	for _ in range(rng.randint(5, 60)):
		if len(w.nodes) > 40:
			break
		t = rng.choice(w.nodes)
		op = rng.choice(OPS)
		log.append([op.__name__])
		# prefer free nodes as arguments, sometimes nodes with a parent
		res = op(w, t, ctx, log[-1])
		log[-1].append(res)
		if res == 'ok':
			applied += 1
			ctx.ev('edits applied')
		elif res == 'rejected':
			rejected += 1
			ctx.ev('edits rejected')
		ctx.ev('op ' + op.__name__)
		verify(w, ctx, log[-6:])
	if applied and rejected:
		ctx.nontrivial([(a[0], a[-1]) for a in log])
	ctx.sample([(a[0], a[-1]) for a in log][:8])


def candidate(w, t):
	"""A child to insert: (object, legal?)"""
	rng = w.rng
	x = rng.random()
	if x < 0.25:
		return w.leaf(), True
	if x < 0.6:
		return w.new([w.leaf() for _ in range(rng.randint(0, 2))]), True
	m = rng.choice(w.nodes)
	if w.parent(m) is not None:
		return m, False
	if any(a is t for a in w.desc(m)):  # would create a cycle
		return w.leaf(), True
	return m, True


def attempt(ctx, legal, func, excs=(ValueError, TypeError)):
	if legal:
		func()
		return 'ok'
	try:
		func()
	except excs:
		return 'rejected'
	ctx.fail('accepted', 'edit that gives a node two parents was accepted')


def append(w, t, ctx, log):
	c, legal = candidate(w, t)
	res = attempt(ctx, legal, lambda: t.real.append(r(c)))
	if legal:
		t.kids.append(c)
	return res


def insert(w, t, ctx, log):
	c, legal = candidate(w, t)
	i = w.rng.randint(-len(t.kids) - 2, len(t.kids) + 2)
	log.append(i)
	res = attempt(ctx, legal, lambda: t.real.insert(i, r(c)))
	if legal:
		t.kids.insert(i, c)
	return res


def candidates(w, t, k):
	"""Several distinct objects; legal iff all legal and distinct."""
	result, legal = [], True
	for _ in range(k):
		c, ok = candidate(w, t)
		if ismodel(c) and any(c is a for a in result):
			if w.rng.random() < 0.5:
				c, ok = w.leaf(), True
			else:
				ok = False
		result.append(c)
		legal = legal and ok
	return result, legal


def extend(w, t, ctx, log):
	cs, legal = candidates(w, t, w.rng.randint(0, 3))
	asiter = w.rng.random() < 0.5
	arg = [r(c) for c in cs]
	res = attempt(ctx, legal, lambda: t.real.extend(
			iter(arg) if asiter else arg))
	if legal:
		t.kids.extend(cs)
	else:
		# like list.extend with a failing iterator: a prefix may have been
		# added; whatever was added must be consistent.
		k = len(t.real) - len(t.kids)
		ctx.ok(0 <= k < len(cs), 'extend', 'unexpected number of children')
		t.kids.extend(cs[:k])
	return res


def setitem(w, t, ctx, log):
	if not t.kids:
		c = w.leaf()
		return attempt(ctx, False, lambda: t.real.__setitem__(0, c),
				(IndexError, ))
	i = w.rng.randint(-len(t.kids), len(t.kids) - 1)
	c, legal = candidate(w, t)
	if w.rng.random() < 0.2:
		c, legal = t.kids[i], True  # assign same value
	if c is t.kids[i]:
		legal = True  # assigning the value it already has
	log.append(i)
	key = i if w.rng.random() < 0.7 else (i, )
	res = attempt(ctx, legal, lambda: t.real.__setitem__(key, r(c)))
	if legal:
		t.kids[i] = c
	return res


def setslice(w, t, ctx, log):
	n = len(t.kids)
	a = w.rng.choice([None] + list(range(-n - 1, n + 2)))
	b = w.rng.choice([None] + list(range(-n - 1, n + 2)))
	sl = slice(a, b)
	cs, legal = candidates(w, t, w.rng.randint(0, 3))
	log.append((a, b, len(cs), legal))
	arg = [r(c) for c in cs]
	kind = w.rng.random()
	value = arg if kind < 0.6 else tuple(arg) if kind < 0.8 else iter(arg)
	res = attempt(ctx, legal, lambda: t.real.__setitem__(sl, value))
	if legal:
		t.kids[sl] = cs
	return res


def delitem(w, t, ctx, log):
	n = len(t.kids)
	i = w.rng.randint(-n - 1, n)
	log.append(i)
	legal = -n <= i < n
	key = i if w.rng.random() < 0.7 else (i, )
	res = attempt(ctx, legal, lambda: t.real.__delitem__(key), (IndexError, ))
	if legal:
		del t.kids[i]
	return res


def delslice(w, t, ctx, log):
	n = len(t.kids)
	a = w.rng.choice([None] + list(range(-n - 1, n + 2)))
	b = w.rng.choice([None] + list(range(-n - 1, n + 2)))
	log.append((a, b))
	del t.real[a:b]
	del t.kids[a:b]
	return 'ok'


def pop(w, t, ctx, log):
	n = len(t.kids)
	i = w.rng.randint(-n - 1, n)
	legal = -n <= i < n
	log.append(i)
	got = []
	if i == -1 and w.rng.random() < 0.5:
		res = attempt(ctx, legal, lambda: got.append(t.real.pop()),
				(IndexError, ))
	else:
		res = attempt(ctx, legal, lambda: got.append(t.real.pop(i)),
				(IndexError, ))
	if legal:
		want = t.kids.pop(i)
		ctx.ok(got[0] is r(want) or (not ismodel(want) and got[0] == want),
				'pop', 'pop returned %s expected %s', got[0], r(want))
	return res


def remove(w, t, ctx, log):
	if t.kids and w.rng.random() < 0.7:
		c = w.rng.choice(t.kids)
	else:
		c = w.rng.choice(w.nodes)
	idx = next((n for n, a in enumerate(t.kids) if structeq(a, c)), None)
	res = attempt(ctx, idx is not None, lambda: t.real.remove(r(c)),
			(ValueError, ))
	if idx is not None:
		del t.kids[idx]
	return res


def detach(w, t, ctx, log):
	got = t.real.detach()
	ctx.ok(got is t.real, 'detach', 'detach returned another node')
	p = w.parent(t)
	if p is not None:
		i = next(n for n, c in enumerate(p.kids) if c is t)
		del p.kids[i]
	return 'ok'


def disown(w, t, ctx, log):
	got = t.real.disown()
	ctx.ok(len(got) == len(t.kids) and all(
			a is r(b) or (not ismodel(b) and a == b)
			for a, b in zip(got, t.kids)), 'disown', 'disown returned %s', got)
	t.kids[:] = []
	return 'ok'


def prune(w, t, ctx, log):
	p = w.parent(t)
	if p is None:
		return 'n/a'
	i = next(n for n, c in enumerate(p.kids) if c is t)
	t.real.prune()
	kids = t.kids[:]
	t.kids[:] = []
	p.kids[i:i + 1] = kids
	return 'ok'


def spliceabove(w, t, ctx, log):
	p = w.parent(t)
	if p is None:
		return 'n/a'
	i = next(n for n, c in enumerate(p.kids) if c is t)
	new = t.real.spliceabove('N')
	ctx.ok(new.label == 'N', 'splice', 'label %s', new.label)
	m = M('N', [t], new)
	w.nodes.append(m)
	p.kids[i] = m
	return 'ok'


def splicebelow(w, t, ctx, log):
	new = t.real.splicebelow('N')
	m = M('N', t.kids[:], new)
	w.nodes.append(m)
	t.kids[:] = [m]
	return 'ok'


def construct(w, t, ctx, log):
	"""New node over existing roots; illegal if one has a parent/occurs
	twice."""
	cs, legal = candidates(w, t, w.rng.randint(0, 3))
	if legal:
		w.new(cs)
		return 'ok'
	return attempt(ctx, False, lambda: ParentedTree('Z', [r(c) for c in cs]))


def copytree(w, t, ctx, log):
	real = t.real.copy(True)
	ctx.ok(real.parent is None, 'copy', 'copy has a parent')

	def mirror(m, rr):
		ctx.ok(rr is not m.real, 'copy', 'copy shares nodes')
		kids = [mirror(a, b) if ismodel(a) else a
				for a, b in zip(m.kids, rr)]
		x = M(m.label, kids, rr)
		w.nodes.append(x)
		return x
	mirror(t, real)
	return 'ok'


def wrongtype(w, t, ctx, log):
	how = w.rng.choice(['append', 'insert', 'set', 'slice'])
	bad = Tree('T', [0])
	if how == 'append':
		return attempt(ctx, False, lambda: t.real.append(bad))
	if how == 'insert':
		return attempt(ctx, False, lambda: t.real.insert(0, bad))
	if how == 'slice':
		return attempt(ctx, False, lambda: t.real.__setitem__(slice(0, 1),
				[bad]))
	if not t.kids:
		return 'n/a'
	return attempt(ctx, False, lambda: t.real.__setitem__(0, bad))


OPS = [append, insert, extend, setitem, setslice, delitem, delslice, pop,
		remove, detach, disown, prune, spliceabove, splicebelow, construct,
		copytree, wrongtype]


def streams(ctx):
	n = 3000 if not ctx.thorough else 60000
	return {'histories': (gen, check, n)}

"""C04: agenda histories against a sequential dictionary model."""
from discodop.util import PyAgenda
from discodop._vfagenda import IntAgenda, ItemAgenda

PLAN = dict(
	mods=['_vfagenda'],
	rule='random operation histories (construct, insert, update, delete, pop, '
	'peek, lookup, clear) over small key and priority pools; nontrivial: at '
	'least one update or deletion of an entry that was in the heap followed '
	'by a pop or peek; counted by operation list',
	require={'python operations': 5000, 'native operations': 5000,
		'pops after invalidation': 300, 'peeks': 300, 'ties': 300,
		'drains': 200, 'native re-insertions': 5000},
)


class Model:
	"""Dictionary key -> (priority, insertion number)."""

	def __init__(self):
		self.d = {}
		self.seq = 0

	def set(self, k, v):
		if k in self.d:
			self.d[k] = (v, self.d[k][1])
		else:
			self.seq += 1
			self.d[k] = (v, self.seq)

	def best(self):
		return min(self.d, key=lambda k: self.d[k])

	def ties(self):
		v = self.d[self.best()][0]
		return sum(a[0] == v for a in self.d.values())


def value(rng, how):
	if how == 'int':
		return rng.randint(0, 4)
	elif how == 'float':
		return rng.choice([0.0, 0.1, 0.25, 1.0, 2.5, 1e-300, 1e300,
				float('inf'), -1.0])
	elif how == 'fine':
		return rng.random()
	return (rng.randint(0, 2), rng.choice('ab'))


def genpy(rng, ctx):
	n = rng.choice([5, 10, 20, 60, 200])
	how = rng.choice(['int', 'int', 'float', 'fine', 'tuple'])
	nkeys = rng.choice([2, 4, 8, 30])
	weights = [rng.random() for _ in range(11)]
	ops = []
	init = None
	if rng.random() < 0.5:
		init = [(rng.randrange(nkeys), value(rng, how))
				for _ in range(rng.randint(0, nkeys * 2))]
	for _ in range(n):
		op = rng.choices(['set', 'set', 'up', 'down', 'del', 'pop', 'popitem',
				'peek', 'update', 'clear', 'popnone'], weights)[0]
		if op == 'clear' and rng.random() < 0.8:
			op = 'set'
		ops.append((op, rng.randrange(nkeys), value(rng, how)))
	return init, ops, rng.random() < 0.5, nkeys


def checkpy(case, ctx):
	init, ops, tupkeys, nkeys = case
	key = (lambda k: ('k', k)) if tupkeys else (lambda k: k)
	m = Model()
	if init is None:
		a = PyAgenda()
	else:
		init = [(key(k), v) for k, v in init]
		a = PyAgenda(iter(init) if len(init) % 2 else init)
		for k, v in init:
			if k not in m.d or v < m.d[k][0]:
				m.set(k, v)
	stale = 0
	hist = []
	nontriv = False

	def agree():
		ctx.eq(len(a), len(m.d), 'length', hist)
		ctx.eq(bool(a), bool(m.d), 'truth value', hist)
		ctx.eq(sorted(a), sorted(m.d), 'keys', hist)
		ctx.eq(sorted(a.keys()), sorted(m.d), 'keys()', hist)
		ctx.eq(sorted(a.items()), sorted((k, v[0]) for k, v in m.d.items()),
				'items', hist)
		ctx.eq(sorted(a.values()), sorted(v[0] for v in m.d.values()),
				'values', hist)
		for k in range(nkeys):
			k = key(k)
			ctx.eq(k in a, k in m.d, 'membership', hist)
			if k in m.d:
				ctx.eq(a[k], m.d[k][0], 'lookup', hist)
			else:
				try:
					x = a[k]
				except KeyError:
					pass
				else:
					ctx.fail('lookup', 'absent key %r gives %r: %r', k, x,
							hist)

	def popped(got, how):
		want = m.best()
		if m.ties() > 1:
			ctx.ev('ties')
		ctx.eq(got, (want, m.d[want][0]), how, hist)

	agree()
	for op, k, v in ops:
		k = key(k)
		hist.append((op, k, v))
		ctx.ev('python operations')
		if op in ('up', 'down') and k in m.d and not isinstance(v, tuple):
			v = m.d[k][0] + (1 if op == 'up' else -1)
		if op in ('set', 'up', 'down'):
			stale += k in m.d
			a[k] = v
			m.set(k, v)
		elif op == 'update':
			pairs = [(k, v), (key(0), v)]
			stale += sum(x[0] in m.d for x in pairs)
			a.update(pairs)
			for k, v in pairs:
				m.set(k, v)
		elif op in ('del', 'pop'):
			try:
				if op == 'del':
					del a[k]
				else:
					got = a.pop(k)
			except KeyError:
				ctx.ok(k not in m.d, op, 'KeyError for present key: %s', hist)
			else:
				ctx.ok(k in m.d, op, 'no KeyError for absent key: %s', hist)
				if op == 'pop':
					ctx.eq(got, m.d[k][0], 'pop', hist)
				del m.d[k]
				stale += 1
		elif op in ('popitem', 'popnone', 'peek'):
			if stale:
				ctx.ev('pops after invalidation')
				nontriv = True
			if op == 'peek':
				ctx.ev('peeks')
			try:
				got = (a.peekitem() if op == 'peek' else a.popitem()
						if op == 'popitem' else a.pop(None))
			except IndexError:
				ctx.ok(not m.d, op, 'IndexError, but not empty: %s', hist)
				continue
			ctx.ok(m.d, op, 'no IndexError when empty: %s', hist)
			if op == 'popnone':
				got = m.best(), got
			popped(got, op)
			if op != 'peek':
				del m.d[got[0]]
		elif op == 'clear':
			a.clear()
			m = Model()
			stale = 0
		if len(hist) % 3 == 0 or len(ops) < 30:
			agree()
	if nontriv:
		ctx.nontrivial(repr(case))
	ctx.sample(repr(hist))
	# drain
	agree()
	last = None
	ctx.ev('drains')
	while m.d:
		got = a.popitem()
		popped(got, 'drain')
		ctx.ok(last is None or last <= got[1], 'order', '%s', hist)
		last = got[1]
		del m.d[got[0]]
	agree()
	for f in (a.popitem, a.peekitem):
		try:
			got = f()
		except IndexError:
			pass
		else:
			ctx.fail('empty', 'got %r from empty agenda: %r', got, hist)


def gennative(rng, ctx):
	kind = rng.choice(['int', 'item'])
	n = rng.choice([5, 20, 60, 300])
	nkeys = rng.choice([2, 5, 10, 60])
	how = rng.choice(['int', 'fine'])
	start = rng.choice([None, 'replace', 'kbest', 'reserve'])
	init = [(rng.randrange(nkeys), float(value(rng, how)))
			for _ in range(rng.randint(0, nkeys * 3))]
	k = rng.choice([0, 1, 2, 3, nkeys // 2, nkeys, 3 * nkeys])
	ops = [(rng.choice(['set', 'set', 'pop']), rng.randrange(nkeys),
			float(value(rng, how))) for _ in range(n)]
	unconditional = rng.random() < 0.3
	return kind, start, init, k, ops, unconditional


def checknative(case, ctx):
	"""Entries are inserted, improved, popped, and inserted again. The order
	of ties is not checked once a key was inserted again with a priority
	that it had before."""
	kind, start, init, k, ops, unconditional = case
	m = Model()
	hist = []
	if kind == 'int':
		a = IntAgenda()
		key = lambda x: x
		if start == 'reserve':
			a.reserve(k)
		elif start == 'replace':
			# last value for duplicates
			a.replace_entries(init)
			for x, v in init:
				m.d.pop(x, None)
				m.seq += 1
				m.d[x] = (v, m.seq)
		elif start == 'kbest':
			a.kbest_entries(init, k)
			for x, v in init:
				if x not in m.d or v < m.d[x][0]:
					m.set(x, v)
			keep = sorted(m.d, key=lambda x: m.d[x])[:k]
			m.d = {x: m.d[x] for x in keep}
			ctx.ev('k-best selections')
	else:
		a = ItemAgenda()
		key = lambda x: (x % 3, (1 << 63) | x)
	popped = set()
	had = {}
	loose = False
	nontriv = False
	for x, v in init:
		had.setdefault(key(x), set()).add(v)

	def agree():
		ctx.eq(len(a), len(m.d), 'native size', hist)
		ctx.eq(a.empty(), not m.d, 'native empty', hist)

	def pop():
		want = m.best()
		if m.ties() > 1:
			ctx.ev('ties')
		got = a.pop()
		if loose and got[0] in m.d and m.d[got[0]][0] == m.d[want][0]:
			want = got[0]
		ctx.eq(got, (want, m.d[want][0]), 'native pop', (case, hist))
		del m.d[want]
		popped.add(want)

	agree()
	for op, x, v in ops:
		ctx.ev('native operations')
		x = key(x)
		hist.append((op, x, v))
		if op == 'pop':
			if m.d:
				pop()
		else:
			if x in m.d:
				nontriv = True
			elif x in popped:
				ctx.ev('native re-insertions')
				ctx.ok(not a.member(x), 'native member', '%s', hist)
			if x in popped:
				loose = loose or v in had[x]
			had.setdefault(x, set()).add(v)
			if unconditional and (x not in m.d or v < m.d[x][0]):
				# updated entries are ordered by time of update
				a.setitem(x, v)
				m.seq += 1
				m.d[x] = (v, m.seq)
			elif x not in m.d or v < m.d[x][0]:
				a.setifbetter(x, v)
				m.set(x, v)
			else:
				a.setifbetter(x, v)
			ctx.ok(a.member(x), 'native member', '%s', hist)
			agree()
	ctx.ev('drains')
	while m.d:
		pop()
		agree()
	if nontriv:
		ctx.nontrivial(repr(case))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return dict(
			python=(genpy, checkpy, 6000 * k),
			native=(gennative, checknative, 5000 * k))

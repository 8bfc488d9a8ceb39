"""C02: trees are faithful values."""
import copy
import re
from discodop.tree import (Tree, ParentedTree, ImmutableTree,
		ImmutableParentedTree, DiscTree, brackettree, discbrackettree,
		writebrackettree, writediscbrackettree)
import g

PLAN = dict(
	mods=['bit'],
	rule='random labeled trees (index and word leaves, 1-14 leaves, unary '
	'chains, discontinuity) plus single mutations of them, and token-level '
	'corruptions of bracketings; nontrivial: at least 3 nodes; counted by '
	'string form',
	require={'round trips': 500, 'equality pairs': 500, 'malformed': 300,
		'refused modifications': 1000, 'DiscTree pairs': 300, 'indexed text': 5000,
		'text with words': 600, 'frontier text': 250,
		'edits of plain trees': 2000, 'edits by position': 400,
		'order pairs': 3000},
)
CHARS = 'ABCabc019-_|<>^@:;,.=/%$#&*+?!~\'"`éß日[]{}\\'


def randlabel(rng):
	if rng.random() < 0.6:
		return rng.choice(g.LABELS)
	return ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 6)))


def relabel(rng, m, leaf):
	if not isinstance(m, tuple):
		return leaf(m)
	return (randlabel(rng), tuple(relabel(rng, c, leaf) for c in m[1]))


def gentree(rng, empty=True):
	m = g.randtree(rng, g.size(rng), disc=0.4)
	words = rng.random() < 0.4
	perm = {}
	m = relabel(rng, m, (lambda i: randlabel(rng)) if words else
			lambda i: perm.setdefault(i, i))
	if not words and rng.random() < 0.2:  # arbitrary large indices
		off = rng.randint(1, 10 ** rng.randint(1, 3))
		m = relabel2(m, lambda i: i * 7 + off)
	if empty and rng.random() < 0.15:
		m = addempty(rng, m)
	if rng.random() < 0.2:
		m = shuffle(rng, m)
	return m, words


def relabel2(m, leaf):
	if not isinstance(m, tuple):
		return leaf(m)
	return (m[0], tuple(relabel2(c, leaf) for c in m[1]))


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	kids = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(kids)
	return (m[0], tuple(kids))


def addempty(rng, m):
	if not isinstance(m, tuple):
		return m
	kids = [addempty(rng, c) for c in m[1]]
	if rng.random() < 0.3:
		kids.insert(rng.randint(0, len(kids)), (randlabel(rng), ()))
	if rng.random() < 0.2:
		kids.insert(rng.randint(0, len(kids)), rng.choice(
				[x for x in g.leaves(m)] or [0]))
	return (m[0], tuple(kids))


def mutate(rng, m):
	"""A model that differs from m in one place."""
	kids = list(m[1])
	x = rng.random()
	sub = [i for i, c in enumerate(kids) if isinstance(c, tuple)]
	if sub and x < 0.5:
		i = rng.choice(sub)
		kids[i] = mutate(rng, kids[i])
	elif x < 0.7 or not kids:
		return (m[0] + 'x', m[1])
	elif x < 0.85:
		i = rng.randrange(len(kids))
		kids.insert(i, ('Q', ()))
	else:
		kids.pop(rng.randrange(len(kids)))
	return (m[0], tuple(kids))


def gen(rng, ctx):
	m, words = gentree(rng)
	return rng, m, words


def height(m):
	# height of a childless node is 1, of a node with only leaves 2
	return 1 + max([height(c) if isinstance(c, tuple) else 1
			for c in m[1]] or [0])


def postorder(m):
	result = []
	for c in m[1]:
		if isinstance(c, tuple):
			result.extend(postorder(c))
	return result + [m]


def positions(m, pos=()):
	yield pos, m
	if isinstance(m, tuple):
		for i, c in enumerate(m[1]):
			yield from positions(c, pos + (i, ))


def check(case, ctx):
	rng, m, words = case
	cls = rng.choice([Tree, ParentedTree])
	leaf = None if words else int
	t = g.totree(m, cls)
	nodes = g.nodes(m)
	if len(nodes) >= 3:
		ctx.nontrivial(repr(m))
	ctx.sample(repr(m))
	# text form
	for how, s in (('str', str(t)), ('pprint', t.pprint()),
			('pprint', t.pprint(margin=rng.randint(1, 60),
				indent=rng.choice([0, 0, 3])))):
		ctx.ev('round trips')
		cls2 = rng.choice([Tree, ParentedTree, ImmutableTree,
				ImmutableParentedTree])
		u = cls2.parse(s, parse_leaf=leaf)
		ctx.ok(type(u) is cls2, 'parse type', 'type %s', type(u))
		ctx.eq(g.tomodel(u), m, how + ' round trip', s)
		ctx.ok(u == t and t == u and not u != t, 'equality',
				'equal trees compare unequal: %s', s)
	if not words:
		ctx.eq(g.tomodel(cls(str(t))), m, 'constructor round trip')
	s = str(t)
	noisy = ''.join(rng.choice(['\n', ' ', '  ', '\t'])
			if a == ' ' and rng.random() < 0.3 else a for a in s)
	ctx.eq(g.tomodel(cls.parse(noisy, parse_leaf=leaf)), m,
			'whitespace round trip')
	# traversals
	ctx.eq(t.leaves(), g.leaves(m), 'leaves')
	ctx.eq([g.tomodel(a) for a in t.subtrees()], nodes, 'subtrees')
	ctx.eq([g.tomodel(a) for a in t.subtrees(lambda n: len(n) > 1)],
			[a for a in nodes if len(a[1]) > 1], 'subtrees condition')
	ctx.eq([g.tomodel(a) for a in t.postorder()], postorder(m), 'postorder')
	ctx.eq([g.tomodel(a) for a in t.postorder(lambda n: len(n) == 1)],
			[a for a in postorder(m) if len(a[1]) == 1], 'postorder condition')
	ctx.eq(t.height(), height(m), 'height')
	ctx.eq(t.pos(), [(c, a[0]) for a in nodes for c in a[1]
			if not isinstance(c, tuple)], 'pos')
	ctx.eq([g.tomodel(a) for a in t.pos(nodes=True)], [a for a in nodes
			if any(not isinstance(c, tuple) for c in a[1])], 'pos(nodes)')
	poss = list(positions(m))
	ctx.eq(t.treepositions(), [p for p, _ in poss], 'treepositions preorder')
	ctx.eq(t.treepositions('leaves'), [p for p, a in poss
			if not isinstance(a, tuple)], 'treepositions leaves')
	post = t.treepositions('postorder')
	ctx.ok(sorted(post) == sorted(p for p, _ in poss) and all(
			post.index(p[:-1]) > post.index(p) for p in post if p),
			'treepositions postorder', 'not a postorder %s', post)
	lv = [p for p, a in poss if not isinstance(a, tuple)]
	for p, a in poss:
		x = t[p]
		ctx.ok((g.tomodel(x) if isinstance(a, tuple) else x) == a,
				'tree position', 't[%s]', p)
	for i, p in enumerate(lv):
		ctx.eq(t.leaf_treeposition(i), p, 'leaf_treeposition')
	for bad in (-1, len(lv), len(lv) + 3):
		try:
			t.leaf_treeposition(bad)
		except IndexError:
			pass
		else:
			ctx.fail('leaf_treeposition', 'accepted %d' % bad)
	if lv:
		i = rng.randrange(len(lv))
		j = rng.randrange(i + 1, len(lv) + 1)
		common = lv[i]
		for p in lv[i:j]:
			k = 0
			while k < min(len(common), len(p)) and common[k] == p[k]:
				k += 1
			common = common[:k]
		for lo, hi in ((i, i), (j, i), (i + 1, i)):
			try:
				t.treeposition_spanning_leaves(lo, hi)
			except ValueError:
				pass
			else:
				ctx.fail('treeposition_spanning_leaves', 'accepted an empty span')
		if j > i + 1:
			ctx.eq(t.treeposition_spanning_leaves(i, j), common,
				'treeposition_spanning_leaves')
	# copying
	t.source = ['a', 'b']
	t.type = 1
	for c in (t.copy(True), cls.convert(t), copy.deepcopy(t) if cls is Tree
			else t.copy(True)):
		ctx.ok(type(c) is cls and c == t and c is not t, 'copy', 'copy differs')
		ctx.ok(c.type == 1 and c.source == ['a', 'b'], 'copy attributes',
				'copy: type %s source %s', c.type, c.source)
		orig = {id(a) for a in t.subtrees()} | {
				id(a.children) for a in t.subtrees()}
		ctx.ok(not any(id(a) in orig or id(a.children) in orig
				for a in c.subtrees()), 'copy shares state', 'shared node')
		c.source.append('z')
		for a in list(c.subtrees()):
			a.label += '!'
			a.append(99)
		ctx.eq(g.tomodel(t), m, 'copy shares state')
		ctx.eq(t.source, ['a', 'b'], 'copy shares source')
	# freezing
	f, f2 = t.freeze(), cls.convert(t).freeze()
	ctx.ok(isinstance(f, ImmutableTree) and f == t and f == f2
			and hash(f) == hash(f2), 'freeze', 'freeze not equal/hash differs')
	ctx.eq(g.tomodel(f), m, 'freeze')
	ctx.eq(f.leaves(), g.leaves(m), 'frozen leaves')
	ctx.ok(f.source == t.source and f.type == 1, 'freeze attributes', 'lost')
	f.source.append('q')
	ctx.eq(t.source, ['a', 'b'], 'freeze shares source')
	if not words and len(set(g.leaves(m))) == len(g.leaves(m)):
		for a, b in zip(f.subtrees(), nodes):
			ctx.eq(a.bitset, sum(1 << i for i in g.leaves(b)), 'bitset')
	for a in list(f.subtrees()):
		for name, mod in MODS:
			try:
				mod(a)
			except (ValueError, TypeError, IndexError, AttributeError):
				ctx.ev('refused modifications')
			ctx.ok(g.tomodel(f) == m, 'frozen modified by ' + name,
					'%s changed a frozen tree', name)
	t.label = 'CHANGED'
	t.append(3)
	ctx.eq(g.tomodel(f), m, 'freeze shares state')
	# (in)equality
	other = mutate(rng, m) if rng.random() < 0.7 else gentree(rng)[0]
	a, b = g.totree(m, cls), g.totree(other, rng.choice([Tree, ParentedTree]))
	ctx.ev('equality pairs')
	ctx.ok((a == b) == (m == other) and (a != b) == (m != other)
			and (b == a) == (m == other), 'equality', '%s vs %s', m, other)
	ctx.ok((a.freeze() == b.freeze()) == (m == other), 'equality frozen',
			'%s vs %s', m, other)
	ctx.ok(a != str(a) and not a == None and a != 0, 'equality',  # noqa: E711
			'tree equals non-tree')
	d = {a.freeze(): 1}
	ctx.ok((b.freeze() in d) == (m == other), 'hash lookup',
			'%s vs %s', m, other)
	# order
	third = mutate(rng, other) if rng.random() < 0.7 else gentree(rng)[0]
	models = [m, other, third]
	if len({type(x) for y in models for x in g.leaves(y)}) > 1:
		return
	trees = [g.totree(x, rng.choice([Tree, ParentedTree])) for x in models]
	for x, mx in zip(trees, models):
		for y, my in zip(trees, models):
			ctx.ev('order pairs')
			ctx.eq([x < y, x == y, x > y].count(True), 1, 'order', (mx, my))
			ctx.ok((x < y) == (y > x) and (x <= y) == (not x > y)
					and (x >= y) == (not x < y), 'order', '%r %r', mx, my)
	x, y, z = sorted(trees)
	ctx.ok(x <= y <= z and x <= z, 'order is not transitive', '%r', models)
	# children, leaves
	for x in a.subtrees():
		y = x.find(lambda n: isinstance(n, Tree) and len(n) > 1)
		want = [n for n in x if isinstance(n, Tree) and len(n) > 1]
		ctx.ok(y is (want[0] if want else None), 'find', '%r', m)
	f = a.freeze(leaf_freezer=str)
	ctx.ok(isinstance(f, ImmutableTree), 'freeze', 'not frozen')
	ctx.eq(f.leaves(), [str(x) for x in g.leaves(m)], 'leaf_freezer', m)
	ctx.eq([(x.label, len(x)) for x in f.subtrees()], [(x[0], len(x[1]))
			for x in g.nodes(m)], 'leaf_freezer', m)
	ctx.eq(g.tomodel(a), m, 'freeze changed tree', m)


MODS = [
	('append', lambda t: t.append(1)),
	('extend', lambda t: t.extend([1])),
	('insert', lambda t: t.insert(0, 1)),
	('pop', lambda t: t.pop()),
	('pop0', lambda t: t.pop(0)),
	('remove', lambda t: t.remove(t[0])),
	('setitem', lambda t: t.__setitem__(0, 5)),
	('setslice', lambda t: t.__setitem__(slice(0, 1), [])),
	('delitem', lambda t: t.__delitem__(0)),
	('delslice', lambda t: t.__delitem__(slice(0, 5))),
	('settuple', lambda t: t.__setitem__((0, ), 7)),
	('iadd', lambda t: t.__iadd__([1])),
	('imul', lambda t: t.__imul__(2)),
	('detach', lambda t: t.detach()),
	('disown', lambda t: t.disown()),
	('prune', lambda t: t.prune()),
	('splicebelow', lambda t: t.splicebelow('X')),
]


def gendisc(rng, ctx):
	n = g.size(rng, 4, 8)
	m = g.randtree(rng, n, disc=0.6, labels=['A', 'B'], tags=['a', 'b'])
	sent = [rng.choice('xy') for _ in range(n)]
	x = rng.random()
	if x < 0.3:  # same tree at other positions of another sentence
		n2 = n + rng.randint(0, 3)
		pos = sorted(rng.sample(range(n2), n))
		sent2 = [rng.choice('xy') for _ in range(n2)]
		for i, p in enumerate(pos):
			sent2[p] = sent[i]
		m2 = relabel2(m, lambda i: pos[i])
	elif x < 0.6:
		m2, sent2 = m, sent[:]
		sent2[rng.randrange(n)] = 'z'
	elif x < 0.8:
		m2, sent2 = mutatelabel(rng, m), sent[:]
	else:
		m2 = g.randtree(rng, n, disc=0.6, labels=['A', 'B'], tags=['a', 'b'])
		sent2 = [rng.choice('xy') for _ in range(n)]
	return m, sent, m2, sent2


def mutatelabel(rng, m):
	kids = list(m[1])
	sub = [i for i, c in enumerate(kids) if isinstance(c, tuple)]
	if sub and rng.random() < 0.7:
		i = rng.choice(sub)
		kids[i] = mutatelabel(rng, kids[i])
		return (m[0], tuple(kids))
	return (m[0] + 'q', m[1])


def subst(m, sent):
	if not isinstance(m, tuple):
		return ('w', sent[m])
	return (m[0], tuple(subst(c, sent) for c in m[1]))


def checkdisc(case, ctx):
	m, sent, m2, sent2 = case
	a = DiscTree(g.totree(m, ParentedTree), sent)
	b = DiscTree(g.totree(m2, Tree), sent2)
	want = subst(m, sent) == subst(m2, sent2)
	ctx.ev('DiscTree pairs')
	ctx.ev('DiscTree pairs equal' if want else 'DiscTree pairs different')
	if len(sent) > 2:
		ctx.nontrivial(repr(case))
	ctx.ok((a == b) == want and (b == a) == want and (a != b) == (not want),
			'DiscTree equality', 'got %s, want %s: %s', a == b, want, case)
	if want:
		ctx.ok(hash(a) == hash(b), 'DiscTree hash', 'hash differs %s', case)
	ctx.ok((b in {a}) == want, 'DiscTree lookup', '%s', case)
	ctx.eq(g.tomodel(a), m, 'DiscTree structure')
	ctx.eq(a.leaves(), g.leaves(m), 'DiscTree leaves')


def genbad(rng, ctx):
	m, words = gentree(rng)
	toks = []
	for a in g.tostr(m).replace('(', ' ( ').replace(')', ' ) ').split():
		toks.append(a)
	i = rng.randrange(len(toks))
	x = rng.random()
	if x < 0.35:
		br = [k for k, a in enumerate(toks) if a in '()']
		del toks[rng.choice(br)]
	elif x < 0.6:
		toks.insert(i, rng.choice('()'))
	elif x < 0.75:
		toks = toks[:i]
	elif x < 0.9:
		toks = toks + rng.choice([['('], [')'], ['(', 'A', '0', ')'], ['0']])
	else:
		toks = rng.choice([[], [')'], ['('], ['0'], ['(', ')', ')'],
				['0', '(', 'A', '0', ')']])
	return words, ' '.join(toks), toks


def balanced(toks):
	"""exactly one bracketing, nothing outside."""
	depth, done = 0, 0
	for n, a in enumerate(toks):
		if a == '(':
			if depth == 0 and done:
				return False
			depth += 1
		elif a == ')':
			depth -= 1
			if depth < 0:
				return False
			if depth == 0:
				done += 1
		elif depth == 0:
			return False
	return depth == 0 and done == 1


def checkbad(case, ctx):
	words, s, toks = case
	if balanced(toks):
		Tree.parse(s, parse_leaf=None)
		ctx.ev('still well-formed')
		return
	ctx.ev('malformed')
	ctx.nontrivial(s)
	for cls in (Tree, ParentedTree):
		try:
			t = cls.parse(s, parse_leaf=None)
		except ValueError:
			continue
		ctx.fail('malformed accepted', '%r accepted as %s' % (s, t))


def genstr(rng, ctx):
	"""tree and sentence; some words may be missing (frontier nodes)"""
	n = g.size(rng)
	m = relabel(rng, g.randtree(rng, n, disc=0.4 if rng.random() < 0.6 else 0,
			unary=0.2), lambda i: i)
	sent = g.randsent(rng, n, hostile=0.5)
	if rng.random() < 0.4:
		# frontier nodes: preterminals without word
		pre = [a[1][0] for a in g.nodes(m) if len(a[1]) == 1
				and not isinstance(a[1][0], tuple)]
		for i in pre:
			if rng.random() < 0.4:
				sent[i] = None
	return m, sent, rng


def checkstr(case, ctx):
	m, sent, rng = case
	n = len(sent)
	t = g.totree(m, rng.choice([Tree, ParentedTree]))
	cont = all(g.fanout(a) == 1 for a in g.nodes(m))
	if n >= 3:
		ctx.nontrivial(repr((m, sent)))
	frontier = None in sent
	s = writediscbrackettree(t, sent)
	ctx.eq(re.sub(r'\s+', ' ', s.strip()), g.tostr(m, lambda i: '%d=%s' % (i, ''
			if sent[i] is None else sent[i].replace('(', '#LRB#').replace(')',
			'#RRB#'))), 'text with indices')
	last = [i for i, a in enumerate(sent) if a is not None]
	forms = [s, writediscbrackettree(t, sent, pretty=True), s.strip(),
			s.replace(') (', rng.choice([')  (', ')\n (', ')\t('])),
			re.sub(r'\)(?=\))', ') ', s)]
	for a in forms:
		for f in (brackettree, discbrackettree):
			got, words = f(a)
			ctx.ok(isinstance(got, ParentedTree), 'type', '%s', type(got))
			ctx.eq(g.tomodel(got), m, 'tree from text with indices')
			ctx.eq(words, sent, 'words from text with indices')
			ctx.ev('indexed text')
	if cont:
		s = writebrackettree(t, sent)
		ctx.eq(re.sub(r'\s+', ' ', s.strip()), g.tostr(m, lambda i: '' if
				sent[i] is None else sent[i].replace('(', '#LRB#').replace(')',
				'#RRB#')), 'text with words')
		indexed = all(a is not None and re.match('[0-9]+=', a) for a in sent)
		for a in (s, s.strip(), s.replace(') (', ')\n  (')):
			for detect in (False, True):
				if detect and indexed:
					continue
				got, words = brackettree(a, detectdisc=detect)
				ctx.ev('frontier text' if frontier else 'text with words')
				ctx.eq(g.tomodel(got), m, 'tree from text')
				ctx.eq(words, sent, 'words from text')


def genedit(rng, ctx):
	m, words = gentree(rng, empty=False)
	return m, [rng.randrange(1 << 30) for _ in range(rng.randint(1, 8))]


def aslist(m):
	return [m[0], [aslist(c) for c in m[1]]] if isinstance(m, tuple) else m


def astuple(m):
	return (m[0], tuple(map(astuple, m[1]))) if isinstance(m, list) else m


def checkedit(case, ctx):
	"""Edits of a plain tree, by position or by index, equal list edits."""
	import random
	m, seeds = case
	t = g.totree(m, Tree)
	lst = aslist(m)
	for seed in seeds:
		rng = random.Random(seed)
		inner = []  # positions of internal nodes
		todo = [((), lst)]
		while todo:
			p, x = todo.pop()
			if isinstance(x, list):
				inner.append((p, x))
				todo.extend((p + (n, ), c) for n, c in enumerate(x[1]))
		p, x = rng.choice(inner)
		new = ('N', ((rng.choice('ab'), (rng.randrange(9), )), ))
		n = len(x[1])
		op = rng.choice(['set', 'del', 'get', 'setslice', 'delslice', 'insert',
				'append', 'extend', 'pop', 'remove', 'reject'])
		i = rng.randrange(n) if n else 0
		neg = rng.random() < 0.3
		a, b = rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)
		node = t[p]
		conv = rng.choice([tuple, list])
		if n == 0 and op in ('set', 'del', 'get', 'pop', 'remove'):
			continue
		ctx.ev('edits of plain trees')
		ctx.ev('edits by position', op in ('set', 'del'))
		if op == 'set':
			idx = i - n if neg else i
			if rng.random() < 0.7 and conv is tuple:
				t[p + (idx, )] = g.totree(new, Tree)
			else:
				node[idx] = g.totree(new, Tree)
			x[1][i] = aslist(new)
		elif op == 'del':
			idx = i - n if neg else i
			if rng.random() < 0.7:
				del t[p + (idx, )]
			else:
				del node[idx]
			del x[1][i]
		elif op == 'get':
			got = t[conv(p + (i - n if neg else i, ))]
			ctx.eq(g.tomodel(got) if isinstance(got, Tree) else got,
					astuple(x[1][i]), 'tree position', (case, p, i))
		elif op == 'setslice':
			node[a:b] = [g.totree(new, Tree)]
			x[1][a:b] = [aslist(new)]
		elif op == 'delslice':
			del node[a:b]
			del x[1][a:b]
		elif op == 'insert':
			node.insert(a, g.totree(new, Tree))
			x[1].insert(a, aslist(new))
		elif op == 'append':
			node.append(g.totree(new, Tree))
			x[1].append(aslist(new))
		elif op == 'extend':
			node.extend([g.totree(new, Tree), 3])
			x[1].extend([aslist(new), 3])
		elif op == 'pop':
			idx = rng.choice([i, i - n, -1])
			got = node.pop(idx)
			ctx.eq(g.tomodel(got) if isinstance(got, Tree) else got,
					astuple(x[1].pop(idx)), 'pop', case)
		elif op == 'remove':
			node.remove(node[i])
			x[1].remove(x[1][i])
		else:
			for name, f in (('set', lambda: t.__setitem__((), 1)),
					('del', lambda: t.__delitem__(())),
					('get', lambda: t[p + (n, )]),
					('set', lambda: t.__setitem__(p + (n, ), 1)),
					('del', lambda: t.__delitem__(p + (n, ))),
					('pop', lambda: node.pop(n))):
				try:
					f()
				except IndexError:
					ctx.ev('rejected positions')
				else:
					ctx.fail('invalid position accepted', '%s %s', name, case)
		ctx.eq(g.tomodel(t), astuple(lst), 'edit of plain tree', (op, case))
	ctx.nontrivial(repr(case))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'edits': (genedit, checkedit, 1500 * k),
			'values': (gen, check, 1600 * k),
			'strings': (genstr, checkstr, 1500 * k),
			'disctree': (gendisc, checkdisc, 3000 * k),
			'malformed': (genbad, checkbad, 3000 * k)}

"""C10: binarization is reversible and bounded."""
from collections import Counter
from discodop.tree import Tree, ParentedTree, ImmutableTree, HEAD
from discodop.treetransforms import (binarize, unbinarize, collapseunary,
		factorconstituent, handledisc, introducepreterminals, markovthreshold, addbitsets,
		binarizetree)
from discodop.grammar import UniqueIDs
import g

PLAN = dict(
	mods=['bit'],
	rule='random trees (1-14 tokens, up to 9 children per node) with random '
	'head annotation and labels, times random binarization settings; '
	'nontrivial: a node with more than 2 children; counted by tree and '
	'settings',
	require={'binarizations': 3000, 'artificial nodes': 5000,
		'factorconstituent': 1000, 'unary chains': 1000,
		'markovthreshold': 100, 'head-outward': 500, 'unique ids': 300,
		'parent annotation': 500, 'discontinuous': 300, 'settings': 500,
		'markovized labels': 800, 'extra context': 150, 'contexts': 1000,
		'predicted binarizations': 1000, 'introduced preterminals': 800},
)
LABELS = g.LABELS + ['NP-SBJ', 'X_2', 'VP*', 'VP*1', 'S/NP', 'A@1', 'WHNP|x',
		'N:', 'A;', '<X>', 'A>', 'B<']
TAGS = g.TAGS + ['$,', 'PRP$', ',', 'a|b']


def gen(rng, ctx):
	n = g.size(rng, 8, 14)
	plain = rng.random() < 0.4
	m = g.randtree(rng, n, disc=0.5, labels=g.LABELS if plain else LABELS,
			tags=g.TAGS if plain else TAGS, root=rng.choice(
			['ROOT', 'S', None]), maxar=rng.choice([3, 5, 9]),
			unary=rng.choice([0, 0.2, 0.4]))
	if rng.random() < 0.2:
		m = shuffle(rng, m)
	kw = dict(
			factor=rng.choice(['left', 'right', 'right']),
			horzmarkov=rng.choice([999, 0, 1, 2, 3]),
			vertmarkov=rng.choice([1, 1, 2, 3, 0]),
			revhorzmarkov=rng.choice([0, 0, 1, 2]),
			markhead=rng.random() < 0.3,
			headoutward=rng.random() < 0.4,
			tailmarker=rng.choice(['', '', '$', '@']),
			leftmostunary=rng.random() < 0.3,
			rightmostunary=rng.random() < 0.3,
			threshold=rng.choice([2, 2, 2, 1, 3]),
			artpa=rng.random() < 0.7,
			dot=rng.random() < 0.2,
			direction=rng.random() < 0.3,
			filterlabels=rng.choice([(), (), ('NP', 'DT'), tuple(TAGS)]))
	if rng.random() < 0.5:  # mostly defaults
		for a in rng.sample(sorted(kw), rng.randint(8, len(kw))):
			del kw[a]
		if rng.random() < 0.5:
			for a in ('headoutward', 'markhead', 'dot', 'revhorzmarkov',
					'filterlabels'):
				kw.pop(a, None)
	if rng.random() < 0.3:
		kw['labelfun'] = lambda node: node.label.split('-')[0][:2]
	ids = rng.random() < 0.2
	heads = [rng.random() for _ in g.nodes(m)]
	return rng, m, kw, ids, heads


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(ch)
	return (m[0], tuple(ch))


def make(m, heads, cls):
	tree = g.totree(m, cls)
	cnt = iter(heads)
	for node in tree.subtrees():
		p = next(cnt)
		if p < 0.8 and node and isinstance(node[0], Tree):
			node[int(p / 0.8 * len(node))].type = HEAD
	return tree


def linked(ctx, tree, desc):
	for node in tree.subtrees():
		for n, child in enumerate(node):
			if isinstance(child, ParentedTree):
				ctx.ok(child.parent is node and child.parent_index == n,
						'parent link', '%r', desc)


def spans(m, norm=lambda x: x):
	return Counter((norm(n[0]), tuple(sorted(g.leaves(n)))) for n in g.nodes(m))


def stripparent(label):
	return label.split('^<')[0]


def check(case, ctx):
	rng, m, kw, ids, heads = case
	cls = rng.choice([Tree, ParentedTree])
	if ids:
		kw = dict(kw, ids=UniqueIDs() if rng.random() < 0.5
				else IdDict())
		ctx.ev('unique ids')
	tree = make(m, heads, cls)
	types = [node.type for node in tree.subtrees()]
	desc = (kw, m, [round(a, 2) for a in heads], cls.__name__)
	ctx.ev('binarizations')
	if kw.get('headoutward'):
		ctx.ev('head-outward')
	if kw.get('vertmarkov', 1) > 1:
		ctx.ev('parent annotation')
	if any(g.fanout(a) > 1 for a in g.nodes(m)):
		ctx.ev('discontinuous')
	chain = rng.random() < 0.4
	collapsed = m
	if chain:
		ctx.ev('unary chains')
		cp, cr = rng.random() < 0.5, rng.random() < 0.5
		desc += ('collapse', cp, cr)
		collapseunary(tree, collapsepos=cp, collapseroot=cr)
		collapsed = g.tomodel(tree)
		ctx.eq(collapsed, collapse(m, cp, cr), 'collapseunary', desc)
		if cls is ParentedTree:
			linked(ctx, tree, desc)
	result = binarize(tree, **kw)
	b = g.tomodel(result)
	ctx.eq(g.leaves(b), g.leaves(m), 'tokens of binarized tree', desc)
	limit = max(2, kw.get('threshold', 2))
	allnodes = g.nodes(b)
	for n in allnodes:
		ctx.ok(1 <= len(n[1]) <= limit, 'number of children',
				'%r in %r %r', n, b, desc)
	ctx.ev('artificial nodes', len(allnodes) - len(g.nodes(collapsed)))
	s1, s2 = spans(collapsed), spans(b, stripparent)
	ctx.ok(not s1 - s2, 'constituent lost by binarization', '%r %r %r',
			s1 - s2, b, desc)
	if not chain and (kw.get('factor', 'right') == 'right'
			or not kw.get('headoutward')):
		ctx.ev('predicted binarizations')
		sameshape(b, expected(m, heads, kw), ctx, desc, b)
	# artificial nodes carry the artificial label
	extra = [n for n in allnodes if '|<' in n[0]]
	ctx.eq(len(extra), len(allnodes) - len(g.nodes(collapsed)),
			'number of artificial nodes', (b, desc))
	if cls is ParentedTree:
		linked(ctx, result, desc)
	if rng.random() < 0.2:
		ctx.ev('markovthreshold')
		thresh, h, v = (rng.choice([1, 2, 3, 10]), rng.choice([0, 1, 2]),
				rng.choice([0, 1, 2]))
		markovthreshold([result], thresh, h, v)
		b2 = g.tomodel(result)
		if not chain and not ids and 'labelfun' not in kw and all(
				n[0].isalnum() for n in g.nodes(m)):
			freqs = Counter(n[0] for n in g.nodes(b) if '|<' in n[0])
			for x, y in zip(g.nodes(b), g.nodes(b2)):
				if 0 < freqs[x[0]] < thresh:
					ctx.ev('reduced labels')
					label, rest = x[0].split('|<')
					context, rest = rest.split('>', 1)
					pre, semi, context = context.rpartition(';')
					want = '%s|<%s%s%s,>' % (label, pre, semi, ','.join(
							context.split(',')[:h]))
					if rest.startswith('^<'):
						parents, rest = rest[2:].split('>', 1)
						want += '^<%s>' % ','.join(parents.split(',')[:v])
					ctx.eq(y[0], want + rest, 'reduced label', (
							x[0], h, v, desc))
				else:
					ctx.eq(y[0], x[0], 'label above threshold', desc)
		ctx.eq(shape(b2), shape(b), 'shape after markovthreshold', desc)
		ctx.ok(all(('|<' in x[0]) == ('|<' in y[0]) and (
				x[0] == y[0] or '|<' in x[0])
				for x, y in zip(g.nodes(b), g.nodes(b2))),
				'markovthreshold changed other labels', '%r %r', b2, desc)
	restored = unbinarize(result, expandunary=chain)
	ctx.eq(g.tomodel(restored), m, 'unbinarized tree', (b, desc))
	if cls is ParentedTree:
		linked(ctx, restored, desc)
	if not chain:
		ctx.eq([node.type for node in restored.subtrees()], types,
				'head annotation', desc)
	if rng.random() < 0.3:  # through settings as used by the parser
		from types import SimpleNamespace
		ctx.ev('settings')
		kw2 = dict(dict(factor='right', horzmarkov=999, vertmarkov=1,
				revhorzmarkov=0, markhead=False, headoutward=False,
				tailmarker='', leftmostunary=False, rightmostunary=False,
				dot=False, direction=False, filterlabels=(), labelfun=None),
				**{a: b for a, b in kw.items()
					if a not in ('threshold', 'artpa', 'ids')})
		if not kw2['headoutward']:
			kw2['direction'] = False
		settings = SimpleNamespace(method='default', factor=kw2['factor'],
				tailmarker=kw2['tailmarker'], h=kw2['horzmarkov'],
				v=kw2['vertmarkov'], revh=kw2['revhorzmarkov'],
				leftmostunary=kw2['leftmostunary'],
				rightmostunary=kw2['rightmostunary'],
				markhead=kw2['markhead'], direction=kw2['direction'],
				headrules='x' if kw2['headoutward'] else None,
				dot=kw2['dot'], filterlabels=kw2['filterlabels'],
				labelfun=kw2['labelfun'])
		res = binarizetree(make(m, heads, cls), settings, None)
		ctx.eq(g.tomodel(res), g.tomodel(binarize(make(m, heads, cls), **kw2)),
				'binarizetree', desc)
		ctx.eq(g.tomodel(unbinarize(res, expandunary=False)), m,
				'unbinarized tree', desc)
	# different markers
	if not chain and rng.random() < 0.2:
		tree = make(m, heads, cls)
		result = binarize(tree, **dict(kw, childchar='~', parentchar='#'))
		restored = unbinarize(result, expandunary=False, childchar='~',
				parentchar='#')
		ctx.eq(g.tomodel(restored), m, 'unbinarized tree', desc)
	if any(len(n[1]) > 2 for n in g.nodes(m)):
		ctx.nontrivial((sorted((a, str(b)[:40]) for a, b in kw.items()
				if a not in ('ids', 'labelfun')), m))


def expected(m, heads, kw):
	"""Predict binarization by recursion over the remaining span of children.

	New nodes have labels (label, direction, context, parents, tail); the
	context is None where the label of the new node is not predicted."""
	get = lambda a, b: kw.get(a, b)
	h, v = get('horzmarkov', 999), get('vertmarkov', 1)
	extra = any(kw.get(a) for a in ('markhead', 'dot', 'revhorzmarkov',
			'filterlabels'))
	exact = kw.get('ids') is None and not kw.get('headoutward') and (
			not extra or get('factor', 'right') == 'right')
	filt = get('filterlabels', ())
	revh = get('revhorzmarkov', 0)
	labelfun = get('labelfun', None) or (lambda t: t.label)
	it = iter(heads)

	def rec(m, anc):
		if not isinstance(m, tuple):
			return m
		p = next(it)
		headidx = (int(p / 0.8 * len(m[1])) if p < 0.8
				and isinstance(m[1][0], tuple) else None)
		label, pa = m[0], ()
		if v > 1 and anc and isinstance(m[1][0], tuple):
			pa = tuple(anc[:v - 1])
		ch = [rec(c, [m[0]] + anc) for c in m[1]]
		n = len(ch)
		labels = [labelfun(Tree(c[0], [])) for c in m[1]
				] if isinstance(m[1][0], tuple) else []
		label = (label, pa)
		if n <= get('threshold', 2):
			return (label, tuple(ch))

		def new(lo, hi, right, children, d=None, ctxt=True):
			if d is None:
				d = 'l:' if right else 'r:'
			if ctxt is True:
				if right:
					ctxt = labels[lo:lo + h]
				else:
					ctxt = labels[hi - h:hi] if 0 < h < hi or h == 0 else None
					if h == 0:
						ctxt = []
			if exact and extra:  # right factored
				head = ''
				if get('markhead', False) and headidx is not None:
					head = (m[1][headidx][0] if n == 2 else labels[headidx]) + ';'
				if n == 2:
					ctxt = [a for a in labels[:h] if a.split('/')[0] not in filt]
					post = '.' if get('dot', False) else ''
				elif lo == 0:
					ctxt = [a for a in labels[:h] if a not in filt]
					head += '.' if get('dot', False) else ''
					post = ''
				else:
					if get('dot', False):
						head += ','.join(a for a in labels[:lo]
								if a not in filt) + '.'
					if revh:
						head += ','.join(a for a in labels[max(0, lo - revh):lo]
								if a not in filt) + ';'
					ctxt = [a for a in labels[lo:] if a not in filt][:h]
					post = ''
				ctxt = [head + ','.join(ctxt) + post]
			tail = (get('tailmarker', '') if len(children) == 1
					and hi - lo == 1 and n > 2 and not (
					lo == 0 and hi == n) else '')
			return (('ART', m[0] if v else '_',
					d if get('direction', False) and kw.get('ids')
						is None else '',
					ctxt if exact else None,
					pa if get('artpa', True) else (), tail), tuple(children))

		right = get('factor', 'right') == 'right'
		if n == 2:
			ctxt = labels[:h]
			if right:
				ch = [ch[0], new(1, 2, right, ch[1:], ctxt=ctxt)]
			else:
				ch = [new(0, 1, right, ch[:1], ctxt=ctxt), ch[1]]
			return (label, tuple(ch))

		def rest(lo, hi):
			if hi - lo == 1 or (hi - lo == 2
					and not get('rightmostunary', False)):
				return ch[lo:hi]
			if right and not (get('headoutward', False)
					and headidx is not None and lo >= headidx):
				sub = rest(lo + 1, hi)
				if (get('headoutward', False) and get('direction', False)
						and lo + 1 == headidx and headidx + 1 != n):
					sub = [new(lo + 1, hi, True, sub, 'm:')]
				return [ch[lo], new(lo + 1, hi, True, sub)]
			return [new(lo, hi - 1, False, rest(lo, hi - 1)), ch[hi - 1]]
		res = rest(0, n)
		if get('leftmostunary', False):
			right = right and not (get('headoutward', False) and headidx == 0)
			res = [new(0, n, right, res)]
		return (label, tuple(res))
	return rec(m, [])


def sameshape(got, want, ctx, desc, b):
	"""Compare with prediction."""
	if not isinstance(want, tuple) or not isinstance(got, tuple):
		ctx.ok(got == want, 'shape of binarization', '%r %r', b, desc)
		return
	w = want[0]
	if len(w) == 6:
		_, label, d, ctxt, pa, tail = w
		pa = '^<%s>' % ','.join(pa) if pa else ''
		if ctxt is not None:
			ctx.ev('markovized labels')
			ctx.ev('extra context', any(a in b for b in ctxt for a in '.;'))
			ctx.eq(got[0], '%s|<%s%s>%s%s' % (label, d, ','.join(ctxt), pa,
					tail), 'label of new node', (b, desc))
		else:
			ctx.ok(got[0].startswith('%s|<%s' % (label, d)),
					'label of new node', '%r %r; %r', got[0], w, (b, desc))
	else:
		label, pa = w
		ctx.eq(got[0], label + ('^<%s>' % ','.join(pa) if pa else ''),
				'label of constituent', (b, desc))
	ctx.ok(len(got[1]) == len(want[1]), 'shape of binarization', '%r %r', b,
			desc)
	for x, y in zip(got[1], want[1]):
		sameshape(x, y, ctx, desc, b)


class IdDict(dict):
	def __missing__(self, key):
		self[key] = len(self) + 1
		return self[key]


def shape(m):
	return tuple(shape(c) for c in m[1]) if isinstance(m, tuple) else m


def collapse(m, cp, cr, top=True):
	if not isinstance(m, tuple):
		return m
	label, ch = m
	if not top or cr or len(ch) > 1:
		while len(ch) == 1 and isinstance(ch[0], tuple) and (
				cp or isinstance(ch[0][1][0], tuple)):
			label += '+' + ch[0][0]
			ch = ch[0][1]
	return (label, tuple(collapse(c, cp, cr, False) for c in ch))


def genfc(rng, ctx):
	n = rng.randint(1, 9)
	m = g.randtree(rng, n, disc=0.6, labels=LABELS, tags=TAGS, root='ROOT',
			maxar=9)
	return rng, m


def checkfc(case, ctx):
	"""Factor each constituent of a tree."""
	rng, m = case
	kw = dict(h=rng.choice([999, 0, 1, 2]), factor=rng.choice(
			['left', 'right']), markfanout=rng.random() < 0.5,
			markyf=rng.random() < 0.5, threshold=rng.choice([1, 2, 2]))
	if rng.random() < 0.3:
		kw['filterlabels'] = ('NP', 'DT')
	if rng.random() < 0.3:
		kw['ids'] = UniqueIDs()
	if rng.random() < 0.3:
		kw['labelfun'] = lambda node: node.label[:1]
	desc = (kw, m)
	ctx.ev('factorconstituent')

	def rec(node):
		if not isinstance(node, Tree):
			return node
		new = ImmutableTree(node.label, [rec(c) for c in node])
		new.bitset = node.bitset
		if not isinstance(node[0], Tree):
			return new
		res = factorconstituent(new, **kw)
		ctx.eq(res.bitset, node.bitset, 'bitset', desc)
		# walk the new nodes from the top down
		ch, cur = list(new), res
		labels = [kw.get('labelfun', lambda x: x.label)(a) for a in ch
				if isinstance(a, Tree)]
		lo, hi = 0, len(ch)
		while hi - lo > 2:
			if kw['factor'] == 'right':
				ok = len(cur) == 2 and cur[0] is ch[lo]
				lo, cur = lo + 1, cur[-1]
				context = labels[lo:lo + kw['h']]
			else:
				ok = len(cur) == 2 and cur[-1] is ch[hi - 1]
				hi, cur = hi - 1, cur[0]
				context = labels[max(0, hi - kw['h']):hi]
			ctx.ok(ok and '|<' in cur.label, 'shape of factored constituent',
					'%r %r', res, desc)
			context = ','.join(a for a in context
					if a not in kw.get('filterlabels', ()))
			if 'ids' not in kw:
				ctx.ev('contexts')
				ctx.ok(cur.label.startswith('%s|<%s%s' % (node.label, context,
						'' if kw['markyf'] else '>')),
						'label of new node', '%r %r %r', cur.label, context,
						desc)
		if len(ch) > kw['threshold'] == 1 and len(ch) == 2:
			ctx.ok(len(res) == 1 and list(res[0]) == ch,
					'shape of factored constituent', '%r %r', res, desc)
		else:
			ctx.ok(list(cur) == ch[lo:hi], 'shape of factored constituent',
					'%r %r', res, desc)
		return res
	orig = addbitsets(g.totree(m, ImmutableTree))
	# nodes keep the order of children given
	result = rec(orig)
	b = g.tomodel(result)
	for n in g.nodes(b):
		ctx.ok(len(n[1]) <= 2, 'number of children', '%r %r', b, desc)
	for node in result.subtrees():
		if isinstance(node, Tree):
			ctx.eq(node.bitset, sum(1 << a for a in node.leaves()), 'bitset',
					desc)
			if '|<' in node.label and kw['markfanout'] and len(node) > 1:
				f = g.fanout(g.tomodel(node))
				if kw['threshold'] == 2:
					if f > 1:
						ctx.ok(node.label.endswith('>_%d' % f),
								'fan-out marker', '%r %r', node.label, desc)
					else:
						ctx.ok(node.label.endswith('>'), 'fan-out marker',
								'%r %r', node.label, desc)
	ctx.ok(not spans(m) - spans(b), 'constituent lost by binarization', '%r %r',
			b, desc)
	restored = unbinarize(Tree.convert(result), expandunary=False)
	# children are combined in order for right/left factorization
	ctx.eq(g.tomodel(restored), m, 'unbinarized tree', (b, desc))
	if len(g.leaves(m)) > 2:
		ctx.nontrivial(('fc', m, sorted((a, str(b)[:20]) for a, b in kw.items()
				if a != 'ids' and a != 'labelfun')))
	# terminals with siblings
	idx = list(range(rng.randint(2, 7)))
	rng.shuffle(idx)
	t = Tree('S', [Tree('X', idx[:k]) if k < len(idx) else Tree('X', idx)
			for k in [rng.randint(1, len(idx))]]
			+ [Tree('Y', [99])])
	before = g.tomodel(t)
	handledisc(t)
	after = g.tomodel(t)
	ctx.eq(g.leaves(after), g.leaves(before), 'handledisc tokens', before)
	ctx.ok(all(len(n[1]) <= 2 for n in g.nodes(after)), 'handledisc', '%r',
			before)
	ctx.ok(all(sum(1 for c in n[1] if not isinstance(c, tuple)) <= 1
			for n in g.nodes(after)), 'handledisc', '%r %r', before, after)
	ctx.eq(g.tomodel(unbinarize(t)), before, 'handledisc restored', before)


def genpre(rng, ctx):
	n = g.size(rng, 6, 12)
	m = g.randtree(rng, n, disc=0.3, labels=LABELS, tags=TAGS)
	words = [rng.choice(g.WORDS + g.HOSTILE + [None]) for _ in range(n)]

	def bare(m):
		"""Remove part of the preterminals."""
		if g.preterminal(m):
			return m[1][0] if rng.random() < 0.5 else m
		return (m[0], tuple(bare(c) for c in m[1]))

	m = (m[0], tuple(bare(c) for c in m[1]))
	return m, words, rng.random() < 0.3, rng.choice([Tree, ParentedTree])


def checkpre(case, ctx):
	"""Exactly the terminals with siblings get a preterminal."""
	m, words, ids, cls = case
	t = g.totree(m, cls)
	res = introducepreterminals(t, list(words),
			iter(range(1000)) if ids else None)
	got = g.tomodel(res)
	seen = []

	def walk(a, b):
		if not isinstance(a, tuple):
			return a == b
		if a[0] != b[0] or len(a[1]) != len(b[1]):
			return False
		for c, d in zip(a[1], b[1]):
			if not isinstance(c, tuple) and len(a[1]) > 1:
				if not isinstance(d, tuple) or d[1] != (c, ):
					return False
				name = d[0].split('/', 1)
				if ids:
					seen.append(d[0])
					ok = d[0].startswith(a[0] + '/')
				else:
					ok = d[0] == '%s/%s' % (a[0], words[c] or '')
				ctx.ev('introduced preterminals')
				if not ok:
					return False
			elif not walk(c, d):
				return False
		return True

	ctx.ok(walk(m, got), 'introduced preterminals', '%s %s', got, case)
	ids = [a.rsplit('/', 1)[1] for a in seen]
	ctx.eq(len(set(ids)), len(ids), 'identifiers of preterminals', case)
	if cls is ParentedTree:
		linked(ctx, res, case)
	if len(m[1]) > 1:
		ctx.nontrivial(repr(case))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'binarize': (gen, check, 10000 * k),
		'factorconstituent': (genfc, checkfc, 3000 * k),
		'preterminals': (genpre, checkpre, 1000 * k),
	}

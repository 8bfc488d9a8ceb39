"""C11: splitting, marking and raising of discontinuous constituents."""
from collections import Counter, defaultdict
from discodop.tree import Tree, ParentedTree, ImmutableTree, HEAD, isdisc
from discodop.treetransforms import (splitdiscnodes, mergediscnodes,
		raisediscnodes, addfanoutmarkers, removefanoutmarkers, canonicalize,
		canonicallyorderedtree, canonicalizealpino, addbitsets, fanout,
		treebankfanout, complexity, complexityfanout, fanoutcomplexity,
		contsets)
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='random discontinuous trees (1-16 tokens) with one head per '
	'constituent; nontrivial: at least one discontinuous constituent; counted '
	'by tree',
	require={'split': 2000, 'merged': 2000, 'raised': 1000, 'fan-out > 2': 200,
		'same-label sisters': 50, 'markers': 1000, 'nodes split': 3000},
)
LABELS = g.LABELS + ['NP-SBJ', 'S/NP', 'WHNP|x', 'A^B', 'X!', 'VP2', '2']


def gen(rng, ctx):
	n = rng.randint(1, 16)
	m = g.randtree(rng, n, disc=0.9, labels=rng.choice([LABELS, LABELS[:4]]),
			root=rng.choice(['ROOT', 'ROOT', None]), maxar=rng.choice([2, 3, 5]))
	heads = [rng.random() for _ in g.nodes(m)]
	return rng, m, heads


def make(m, heads, cls):
	tree = g.totree(m, cls)
	cnt = iter(heads)
	for node in tree.subtrees():
		p = next(cnt)
		if node and isinstance(node[0], Tree):
			node[int(p * len(node))].type = HEAD
	for n, node in enumerate(tree.subtrees()):
		node.source = ['w%d' % n, 'l', node.label, 'm', 'f%d' % n, '0']
	return tree


def linked(ctx, tree, desc):
	for node in tree.subtrees():
		for n, child in enumerate(node):
			if isinstance(child, ParentedTree):
				ctx.ok(child.parent is node and child.parent_index == n,
						'parent link', '%r', desc)


def separable(ctx, m, markorigin):
	"""Whether discontinuous sisters can be told apart after splitting."""
	for node in g.nodes(m):
		bylabel = defaultdict(list)
		for c in node[1]:
			if isinstance(c, tuple) and g.fanout(c) > 1:
				bylabel[c[0]].append(g.parts(g.leaves(c)))
		for sisters in bylabel.values():
			if len(sisters) > 1:
				if not markorigin:
					return False
				# first part of each opens a slot; the next part is taken to
				# belong to the sister of which the last part came first.
				events = sorted((p[0], n, i) for i, s in enumerate(sisters)
						for n, p in enumerate(s))
				queues = defaultdict(list)
				for _, n, i in events:
					if n:
						if not queues[n] or queues[n].pop(0) != i:
							return False
					queues[n + 1].append(i)
				ctx.ev('same-label sisters')
	return True


def check(case, ctx):
	rng, m, heads = case
	cls = rng.choice([Tree, ParentedTree])
	mark = rng.random() < 0.5
	desc = (mark, m, [round(a, 2) for a in heads], cls.__name__)
	disc = [n for n in g.nodes(m) if g.fanout(n) > 1]
	if any(g.fanout(n) > 2 for n in disc):
		ctx.ev('fan-out > 2')
	# splitting
	tree = make(m, heads, cls)
	types = [(n.label, n.type, n.source) for n in tree.subtrees()]
	split = splitdiscnodes(tree, markorigin=mark)
	s = g.tomodel(split)
	ctx.ev('split')
	ctx.ev('nodes split', len(disc))
	ctx.eq(g.leaves(s), sorted(g.leaves(m)), 'tokens of split tree', desc)
	want = Counter()
	for n in g.nodes(m):
		p = g.parts(g.leaves(n))
		for k, part in enumerate(p):
			want[n[0] if len(p) == 1 else '%s*%d' % (n[0], k) if mark
					else n[0] + '*', tuple(part)] += 1
	ctx.eq(Counter((n[0], tuple(g.leaves(n))) for n in g.nodes(s)), want,
			'nodes of split tree', (s, desc))
	for n in g.nodes(s):
		ctx.eq(g.fanout(n), 1, 'continuous', (n, desc))
	if cls is ParentedTree:
		linked(ctx, split, desc)
	# merging
	if separable(ctx, m, mark):
		ctx.ev('merged')
		merged = mergediscnodes(split)
		ctx.eq(g.tomodel(merged), m, 'merged tree', (s, desc))
		ctx.eq([(n.label, n.type, n.source) for n in merged.subtrees()], types,
				'annotation of merged tree', (s, desc))
		if cls is ParentedTree:
			linked(ctx, merged, desc)
		# a continuous tree is not affected
		if not disc:
			ctx.eq(s, m, 'continuous tree unchanged', desc)
	# fan-out markers
	tree = make(m, heads, cls)
	marked = addfanoutmarkers(tree)
	ctx.ev('markers')
	want = addmarks(m)
	ctx.eq(g.tomodel(marked), want, 'fan-out markers', desc)
	if rng.random() < 0.3:
		ctx.eq(g.tomodel(addfanoutmarkers(marked)), want, 'markers twice', desc)
	ctx.eq(g.tomodel(removefanoutmarkers(marked)), m, 'markers removed', desc)
	# raising
	tree = make(m, heads, cls)
	raised = raisediscnodes(tree)
	r = g.tomodel(raised)
	ctx.ev('raised')
	ctx.eq(g.leaves(r), sorted(g.leaves(m)), 'tokens of raised tree', (r, desc))
	ctx.eq(Counter(n[0] for n in g.nodes(r)), Counter(n[0] for n in g.nodes(m)),
			'labels of raised tree', (r, desc))
	ctx.eq({(n[1][0], n[0]) for n in g.nodes(r) if g.preterminal(n)},
			{(n[1][0], n[0]) for n in g.nodes(m) if g.preterminal(n)},
			'tags of raised tree', (r, desc))
	for n in g.nodes(r):
		ctx.ok(n[1] and g.fanout(n) == 1, 'raised tree continuous', '%r %r %r',
				n, r, desc)
	if cls is ParentedTree:
		linked(ctx, raised, desc)
	# constituents that only contain continuous ones stay
	keep = Counter((n[0], tuple(g.leaves(n))) for n in g.nodes(m)
			if all(g.fanout(a) == 1 for a in g.nodes(n)))
	got = Counter((n[0], tuple(g.leaves(n))) for n in g.nodes(r))
	ctx.ok(not keep - got, 'continuous constituents after raising', '%r %r %r',
			keep - got, r, desc)
	# head part stays together: every constituent contains its head token
	if rng.random() < 0.1 and len(g.nodes(m)) > 1:
		tree = g.totree(m, cls)
		if not all(g.preterminal(n) for n in g.nodes(m)):
			try:
				raisediscnodes(tree)
			except ValueError:
				ctx.ev('refused without heads')
			else:
				ctx.fail('raised without heads', '%r', desc)
	# canonicalization
	x = shuffle(rng, m)
	tree = g.totree(x, cls)
	ids = {id(n) for n in tree.subtrees()}
	c = canonicalize(tree)
	ctx.eq(g.tomodel(c), g.canon(x), 'canonicalized', x)
	ctx.eq({id(n) for n in c.subtrees()}, ids, 'same nodes', x)
	if cls is ParentedTree:
		linked(ctx, c, x)
	tree = g.totree(x, cls)
	ctx.eq(g.canon(g.tomodel(canonicalizealpino(tree))), g.canon(x),
			'canonicalizealpino', x)
	# ordering the sentence
	sent = ['w%d' % i for i in range(len(g.leaves(m)))]
	newsent = list(sent)
	o = g.tomodel(canonicallyorderedtree(g.totree(x, ParentedTree), newsent))
	ctx.eq(g.leaves(o), list(range(len(sent))), 'continuous', (o, x))
	ctx.eq(sorted(newsent), sorted(sent), 'tokens of reordered sentence', x)
	back = renumber(o, [sent.index(a) for a in newsent])
	ctx.eq(g.canon(back), g.canon(x), 'reordered tree', (o, newsent, x))
	# measures
	bs = addbitsets(g.totree(m, rng.choice([Tree, ParentedTree,
			ImmutableTree])))
	worst = 0
	for a, n in zip(bs.subtrees(), g.nodes(m)):
		f = g.fanout(n)
		ctx.eq(a.bitset, sum(1 << i for i in g.leaves(n)), 'bitset', m)
		ctx.eq(fanout(a), f, 'fanout', m)
		ctx.eq(isdisc(a), f > 1, 'isdisc', m)
		comp = f + sum(1 if not isinstance(k, tuple) else g.fanout(k)
				for k in n[1])
		ctx.eq((complexity(a), complexityfanout(a), fanoutcomplexity(a)),
				(comp, (comp, f), (f, comp)), 'complexity', m)
		if len(n[1]) > 1:
			worst = max(worst, f)
			sets = [[g.tomodel(k) for k in subset] for subset in contsets(
					list(splitone(n)))]
			ctx.eq([sorted(i for k in subset for i in g.leaves(k))
					for subset in sets], g.parts(g.leaves(n)), 'contsets', n)
	for a, n in zip(g.totree(m, Tree).subtrees(), g.nodes(m)):
		ctx.eq(isdisc(a), g.fanout(n) > 1, 'isdisc', m)
	if worst:
		ctx.eq(treebankfanout([g.totree(m, Tree)]), (worst, 0),
				'treebankfanout', m)
	if disc:
		ctx.nontrivial((m, mark))


def splitone(n):
	"""Continuous children of a node, as trees."""
	for c in n[1]:
		for part in g.parts(g.leaves(c)):
			yield Tree(c[0], part)


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(ch)
	return (m[0], tuple(ch))


def renumber(m, mapping):
	if not isinstance(m, tuple):
		return mapping[m]
	return (m[0], tuple(renumber(c, mapping) for c in m[1]))


def addmarks(m):
	if not isinstance(m, tuple):
		return m
	f = g.fanout(m)
	return (m[0] if f == 1 else '%s_%d' % (m[0], f),
			tuple(addmarks(c) for c in m[1]))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 4000 * k)}

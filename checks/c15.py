"""C15: extracted rules describe exactly the tree they come from."""
import os
from collections import Counter
from discodop.tree import Tree, ParentedTree, ImmutableTree
from discodop.grammar import (lcfrsproductions, printrule, ranges, rangeheads,
		grammarinfo, treebankgrammar, cartpi)
from discodop.treetransforms import (binarize, addbitsets, fanout, complexity,
		complexityfanout, fanoutcomplexity, contsets, getbits, getyf,
		treebankfanout, canonicalize)
import g

PLAN = dict(
	mods=['bit'],
	rule='random trees (1-16, some 60-90 tokens; continuous and discontinuous, '
	'with shuffled children, frontier nonterminals, unique and hostile words); '
	'nontrivial: a rule with a discontinuous yield function; counted by tree',
	require={'trees': 1500, 'rules': 15000, 'discontinuous rules': 2000,
		'recombined': 1500, 'frontier nodes': 500, 'context-free trees': 300,
		'long sentences': 30, 'refused': 600, 'grammar statistics': 200,
		'fan-out figures': 10000, 'yield functions': 3000},
)


def gen(rng, ctx):
	n = g.size(rng, 7, 16) if rng.random() < 0.97 else rng.randint(60, 90)
	m = g.randtree(rng, n, disc=0.6, maxar=rng.choice([2, 3, 6]),
			unary=rng.choice([0, 0.2]), root=rng.choice([None, 'ROOT']))
	if rng.random() < 0.25:
		m = shuffle(rng, m)
	return rng, m, n


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(ch)
	return (m[0], tuple(ch))


def cut(rng, m, p, gone):
	"""Replace some nodes by frontier nodes."""
	if rng.random() < p:
		x = sorted(g.leaves(m))
		gone.update(x)
		return (m[0], tuple(x))
	if g.preterminal(m):
		return m
	return (m[0], tuple(cut(rng, c, p, gone) for c in m[1]))


def isfrontier(m, sent):
	return not isinstance(m[1][0], tuple) and sent[m[1][0]] is None


def components(m):
	return [tuple(a) for a in g.parts(g.leaves(m))]


def fo(m):
	return len(components(m)) if isinstance(m, tuple) else 1


def esc(w):
	return w.replace('(', '#LRB#').replace(')', '#RRB#')


def recombine(rules, spans):
	"""Rebuild (label, children, yields) from rules in preorder; yields are
	lists of items; spans supplies the items of preterminals/frontiers."""
	(r, yf) = rules.pop(0)
	if len(r) == 1 or r[1] == 'Epsilon':
		return (r[0], yf), spans(r, yf)
	children, yields = [], []
	for _ in r[1:]:
		c, y = recombine(rules, spans)
		children.append(c)
		yields.append(list(y))
	result = []
	for comp in yf:
		cur = []
		for a in comp:
			cur.extend(yields[a].pop(0))
		result.append(cur)
	if any(yields):
		raise ValueError('component not used')
	if [c[0] for c in children] != list(r[1:]):
		raise ValueError('labels do not match')
	return (r[0], tuple(children)), result


def check(case, ctx):
	rng, m, n = case
	ctx.ev('trees')
	ctx.ev('long sentences', n > 50)
	sent = ['%s%d' % (rng.choice(g.HOSTILE + g.WORDS), i) for i in range(n)]
	if rng.random() < 0.3:
		sent = g.randsent(rng, n, hostile=0.3)
	gone = set()
	if rng.random() < 0.4:
		m = (m[0], tuple(cut(rng, c, 0.25, gone) for c in m[1])
				) if not g.preterminal(m) else m
	sent = [None if i in gone else w for i, w in enumerate(sent)]
	front = rng.random() < 0.5
	tree = g.totree(m, rng.choice([Tree, ParentedTree, ImmutableTree]))
	rules = lcfrsproductions(tree, list(sent), **(
			{'frontiers': front} if front or rng.random() < 0.5 else {}))
	ctx.eq(g.tomodel(tree), m, 'tree modified', sent)
	desc = (m, sent, front)
	want = [x for x in g.nodes(m) if front or not isfrontier(x, sent)]
	ctx.eq(len(rules), len(want), 'one rule per node', (desc, rules))
	allcf = True
	for x, rule in zip(want, rules):
		ctx.ev('rules')
		r, yf = rule
		ctx.eq(hash(rule) is not None, True, 'hashable', rule)
		if not isinstance(x[1][0], tuple):
			if isfrontier(x, sent):
				ctx.ev('frontier nodes')
				ctx.eq((r, yf), ((x[0], ), ()), 'frontier rule', desc)
			else:
				ctx.eq((r, yf), ((x[0], 'Epsilon'), (esc(sent[x[1][0]]), )),
						'lexical rule', desc)
			continue
		ctx.eq(r, (x[0], ) + tuple(c[0] for c in x[1]), 'labels of rule', desc)
		owner = {i: k for k, c in enumerate(x[1]) for i in g.leaves(c)}
		comps = components(x)
		expect = []
		for comp in comps:
			cur = []
			for i in comp:
				if not cur or cur[-1] != owner[i]:
					cur.append(owner[i])
			expect.append(tuple(cur))
		ctx.eq(yf, tuple(expect), 'yield function', (x, desc))
		# figures derived from the rule versus spans
		counts = Counter(a for b in yf for a in b)
		ctx.eq(len(yf), len(comps), 'fan-out', (rule, desc))
		for k, c in enumerate(x[1]):
			ctx.eq(counts[k], fo(c), 'fan-out of child', (rule, desc))
		if len(yf) > 1 or any(a > 1 for a in counts.values()):
			ctx.ev('discontinuous rules')
			ctx.nontrivial(m)
			allcf = False
		else:
			ctx.eq(sorted(yf[0]), list(range(len(x[1]))), 'context-free', rule)
		ctx.eq(printrule(r, yf), ','.join(''.join(map(str, a)) for a in yf)
				+ '\t' + x[0] + ' ' + ' '.join(c[0] for c in x[1]),
				'printed rule', desc)
		ctx.eq(printrule(r, yf, 0.5), '0.5 ' + printrule(r, yf),
				'printed rule with weight', desc)
	iscont = all(len(components(x)) == 1 for x in g.nodes(m))
	ctx.eq(allcf, iscont, 'context-free rules', desc)
	ctx.ev('context-free trees', iscont and len(m[1]) > 1)
	# recombine
	if front or not gone:
		pre = [x for x in g.nodes(m) if not isinstance(x[1][0], tuple)]
		it = iter(pre)

		def spans(r, yf):
			x = next(it)
			if yf and sent[x[1][0]] != yf[0].replace('#LRB#', '(').replace(
					'#RRB#', ')'):
				raise ValueError('word does not match')
			return [list(a) for a in components(x)]
		todo = list(rules)
		try:
			_, y = recombine(todo, spans)
		except (ValueError, IndexError) as err:
			ctx.fail('recombination failed', '%s %r %r', err, rules, desc)
		ctx.eq(todo, [], 'rules left', desc)
		ctx.ev('recombined')
		if g.canon(m) == m or True:
			ctx.eq([tuple(a) for a in y], components(m), 'spans of recombined '
					'rules', (rules, desc))
		# words only
		if not gone:
			todo = list(rules)
			_, y = recombine(todo, lambda r, yf: [[yf[0]]])
			ctx.eq(y, [[esc(w) for w in sent]], 'words of recombined rules',
					(rules, desc))
	figures(ctx, rng, m, desc)
	refused(ctx, rng, m, sent)


def figures(ctx, rng, m, desc):
	"""Figures computed from bitsets equal those from spans."""
	t = addbitsets(g.totree(m, rng.choice([Tree, ImmutableTree, ParentedTree])))
	x = list(t.subtrees())
	ctx.eq(len(x), len(g.nodes(m)), 'nodes', desc)
	for a, b in zip(x, g.nodes(m)):
		ctx.ev('fan-out figures')
		f = fo(b)
		c = f + sum(fo(d) for d in b[1])
		ctx.eq((fanout(a), complexity(a), complexityfanout(a),
				fanoutcomplexity(a)), (f, c, (c, f), (f, c)), 'figures', (b, desc))
		ctx.eq(list(getbits(a.bitset)), sorted(g.leaves(b)), 'bits', b)
		if len(b[1]) <= 2 and isinstance(b[1][0], tuple):
			yf = lcfrsproductions(g.totree(b, Tree), ['x'] * (max(
					g.leaves(b)) + 1))[0][1]
			ctx.ev('yield functions')
			ctx.eq(getyf(*(list(a) + [None])[:2]).lstrip(';,').rstrip(','),
					','.join(''.join(map(str, p)) for p in yf),
					'yield function string', (b, ))
		if isinstance(b[1][0], tuple) and g.canon(b) == b:
			# children starting in each contiguous part
			start = {min(g.leaves(d)): d for d in b[1]}
			want = [[start[i] for i in p if i in start]
					for p in g.parts(g.leaves(b))]
			got = [[g.tomodel(d) for d in p] for p in contsets(list(a))]
			ctx.eq([p for p in got if p], [p for p in want if p],
					'continuous subsets', b)
	many = [d for d in g.nodes(m) if len(d[1]) > 1]
	ctx.eq(treebankfanout([g.totree(m, Tree)]),
			(max(fo(d) for d in many), 0) if many else (1, 0),
			'treebank fan-out', desc)
	s = sorted(rng.sample(range(20), rng.randint(0, 12)))
	ctx.eq(list(ranges(s)), g.parts(s), 'ranges', s)
	ctx.eq(list(rangeheads(s)), [p[0] for p in g.parts(s)], 'rangeheads', s)
	seqs = [[rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
			for _ in range(rng.randint(0, 3))]
	want = [()]
	for a in seqs:
		want = [b + (c, ) for b in want for c in a]
	ctx.eq(list(cartpi(seqs)), want, 'cartesian product', seqs)


def refused(ctx, rng, m, sent):
	"""Trees that do not describe the sentence are refused."""
	kind = rng.choice(['dup', 'range', 'nosent', 'empty', 'str', 'neg'])
	t = g.totree(m, Tree)
	sent = list(sent)
	pre = [x for x in t.subtrees() if isinstance(x[0], int)]
	x = rng.choice(pre)
	if kind == 'dup':
		pre.remove(x)
		if not pre:
			return
		x[0] = rng.choice(pre)[0]
	elif kind == 'range':
		x[0] = len(sent) + rng.randint(0, 2)
	elif kind == 'neg':
		x[0] = -1
	elif kind == 'nosent':
		sent = []
	elif kind == 'empty':
		rng.choice(list(t.subtrees())).children[:] = []
	elif kind == 'str':
		x[0] = str(x[0])
	try:
		got = lcfrsproductions(t, sent)
	except (ValueError, IndexError):
		ctx.ev('refused')
	else:
		ctx.fail('not refused', '%s %s %r %r', kind, t, sent, got)


def gen2(rng, ctx):
	trees, sents = g.randtreebank(rng, rng.randint(1, 6), maxlen=8, disc=0.6,
			maxar=4)
	return rng, trees, sents


def check2(case, ctx):
	"""Statistics reported for a grammar equal those computed from spans."""
	rng, trees, sents = case
	ts = [g.totree(m, Tree) for m in trees]
	trees = [g.tomodel(binarize(canonicalize(t), factor='right',
			dot=True, horzmarkov=999)) for t in ts]
	gram = treebankgrammar(ts, sents)
	clauses = {}
	for m, sent in zip(trees, sents):
		for x in g.nodes(m):
			if isinstance(x[1][0], tuple):
				owner = {i: k for k, c in enumerate(x[1]) for i in g.leaves(c)}
				sig = (x[0], tuple(c[0] for c in x[1]), tuple(
					tuple(owner[i] for n, i in enumerate(p)
						if n == 0 or owner[i] != owner[p[n - 1]])
					for p in g.parts(g.leaves(x))))
				clauses[sig] = (fo(x), sum(map(fo, x[1])) + fo(x), sum(
						len([1 for n, i in enumerate(p) if n == 0
						or owner[i] != owner[p[n - 1]]])
						for p in g.parts(g.leaves(x))))
			else:
				clauses[x[0], sent[x[1][0]]] = (1, 1, 1)
	name = 'pcdist'
	if os.path.exists(name):
		os.unlink(name)
	info = grammarinfo(gram, dump=name) if any(
			len(c) == 3 for c in clauses) else None
	if info is None:
		return
	ctx.ev('grammar statistics')
	lex = sum(1 for c in clauses if len(c) == 2)
	desc = (info, trees, sents)
	pick = lambda a, conv=int: conv(info.split(a)[1].split()[0])
	ctx.eq(pick(' clauses: ', str), str(pick('lexical clauses: ')), 'report',
			desc)
	ctx.eq(pick('\nclauses: '), len(clauses), 'number of clauses', desc)
	ctx.eq(pick('  lexical clauses: '), lex, 'lexical clauses', desc)
	ctx.eq(pick('non-lexical clauses: '), len(clauses) - lex,
			'non-lexical clauses', desc)
	ctx.eq(pick('max fan-out: '), max(a for a, _, _ in clauses.values()),
			'max fan-out', desc)
	close = lambda a, b: abs(a - b) < 1e-4 * max(1, abs(b))
	ctx.ok(close(pick('mean: ', float), sum(a for a, _, _ in clauses.values())
			/ len(clauses)), 'mean fan-out', '%r', desc)
	ctx.eq(pick('max variables: '), max(c for s, (_, _, c) in clauses.items()
			if len(s) == 3), 'max variables', desc)
	ctx.eq(pick('max parsing complexity: '), max(b for _, b, _
			in clauses.values()), 'max parsing complexity', desc)
	ctx.ok(close(float(info.rsplit('mean ', 1)[1]), sum(b for _, b, _
			in clauses.values()) / len(clauses)), 'mean parsing complexity',
			'%r', desc)
	dist = Counter(b for _, b, _ in clauses.values())
	with open(name) as inp:
		got = dict(tuple(map(int, a.split('\t'))) for a in inp)
	ctx.eq(got, dict(dist), 'distribution of parsing complexity', desc)
	labels = {a for m in trees for x in g.nodes(m) for a in [x[0]]}
	ctx.eq(pick('labels: '), len(labels), 'number of labels', desc)
	ctx.eq(pick('preterminals: '), len({c[0] for c in clauses if len(c) == 2}),
			'number of preterminals', desc)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 2500 * k),
			'grammars': (gen2, check2, 400 * k)}

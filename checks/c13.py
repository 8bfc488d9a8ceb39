"""C13: every constituent has one head; dependencies form a tree."""
import os
from collections import Counter, defaultdict
from discodop.tree import Tree, ParentedTree, HEAD, MODIFIER, COMPLEMENT
from discodop.heads import (applyheadrules, headfinder, readheadrules,
		getheadpos, readmodifierrules, markmodifiers, headstats, saveheads)
from discodop.treebank import (dependencies, deplen, writedependencies,
		NegraCorpusReader, writetree)
from discodop.treetransforms import binarize, unbinarize
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='random trees (1-12 tokens, discontinuous, with punctuation, '
	'coordination and function tags) times random head rule files (and those '
	'of the repository); nontrivial: some constituent has 2 or more children; '
	'counted by tree and rules',
	require={'heads': 10000, 'chosen by rule': 2000, 'chosen by default': 500,
		'chosen by function tag': 300, 'chosen by annotation': 300,
		'coordination': 150, 'leftdis/rightdis': 300, 'empty list': 50,
		'like': 100, 'dependencies': 5000, 'non-projective': 100,
		'conll tokens': 3000, 'mst': 300, 'modifiers': 500,
		'read from corpus': 200, 'repository rules': 200,
		'heads inferred': 800, 'heads inferred with tail marker': 200},
)
LABELS = ['S', 'NP', 'VP', 'PP', 'Srel', 'VPpart', 'np', 'CC', 'CONJP', 'PRN',
		'NP-SBJ', 'NP[fem]', 'CNP', 'FRAG', 'UCP', 'INTJ']
TAGS = ['NN', 'VB', 'DT', 'CC', 'IN', 'noun', 'Vfin', '$,', ',', '.', "''",
		'NN[pl]', '$(', '--', 'LS', '$']
PUNCT = {'$,', '$.', '$[', '$(', ',', '.', "''", '``', ':', 'PUNCT', 'PONCT', 'let',
		'COMMA', 'PAREN'}
# tokens that count as punctuation when they occur as label in coordination
PUNCTLABEL = PUNCT | {'--'}
FUNCS = ['--', '--', '--', 'SB', 'HD', 'hd', 'MO', 'OA-HD', 'HD-X', 'HDX', 'PNC',
		'MOD', 'SBJ']


def genrules(rng, LABELS, TAGS):
	"""Return list of (label, direction, heads) and the text of a file."""
	rules = []
	seen = []
	for _ in range(rng.randint(1, 14)):
		label = rng.choice(LABELS + ['ROOT', 'S'])
		if seen and rng.random() < 0.15:
			rules.append((label, 'like', [rng.choice(seen)]))
		else:
			heads = [rng.choice(LABELS + TAGS).split('[')[0]
					for _ in range(rng.randint(0, 5))]
			rules.append((label, rng.choice(['left', 'right', 'left-to-right',
					'right-to-left', 'leftdis', 'rightdis']), heads))
		seen.append(label)
	lines = []
	for label, d, heads in rules:
		if rng.random() < 0.2:
			lines.append(rng.choice(['', '% S left NP', '%', '   ']))
		line = '%s%s%s%s%s' % (rng.choice([label, label.upper(), label.lower()]),
				rng.choice([' ', '\t', '   ']),
				rng.choice([d, d.upper()]),
				rng.choice([' ', '\t']),
				' '.join(rng.choice([a, a.upper(), a.lower()]) for a in heads))
		lines.append(rng.choice(['', '', ' ']) + line + rng.choice(['', ' ']))
	return rules, '\n'.join(lines) + rng.choice(['', '\n'])


def expand(rules):
	"""Reference interpretation of the rules: label -> [(direction, heads)]"""
	result = defaultdict(list)
	for label, d, heads in rules:
		label = label.upper()
		result[label]
		if d == 'like':
			result[label].extend(list(result[heads[0].upper()]))
		else:
			result[label].append((d, [a.upper() for a in heads]))
	return result


def gen(rng, ctx):
	n = rng.randint(1, 12)
	m = g.randtree(rng, n, disc=0.5, labels=rng.choice([LABELS, rng.sample(LABELS, 4),
			rng.sample(LABELS, 3) + ['CC']]), tags=rng.choice([TAGS, rng.sample(
			TAGS, 4) + ['CC']]), maxar=rng.choice(
			[2, 4, 7]), unary=0.15, root=rng.choice(['ROOT', 'ROOT', 'S']))
	ann = [(rng.random(), rng.choice(FUNCS)) for _ in g.nodes(m)]
	return rng, m, ann


def make(m, ann, funcs, heads, cls=ParentedTree):
	tree = g.totree(m, cls)
	for node, (p, func) in zip(tree.subtrees(), ann):
		if funcs:
			node.source = ['w', 'l', node.label, 'm', func, '0']
		if heads and p < 0.4 and isinstance(node[0], Tree):
			node[int(p / 0.4 * len(node))].type = HEAD
	return tree


def key(label):
	return label.split('[')[0].upper()


def refhead(ctx, node, rules):
	"""Index of head child, from documentation."""
	kids = list(node.children)
	for n, c in enumerate(kids):
		if c.type == HEAD:
			ctx.ev('chosen by annotation')
			return n
	for n, c in enumerate(kids):
		if c.source and 'HD' in c.source[4].upper().split('-'):
			ctx.ev('chosen by function tag')
			return n
	n = len(kids)
	order = list(range(n))
	head = None
	for d, cands in rules.get(node.label.upper(), ()):
		order = list(range(n))
		if d.startswith('right'):
			order.reverse()
		if d.endswith('dis'):
			ctx.ev('leftdis/rightdis')
			match = [i for i in order if key(kids[i].label) in cands]
		else:
			match = [i for c in cands for i in order
					if key(kids[i].label) == c]
		if not cands:
			ctx.ev('empty list')
		if match:
			head = match[0]
			break
	if head is None:
		ctx.ev('chosen by default')
		for i in order:
			if kids[i].label not in PUNCT:
				return i
		return order[0]
	ctx.ev('chosen by rule')
	if head >= 2 and kids[head - 1].label in ('CC', 'CONJP'):
		ctx.ev('coordination')
		for i in range(head - 2, -1, -1):
			if kids[i].label not in PUNCTLABEL:
				return i
	return head


REPORULES = ['negra.headrules', 'ptb.headrules', 'alpino.headrules',
		'ftb.headrules']


def parsefile(filename):
	"""Independent reader of rule files."""
	rules = []
	for line in open(filename, encoding='utf8'):
		f = line.split()
		if f and not f[0].startswith('%'):
			rules.append((f[0], f[1].lower(), f[2:]))
	return rules


def check(case, ctx):
	rng, m, ann = case
	if rng.random() < 0.2:
		filename = os.path.join(ctx.datadir, rng.choice(REPORULES))
		rules = parsefile(filename)
		# use labels of these rules
		labels = [a for a, _, _ in rules]
		cands = [b for _, _, a in rules for b in a if not set(b) & set(
				'()[]')] or ['X']
		m = relabel(rng, m, labels, cands)
		ctx.ev('repository rules')
	else:
		rules, text = genrules(rng, sorted({a[0] for a in g.nodes(m)}) + ['NP'],
				sorted({a[0] for a in g.nodes(m) if g.preterminal(a)}))
		filename = 'rules'
		with open(filename, 'w', encoding='utf8') as out:
			out.write(text)
	ctx.ev('like', sum(d == 'like' for _, d, _ in rules))
	ref = expand(rules)
	hr = readheadrules(filename)
	desc = (m, rules)
	funcs, heads = rng.random() < 0.4, rng.random() < 0.3
	tree = make(m, ann, funcs, heads)
	want = []
	for node in tree.subtrees():
		if isinstance(node[0], Tree):
			want.append(refhead(ctx, node, ref))
	if rng.random() < 0.2 and isinstance(tree[0], Tree):
		ctx.ok(headfinder(tree, hr) is tree[want[0]], 'headfinder', '%r', desc)
	applyheadrules(tree, hr)
	got = []
	for node in tree.subtrees():
		if isinstance(node[0], Tree):
			h = [n for n, c in enumerate(node) if c.type == HEAD]
			ctx.eq(len(h), 1, 'one head per constituent', (str(node), desc))
			got.append(h[0])
	ctx.ev('heads', len(got))
	ctx.eq(got, want, 'head according to rules', (str(tree), [
			a[1] for a in ann] if funcs else '', desc))
	ctx.eq(g.tomodel(tree), m, 'tree unchanged', desc)
	applyheadrules(tree, hr)
	ctx.eq([n for node in tree.subtrees() if isinstance(node[0], Tree)
			for n, c in enumerate(node) if c.type == HEAD], got,
			'applied twice', desc)
	if any(len(n[1]) > 1 for n in g.nodes(m)):
		ctx.nontrivial((m, sorted(ref.items())))
	# lexical heads, from the independently computed heads
	it = iter(got)
	lex = {}

	def visit(x):
		if g.preterminal(x):
			lex[x] = x[1][0]
			return x[1][0], []
		h = next(it)
		res = [visit(c) for c in x[1]]
		hw = res[h][0]
		lex[x] = hw
		deps = [b for a in res for b in a[1]]
		deps += [(a[0], c, hw) for n, (a, c) in enumerate(zip(res, x[1]))
				if n != h]
		return hw, deps

	_, alldeps = visit(m)
	for node, x in zip(tree.subtrees(), g.nodes(m)):
		p = getheadpos(node)
		ctx.ok(p is not None and list(p.children) == [lex[x]], 'getheadpos',
				'%r %r', str(node), desc)
	# dependencies
	if isinstance(tree[0], Tree):
		rootkids = {id(c) for c in m[1]}
		label = {}
		for node, (p, func) in zip(tree.subtrees(), ann):
			label[tuple(sorted(node.leaves())), node.label] = (
					func if funcs and func != '--' else '-')
		wantdeps = []
		for a, c, b in alldeps:
			if id(c) not in rootkids:
				wantdeps.append((a + 1, b + 1))
		for c in m[1]:
			wantdeps.append((lex[c] + 1, 0))
		deps = dependencies(tree)
		n = len(g.leaves(m))
		ctx.ev('dependencies', len(deps))
		ctx.eq(sorted((a, b) for a, _, b in deps), sorted(wantdeps),
				'dependencies', (str(tree), desc))
		ctx.eq([a for a, _, _ in deps], list(range(1, n + 1)),
				'one head per token, in order', desc)
		for a, lab, b in deps:
			ctx.ok((b == 0) == (lab == 'root'), 'root label', '%r %r', deps,
					desc)
			if b and not funcs:
				ctx.eq(lab, '-', 'label', desc)
		if funcs:
			for a, c, b in alldeps:
				if id(c) not in rootkids and unaryfree(m, c):
					ctx.ok((a + 1, label[tuple(sorted(g.leaves(c))), c[0]],
							b + 1) in deps, 'dependency label', '%r %r',
							deps, desc)
		head = {a: b for a, _, b in deps}
		for a in head:
			seen = set()
			while a:
				ctx.ok(a not in seen, 'acyclic', '%r', deps)
				seen.add(a)
				a = head[a]
		if any(not projective(head, a) for a in head if head[a]):
			ctx.ev('non-projective')
		lens = [abs(a - b) for a, _, b in deps if b]
		ctx.eq(deplen(deps), (sum(lens), len(lens)), 'deplen', deps)
		# output
		sent = ['w%d' % i for i in range(n)]
		tags = [t for i, t in sorted((x[1][0], x[0]) for x in g.nodes(m)
				if g.preterminal(x))]
		if rng.random() < 0.5:
			out = writedependencies(tree, sent, 'conll')
			if rng.random() < 0.3:
				ctx.eq(writetree(tree, sent, '1', 'conll'), out,
						'writetree conll', desc)
			ctx.ok(out.endswith('\n\n'), 'conll end', '%r', out)
			rows = [a.split('\t') for a in out[:-2].split('\n')]
			ctx.ev('conll tokens', len(rows))
			ctx.eq([(r[0], r[1], r[3], r[4], r[6], r[7], len(r)) for r in rows],
					[(str(i), w, t, t, str(b), lab, 10) for i, w, t,
						(_, lab, b) in zip(range(1, n + 1), sent, tags, deps)],
					'conll', desc)
		else:
			out = writedependencies(tree, sent, 'mst')
			ctx.ev('mst')
			ctx.eq(out, '%s\n%s\n%s\n%s\n\n' % tuple('\t'.join(a) for a in (
					sent, tags, [lab for _, lab, _ in deps],
					[str(b) for _, _, b in deps])), 'mst', desc)
	if rng.random() < 0.3:
		modifiers(ctx, rng, m, ann, got, hr)
	if rng.random() < 0.2:
		statistics(ctx, m, ann, got, rng)
	if rng.random() < 0.15:
		corpus(ctx, rng, m, hr, ref, filename, desc)


def unaryfree(m, c):
	"""Whether (span, label) identifies the node."""
	k = (sorted(g.leaves(c)), c[0])
	return sum(1 for x in g.nodes(m) if (sorted(g.leaves(x)), x[0]) == k) == 1


def relabel(rng, m, labels, cands):
	def visit(x, top=False):
		if not isinstance(x, tuple):
			return x
		lab = rng.choice(cands) if g.preterminal(x) else rng.choice(
				labels + cands)
		if rng.random() < 0.1:
			lab = 'PUNCT' if g.preterminal(x) else lab
		return (lab, tuple(visit(c) for c in x[1]))
	return visit(m)


def projective(head, a):
	b = head[a]
	for c in range(min(a, b) + 1, max(a, b)):
		x = c
		while x and x != b:
			x = head[x]
		if x != b:
			return False
	return True


def modifiers(ctx, rng, m, ann, got, hr):
	rules = {}
	for label in rng.sample(LABELS + ['*', 'ROOT'], rng.randint(0, 6)):
		label = label.split('-')[0].split('[')[0].upper()
		rules[label] = [rng.choice(['*', 'NP', 'PP', 'S', 'NN', 'VP', 'IN'])
				+ rng.choice(['', '-*', '-MO', '-SBJ', '-OA'])
				for _ in range(rng.randint(1, 4))]
	with open('mods', 'w') as out:
		for a, b in rules.items():
			out.write('%s%s %s\n' % (rng.choice(['', '% comment\n', '\n']),
					a, ' '.join(b)))
	mr = readmodifierrules('mods')
	ctx.eq(mr, rules, 'modifier rules')
	tree = make(m, ann, True, False)
	types = Counter()
	applyheadrules(tree, hr, mr)
	for node in tree.subtrees():
		if not isinstance(node[0], Tree):
			continue
		prev = None
		for c in node:
			if c.type == HEAD:
				continue
			want = COMPLEMENT
			for rule in rules.get(node.label.split('-')[0], []) + rules.get(
					'*', []):
				cat, _, func = rule.partition('-')
				if ((cat == '*' or cat == c.label.split('-', 1)[0].upper())
						and (not func or func == '*'
						or func == c.source[4].split('-')[0].upper())):
					want = MODIFIER
			if c.label == prev:
				want = MODIFIER
			prev = c.label
			types[want] += 1
			ctx.eq(c.type, want, 'modifier', (str(node), c.label, c.source,
					rules))
		ctx.eq(sum(c.type == HEAD for c in node), 1, 'one head', str(tree))
	ctx.ev('modifiers', types[MODIFIER])
	ctx.ev('complements', types[COMPLEMENT])


def statistics(ctx, m, ann, got, rng):
	tree = make(m, ann, False, True)
	heads, unknown, pos1, pos2 = headstats([tree])
	wh, wu, wp = defaultdict(Counter), defaultdict(Counter), defaultdict(
			Counter)
	for node in tree.subtrees():
		if len(node) > 1:
			h = [n for n, c in enumerate(node) if c.type == HEAD]
			if h:
				wh[node.label][node[h[0]].label] += 1
				wp[node.label][h[0]] += 1
			else:
				wu[node.label].update(c.label for c in node)
	ctx.eq((heads, unknown, pos1), (wh, wu, wp), 'headstats', m)


def corpus(ctx, rng, m, hr, ref, filename, desc):
	"""The reader applies head rules."""
	m = g.canon(m)
	if m[0] != 'ROOT':
		m = ('ROOT', m[1]) if not g.preterminal(m) else ('ROOT', (m, ))
	sent = ['w%d' % i for i in range(len(g.leaves(m)))]
	tree = g.totree(m, ParentedTree)
	with open('c.export', 'w', encoding='utf8') as out:
		out.write(writetree(tree, sent, '1', 'export'))
	corp = NegraCorpusReader('c.export', headrules=filename)
	item = corp.itertrees()
	_, item = next(iter(item))
	want = g.tomodel(item.tree)
	ctx.ev('read from corpus')
	for node in item.tree.subtrees():
		if isinstance(node[0], Tree):
			h = [n for n, c in enumerate(node) if c.type == HEAD]
			ctx.eq(len(h), 1, 'one head per constituent (corpus)', (want, desc))
			for c in node:
				c.type = None
			ctx.eq(h[0], refhead(ctx, node, ref), 'head (corpus)',
					(str(node), desc))


# coordinations with several conjunctions and punctuation marks
def gencoord(rng, ctx):
	tags = ['NN', 'NN', 'JJ', 'CC', 'CC', 'CONJP', '$,', ',', "''", '--']
	n = rng.randint(3, 8)
	kids = tuple((rng.choice(tags), (i, )) for i in range(n))
	rules = [(rng.choice(['left', 'right', 'right', 'left-to-right',
			'right-to-left', 'leftdis', 'rightdis']), rng.sample(
			['NN', 'JJ', 'XY', 'CC'], rng.randint(0, 3)))
			for _ in range(rng.randint(1, 2))]
	return ('ROOT', (('NP', kids), )), rules


def checkcoord(case, ctx):
	m, rules = case
	t = g.totree(m, ParentedTree)
	want = refhead(ctx, t[0], {'NP': rules})
	applyheadrules(t, {'NP': [(d.upper(), a) for d, a in rules]})
	ctx.eq([i for i, c in enumerate(t[0]) if c.type == HEAD], [want],
			'head of coordination', (str(m), rules))
	ctx.nontrivial(repr(case))


# heads inferred from a head-outward binarization
def gensave(rng, ctx):
	n = g.size(rng, 7, 12)
	m = g.randtree(rng, n, disc=0.4, maxar=6, unary=0.2)
	return rng, m


def checksave(case, ctx):
	rng, m = case

	def rec(x):
		if not isinstance(x, tuple):
			return x
		if isinstance(x[1][0], int):
			return (rng.choice(TAGS), x[1])
		return (rng.choice(LABELS), tuple(rec(c) for c in x[1]))
	m = rec(m)
	t = g.totree(m, ParentedTree)
	heads = {}
	for pos in t.treepositions():
		node = t[pos]
		if isinstance(node, Tree) and isinstance(node[0], Tree):
			heads[pos] = rng.randrange(len(node))
			if rng.random() < 0.08 and len(node) < 3:
				continue
			node[heads[pos]].type = HEAD
	tail = rng.choice(['', '', '$', '*', ':HD'])
	kw = dict(horzmarkov=rng.choice([0, 1, 2, 999]),
			vertmarkov=rng.choice([1, 1, 2, 3]),
			leftmostunary=rng.random() < 0.4, headoutward=True,
			rightmostunary=True, tailmarker=tail,
			markhead=rng.random() < 0.3)
	b = binarize(t.copy(True), **kw)
	text = str(b)
	b = g.totree(g.tomodel(b), ParentedTree)  # no annotation is left
	saveheads(b, tail)
	u = unbinarize(b, expandunary=False)
	desc = (str(t), kw, text)
	ctx.eq(g.tomodel(u), m, 'unbinarized', desc)
	for pos in heads:
		if len(t[pos]) > 2:
			ctx.eq([k for k, c in enumerate(u[pos]) if c.type == HEAD],
					[heads[pos]], 'inferred head', (pos, desc))
			ctx.ev('heads inferred')
			ctx.nontrivial(repr((m, kw)))
			ctx.ev('heads inferred with tail marker', bool(tail))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 10000 * k),
		'coordinations': (gencoord, checkcoord, 2000 * k),
		'inferred': (gensave, checksave, 1500 * k)}

"""C09: removing or moving punctuation and empty elements."""
from collections import Counter
from discodop.tree import ParentedTree
from discodop.treebank import READERS, writetree
from discodop import punctuation as P
from discodop.treetransforms import removeterminals, removeemptynodes
import g

PLAN = dict(
	mods=['bit'],
	rule='random continuous and discontinuous trees (1-14 tokens) with '
	'punctuation tags/words, quotes, brackets and empty elements anywhere; '
	'every removal/movement function and applypunct method, also through the '
	'corpus readers; nontrivial: punctuation and other tokens both present; '
	'counted by tree, words and operation',
	require={'operations': 3000, 'tokens removed': 2000, 'tokens moved': 1000,
		'discontinuous trees': 500, 'constituents vanished': 300,
		'balanced pairs': 300, 'lowered marks': 500, 'reader': 100, 'pairs': 150,
		'pairs moved': 50, 'raised next to constituent': 200},
)
TAGS = {'.', ',', ':', "'", "''", '`', '``', '"', '-LRB-', '-RRB-', '-LSB-',
		'-RSB-', '-LCB-', '-RCB-', '$,', '$.', '$[', '$(', 'let', 'LET[]',
		'SPEC[symb]', 'TW[hoofd,vrij]', 'PONCT', 'PUNCT', 'COMMA', 'PAREN'}
PWORDS = set('.,():-";?/!*&`[]<>{}|=') | {'..', '...', '....', '!!', '!!!',
		'??', '???', "''", '``', ',,', '--', '---', '----', '-LRB-', '-RRB-',
		'-LCB-', '-RCB-', '-LSB-', '-RSB-', '#LRB#', '#RRB#', '&bullet;'}
PRUNE = {'``', "''", '"', '.'}
MATCH = {'"': '"', "'": "'", '``': "''", '[': ']', '(': ')', '-LRB-': '-RRB-',
		'-LSB-': '-RSB-', '-': '-'}
NORMALTAGS = ['NN', 'VB', 'DT', "POS"]
NORMALWORDS = g.WORDS[:8] + ["'s", 'a.b', 'U.S.', "'", '12', 'é', '', 'x-y']


def punct(w, t):
	return t in TAGS or w in PWORDS


def gen(rng, ctx):
	n = g.size(rng, 7, 14)
	m = g.randtree(rng, n, disc=0.5, root='ROOT', unary=rng.choice([0, .2]),
			maxar=rng.choice([2, 3, 5]))
	tags = [None] * n
	sent = []
	pp = rng.choice([0.1, 0.3, 0.6, 0.9])
	for i in range(n):
		if rng.random() < pp:
			if rng.random() < 0.5:
				w = rng.choice(sorted(MATCH) + list(MATCH.values()))
			else:
				w = rng.choice(sorted(PWORDS))
			tags[i] = rng.choice(sorted(TAGS) + ['$(', '$(', ',', 'NN'])
			if rng.random() < 0.1:
				w = rng.choice(NORMALWORDS)
		else:
			w, tags[i] = rng.choice(NORMALWORDS), rng.choice(NORMALTAGS)
			if rng.random() < 0.1:
				w = rng.choice([None, ''])
			elif rng.random() < 0.1:
				w, tags[i] = '*T*-1', '-NONE-'
		sent.append(w)
	if rng.random() < 0.4:  # pairs of marks in or around constituents
		for _ in range(rng.choice([1, 1, 2])):
			y = g.leaves(rng.choice(g.nodes(m)))
			a, b = min(y) - rng.randint(0, 1), max(y) + rng.randint(0, 1)
			if 0 <= a < b < n:
				sent[a] = rng.choice(sorted(MATCH))
				sent[b] = MATCH[sent[a]]
				for i in (a, b):
					tags[i] = rng.choice(['$(', '-LRB-', "''", ':'])
	m = retag(m, tags)
	if rng.random() < 0.5:  # some or all punctuation under root
		p = {i for i in range(n) if punct(sent[i], tags[i])
				and rng.random() < 0.8}
		m2 = remove(m, p)
		m = ('ROOT', (m2[1] if m2 is not None else ())
				+ tuple((tags[i], (i, )) for i in p))
		m = g.canon(m)
	if rng.random() < 0.2:  # shuffled order of children
		m = shuffle(rng, m)
	return rng, m, sent, tags


def shuffle(rng, m):
	if not isinstance(m, tuple):
		return m
	ch = [shuffle(rng, c) for c in m[1]]
	rng.shuffle(ch)
	return (m[0], tuple(ch))


def retag(m, tags):
	if g.preterminal(m):
		return (tags[m[1][0]], m[1])
	return (m[0], tuple(retag(c, tags) for c in m[1]))


def remove(m, idx):
	"""Remove indices and nodes that end up empty (None if all)."""
	if not isinstance(m, tuple):
		return None if m in idx else m
	ch = [remove(c, idx) for c in m[1]]
	ch = tuple(c for c in ch if c is not None)
	return (m[0], ch) if ch else None


def renumber(m, mapping):
	if not isinstance(m, tuple):
		return mapping[m]
	return (m[0], tuple(renumber(c, mapping) for c in m[1]))


def wellformed(ctx, tree, desc):
	"""Parent pointers, no empty nodes."""
	for node in tree.subtrees():
		if not node and node is not tree:
			ctx.fail('empty constituent', '%r %r', tree, desc)
		for n, child in enumerate(node):
			if isinstance(child, ParentedTree):
				ctx.ok(child.parent is node and child.parent_index == n,
						'parent link', '%r', desc)


def checkremoved(ctx, m, sent, tags, tree, newsent, gone, desc):
	kept = [i for i in range(len(sent)) if i not in gone]
	ctx.ev('tokens removed', len(gone))
	ctx.eq(newsent, [sent[i] for i in kept], 'words after removal', desc)
	want = remove(m, gone)
	mapping = {a: n for n, a in enumerate(kept)}
	want = (m[0], ()) if want is None else renumber(want, mapping)
	got = g.tomodel(tree)
	ctx.eq(got, want, 'tree after removal', desc)
	wellformed(ctx, tree, desc)
	if len(g.nodes(m)) - len(gone) > len(g.nodes(want)):
		ctx.ev('constituents vanished')


def fanouts(m, idx):
	"""Canonically ordered list of fan-out of nodes with tokens not in idx."""
	result = []

	def rec(m):
		rest = [a for a in g.leaves(m) if a not in idx]
		if rest:
			result.append((m[0], rest, g.fanout(m)))
			for c in sorted((c for c in m[1] if isinstance(c, tuple)),
					key=lambda c: min([a for a in g.leaves(c)
						if a not in idx] or [-1])):
				rec(c)
	rec(m)
	return result


def checkmoved(ctx, m, sent, tags, tree, newsent, moved, desc, nodisc,
		wantroot=False):
	"""moved: set of indices allowed to move."""
	ctx.eq(newsent, sent, 'words after moving', desc)
	got = g.tomodel(tree)
	ctx.eq(sorted((n[1][0], n[0]) for n in g.nodes(got) if g.preterminal(n)),
			list(enumerate(tags)), 'tokens and tags after moving', desc)
	wellformed(ctx, tree, desc)
	a, b = remove(m, moved), remove(got, moved)
	ctx.eq(b and g.canon(b), a and g.canon(a),
			'constituents after moving', desc)
	if g.canon(got) != g.canon(m):
		ctx.ev('tokens moved')
	if nodisc and a is not None:
		for (l1, y1, f1), (l2, y2, f2) in zip(
				fanouts(m, moved), fanouts(got, moved)):
			if not (l1, sorted(y1)) == (l2, sorted(y2)):
				ctx.fail('constituents after moving', '%r: %r vs %r',
						desc, (l1, y1), (l2, y2))
			ctx.ok(f2 <= f1, 'discontinuity introduced', '%r %r: %d -> %d; '
					'%r %r', l1, y1, f1, f2, got, desc)
	if wantroot:
		for node in g.nodes(got)[1:]:
			for c in node[1]:
				if isinstance(c, tuple) and g.preterminal(c):
					ctx.ok(c[1][0] not in moved, 'punctuation not at root',
							'%r %r', got, desc)


def parents(m):
	"""Map each token to the constituent (path id) over its preterminal."""
	up, kids = {}, {}

	def rec(m, path):
		for n, c in enumerate(m[1]):
			if g.preterminal(c):
				up[c[1][0]] = path
			elif isinstance(c, tuple):
				kids[path + (n, )] = c
				rec(c, path + (n, ))
	if not g.preterminal(m):
		rec(m, ())
	return up


def checkraise(ctx, m, tree, punctidx, desc):
	"""Attached to the topmost constituent with a child starting after it."""
	got = g.tomodel(tree)
	top = {c[1][0] for c in m[1] if g.preterminal(c)} & punctidx
	up = {}

	def rec(node, anc):
		for c in node[1]:
			if g.preterminal(c):
				up[c[1][0]] = anc + [node]
			else:
				rec(c, anc + [node])
	rec(got, [])
	for i in top:
		if i + 1 in top or i + 1 not in up or i not in up:
			continue
		want = None
		for node in up[i + 1]:  # from root to parent of the next token
			if any(min(a for a in g.leaves(c) if a not in top) == i + 1
					for c in node[1] if set(g.leaves(c)) - top):
				want = node
				break
		if want is not None:
			ctx.ev('raised next to constituent')
			ctx.ok(up[i][-1] is want, 'attachment of raised punctuation',
					'%d %r %r', i, got, desc)


def checkbalanced(ctx, m, sent, tags, tree, desc):
	"""Simulate the movement of pairs in order of the closing marks."""
	up = parents(m)

	def cover(path):
		return [a for a, b in up.items() if b[:len(path)] == path]

	opened = {}
	for i in sorted(up):
		w = sent[i]
		if not punct(w, tags[i]) or tags[i] not in TAGS:
			continue
		if w in opened:
			left = opened.pop(w)
			ctx.ev('pairs')
			if max(cover(up[left])) == i - 1:
				up[i] = up[left]
				ctx.ev('pairs moved')
			elif min(cover(up[i])) == left + 1:
				up[left] = up[i]
				ctx.ev('pairs moved')
		elif w in MATCH:
			opened[MATCH[w]] = i

	def build(m, path):
		ch = [(tags[i], (i, )) for i, a in up.items() if a == path]
		for n, c in enumerate(m[1]):
			if isinstance(c, tuple) and not g.preterminal(c):
				c = build(c, path + (n, ))
				if c[1]:
					ch.append(c)
		return (m[0], tuple(ch))
	want = m if g.preterminal(m) else build(m, ())
	ctx.eq(g.canon(g.tomodel(tree)), g.canon(want),
			'balanced punctuation', desc)


def check(case, ctx):
	rng, m, sent, tags = case
	n = len(sent)
	p = {i for i in range(n) if punct(sent[i], tags[i])}
	rootp = {c[1][0] for c in m[1] if g.preterminal(c)}
	# classification of single tokens
	for w, t in zip(sent, tags):
		ctx.ok(bool(P.ispunct(w, ParentedTree(t, [0]))) == punct(w, t),
				'ispunct', '%r %r', w, t)
	if g.fanout(m) > 1 or any(g.fanout(a) > 1 for a in g.nodes(m)):
		ctx.ev('discontinuous trees')
	if any(sent[i] in MATCH and MATCH[sent[i]] in sent[i + 1:]
			for i in range(n)):
		ctx.ev('balanced pairs')

	def run(name, func, *args):
		tree, s = g.totree(m, ParentedTree), list(sent)
		ctx.ev('operations')
		func(tree, s, *args)
		return tree, s, (name, args[1:], m, sent)
	lead = set()
	for i in range(n):
		if sent[i] not in PRUNE:
			break
		lead.add(i)
	for i in range(n - 1, -1, -1):
		if sent[i] not in PRUNE:
			break
		lead.add(i)
	empty = {i for i in range(n) if sent[i] in (None, '')
			or tags[i] == '-NONE-'}
	op = rng.randrange(4)
	if op == 0:
		for gone, name, func in [
				(p, 'punctremove', P.punctremove),
				(p, 'applypunct remove', lambda t, s: P.applypunct(
					'remove', t, s)),
				(rootp, 'punctremove rootpreterms', lambda t, s:
					P.punctremove(t, s, True)),
				(rootp, 'applypunct removeall', lambda t, s: P.applypunct(
					'removeall', t, s)),
				(empty, 'removeemptynodes', removeemptynodes),
				]:
			tree, s, desc = run(name, func)
			checkremoved(ctx, m, sent, tags, tree, s, gone, desc)
	elif op == 1:
		gone = {i for i in range(n) if rng.random() < 0.4}
		bywords = {sent[i] for i in gone}
		bytags = {tags[i] for i in gone}
		tree, s, desc = run('removeterminals', removeterminals,
				lambda w, node: node[0] in gone)
		checkremoved(ctx, m, sent, tags, tree, s, gone, desc + (gone, ))
		gone = {i for i in range(n) if sent[i] in bywords}
		tree, s, desc = run('removeterminals', removeterminals,
				lambda w, node: w in bywords)
		checkremoved(ctx, m, sent, tags, tree, s, gone, desc + (gone, ))
		gone = {i for i in range(n) if tags[i] in bytags}
		tree, s, desc = run('removeterminals', removeterminals,
				lambda w, node: node.label in bytags)
		checkremoved(ctx, m, sent, tags, tree, s, gone, desc + (gone, ))
		if not any(w is None for w in sent):
			tree, s, desc = run('punctprune', P.punctprune)
			checkremoved(ctx, m, sent, tags, tree, s, lead, desc)
			s = list(sent)
			P.punctprune(None, s)
			ctx.eq(s, [w for i, w in enumerate(sent) if i not in lead],
					'punctprune without tree', sent)
	elif op == 2:
		for name, func in [
				('punctraise', P.punctraise),
				('balancedpunctraise', P.balancedpunctraise),
				('move', lambda t, s: P.applypunct('move', t, s)),
				]:
			tree, s, desc = run(name, func)
			checkmoved(ctx, m, sent, tags, tree, s, p, desc, True)
			if name == 'punctraise' and m == g.canon(m):
				checkraise(ctx, m, tree, p, desc)
			elif name == 'balancedpunctraise':
				checkbalanced(ctx, m, sent, tags, tree, desc)
			if name == 'move':
				ctx.eq(g.tomodel(tree), g.canon(g.tomodel(tree)),
						'order of children', desc)
		for name, func in [
				('punctroot', P.punctroot),
				('root', lambda t, s: P.applypunct('root', t, s)),
				]:
			tree, s, desc = run(name, func)
			checkmoved(ctx, m, sent, tags, tree, s, p, desc, False, True)
		tree, s, desc = run('punctlower', P.punctlower)
		checkmoved(ctx, m, sent, tags, tree, s, p, desc, False)
		if m == g.canon(m) and all(g.fanout(a) == 1 for a in g.nodes(m)):
			# all marks at the root, and back
			P.punctroot(tree, s)
			P.punctlower(tree, s)
			for node in g.nodes(g.tomodel(tree)):
				for c in node[1]:
					if isinstance(c, tuple) and g.preterminal(c) and c[1][0] in p:
						ctx.ev('lowered marks')
						ctx.ok(not any(isinstance(a, tuple)
								and not g.preterminal(a)
								and min(g.leaves(a)) < c[1][0] < max(g.leaves(a))
								for a in node[1]), 'lowered mark beside a '
								'constituent that spans it', '%s %r', tree, desc)
		# moves all terminals under root
		for name, func in [('punctraise all', lambda t, s: P.punctraise(
					t, s, True)),
				('moveall', lambda t, s: P.applypunct('moveall', t, s))]:
			tree, s, desc = run(name, func)
			checkmoved(ctx, m, sent, tags, tree, s,
					rootp if name == 'punctraise all' else rootp | p, desc,
					True)
		if not any(w is None for w in sent):
			tree, s, desc = run('prune', lambda t, s: P.applypunct(
					'prune', t, s))
			kept = [i for i in range(n) if i not in lead]
			mapping = {a: k for k, a in enumerate(kept)}
			want = remove(m, lead)
			if want is None:
				ctx.eq((s, g.tomodel(tree)), ([], (m[0], ())), 'prune', desc)
			else:
				want = renumber(want, mapping)
				checkmoved(ctx, want, [sent[i] for i in kept],
						[tags[i] for i in kept], tree, s,
						{mapping[i] for i in p if i in mapping}, desc, True)
	else:  # combinations through a reader
		if any(w in (None, '') for w in sent):
			sent = [w or 'x' for w in sent]
			p = {i for i in range(n) if punct(sent[i], tags[i])}
			empty = {i for i in range(n) if tags[i] == '-NONE-'}
		tags = [{'$(': '$['}.get(a, a) for a in tags]
		m = g.canon(retag(m, tags))
		ctx.ev('reader')
		with open('x.export', 'w') as out:
			tree = g.totree(m, ParentedTree)
			out.write(writetree(tree, sent, '1', 'export'))
		method = rng.choice([None, 'remove', 'removeall', 'move', 'root'])
		rmempty = rng.random() < 0.5
		item = READERS['export']('x.export', punct=method,
				removeempty=rmempty).itertrees()
		_, item = next(iter(item))
		desc = ('reader', method, rmempty, m, sent)
		gone = empty if rmempty else set()
		kept = [i for i in range(n) if i not in gone]
		mapping = {a: k for k, a in enumerate(kept)}
		want = remove(m, gone)
		if want is None:
			want = (m[0], ())
		else:
			want = g.canon(renumber(want, mapping))
		wsent = [sent[i] for i in kept]
		wtags = [tags[i] for i in kept]
		p = {mapping[i] for i in p if i in mapping}
		rootp = {c[1][0] for c in want[1] if g.preterminal(c)}
		if method in ('remove', 'removeall'):
			checkremoved(ctx, want, wsent, wtags, item.tree, item.sent,
					p if method == 'remove' else rootp, desc)
		elif method is None:
			checkremoved(ctx, want, wsent, wtags, item.tree, item.sent, set(),
					desc)
		elif wsent:
			checkmoved(ctx, want, wsent, wtags, item.tree, item.sent, p, desc,
					method == 'move', method == 'root')
	if p and len(p) < n:
		ctx.nontrivial((op, m, sent))
	assert Counter


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'trees': (gen, check, 4000 * k)}

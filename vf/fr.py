"""Reference implementation of tree fragments by naive matching.

Trees are models (see g.py) with at most 2 children per node, every terminal
under a preterminal of its own; words are given by a list."""
from discodop.tree import escape
import g


class T:
	"""A tree with productions per node."""
	def __init__(self, m, sent):
		self.label, self.ch, self.leaves, self.prod = [], [], [], []
		self.sent = sent
		self.add(m)
		self.bylabel = {}

	def add(self, m):
		i = len(self.label)
		self.label.append(m[0])
		self.ch.append(None)
		self.leaves.append(sorted(g.leaves(m)))
		self.prod.append(None)
		if isinstance(m[1][0], int):
			self.ch[i] = ()
			word = self.sent[m[1][0]]
			self.prod[i] = (m[0], 'W', word)
		else:
			self.ch[i] = tuple(self.add(c) for c in m[1])
			yf, last = [], None
			where = {x: k for k, c in enumerate(self.ch[i])
					for x in self.leaves[c]}
			for x in self.leaves[i]:
				if last is None or x != last[0] + 1:
					yf.append([where[x]])
				elif where[x] != last[1]:
					yf[-1].append(where[x])
				last = x, where[x]
			self.prod[i] = (m[0], tuple(map(tuple, yf)),
					tuple(self.label[c] for c in self.ch[i]))
		return i

	def __len__(self):
		return len(self.label)


def overlaps(a, b):
	"""Maximal connected overlaps; yields (root in a, set of nodes in a)."""
	match = {(i, j) for i in range(len(a)) for j in range(len(b))
			if a.prod[i] == b.prod[j]}
	below = {(x, y) for i, j in match for x, y in zip(a.ch[i], b.ch[j])}
	for i, j in match - below:
		todo, nodes = [(i, j)], set()
		while todo:
			x, y = todo.pop()
			nodes.add(x)
			todo.extend(p for p in zip(a.ch[x], b.ch[y]) if p in match)
		yield i, frozenset(nodes)


def abstract(a, i, nodes):
	"""Nested (production, children); None is a frontier non-terminal."""
	return a.prod[i], tuple(abstract(a, c, nodes) if c in nodes else None
			for c in a.ch[i])


def embeds(f, b, j):
	return f[0] == b.prod[j] and all(c is None or embeds(c, b, y)
			for c, y in zip(f[1], b.ch[j]))


def occurrences(f, trees, start=0, end=None):
	"""[(tree, node)] ordered by tree."""
	return [(n, j) for n in range(start, len(trees) if end is None
				else min(end, len(trees)))
			for j in range(len(trees[n])) if embeds(f, trees[n], j)]


def words(a, i, nodes):
	return [a.prod[x] for x in nodes if not a.ch[x]]


def depth(f):
	return 1 + max((depth(c) for c in f[1] if c is not None), default=0)


def frontiers(f):
	return sum(1 if c is None else frontiers(c) for c in f[1])


def text(a, i, nodes, disc):
	"""The text form of a fragment."""
	if not disc:
		def rec(x):
			if x not in nodes:
				return '(%s )' % a.label[x]
			if not a.ch[x]:
				return '(%s %s)' % (a.label[x], escape(a.prod[x][2]))
			return '(%s %s)' % (a.label[x], ' '.join(rec(c)
					for c in a.ch[x]))
		return rec(i)
	runs = []  # terminals and parts of frontier non-terminals
	todo = [i]
	while todo:
		x = todo.pop()
		if x in nodes and a.ch[x]:
			todo.extend(a.ch[x])
		else:
			runs.extend((r[0], r[-1]) for r in g.parts(a.leaves[x]))
	number, m, last = {}, 0, None
	for start, end in sorted(runs):
		if last is not None:
			m += 1 if start == last + 1 else 2
		number[start] = m
		last = end

	def rec2(x):
		if x not in nodes:
			ch = ' '.join('%d=' % number[r[0]] for r in g.parts(a.leaves[x]))
		elif not a.ch[x]:
			ch = '%d=%s' % (number[a.leaves[x][0]], escape(a.prod[x][2]))
		else:
			ch = ' '.join(rec2(c) for c in a.ch[x])
		return '(%s %s)' % (a.label[x], ch)
	return rec2(i)


def common(treesa, treesb=None, disc=False, keep=None, pairs=None):
	"""{text: (abstract form, set of (tree, root, nodes))}."""
	result = {}
	for n, a in enumerate(treesa):
		for m in range(n + 1 if treesb is None else 0,
				len(treesa if treesb is None else treesb)):
			if pairs is not None and not pairs(n, m):
				continue
			for i, nodes in overlaps(a, (treesa if treesb is None
					else treesb)[m]):
				if keep is not None and not keep(words(a, i, nodes)):
					continue
				t = text(a, i, nodes, disc)
				result.setdefault(t, (abstract(a, i, nodes), set()))[1].add(
						(n, i, nodes))
	return result


def allfrags(a, i, maxdepth):
	"""All fragments rooted at node i as sets of nodes."""
	if maxdepth == 0:
		return []
	result = [frozenset([i])]
	for c in a.ch[i]:
		sub = allfrags(a, c, maxdepth - 1)
		result = result + [x | y for x in result for y in sub]
	return result

"""Independent reference implementation of (binarized) PCFG/LCFRS grammars.

A grammar is given as a list of ``((nonterminals, yf), weight)`` with lexical
rules ``((tag, 'Epsilon'), (word, ))``. Charts are exhaustive; items are
``(label, bitmask)``; everything here works on plain Python values.
"""
import math
from collections import defaultdict
import g


class LC:
	def __init__(self, rules, start='ROOT', normalize=True, weights=None):
		self.start = start
		self.rules = [r for r, _ in rules]
		w = [float(x) for _, x in rules]
		if weights is not None:
			w = [float(x) for x in weights]
		elif normalize:
			mass = defaultdict(float)
			for r, x in zip(self.rules, w):
				mass[r[0][0]] += x
			w = [x / mass[r[0][0]] for r, x in zip(self.rules, w)]
		self.prob = {}
		self.unary = defaultdict(list)
		self.binary = defaultdict(list)
		self.left, self.right = defaultdict(set), defaultdict(set)
		self.lex = defaultdict(list)
		self.fanout = {}
		for (r, yf), x in zip(self.rules, w):
			self.prob[r, yf] = self.prob.get((r, yf), 0) + x
		for (r, yf), x in self.prob.items():
			if r[1] == 'Epsilon':
				self.lex[yf[0]].append((r[0], x))
				self.fanout[r[0]] = 1
			elif len(r) == 2:
				self.unary[r[1]].append((r[0], x, (r, yf)))
				self.fanout[r[0]] = len(yf)
			else:
				self.binary[r[1], r[2], yf].append((r[0], x, (r, yf)))
				self.left[r[1]].add(r[2])
				self.right[r[2]].add(r[1])
				self.fanout[r[0]] = len(yf)
		self.yfs = {}

	def yf(self, left, right):
		key = left, right
		if key not in self.yfs:
			res, prev, n = [[]], None, 0
			x = left | right
			while x >> n:
				cur = 0 if left >> n & 1 else 1 if right >> n & 1 else None
				if cur is None:
					if prev is not None:
						res.append([])
				elif cur != prev:
					res[-1].append(cur)
				prev = cur
				n += 1
			self.yfs[key] = tuple(map(tuple, res))
		return self.yfs[key]


def chart(gr, words, tags=None, allowed=None, limit=60000):
	"""Exhaustive chart: item -> list of (prob, ruleinfo, children); children
	is a tuple of items, or an int for lexical edges. ``words`` as they
	occur in the rules; tags: given tags select/override lexical rules
	like the parsers do. Returns None when too many edges."""
	edges = defaultdict(list)
	todo, seen = [], set()
	bylabel = defaultdict(list)
	n = 0

	def add(item, edge):
		nonlocal n
		if allowed is not None and not allowed(item):
			return
		edges[item].append(edge)
		n += 1
		if item not in seen:
			seen.add(item)
			todo.append(item)
	for i, w in enumerate(words):
		cand = gr.lex.get(w, [])
		if tags is not None and tags[i] is not None:
			cand = tags[i](cand) if callable(tags[i]) else [
					(t, p) for t, p in cand if t == tags[i]]
		for tag, p in cand:
			add((tag, 1 << i), (p, None, i))
	while todo:
		item = todo.pop()
		label, m = item
		bylabel[label].append(m)
		for lhs, p, r in gr.unary.get(label, ()):
			if _unaryok(r[1], m):
				add((lhs, m), (p, r, (item, )))
		for b in gr.left.get(label, ()):
			for m2 in bylabel.get(b, ()):
				if not m & m2:
					for lhs, p, r in gr.binary.get((label, b, gr.yf(m, m2)), ()):
						add((lhs, m | m2), (p, r, (item, (b, m2))))
		for a in gr.right.get(label, ()):
			for m1 in bylabel.get(a, ()):
				if not m & m1:
					for lhs, p, r in gr.binary.get((a, label, gr.yf(m1, m)), ()):
						add((lhs, m | m1), (p, r, ((a, m1), item)))
		if n > limit:
			return None
	return edges


def _unaryok(yf, m):
	f = bin(m & ~(m << 1)).count('1')
	return len(yf) == f and all(a == (0, ) for a in yf)


def viterbi(edges):
	"""Best log probability per item."""
	best = {}
	parents = defaultdict(set)
	for item, es in edges.items():
		for p, r, ch in es:
			if isinstance(ch, tuple):
				for c in ch:
					parents[c].add(item)
	todo = list(edges)
	intodo = set(todo)
	while todo:
		item = todo.pop()
		intodo.discard(item)
		x = None
		for p, r, ch in edges[item]:
			y = math.log(p)
			if isinstance(ch, tuple):
				if any(c not in best for c in ch):
					continue
				y += sum(best[c] for c in ch)
			if x is None or y > x:
				x = y
		if x is not None and (item not in best or x > best[item] + 1e-13):
			best[item] = x
			for p in parents[item]:
				if p not in intodo:
					todo.append(p)
					intodo.add(p)
	return best


def reachable(edges, root):
	"""Items reachable from root."""
	seen, todo = {root}, [root]
	while todo:
		for _, _, ch in edges.get(todo.pop(), ()):
			if isinstance(ch, tuple):
				for c in ch:
					if c not in seen:
						seen.add(c)
						todo.append(c)
	return seen


def cyclic(edges, root):
	"""Whether there are infinitely many derivations of root."""
	state = {}

	def visit(item):
		state[item] = 1
		for _, _, ch in edges.get(item, ()):
			if isinstance(ch, tuple):
				for c in ch:
					if state.get(c) == 1 or (c not in state and visit(c)):
						return True
		state[item] = 2
		return False
	return visit(root)


def count(edges, root):
	"""Number of derivations (acyclic)."""
	memo = {}

	def num(item):
		if item not in memo:
			x = 0
			for _, _, ch in edges.get(item, ()):
				y = 1
				if isinstance(ch, tuple):
					for c in ch:
						y *= num(c)
				x += y
			memo[item] = x
		return memo[item]
	return num(root)


def derivations(edges, root, limit=20000):
	"""All derivations of item: list of (prob, tree, rules); None if more
	than limit."""
	if count(edges, root) > limit:
		return None
	memo = {}

	def get(item):
		if item in memo:
			return memo[item]
		res = []
		for p, r, ch in edges.get(item, ()):
			if not isinstance(ch, tuple):
				res.append((p, (item[0], (ch, )), ()))
			elif len(ch) == 1:
				for q, t, rs in get(ch[0]):
					res.append((p * q, (item[0], (t, )), rs))
			else:
				for q, t, rs in get(ch[0]):
					for q2, t2, rs2 in get(ch[1]):
						res.append((p * q * q2, (item[0], (t, t2)), ()))
		memo[item] = res
		return res
	return get(root)


def inside(edges, root):
	"""Sum of derivation probabilities (acyclic)."""
	memo = {}

	def get(item):
		if item not in memo:
			x = 0.0
			for p, _, ch in edges.get(item, ()):
				if isinstance(ch, tuple):
					for c in ch:
						p *= get(c)
				x += p
			memo[item] = x
		return memo[item]
	return get(root)


def kbestprobs(edges, root, k):
	"""The k highest log probabilities of derivations; works with cycles
	(iterates until nothing changes)."""
	edges = {a: edges[a] for a in reachable(edges, root) if a in edges}
	best = {item: [] for item in edges}
	parents = defaultdict(set)
	for item, es in edges.items():
		for p, r, ch in es:
			if isinstance(ch, tuple):
				for c in ch:
					parents[c].add(item)
	todo = list(edges)
	while todo:
		item = todo.pop()
		cand = []
		for p, r, ch in edges[item]:
			lp = math.log(p)
			if not isinstance(ch, tuple):
				cand.append(lp)
			elif len(ch) == 1:
				cand.extend(lp + x for x in best.get(ch[0], ()))
			else:
				cand.extend(lp + x + y for i, x in enumerate(
						best.get(ch[0], ()))
						for y in best.get(ch[1], ())[:k // (i + 1) + 1])
		cand.sort(reverse=True)
		cand = cand[:k]
		old = best[item]
		if len(cand) != len(old) or any(abs(a - b) > 1e-12
				for a, b in zip(cand, old)):
			best[item] = cand
			todo.extend(p for p in parents[item] if p not in todo)
	return best.get(root, [])


def treeprob(gr, tree, words):
	"""Log probability of a derivation tree (product of its rules), or None
	if it uses a rule that is not in the grammar. Also checks spans: every
	node's yield function is recomputed from its leaves."""
	result = 0.0
	for x in g.nodes(tree):
		rule = noderule(gr, x, words)
		p = gr.prob.get(rule)
		if not p:
			return None
		result += math.log(p)
	return result


def noderule(gr, x, words):
	if not isinstance(x[1][0], tuple):
		return (x[0], 'Epsilon'), (words[x[1][0]], )
	masks = [mask(c) for c in x[1]]
	r = (x[0], ) + tuple(c[0] for c in x[1])
	if len(masks) == 1:
		f = len(g.parts(g.leaves(x)))
		return r, ((0, ), ) * f
	return r, gr.yf(masks[0], masks[1])


def mask(m):
	return sum(1 << i for i in g.leaves(m))


def treerules(m, words, escape=True):
	"""Rules of a model tree in preorder (any arity)."""
	result = []
	for x in g.nodes(m):
		if not isinstance(x[1][0], tuple):
			w = words[x[1][0]]
			result.append(((x[0], 'Epsilon'), (esc(w) if escape else w, )))
			continue
		owner = {i: k for k, c in enumerate(x[1]) for i in g.leaves(c)}
		yf = tuple(tuple(owner[i] for n, i in enumerate(p)
				if n == 0 or owner[i] != owner[p[n - 1]])
				for p in g.parts(g.leaves(x)))
		result.append(((x[0], ) + tuple(c[0] for c in x[1]), yf))
	return result


def esc(w):
	return w.replace('(', '#LRB#').replace(')', '#RRB#')


def parsetree(s):
	"""Parse '(A (B 0) (C 1))' into a model tree."""
	stack, i = [[]], 0
	n = len(s)
	while i < n:
		c = s[i]
		if c == '(':
			j = i + 1
			while s[j] not in ' ()':
				j += 1
			stack.append([s[i + 1:j]])
			i = j
		elif c == ')':
			x = stack.pop()
			stack[-1].append((x[0], tuple(x[1:])))
			i += 1
		elif c == ' ':
			i += 1
		else:
			j = i
			while s[j] not in ' ()':
				j += 1
			stack[-1].append(int(s[i:j]))
			i = j
	(x, ) = stack[0]
	return x


def markfanout(m):
	"""Add fan-out markers X_2 to discontinuous nodes."""
	if not isinstance(m, tuple):
		return m
	f = g.fanout(m)
	return (m[0] if f == 1 or not isinstance(m[1][0], tuple)
			else '%s_%d' % (m[0], f), tuple(markfanout(c) for c in m[1]))


def binarized(rng, m, mark=True):
	"""A binarized model tree (independent of the code under test):
	right-factored with artificial labels, with fan-out marked."""
	if not isinstance(m, tuple) or not isinstance(m[1][0], tuple):
		return m
	ch = [binarized(rng, c, mark=False) for c in m[1]]
	while len(ch) > 2:
		b = ch.pop()
		a = ch.pop()
		ch.append(('%s|<%s>' % (m[0], a[0].split('|')[0]), (a, b)))
	res = (m[0], tuple(ch))
	return markfanout(res) if mark else res

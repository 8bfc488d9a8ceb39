"""Generators and an implementation-independent tree model.

A model tree is ``(label, (child, ...))`` with ints (or strs) as leaves.
"""
LABELS = ['S', 'NP', 'VP', 'PP', 'AP', 'SBAR', 'CNP', 'X']
TAGS = ['NN', 'VB', 'DT', 'JJ', 'IN', 'ART', 'NE', 'ADV']
WORDS = ('the a cat dog sat mat on saw man with telescope old big red in of '
		'and he she it runs').split()
HOSTILE = ['(', ')', '-LRB-', 'a(b', '[x]', '{', '}', '/', '1/2', '=', 'a=b',
		'3=x', "'", '``', '"', '&', '<b>', 'é', 'naïve', '日本', '𝒳', '%', '%d',
		'#', '#500', '*', '@', 'A@B', '|', '|<', ':', '_', '_2', '\\', '--', '-',
		',', '.', '?', '0', '12', '&amp;', 'x' * 40, '%%', '~', '+', '^',
		'Ünïcode', 'ß', 'É', 'İ']


def leaves(m):
	if isinstance(m, tuple):
		return [x for c in m[1] for x in leaves(c)]
	return [m]


def minleaf(m):
	return min(leaves(m)) if isinstance(m, tuple) else m


def canon(m):
	"""Order children by their lowest leaf."""
	if not isinstance(m, tuple):
		return m
	return (m[0], tuple(sorted((canon(c) for c in m[1]), key=minleaf)))


def nodes(m):
	"""Preorder list of model nodes."""
	result = [m]
	for c in m[1]:
		if isinstance(c, tuple):
			result.extend(nodes(c))
	return result


def preterminal(m):
	return isinstance(m, tuple) and len(m[1]) == 1 and not isinstance(
			m[1][0], tuple)


def tomodel(t):
	"""Convert a discodop Tree by walking label/children only."""
	return (t.label, tuple(tomodel(c) if hasattr(c, 'label') else c
			for c in t.children))


def tostr(m, words=None):
	if not isinstance(m, tuple):
		return str(m) if words is None else words(m)
	return '(%s %s)' % (m[0], ' '.join(tostr(c, words) for c in m[1]))


def totree(m, cls):
	if not isinstance(m, tuple):
		return m
	return cls(m[0], [totree(c, cls) for c in m[1]])


def parts(indices):
	"""Maximal contiguous runs -> list of lists."""
	result = []
	for a in sorted(indices):
		if result and result[-1][-1] == a - 1:
			result[-1].append(a)
		else:
			result.append([a])
	return result


def fanout(m):
	return len(parts(leaves(m)))


def randtree(rng, n, disc=0.3, labels=LABELS, tags=TAGS, maxar=4, unary=0.15,
		root='ROOT', maxunary=3):
	"""Random model tree over leaves 0..n-1; disc: chance that a tree draws
	arbitrary (rather than adjacent) nodes to merge."""
	roots = [(rng.choice(tags), (i, )) for i in range(n)]
	isdisc = rng.random() < disc
	pdisc = rng.choice([0.2, 0.5, 0.9]) if isdisc else 0

	def un(m):
		k = 0
		while rng.random() < unary and k < maxunary:
			m = (rng.choice(labels), (m, ))
			k += 1
		return m
	roots = [un(a) for a in roots]
	while len(roots) > 1:
		k = min(len(roots), rng.randint(2, max(2, maxar)))
		if rng.random() < pdisc:
			chosen = sorted(rng.sample(range(len(roots)), k))
		else:
			start = rng.randrange(len(roots) - k + 1)
			chosen = list(range(start, start + k))
		new = (rng.choice(labels), tuple(roots[i] for i in chosen))
		new = un(new)
		rest = [a for i, a in enumerate(roots) if i not in chosen]
		rest.append(new)
		# keep in order of first leaf so that adjacency is meaningful
		rest.sort(key=minleaf)
		if len(rest) == 1:
			break
		roots = rest
	top = rest[0] if n > 1 else roots[0]
	if root is not None:
		if rng.random() < 0.7 and not preterminal(top) and top[0] != root:
			if rng.random() < 0.5:
				top = (root, top[1])
			else:
				top = (root, (top, ))
		else:
			top = (root, (top, ))
	return canon(top)


def randsent(rng, n, hostile=0.0, words=WORDS):
	return [rng.choice(HOSTILE) if rng.random() < hostile
			else rng.choice(words) for _ in range(n)]


def size(rng, small=6, large=14):
	return rng.randint(1, small if rng.random() < 0.6 else large)


def randtreebank(rng, ntrees, maxlen=6, disc=0.3, words=WORDS, labels=None,
		tags=None, maxar=3, unary=0.1):
	"""Few labels/words, so that rules and fragments recur."""
	labels = labels or LABELS[:3]
	tags = tags or TAGS[:3]
	trees, sents = [], []
	for _ in range(ntrees):
		n = rng.randint(1, maxlen)
		trees.append(randtree(rng, n, disc=disc, labels=labels, tags=tags,
				maxar=maxar, unary=unary))
		sents.append(randsent(rng, n, words=words))
	return trees, sents

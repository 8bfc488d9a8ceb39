"""Random grammars and sentences for the parsing checks.

Grammars are lists of ``((nonterminals, yf), weight)``, see lc.py."""
import math

VOCAB = ['a', 'b', 'c', 'd', 'e']
LABELS = ['A', 'B', 'C', 'D', 'E', 'NP', 'VP-HD', 'X|<A,B>', 'S^<VP>', 'T@1']


def weight(rng, kind):
	if kind == 0:
		return rng.randint(1, 9)
	if kind == 1:
		return rng.choice([1, 1, 2, 100, 5000])
	return rng.uniform(0.001, 1)


def binaryyf(rng, f1, f2, f):
	"""A random canonical yield function, or None when there is none."""
	if not 1 <= f <= f1 + f2:
		return None
	for _ in range(30):
		seq = [0] * (f1 - 1) + [1] * f2
		rng.shuffle(seq)
		seq = [0] + seq
		need = {i for i in range(1, len(seq)) if seq[i] == seq[i - 1]}
		if len(need) > f - 1:
			continue
		rest = [i for i in range(1, len(seq)) if i not in need]
		cuts = sorted(need | set(rng.sample(rest, f - 1 - len(need))))
		cuts = [0] + cuts + [len(seq)]
		return tuple(tuple(seq[a:b]) for a, b in zip(cuts, cuts[1:]))
	return None


def grammar(rng, disc=False, unarycycles=True, size=None, vocab=VOCAB,
		acyclic=False, kind=None, labels=LABELS, unary=0.3):
	"""A random binarized grammar in which every label has a production.

	acyclic: unary productions only go to labels later in an order."""
	n = size or rng.randint(1, 6)
	names = rng.sample(labels, min(n, len(labels)))
	fo = {}
	for a in names:
		f = rng.choice([1, 1, 2, 2, 3]) if disc and len(fo) else 1
		if f > 1:
			a = '%s_%d' % (a, f)
		fo[a] = f
	kind = rng.randrange(3) if kind is None else kind
	rules = {}
	order = sorted(fo)
	rng.shuffle(order)

	def add(lhs, f):
		if rng.random() < unary:
			ch = [b for b in order if fo[b] == f and b != lhs]
			if acyclic and lhs != 'ROOT':
				ch = [b for b in ch if order.index(b) > order.index(lhs)]
			if unarycycles is False and lhs != 'ROOT':
				ch = [b for b in ch if order.index(b) > order.index(lhs)]
			if ch:
				rules[(lhs, rng.choice(ch)), ((0, ), ) * f] = weight(rng, kind)
				return True
		for _ in range(20):
			b, c = rng.choice(order), rng.choice(order)
			yf = binaryyf(rng, fo[b], fo[c], f)
			if yf is not None:
				rules[(lhs, b, c), yf] = weight(rng, kind)
				return True
		return False

	for a in list(order):
		if fo[a] > 1:
			# start from labels with words so that something is derivable
			ones = [b for b in order if fo[b] == 1]
			if fo[a] == 2 and ones:
				rules[(a, rng.choice(ones), rng.choice(ones)), ((0, ), (1, ))
						] = weight(rng, kind)
			elif not add(a, fo[a]):
				b = rng.choice(ones)
				del fo[a]
				order.remove(a)
	for _ in range(rng.randint(0, 3 * n)):
		a = rng.choice(order)
		add(a, fo[a])
	for _ in range(rng.randint(1, 3)):
		while not add('ROOT', 1):
			pass
	lex = {}
	for a in order:
		if fo[a] == 1:
			for w in rng.sample(vocab, rng.randint(1, min(3, len(vocab)))):
				if rng.random() < 0.8 or not any(r[0] == a for r, _ in rules):
					lex[(a, 'Epsilon'), (w, )] = weight(rng, kind)
	# every label needs a production
	have = {r[0] for r, _ in rules} | {r[0] for r, _ in lex}
	for a in order:
		if a not in have:
			if fo[a] == 1:
				lex[(a, 'Epsilon'), (rng.choice(vocab), )] = weight(rng, kind)
			else:
				ones = [b for b in order if fo[b] == 1]
				rules[(a, ones[0], ones[0]), ((0, ), (1, )) if fo[a] == 2
						else ((0, ), (1, ))] = weight(rng, kind)
	# remove rules with right-hand sides that lost their label
	labs = {r[0] for r, _ in rules} | {r[0] for r, _ in lex}
	while True:
		bad = [k for k in rules if any(b not in labs for b in k[0])
				or len(k[1]) != fo.get(k[0][0], 1)]
		if not bad:
			break
		for k in bad:
			del rules[k]
		labs = {r[0] for r, _ in rules} | {r[0] for r, _ in lex}
	if not any(r[0] == 'ROOT' for r, _ in rules):
		a = rng.choice([b for b in order if fo[b] == 1 and b in labs])
		rules[('ROOT', a), ((0, ), )] = weight(rng, kind)
	if not lex:
		a = [b for b in order if fo[b] == 1][0]
		lex[(a, 'Epsilon'), (vocab[0], )] = weight(rng, kind)
	items = list(rules.items())
	rng.shuffle(items)
	litems = list(lex.items())
	rng.shuffle(litems)
	return items + litems


def swap(rng, rules, prob=0.3):
	"""Swap children of some productions with discontinuous constituents (the
	first child does not have to be the leftmost); same language."""
	fan = {}
	for (r, yf), _ in rules:
		fan[r[0]] = 1 if r[1] == 'Epsilon' else len(yf)
	have = {a for a, _ in rules}
	res = []
	for (r, yf), w in rules:
		if len(r) == 3 and rng.random() < prob and (
				len(yf) + fan.get(r[1], 1) + fan.get(r[2], 1) > 3):
			new = (r[0], r[2], r[1]), tuple(tuple(1 - a for a in b) for b in yf)
			if new not in have:
				have.add(new)
				r, yf = new
		res.append(((r, yf), w))
	return res


def sample(rng, rules, maxlen=8, budget=40, start='ROOT'):
	"""A sentence derived by the grammar, or None."""
	by = {}
	for (r, yf), _ in rules:
		by.setdefault(r[0], []).append((r, yf))
	# height of the shallowest derivation
	height = {}
	for _ in range(len(by) + 1):
		for a, opts in by.items():
			for r, yf in opts:
				h = 1 if r[1] == 'Epsilon' else 1 + max(
						height.get(b, math.inf) for b in r[1:])
				if h < height.get(a, math.inf):
					height[a] = h
	if start not in height:
		return None
	left = [budget]

	def expand(a, depth):
		left[0] -= 1
		opts = [(r, yf) for r, yf in by[a] if r[1] == 'Epsilon'
				or all(b in height for b in r[1:])]
		if left[0] < 0 or depth > 6:
			h = lambda o: 1 if o[0][1] == 'Epsilon' else 1 + max(
					height[b] for b in o[0][1:])
			m = min(map(h, opts))
			opts = [o for o in opts if h(o) == m]
		r, yf = rng.choice(opts)
		if r[1] == 'Epsilon':
			return [[yf[0]]]
		subs = [iter(expand(b, depth + 1)) for b in r[1:]]
		return [[w for x in comp for w in next(subs[x])] for comp in yf]

	for _ in range(10):
		left[0] = budget
		res = expand(start, 0)
		if len(res) == 1 and len(res[0]) <= maxlen:
			return res[0]
	return None


def sentence(rng, rules, maxlen=8, vocab=VOCAB, unknown=0):
	"""A random sentence: derivable, almost derivable, or random."""
	s = sample(rng, rules, maxlen) if rng.random() < 0.75 else None
	if s is None:
		s = [rng.choice(vocab) for _ in range(rng.randint(1, min(maxlen, 6)))]
	elif rng.random() < 0.2:
		s[rng.randrange(len(s))] = rng.choice(vocab)
	elif rng.random() < 0.1:
		rng.shuffle(s)
	if unknown and rng.random() < unknown:
		s[rng.randrange(len(s))] = 'zzz'
	return s

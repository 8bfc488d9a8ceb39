"""C38: the osTAG reduction generates what the tree-adjoining grammar does."""
import re
from collections import Counter, defaultdict
from math import exp
from discodop.tree import ParentedTree, Tree
from discodop.grammar import (ostagreduction, inducetagfromtsg,
		doubleostagfromtsg)
from discodop.containers import Grammar
from discodop import pcfg, disambiguation
import g
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'disambiguation',
		'_fragments'],
	rule='random tree-adjoining grammars (1-6 initial trees, 0-4 auxiliary '
	'trees, with substitution sites, unary nodes, recursive adjunction), and '
	'grammars induced from random binarized continuous treebanks with '
	'recursive constituents; nontrivial: at least one adjunction in a derived '
	'tree; counted by grammar',
	require={'grammars': 1600, 'derived trees': 9000, 'adjunctions': 7000,
		'sentences parsed': 3000, 'parse trees': 3500, 'factored': 600,
		'recombined': 600, 'treebanks': 60, 'training sentences': 120,
		'packed': 600, 'extra rules': 250},
)
LABELS = ['S', 'A', 'B', 'NP-SBJ']
TAGS = ['T', 'PRP$', '$,', 'U']
WORDS = ['a', 'b', 'c', '(', 'x=y', '1']
LIMIT = 4000


class TooMany(Exception):
	pass


# elementary trees: (label, children); leaves: (tag, word), (label, None) for
# a substitution site, (label, '*') for the foot node
def elem(rng, label, leaves, labels, root=True):
	"""A tree over a list of leaves, at most binary."""
	if len(leaves) == 1:
		if not root and rng.random() < 0.8 or (root and isinstance(
				leaves[0][1], str) and leaves[0][1] != '*' and leaves[0][0]
				== label):
			return leaves[0]
		return (label, (elem(rng, rng.choice(labels), leaves, labels, False)
				if rng.random() < 0.15 else leaves[0], ))
	i = rng.randint(1, len(leaves) - 1)
	res = (label, (elem(rng, rng.choice(labels), leaves[:i], labels, False),
			elem(rng, rng.choice(labels), leaves[i:], labels, False)))
	return res


def gentag(rng):
	labels = LABELS[:rng.choice([1, 2, 3, 4])]
	words = rng.sample(WORDS, rng.randint(1, 3))
	tags = rng.sample(TAGS, rng.choice([1, 2, 3]))

	def leaf(p):
		if rng.random() < p:
			return (rng.choice(tags), rng.choice(words))
		return (rng.choice(labels + (tags if rng.random() < 0.5 else [])), None)
	init, aux = {}, {}
	for label in labels:
		for _ in range(rng.choice([1, 1, 2])):
			n = rng.choice([1, 2, 2, 3, 4])
			leaves = [leaf(0.65) for _ in range(n)]
			if n == 1 or rng.random() < 0.6:
				leaves[rng.randrange(n)] = (rng.choice(tags), rng.choice(words))
			init[elem(rng, label, leaves, labels)] = rng.randint(1, 9)
	for _ in range(rng.choice([1, 1, 2])):
		top = [('S', None)] + [leaf(0.5) for _ in range(rng.choice([0, 0, 1]))]
		rng.shuffle(top)
		init['ROOT', tuple(top)] = rng.randint(1, 9)
	for tag in tags:
		for w in words:
			if rng.random() < (0.4 if rng.random() < 0.4 else 0.8):
				init[(tag, w)] = rng.randint(1, 9)
	for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
		label = rng.choice(labels)
		n = rng.choice([1, 1, 2, 2, 3])
		leaves = [leaf(0.75) for _ in range(n)]
		leaves.insert(rng.randint(0, n), (label, '*'))
		aux[elem(rng, label, leaves, labels)] = rng.randint(1, 9)
	return init, aux


def text(t):
	cnt = [0]

	def rec(t):
		if isinstance(t[1], tuple):
			return '(%s %s)' % (t[0], ' '.join(map(rec, t[1])))
		cnt[0] += 1
		return '(%s %d=%s)' % (t[0], cnt[0] - 1, '' if t[1] is None
				else t[1].replace('(', '#LRB#').replace(')', '#RRB#'))
	return rec(t)


def isphrasal(t):
	return isinstance(t[1], tuple)


def hasfoot(t):
	return any(hasfoot(c) for c in t[1]) if isphrasal(t) else t[1] == '*'


class Tag:
	"""Derived trees of the grammar, with the number of derivations."""
	def __init__(self, init, aux):
		self.init, self.aux = init, aux
		self.memo = {}
		self.adjunctions = 0
		# nodes that can be adjoined to
		self.adjoinable = {a[0] for a in init if isphrasal(a)}

	def sub(self, label, n):
		"""Trees for a substitution site, with n words."""
		key = ('sub', label, n)
		if key not in self.memo:
			res = Counter()
			for t in self.init:
				if t[0] == label:
					res += self.children(t, n)
			self.memo[key] = res
			if label in self.adjoinable:
				self.memo[key] = res + self.adjoin(label, n,
						lambda m: self.sub(label, m))
			if len(self.memo[key]) > LIMIT:
				raise TooMany
		return self.memo[key]

	def children(self, t, n):
		"""Trees for an elementary tree node, without adjunction on it."""
		if not isphrasal(t):
			return Counter({(t[0], (t[1], )): 1} if n == 1 else {})
		return combine(t[0], [lambda m, c=c: self.node(c, m) for c in t[1]], n)

	def node(self, t, n):
		"""Trees for a node that is not a root or on a spine."""
		if not isphrasal(t):
			return (self.sub(t[0], n) if t[1] is None else self.children(t, n))
		key = ('node', id(t), n)
		if key not in self.memo:
			self.memo[key] = self.children(t, n) + self.adjoin(t[0], n,
					lambda m: self.node(t, m))
		return self.memo[key]

	def adjoin(self, label, n, inner):
		res = Counter()
		for t in self.aux:
			if t[0] == label:
				x = self.spine(t, n, inner)
				self.adjunctions += len(x)
				res += x
		if len(res) > LIMIT:
			raise TooMany
		return res

	def spine(self, t, n, inner):
		if t[1] == '*':
			return inner(n) if n >= 0 else Counter()
		other = [c for c in t[1] if not hasfoot(c)]
		mind = 1 if other else 0

		def get(c):
			if hasfoot(c):
				# other children have at least one word
				return lambda m: self.spine(c, m, inner) if (
						m <= n - mind) else Counter()
			return lambda m: self.node(c, m)
		return combine(t[0], [get(c) for c in t[1]], n)


def combine(label, parts, n):
	"""Trees with given children that have n words in total."""
	res = Counter()
	if n < len(parts):
		return res
	if len(parts) == 1:
		for a, x in parts[0](n).items():
			res[label, (a, )] += x
		return res
	for i in range(1, n):
		left = parts[0](i)
		if left:
			for b, y in parts[1](n - i).items():
				for a, x in left.items():
					res[label, (a, b)] += x * y
	if len(res) > LIMIT:
		raise TooMany
	return res


def strip(label):
	return re.sub(r'[@\[].*', '', label)


class Cfg:
	"""Trees of the resulting grammar; artificial unary nodes removed."""
	def __init__(self, rules, lexicon):
		self.rules = defaultdict(list)
		self.lex = defaultdict(list)
		self.weights = Counter()
		for line in rules.splitlines():
			fields = line.split('\t')
			lhs, rhs, yf, w = fields[0], fields[1:-2], fields[-2], fields[-1]
			assert yf == {1: '0', 2: '01'}[len(rhs)], line
			self.rules[lhs].append((tuple(rhs), int(w)))
			self.weights[lhs] += int(w)
		for line in lexicon.splitlines():
			fields = line.split('\t')
			for a in fields[1:]:
				tag, w = a.split(' ')
				self.lex[tag].append((fields[0], float(w)))
				self.weights[tag] += float(w)
		self.memo = {}

	def trees(self, sym, n, sent=None, i=0):
		"""Counter of trees => number of derivations, or with a sentence,
		list of (tree, probability) for the words starting at i."""
		key = (sym, n, i)
		if key in self.memo:
			return self.memo[key]
		res = Counter()
		if n == 1:
			for w, x in self.lex.get(sym, ()):
				if sent is None or sent[i] == w:
					res[strip(sym), (w, )] += (1 if sent is None
							else x / self.weights[sym])
		for rhs, w in self.rules.get(sym, ()):
			p = 1 if sent is None else w / self.weights[sym]
			if len(rhs) == 1:
				x = self.trees(rhs[0], n, sent, i)
				if '[' in rhs[0] and '[' not in sym:
					for a in x:
						res[a] += p * x[a]
				else:
					for a in x:
						res[strip(sym), (a, )] += p * x[a]
				continue
			for m in range(1, n):
				# spine first, as it may need the other to be non-empty
				left = self.trees(rhs[0], m, sent, i)
				if left:
					right = self.trees(rhs[1], n - m, sent, i + m)
					for a in left:
						for b in right:
							res[strip(sym), (a, b)] += p * left[a] * right[b]
			if len(res) > LIMIT * 2:
				raise TooMany
		self.memo[key] = res
		return res


def gen(rng, ctx):
	init, aux = gentag(rng)
	return rng, init, aux


def check(case, ctx):
	rng, init, aux = case
	packed = rng.random() < 0.4
	extra = None
	desc = ([(text(a), b) for a, b in init.items()],
			[(text(a), b) for a, b in aux.items()], packed)
	ctx.sample(desc)
	if rng.random() < 0.2:
		extra = {(('X', 'Epsilon'), ('new', )): 3,
				(('T', 'Epsilon'), ('new', )): 2,
				(('U', 'Epsilon'), ('#LRB#', )): 1}
		ctx.ev('extra rules')
	rules, lexicon = ostagreduction({text(a): b for a, b in init.items()},
			{text(a): b for a, b in aux.items()}, packedgraph=packed,
			extrarules=extra)
	if extra:
		init = dict(init)
		init['T', 'new'] = 2
		init['U', '('] = init.get(('U', '('), 0) + 1
	ctx.ev('grammars')
	ctx.ev('packed', packed)
	cfg = Cfg(rules, lexicon)
	tag = Tag(init, aux)
	if extra:
		ctx.ok('(' in [a for a, _ in cfg.lex['U']], 'escaped word in lexicon',
				'%s', desc)
		ctx.eq([a for a in cfg.lex['X']], [('new', 3)], 'extra rule', desc)
	ok = 0
	for n in range(1, 7 if ctx.thorough else 6):
		try:
			want = tag.sub('ROOT', n)
			got = cfg.trees('ROOT', n)
		except TooMany:
			break
		ok = n
		ctx.ev('derived trees', len(want))
		ctx.eq(set(got) - set(want), set(), 'tree that is not in the TAG', desc)
		ctx.eq(set(want) - set(got), set(), 'missing tree of the TAG', desc)
		if not packed:
			ctx.eq(got, want, 'number of derivations', desc)
	ctx.ev('adjunctions', tag.adjunctions)
	if tag.adjunctions and ok:
		ctx.nontrivial(repr(desc))
	# weights of initial trees
	want = Counter()
	for a, b in init.items():
		want[a[0]] += b
	got = Counter()
	for lhs in cfg.rules:
		if '@' not in lhs:
			got[lhs] += sum(w for rhs, w in cfg.rules[lhs] if '[' not in rhs[0])
	for lhs in cfg.lex:
		if '@' not in lhs:
			got[lhs] += sum(w for _, w in cfg.lex[lhs])
	if extra:
		want['X'] = 3
	ctx.eq(got, want, 'weights of initial trees', desc)
	# parse
	known = {a[0] for a in init}
	if lexicon and all(x[0] in known for a in list(init) + list(aux) for x in leaves(a)
			if x[1] is None):
		parse(ctx, rng, rules, lexicon, cfg, tag, desc, ok)


def compiled(rules, lexicon, start):
	with open('x.rules', 'w', encoding='utf8') as f:
		f.write(rules)
	with open('x.lex', 'w', encoding='utf8') as f:
		f.write(lexicon)
	return Grammar('x.rules', 'x.lex', start=start)


def words(t):
	return [w for c in t[1] for w in (words(c) if isinstance(c, tuple)
			else [c])]


def parse(ctx, rng, rules, lexicon, cfg, tag, desc, ok):
	gram = compiled(rules, lexicon, 'ROOT')
	sents = []
	for n in range(1, min(ok, 5) + 1):
		trees = sorted(tag.sub('ROOT', n))
		if trees:
			sents.append(words(rng.choice(trees)))
			sents.append([rng.choice(WORDS + ['new']) for _ in range(n)])
	for sent in sents:
		ctx.ev('sentences parsed')
		cfg.memo.clear()
		want = cfg.trees('ROOT', len(sent), sent)
		known = {a for b in cfg.lex.values() for a, _ in b}
		if not set(sent) <= known:
			ctx.ok(not want, 'oracle', '')
			continue
		chart, _ = pcfg.parse(sent, gram)
		if not want:
			ctx.ok(not chart, 'parse outside of the grammar', '%s %s', sent, desc)
			continue
		ctx.ok(bool(chart), 'no parse', '%s %s', sent, desc)
		if not chart:
			continue
		disambiguation.getderivations(chart, 3000)
		if len(chart.derivations) >= 3000:
			continue
		parses, _ = disambiguation.marginalize('mpp', chart, sent=sent,
				ostag=True)
		got = {}
		for tree, p, _ in parses:
			got[model(Tree(tree), sent)] = p
		ctx.ev('parse trees', len(got))
		ctx.eq(len(got), len(parses), 'parse trees distinct', (sent, desc))
		ctx.eq(set(got), set(want), 'parse trees', (sent, desc))
		for a in got:
			if a in want:
				ctx.ok(abs(got[a] - want[a]) <= 1e-6 * want[a],
						'probability of tree', '%r: %g %g %s', a, got[a],
						want[a], desc)


def model(t, sent):
	if isinstance(t[0], int):
		return (t.label, (sent[t[0]], ))
	return (t.label, tuple(model(c, sent) for c in t))


# inducing a TAG
def genind(rng, ctx):
	"""Elementary trees with recursion."""
	res = {}
	labels = LABELS[:rng.choice([1, 2, 3])]
	for _ in range(rng.randint(1, 4)):
		n = rng.randint(1, 7)
		terms = [(rng.choice(['T', 'U', '$,']), rng.choice(WORDS)) if
				rng.random() < 0.7 else (rng.choice(labels), None)
				for _ in range(n)]
		res[elem(rng, rng.choice(labels), terms, labels)] = rng.randint(1, 9)
	if rng.random() < 0.4:  # auxiliary or initial parts also occur by themselves
		for t in list(res):
			for a, x in factors(t)[:2]:
				t = a if rng.random() < 0.2 else blank(x)
				if any(w is not None for _, w in leaves(t)):
					res.setdefault(t, rng.randint(1, 9))
	if rng.random() < 0.5:
		res = {t: res[t] for t in rng.sample(list(res), len(res))}
	return rng, res


def factors(t):
	"""All ways to take out an auxiliary tree: pairs (initial, auxiliary)."""
	def foot(node):
		yield (node[0], '*'), node, 0
		if isphrasal(node):
			for i, c in enumerate(node[1]):
				for x, y, d in foot(c):
					if isphrasal(y):
						yield (node[0], node[1][:i] + (x, ) + node[1][i + 1:]), \
								y, d + 1

	def rec(node, root):
		if not isphrasal(node):
			return
		if not root:
			for x, y, d in foot(node):
				if d and isphrasal(y) and y[0] == node[0]:
					yield y, x
		for i, c in enumerate(node[1]):
			for a, x in rec(c, False):
				yield (node[0], node[1][:i] + (a, ) + node[1][i + 1:]), x
	return list(rec(t, True))


def frommodel(s):
	"""Text of a discbracket tree to an elementary tree."""
	def conv(t):
		if isinstance(t[0], str):
			idx, word = t[0].split('=', 1)
			order.append(int(idx))
			return (t.label, word.replace('#LRB#', '(').replace(
					'#RRB#', ')') or None)
		return (t.label, tuple(conv(c) for c in t))
	order = []
	res = conv(Tree.parse(s, parse_leaf=None))
	return res, order == list(range(len(order)))


def checkind(case, ctx):
	rng, trees = case
	desc = [(text(a), b) for a, b in trees.items()]
	init, aux = inducetagfromtsg([(text(a), b) for a, b in trees.items()])
	induced(ctx, trees, init, aux, desc)


def induced(ctx, trees, init, aux, desc, exact=True):
	pairs = {t: factors(t) if any(w is not None for _, w in leaves(t)) else []
			for t in trees}
	okinit = {a: t for t in pairs for a, _ in pairs[t]}
	okaux = {x: t for t in pairs for _, x in pairs[t]}
	gotaux, gotinit = {}, {}
	for s, w in aux.items():
		a, inorder = frommodel(s)
		ctx.ok(inorder, 'order of auxiliary tree', '%s', s)
		ctx.ok(sum(1 for _, w in leaves(a) if w == '*') == 1, 'feet', '%s', s)
		ctx.ok(a in okaux, 'auxiliary tree', '%s not in %s', s, desc)
		ctx.ok(any(trees[t] == w for t in pairs if any(x == a for _, x
				in pairs[t])), 'weight of auxiliary tree', '%s %s', s, desc)
		gotaux[a] = w
	for s, w in init.items():
		a, inorder = frommodel(s)
		ctx.ok(inorder, 'order of initial tree', '%s', s)
		ctx.ok(a in okinit or a in trees, 'initial tree', '%s not in %s', s,
				desc)
		gotinit[a] = w
	nofoot = {blank(x) for x in gotaux}
	same = nofoot & set(okinit) | nofoot & set(trees)
	ctx.ev('trees both initial and auxiliary', len(same))
	ctx.ok(not nofoot & set(gotinit), 'initial tree is also auxiliary', '%s',
			desc)
	for t in pairs:
		if pairs[t]:
			ctx.ev('factored')
			# there is an auxiliary tree and initial tree that give this tree
			ctx.ok(any(x in gotaux and (a in gotinit or a in nofoot)
					for a, x in pairs[t]), 'tree not factored', '%s %s',
					text(t), desc)
			ctx.ev('recombined')
		elif text(t).count('(') > 3:
			ctx.ok(t in gotinit or t in nofoot, 'tree lost', '%s %s', text(t),
					desc)
			if t in gotinit and t not in okinit:
				ctx.eq(gotinit[t], trees[t], 'weight of tree', (text(t), desc))
	return gotinit, gotaux


def blank(t):
	if isphrasal(t):
		return (t[0], tuple(map(blank, t[1])))
	return (t[0], None if t[1] == '*' else t[1])


def leaves(t):
	if not isphrasal(t):
		return [t]
	return [a for c in t[1] for a in leaves(c)]


def gentb(rng, ctx):
	trees, sents = g.randtreebank(rng, rng.randint(1, 4),
			maxlen=rng.choice([5, 7]), disc=0, maxar=3, unary=0.1,
			words=g.WORDS[:rng.choice([1, 2, 4])],
			labels=g.LABELS[:rng.choice([1, 2])],
			tags=g.TAGS[:rng.choice([1, 2])])
	return rng, [lc.binarized(rng, m) for m in trees], sents


def totuple(m, sent):
	if not isinstance(m[1][0], tuple):
		return (m[0], (sent[m[1][0]], ))
	return (m[0], tuple(totuple(c, sent) for c in m[1]))


def checktb(case, ctx):
	rng, models, sents = case
	trees = [g.totree(m, ParentedTree) for m in models]
	desc = [g.tostr(m, lambda i, s=s: s[i]) for m, s in zip(models, sents)]
	rules, lexicon, init, aux = doubleostagfromtsg(trees, sents,
			numproc=1, packedgraph=rng.random() < 0.3)
	ctx.ev('treebanks')
	ctx.eq([g.tomodel(t) for t in trees], models, 'treebank changed')
	for s in aux:
		a, inorder = frommodel(s)
		ctx.ok(inorder, 'order of auxiliary tree', '%s', s)
		foot = [x for x in leaves(a) if x[1] == '*']
		ctx.eq([x[0] for x in foot], [a[0]], 'foot', s)
	gram = compiled(rules, lexicon, models[0][0])
	cfg = Cfg(rules, lexicon)
	# every production of the treebank is an initial tree
	for m, sent in zip(models, sents):
		for node in g.nodes(m):
			if isinstance(node[1][0], tuple):
				want = (node[0], tuple((c[0], None) for c in node[1]))
				ctx.ok(text(want) in init, 'production lost', '%s', want)
			else:
				want = (node[0], sent[node[1][0]])
				ctx.ok(text(want) in init, 'lexical production lost', '%s', want)
	for m, sent in zip(models, sents):
		ctx.ev('training sentences')
		chart, _ = pcfg.parse(sent, gram)
		ctx.ok(bool(chart), 'training sentence not parsed', '%s', desc)
		if not chart or len(sent) > 5:
			continue
		cfg.memo.clear()
		try:
			want = cfg.trees(models[0][0], len(sent), sent)
		except TooMany:
			continue
		except RecursionError:
			continue  # cycle of unary productions
		ctx.ok(totuple(m, sent) in want, 'training tree not derivable', '%s',
				desc)
		disambiguation.getderivations(chart, 5000)
		if len(chart.derivations) >= 5000:
			continue
		parses, _ = disambiguation.marginalize('mpp', chart, sent=sent,
				ostag=True)
		got = {model(Tree(tree), sent): p for tree, p, _ in parses}
		ctx.ev('training parses')
		ctx.eq(set(got), set(want), 'parse trees', desc)
		for a in got:
			ctx.ok(abs(got[a] - want[a]) <= 1e-6 * want[a],
					'probability of tree', '%r: %g %g %s', a, got[a], want[a],
					desc)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'reduction': (gen, check, 4000 * k),
			'induce': (genind, checkind, 1200 * k),
			'treebank': (gentb, checktb, 200 * k)}

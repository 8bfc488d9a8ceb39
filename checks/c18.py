"""C18: fragment grammars derive their fragments and keep their weights."""
import math
import re
from collections import Counter, defaultdict
from discodop.tree import Tree, ParentedTree
from discodop.grammar import (dopgrammar, compiletsg, flatten, UniqueIDs,
		doubledop, dop1, writegrammar)
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, disambiguation
import g
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'disambiguation',
		'_fragments'],
	rule='sets of fragments of random binarized treebanks (1-5 trees of up to '
	'10 tokens, with discontinuities, unary chains and recurring parts), all '
	'depth 1 fragments included, also as extracted by the code itself; '
	'nontrivial: a fragment of at least two levels; counted by fragment',
	require={'grammars': 1000, 'fragments': 25000, 'deep fragments': 6000,
		'discontinuous fragments': 5000, 'five or more leaves': 10000, 'layouts': 1500,
		'lexical fragments': 4000, 'small fragments': 8000,
		'shared auxiliary rules': 1000, 'root masses': 5000,
		'extra rules': 300, 'sentences parsed': 300, 'trees': 1500,
		'new trees': 200, 'derivations': 4000, 'doubledop': 100, 'dop1': 100,
		'mpd': 60, 'fragments in derivation': 200},
)

WORDS = g.WORDS[:3] + ['a@b', '(', '{x}', 'c=d']


def gen(rng, ctx):
	disc = rng.choice([0, 0.9, 0.9])
	big = rng.random() < 0.5
	trees, sents = g.randtreebank(rng, rng.randint(1, 4),
			maxlen=rng.choice([7, 9, 10] if big else [3, 5]),
			disc=disc, maxar=3, unary=rng.choice([0, 0.1]),
			words=rng.sample(WORDS, rng.choice([1, 2, 4])),
			labels=g.LABELS[:rng.choice([1, 2, 3])],
			tags=g.TAGS[:rng.choice([1, 2, 3])])
	if rng.random() < 0.3:
		trees.append(trees[0])
		sents.append(list(sents[0]))
	return rng, [lc.binarized(rng, m) for m in trees], sents


# fragments: (label, children) with children fragments; leaves:
# (tag, int) terminals, (label, frozenset) frontiers
def cut(rng, m, p):
	if not isinstance(m[1][0], tuple):
		return m[0], m[1][0]
	return m[0], tuple((c[0], frozenset(g.leaves(c))) if rng.random() < p
			else cut(rng, c, p) for c in m[1])


def leafnodes(f):
	if isinstance(f[1], tuple):
		for c in f[1]:
			yield from leafnodes(c)
	else:
		yield f


def positions(x):
	return {x[1]} if isinstance(x[1], int) else set(x[1])


def allpos(f):
	return set().union(*map(positions, leafnodes(f)))


def numbering(f):
	"""Map first position of each run of leaf -> new index."""
	runs = sorted(min_max(p) for x in leafnodes(f) for p in g.parts(
			sorted(positions(x))))
	res, n, prev = {}, -1, None
	for a, b in runs:
		n += 1 if prev is None or a == prev + 1 else 2
		res[a] = n
		prev = b
	return res


def min_max(p):
	return p[0], p[-1]


def fragstr(f, words, num=None):
	if num is None:
		num = numbering(f)
	if isinstance(f[1], tuple):
		return '(%s %s)' % (f[0], ' '.join(fragstr(c, words, num)
				for c in f[1]))
	if isinstance(f[1], int):
		return '(%s %d=%s)' % (f[0], num[f[1]], lc.esc(words[f[1]]))
	return '(%s %s)' % (f[0], ' '.join('%d=' % num[p[0]]
			for p in g.parts(sorted(f[1]))))


def yfof(m):
	owner = {i: k for k, c in enumerate(m[1]) for i in c}
	return tuple(tuple(owner[i] for n, i in enumerate(p)
			if n == 0 or owner[i] != owner[p[n - 1]])
			for p in g.parts(sorted(owner)))


# abstract fragments for matching: (label, yf, children), (tag, word), (label,)
def abstract(f, words):
	if isinstance(f[1], int):
		return f[0], lc.esc(words[f[1]])
	if not isinstance(f[1], tuple):
		return (f[0], )
	return (f[0], yfof((f[0], [allpos(c) for c in f[1]])),
			tuple(abstract(c, words) for c in f[1]))


def full(m):
	if not isinstance(m[1][0], tuple):
		return m[0], m[1][0]
	return m[0], tuple(map(full, m[1]))


def match(f, x):
	"""Frontier subtrees if fragment f occurs at root of abstract tree x."""
	if len(f) == 1:
		return [x] if f[0] == x[0] else None
	if len(f) == 2 or len(x) == 2:
		return [] if f == x else None
	if f[:2] != x[:2] or len(f[2]) != len(x[2]):
		return None
	res = []
	for a, b in zip(f[2], x[2]):
		y = match(a, b)
		if y is None:
			return None
		res.extend(y)
	return res


def subtrees(a):
	yield a
	if len(a) == 3:
		for c in a[2]:
			yield from subtrees(c)


def parsefrag(s):
	"""Inverse of fragstr -> (fragment, words)."""
	words = {}

	def get(i):
		j = s.index(' ', i)
		label = s[i + 1:j]
		ch = []
		i = j
		while s[i] != ')':
			if s[i] == ' ':
				i += 1
			elif s[i] == '(':
				c, i = get(i)
				ch.append(c)
			else:
				j = i
				while s[j] not in ' )':
					j += 1
				n, _, w = s[i:j].partition('=')
				if w:
					words[int(n)] = w
				ch.append(int(n))
				i = j
		if isinstance(ch[0], tuple):
			return (label, tuple(ch)), i + 1
		if ch[0] in words:
			return (label, ch[0]), i + 1
		return (label, frozenset(ch)), i + 1
	f, i = get(0)
	assert i == len(s)
	return f, words


def fragset(rng, trees, sents):
	"""{string: (abstract, fragment)}; includes all depth 1 fragments."""
	res = {}

	def add(f, words):
		res.setdefault(fragstr(f, words), (abstract(f, words), f))
	for m, s in zip(trees, sents):
		for x in g.nodes(m):
			add(cut(rng, x, 1), s)
			for _ in range(rng.choice([0, 1, 2])):
				add(cut(rng, x, rng.choice([0, 0.1, 0.3, 0.5])), s)
	items = list(res.items())
	rng.shuffle(items)
	return dict(items)


class Rules:
	"""Index of grammar rules."""
	def __init__(self, gram):
		self.bylhs = defaultdict(list)
		self.weight = {}
		for (r, yf), w in gram:
			self.bylhs[r[0]].append((r, yf))
			self.weight[r, yf] = w


def expand(ctx, idx, rule, used, desc, top=True):
	"""Expand auxiliary symbols: (leaves, components) where leaves is a
	list of labels and components a list of lists of (leaf, part)."""
	r, yf = rule
	leaves, comps = [], []
	for n, lab in enumerate(r[1:]):
		if '}<' in lab:
			opts = idx.bylhs.get(lab, ())
			ctx.eq(len(opts), 1, 'auxiliary symbol does not have exactly one '
					'rule', (lab, opts, rule, desc))
			used.append(opts[0])
			ls, cs = expand(ctx, idx, opts[0], used, desc, False)
			cs = [[(a + len(leaves), b) for a, b in c] for c in cs]
		else:
			fo = sum(c.count(n) for c in yf)
			ls, cs = [lab], [[(0 + len(leaves), k)] for k in range(fo)]
		leaves.extend(ls)
		comps.append(cs)
	nxt = [0] * len(comps)
	result = []
	for c in yf:
		result.append([])
		for n in c:
			ctx.ok(nxt[n] < len(comps[n]), 'fan-out mismatch', '%r %r', rule, desc)
			result[-1].extend(comps[n][nxt[n]])
			nxt[n] += 1
	ctx.eq(nxt, [len(c) for c in comps], 'fan-out mismatch', (rule, desc))
	return leaves, result


def wantlayout(s):
	"""Leaves in order of first index with components; template tree."""
	f, words = parsefrag(s)
	ls = sorted(leafnodes(f), key=lambda x: min(positions(x)))
	runs = sorted((i, n, k) for n, x in enumerate(ls)
			for k, i in enumerate(sorted(positions(x))))
	comps, prev = [], None
	for i, n, k in runs:
		if prev is None or i != prev + 1:
			comps.append([])
		comps[-1].append((n, k))
		prev = i
	labels = ['%s@%s' % (x[0], words[x[1]]) if isinstance(x[1], int) else x[0]
			for x in ls]

	def tmpl(x):
		if isinstance(x[1], tuple):
			return '(%s %s)' % (x[0], ' '.join(map(tmpl, x[1])))
		return '<%d>' % ls.index(x)
	# NB: leaves are distinct, because they have different positions
	return labels, comps, tmpl(f), f


def verify(ctx, gram, backtransform, weights, desc, extra=()):
	"""Every fragment has its rule, template and weight."""
	idx = Rules(gram)
	ctx.eq(len(idx.weight), len(gram), 'duplicate rules', desc)
	templates = {}
	for (rule, w), t in zip(gram, backtransform):
		ctx.ok('}<' not in rule[0][0] and rule[0][1] != 'Epsilon',
				'template aligned with a rule that is not a fragment rule',
				'%r %r %r', rule, t, desc)
		templates[rule] = t
	found = {}
	count = Counter()
	allused = set()
	for rule in templates:
		used = []
		leaves, comps = expand(ctx, idx, rule, used, desc)
		ctx.ok(used or len(rule[0]) > 1, 'no auxiliary rules', '%r %r', rule, desc)
		for r in used:
			ctx.ev('shared auxiliary rules', r in allused)
			ctx.eq(idx.weight[r], 1, 'weight of auxiliary rule', (r, desc))
		allused.update(used)
		try:
			tree = templates[rule].format(*['<%d>' % n for n in range(len(leaves))])
		except (IndexError, KeyError, ValueError):
			tree = None
		key = (tuple(leaves), repr(comps), tree)
		ctx.ok(key not in found, 'two rules for a fragment', '%r %r', rule, desc)
		found[key] = rule
	nlex = 0
	for s, w in weights.items():
		labels, comps, tmpl, f = wantlayout(s)
		ctx.ev('fragments')
		depth = fdepth(f)
		ctx.ev('deep fragments', depth > 2)
		ctx.ev('discontinuous fragments', len(comps) > 1 or any(
				not isinstance(x[1], int) and len(x[1]) > 1
				for x in leafnodes(f)))
		ctx.ev('five or more leaves', len(labels) > 4)
		if depth > 1:
			ctx.nontrivial(s)
		count[f[0]] += w
		if isinstance(f[1], int):
			nlex += 1
			ctx.ev('lexical fragments')
			rule = (f[0], 'Epsilon'), (s[s.index('=') + 1:-1], )
			ctx.ok(rule in idx.weight, 'lexical fragment without rule', '%r %r',
					s, desc)
		else:
			ctx.ev('small fragments', len(labels) <= 2)
			key = (tuple(labels), repr(comps), tmpl)
			ctx.ok(key in found, 'rules do not derive fragment',
					'%r want: %r; rules: %r', s, key, desc)
			rule = found.pop(key)
			ctx.eq(rule[0][0], f[0], 'left-hand side', (s, desc))
			for lab in labels:
				tag, at, word = lab.partition('@')
				if at:
					lex = (lab, 'Epsilon'), (word, )
					ctx.eq(idx.weight.get(lex), 1, 'rule of terminal in fragment',
							(lex, s, desc))
					allused.add(lex)
		ctx.ok(close(idx.weight[rule], w + sum(x for r, x in extra if r == rule)),
				'weight of fragment', '%r %r want %r; %r', s, idx.weight[rule], w,
				desc)
		allused.add(rule)
	ctx.eq(found, {}, 'fragments that were not given', desc)
	ctx.eq(len(templates), len(weights) - nlex, 'number of templates', desc)
	ctx.eq(len(templates), len(backtransform), 'number of templates', desc)
	for r, _ in extra:
		allused.add(r)
		count[r[0][0]] += _
	ctx.eq({r for r in idx.weight if r not in allused}, set(),
			'rules that are not part of a fragment', desc)
	for root, w in count.items():
		ctx.ev('root masses')
		mass = sum(idx.weight[r] for r in idx.bylhs[root])
		ctx.ok(close(mass, w), 'weight of root', '%r %r %r %r', root, mass, w, desc)
	ctx.eq({r[0][0] for r in idx.weight if '}<' not in r[0][0]
			and '@' not in r[0][0]}, set(count), 'root labels', desc)


def fdepth(f):
	if isinstance(f[1], tuple):
		return 1 + max(map(fdepth, f[1]))
	return 0 if not isinstance(f[1], int) else 1


def close(a, b):
	return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def check(case, ctx):
	rng, trees, sents = case
	frags = fragset(rng, trees, sents)
	ab = [abstract(full(m), s) for m, s in zip(trees, sents)]
	ts = [g.totree(m, rng.choice([Tree, ParentedTree])) for m in trees]
	desc = (trees, sents)
	for s in frags:
		ctx.eq(fragstr(*fw(s)), s, 'HARNESS', s)
	# given weights
	weights = {s: rng.choice([1, 2, 3, 5, 0.5, 0.25, 7]) for s in frags}
	gram, backtransform, alt = compiletsg(weights)
	ctx.ev('grammars')
	ctx.eq(alt, {}, 'alternate weights', desc)
	verify(ctx, gram, backtransform, weights, ('compiletsg', desc))
	model = {frags[s][0]: w for s, w in weights.items()}
	parse(ctx, rng, gram, backtransform, None, model, ab, trees, sents, desc)
	# counts
	occ = {}
	for s, (f, _) in frags.items():
		occ[s] = [n for n, a in enumerate(ab) for x in subtrees(a)
				if match(f, x) is not None]
	extra = {}
	if rng.random() < 0.4:
		tags = sorted({x[0] for a in ab for x in subtrees(a) if len(x) == 2})
		for _ in range(3):
			extra[(rng.choice(tags), 'Epsilon'), (rng.choice(
				['unknown', lc.esc(sents[0][0])]), )] = rng.choice([0.1, 0.5])
		ctx.ev('extra rules', len(extra))
	gram, backtransform, alt, fr = dopgrammar(ts, occ,
			extrarules=dict(extra) or None,
			ids=rng.choice([None, UniqueIDs(prefix='7_')]))
	ctx.ev('grammars')
	verify(ctx, gram, backtransform, {s: len(x) for s, x in occ.items()},
			('dopgrammar', desc), list(extra.items()))
	checkalt(ctx, gram, backtransform, alt, fr, occ, frags, ab, extra, desc)
	est = rng.choice([None, 'ewe', 'bon'])
	if not extra:
		total, ntfd = Counter(), Counter(x[0] for a in ab for x in subtrees(a))
		per = Counter(n for x in occ.values() for n in x)
		model = {}
		for s, (f, ff) in frags.items():
			w = (len(occ[s]) if est is None
					else sum(1 / per[n] for n in occ[s]) if est == 'ewe'
					else 2.0 ** -(s.count('(') - 1) * len(occ[s]) / ntfd[f[0]])
			model[f] = w
		parse(ctx, rng, gram, backtransform, (est, alt), model, ab, trees, sents,
				desc)
	# as extracted
	if rng.random() < 0.3 and sum(map(len, sents)) < 25:
		if rng.random() < 0.5:
			ctx.ev('doubledop')
			res = doubledop(ts, [list(s) for s in sents], numproc=1)
		else:
			ctx.ev('dop1')
			res = dop1(ts, [list(s) for s in sents], maxdepth=rng.choice([1, 2, 3]))
		gram, backtransform, alt, fr = res
		got = {}
		for s, x in fr:
			got[s] = x
		for s in list(frags) + [fragstr(cut(rng, x, 1), w)
				for m, w in zip(trees, sents) for x in g.nodes(m)]:
			f = parsefrag(s)[0]
			if isinstance(f[1], int):  # lexical
				got[s] = occ[s] if s in occ else None
		got = {s: x for s, x in got.items() if x is not None}
		want = {}
		for s in got:
			f, words = parsefrag(s)
			a = abstract2(f, words)
			want[s] = sum(match(a, x) is not None for b in ab
					for x in subtrees(b))
		ctx.eq({s: len(x) for s, x in got.items()}, want,
				'occurrences of fragments', desc)
		verify(ctx, gram, backtransform, want, ('extracted', desc))


def abstract2(f, words):
	if isinstance(f[1], int):
		return f[0], words[f[1]]
	if not isinstance(f[1], tuple):
		return (f[0], )
	return (f[0], yfof((f[0], [fill(c) for c in f[1]])),
			tuple(abstract2(c, words) for c in f[1]))


def fill(f):
	return allpos(f)


def fw(s):
	f, words = parsefrag(s)
	return f, {k: lc_unesc(w) for k, w in words.items()}


def lc_unesc(w):
	return w.replace('#LRB#', '(').replace('#RRB#', ')')


def checkalt(ctx, gram, backtransform, alt, fr, occ, frags, ab, extra, desc):
	idx = {}
	for n, (r, _) in enumerate(gram):
		idx[r] = n
	ctx.eq([s for s, _ in fr], [s for s, _ in fr if s in occ],
			'returned fragments', desc)
	for n, (s, x) in enumerate(fr):
		ctx.eq(list(x), occ[s], 'occurrences of fragment', (s, desc))
		ctx.eq(backtransform[n].format(*['<%d>' % k for k in range(len(
				list(leafnodes(parsefrag(s)[0]))))]), wantlayout(s)[2],
				'fragments not aligned with templates', (s, desc))
	ctx.eq(sorted(alt), ['bon', 'ewe', 'shortest'], 'alternate weights', desc)
	per = Counter(n for x in occ.values() for n in x)
	ewe = {}
	ntfd = Counter(x[0] for a in ab for x in subtrees(a))
	row = {s: n for n, (s, _) in enumerate(fr)}
	for s in occ:
		f = parsefrag(s)[0]
		if isinstance(f[1], int):
			row[s] = idx[(f[0], 'Epsilon'), (s[s.index('=') + 1:-1], )]
		ewe[s] = sum(1 / per[n] for n in occ[s])
		rule = gram[row[s]][0]
		bon = 2.0 ** -(s.count('(') - 1) * len(occ[s]) / ntfd[f[0]]
		ctx.ok(close(alt['bon'][row[s]], bon + extra.get(rule, 0)),
				'bon weight', '%r %r %r %r', s, alt['bon'][row[s]], bon, desc)
		ctx.eq(alt['shortest'][row[s]], 0.5, 'shortest weight', (s, desc))
	total = Counter()
	seen = set()
	for s in occ:
		total[s[1:s.index(' ')]] += ewe[s]
	for r, w in extra.items():
		total[r[0][0]] += w
	for s in occ:
		rule = gram[row[s]][0]
		want = (ewe[s] + extra.get(rule, 0)) / total[rule[0][0]]
		ctx.ok(close(alt['ewe'][row[s]], want), 'ewe weight', '%r %r %r %r', s,
				alt['ewe'][row[s]], want, desc)
	for n, (r, _) in enumerate(gram):
		if '}<' in r[0][0] or '@' in r[0][0]:
			for est in ('shortest', 'ewe', 'bon'):
				ctx.eq(float(alt[est][n]), 1.0, est + ' of auxiliary rule',
						(r, desc))


def treeprob(a, model):
	"""Sum, max and number of derivations of abstract tree."""
	memo = {}
	byroot = defaultdict(list)
	for f, p in model.items():
		byroot[f[0]].append((f, p))

	def get(x):
		if id(x) not in memo:
			total, best, n = 0.0, 0.0, 0
			for f, p in byroot[x[0]]:
				front = match(f, x)
				if front is not None:
					b, k = p, 1
					for y in front:
						t = get(y)
						p *= t[0]
						b *= t[1]
						k *= t[2]
					total += p
					best = max(best, b)
					n += k
			memo[id(x)] = total, best, n
		return memo[id(x)]
	return get(a)


def parse(ctx, rng, gram, backtransform, alt, model, ab, trees, sents, desc):
	"""Derivations of the compiled grammar expand to trees of the TSG."""
	n = rng.randrange(len(trees))
	s = sents[n]
	if len(s) > 7:
		return
	base = set()
	for f in model:
		if len(f) == 2:
			base.add(((f[0], 'Epsilon'), (f[1], )))
		elif all(len(c) < 3 for c in f[2]):
			base.add(((f[0], ) + tuple(c[0] for c in f[2]), f[1]))
	base = {r for a in ab for x in subtrees(a) for r in [
			((x[0], 'Epsilon'), (x[1], )) if len(x) == 2 else
			((x[0], ) + tuple(c[0] for c in x[2]), x[1])]}
	ref = lc.LC([(r, 1) for r in sorted(base)])
	edges = lc.chart(ref, list(map(lc.esc, s)))
	root = 'ROOT', (1 << len(s)) - 1
	if edges is None or lc.cyclic(edges, root) or lc.count(edges, root) > 60:
		ctx.ev('too many derivations')
		return
	mass = Counter()
	for f, w in model.items():
		mass[f[0]] += w
	if not alt or alt[0] != 'bon':  # not normalized
		model = {f: w / mass[f[0]] for f, w in model.items()}
	all_ = [t for _, t, _ in lc.derivations(edges, root)]
	want = {}
	for t in all_:
		want[t] = treeprob(abstract(full(t), s), model)
	nder = sum(x[2] for x in want.values())
	if nder > 1500:
		ctx.ev('too many derivations')
		return
	ctx.ev('sentences parsed')
	gr = Grammar(gram, start='ROOT', altweights=alt[1] if alt else None,
			backtransform=backtransform)
	if alt and alt[0]:
		gr.switch(alt[0])
	gr.getmapping(None, neverblockre=re.compile('.+}<'))
	chart, _ = (pcfg if gr.maxfanout == 1 and rng.random() < 0.5
			else plcfrs).parse(list(s), gr)
	ctx.ok(chart, 'no parse', '%r', desc)
	disambiguation.getderivations(chart, nder + 100)
	ctx.eq(len(chart.derivations), nder, 'number of derivations', desc)
	ctx.ev('derivations', nder)
	method = rng.choice(['mpp', 'mpp', 'mpd'])
	ctx.ev(method)
	parses, msg = disambiguation.marginalize(method, chart)
	got = {}
	for t, p, fr in parses:
		ctx.ok('}<' not in t and '@' not in t, 'auxiliary symbol in tree',
				'%r %r', t, desc)
		t1 = lc.parsetree(t)
		ctx.ok(t1 not in got, 'duplicate tree', '%r %r', t, desc)
		got[t1] = p
		if fr:
			fragments(ctx, fr, model, t1, s, p if method == 'mpd' else None, desc)
	ctx.eq(set(got), set(want), 'trees of derivations', desc)
	for t, p in got.items():
		ctx.ev('trees')
		ctx.ev('new trees', t not in trees)
		w = want[t][1 if method == 'mpd' else 0]
		ctx.ok(abs(p - w) <= 1e-6 * w, 'probability of tree ' + method,
				'%r %r %r %r', p, w, t, desc)



def fragments(ctx, fr, model, tree, s, prob, desc):
	"""Reported fragments are those of a derivation of the tree."""
	p = 1.0
	for f, w in fr:
		ctx.ev('fragments in derivation')
		f1, words = parsefrag(f)
		a = abstract2(f1, words)
		ctx.ok(a in model or len(a) == 2, 'reported fragment not in grammar',
				'%r %r', f, desc)
		p *= model.get(a, 1)
	if prob is not None:
		ctx.ok(abs(p - prob) <= 1e-6 * p, 'fragments of best derivation',
				'%r %r %r', fr, prob, desc)


def genlayout(rng, ctx):
	"""Fragments with many leaves and few labels, in arbitrary layouts."""
	res = []
	for _ in range(rng.randint(2, 12)):
		n = rng.choice([3, 5, 5, 6, 7])
		while True:
			owner = list(range(n)) + [rng.randrange(n) for _ in range(
					rng.randint(0, 4))]
			if rng.random() < 0.3:
				owner.sort()
				rng.shuffle(owner[-3:])
			else:
				rng.shuffle(owner)
			gaps = rng.choice([0, 0, 1, 2])
			for _ in range(gaps):
				owner.insert(rng.randint(1, len(owner) - 1), None)
			pos = {}
			for i, o in enumerate(owner):
				if o is not None and (i == 0 or owner[i - 1] != o):
					pos.setdefault(o, []).append(i)
				elif o is not None:
					pos[o].append(i)
			break
		leaves = []
		for o in sorted(pos, key=lambda o: pos[o][0]):
			fo = len(g.parts(pos[o]))
			if len(pos[o]) == 1 and rng.random() < 0.3:
				leaves.append((rng.choice('tu'), pos[o][0]))
			else:
				leaves.append((rng.choice('AB') + ('_%d' % fo if fo > 1 else ''),
						frozenset(pos[o])))
		todo = [leaves]
		if rng.random() < 0.5:  # same labels with another layout
			a, b = sorted(rng.sample(range(len(leaves)), 2))
			ps = sorted(positions(leaves[a]) | positions(leaves[b]))
			na = len(positions(leaves[a]))
			first = ps.pop(0)
			rng.shuffle(ps)
			pa, pb = [first] + ps[:na - 1], ps[na - 1:]
			new = list(leaves)
			for i, p in ((a, pa), (b, pb)):
				new[i] = (leaves[i][0], p[0] if isinstance(leaves[i][1], int)
						else frozenset(p))
			if all(isinstance(x[1], int) or len(g.parts(sorted(x[1]))) == int((
					x[0].split('_') + ['1'])[1]) for x in new):
				todo.append(sorted(new, key=lambda x: min(positions(x))))
		for leaves in todo:
			res.append(makefrag(rng, leaves, owner))
	return rng, sorted(set(res))


def makefrag(rng, leaves, owner):
	k = rng.randint(0, len(leaves) - 2)
	f = tuple(leaves)
	if k:  # some internal structure
		f = f[:k] + (('C', f[k:]), )
	root = 'S'
	allp = sorted(set().union(*map(positions, leaves)))
	fo = len(g.parts(allp))
	if fo > 1:
		root += '_%d' % fo
	return fragstr((root, f), ['vw'[rng.random() < 0.5] for _ in owner])


def checklayout(case, ctx):
	rng, frags = case
	weights = {s: rng.choice([1, 2, 3, 0.5]) for s in frags}
	gram, backtransform, _ = compiletsg(weights)
	ctx.ev('layouts')
	verify(ctx, gram, backtransform, weights, frags)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'grammars': (gen, check, 1500 * k),
			'layouts': (genlayout, checklayout, 2000 * k)}

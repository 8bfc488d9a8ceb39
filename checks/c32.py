"""C32: evaluation scores equal their definitions."""
import contextlib
import io
import os
import re
import sys
from collections import Counter
from fractions import Fraction as F
from discodop.tree import Tree, ParentedTree
from discodop import eval as ev
from discodop.treebank import writetree, READERS, HEAD
from discodop.treedist import treedist
import g

PLAN = dict(
	mods=['bit', 'containers'],
	rule='corpora of 1-6 sentences with gold trees and candidates (edited, '
	'unrelated, or equal) and random evaluation parameters, evaluated through '
	'the Evaluator object and through files on the command line; nontrivial: '
	'f-measure strictly between 0 and 100 with deletions, equivalences, '
	'discontinuities or cutoffs in play; counted by corpus and parameters',
	require={'detailed reports': 1500, 'reported dependencies': 1000,
		'pairs': 2000, 'corpora': 600, 'files': 160, 'identical': 120,
		'swapped': 160, 'permuted': 160, 'discontinuous brackets': 600,
		'deleted tokens': 1000, 'deleted nodes': 400, 'missing tokens': 60,
		'equivalent labels': 160, 'equivalent words': 80, 'two columns': 120,
		'disconly': 120, 'unlabeled': 120, 'empty sentences': 40,
		'repeated brackets': 100, 'dependencies': 200, 'function tags': 60,
		'leaf ancestor': 400, 'category rows': 600, 'tag rows': 400,
		'sentence lines': 600, 'root preterminals': 120, 'root labels': 60,
		'distance': 200, 'disconly in file': 8, 'attachment errors': 35},
)
PUNCT = {'.': '$.', ',': '$,', '"': '$(', ';': '$,'}
EQL = [('NP', 'PP'), ('VP', 'AP'), ('PP', 'X'), ('S', 'SBAR')]
EQW = [('saw', 'sees'), ('sees', 'seen'), ('the', 'teh')]
FUNCS = ['SB', 'OA', 'MO', 'HD', 'SBJ-TMP']


class Node(object):
	"""Tree node; leaf is None or a token index."""

	def __init__(self, label, children=(), leaf=None, head=False, func=None):
		self.label, self.children, self.leaf = label, list(children), leaf
		self.head, self.func = head, func

	def leaves(self):
		if self.leaf is not None:
			return [self.leaf]
		return sorted(x for c in self.children for x in c.leaves())

	def nodes(self):
		return [self] + [x for c in self.children for x in c.nodes()]

	def model(self):
		if self.leaf is not None:
			return self.label, (self.leaf, )
		return self.label, tuple(c.model() for c in sorted(self.children,
				key=lambda c: c.leaves()[0]))


def fromtree(t):
	if isinstance(t[0], int):
		n = Node(t.label, leaf=t[0])
	else:
		n = Node(t.label, [fromtree(c) for c in t])
	n.head = getattr(t, 'type', None) == HEAD
	if t.source and t.source[4] not in ('--', '', None):
		n.func = t.source[4]
	return n


def frommodel(m, rng=None, funcs=False):
	if not isinstance(m[1][0], tuple):
		n = Node(m[0], leaf=m[1][0])
	else:
		n = Node(m[0], [frommodel(c, rng, funcs) for c in m[1]])
		if rng:
			rng.choice(n.children).head = True
	if funcs and rng.random() < 0.4:
		n.func = rng.choice(FUNCS)
	return n


def build(n):
	"""ParentedTree from Node."""
	if n.leaf is not None:
		t = ParentedTree(n.label, [n.leaf])
	else:
		t = ParentedTree(n.label, [build(c) for c in sorted(n.children,
				key=lambda c: c.leaves()[0])])
	t.type = HEAD if n.head else None
	t.source = ['--', '--', n.label, '--', n.func or '--', '0']
	return t


# -- the definitions ----------------------------------------------------------

def classes(pairs):
	"""Map elements to a canonical representative of their class."""
	rep = {}
	for a, b in pairs:
		rep.setdefault(a, {a})
		rep.setdefault(b, {b})
		if rep[a] is not rep[b]:
			rep[a] |= rep[b]
			for x in rep[a]:
				rep[x] = rep[a]
	return {a: min(b) for a, b in rep.items()}


def massage(n, deleted, renumber, p, root=True):
	"""Delete tokens and labels; returns list of nodes."""
	if n.leaf is not None:
		if n.leaf in deleted:
			return []
		return [Node(n.label, leaf=renumber[n.leaf], head=n.head, func=n.func)]
	ch = [x for c in n.children for x in massage(c, deleted, renumber, p, False)]
	label = p['eql'].get(n.label, n.label)
	if root:
		return [Node(label, ch, head=n.head, func=n.func)]
	elif not ch:
		return []
	elif label in p['dellabel']:
		return ch
	return [Node(label, ch, head=n.head, func=n.func)]


def isdisc(span):
	return max(span) - min(span) + 1 != len(span)


def brackets(n, p):
	"""[(label, span, parentlabel), ...]"""
	res = []

	def visit(x, parent):
		if x.leaf is not None or not x.children:
			return
		span = frozenset(x.leaves())
		if x.label not in p['dellabel'] and (not p['disc'] or isdisc(span)):
			res.append((x.label, span, parent))
		for c in x.children:
			visit(c, x.label)
	visit(n, '')
	return res


def paths(n, p):
	"""Leaf-ancestor paths with markers of constituent boundaries.

	A boundary is marked at the topmost constituent where the word is the
	first or last of (a component of) that constituent."""
	res = {}
	for leaf in n.leaves():
		path, seen = [], set()
		x = n
		while x.leaf is None:
			span = x.leaves()
			if x.label not in p['dellabel']:
				if leaf + 1 not in span:
					m = ')' if leaf == span[-1] else ']'
					if m not in seen:
						path.append(m)
						seen.add(m)
				path.append(x.label)
				if leaf - 1 not in span:
					m = '(' if leaf == span[0] else '['
					if m not in seen:
						path.append(m)
						seen.add(m)
			x = [c for c in x.children if leaf in c.leaves()][0]
		res[leaf] = path
	return res


def levenshtein(a, b):
	row = list(range(len(b) + 1))
	for i, x in enumerate(a, 1):
		new = [i]
		for j, y in enumerate(b, 1):
			new.append(min(new[-1] + 1, row[j] + 1, row[j - 1] + (x != y)))
		row = new
	return row[-1]


def deps(n):
	"""{dependent: head}"""
	res = {}

	def visit(x):
		if x.leaf is not None:
			return x.leaf
		lex = {id(c): visit(c) for c in x.children}
		[h] = [c for c in x.children if c.head]
		for c in x.children:
			if c is not h:
				res[lex[id(c)]] = lex[id(h)]
		return lex[id(h)]
	for c in n.children:
		res[visit(c)] = None
	return res


def headsok(n):
	return all(sum(c.head for c in x.children) == 1
			for c in n.children for x in c.nodes() if x.leaf is None)


class Pair(object):
	"""Everything there is to know about one gold and candidate tree."""

	def __init__(self, gold, gsent, cand, csent, p):
		gtags = {x.leaf: x.label for x in gold.nodes() if x.leaf is not None}
		rootpt = {c.leaf for c in gold.children if c.leaf is not None}
		dels = {i for i, w in enumerate(gsent) if gtags[i] in p['dellabel']
				or w in p['delword'] or (p['rootpt'] and i in rootpt)}
		# align candidate tokens to gold tokens
		eqw = lambda w: p['eqw'].get(w, w)
		align, j = {}, 0
		for i, w in enumerate(csent):
			while eqw(gsent[j]) != eqw(w):
				j += 1
			align[i] = j
			j += 1
		self.deleted, self.missing = len(dels), len(gsent) - len(csent)
		num = {x: n for n, x in enumerate(
				x for x in range(len(gsent)) if x not in dels)}
		[self.gold] = massage(gold, dels, num, p)
		cdel = {i for i in align if align[i] in dels}
		[self.cand] = massage(cand, cdel, {i: num.get(x)
				for i, x in align.items()}, p)
		self.length = sum(t not in p['dellen'] for t in gtags.values())
		self.words = len(num)
		self.spliced = len(gold.nodes()) - len(dels) - len(self.gold.nodes())
		self.gb, self.cb = brackets(self.gold, p), brackets(self.cand, p)
		lab = (lambda x: x) if p['labeled'] else (lambda x: '')
		self.g = Counter((lab(a), b) for a, b, _ in self.gb)
		self.c = Counter((lab(a), b) for a, b, _ in self.cb)
		self.gtag, self.ctag = [[x.label for x in sorted((x for x in t.nodes()
				if x.leaf is not None), key=lambda x: x.leaf)]
				for t in (self.gold, self.cand)]
		self.la = self.ted = self.dep = None
		if not self.words:
			self.fun = Counter(), Counter()
			return
		gp, cp = paths(self.gold, p), paths(self.cand, p)
		self.la = sum((1 - F(levenshtein(gp[x], cp[x]),
				max(1, len(gp[x]) + len(cp[x]))) for x in gp), F(0)) / self.words
		ts = [g.totree(x.model(), Tree) for x in (self.gold, self.cand)]
		self.ted = (int(treedist(*ts)), sum(len(x.nodes())
				for x in (self.gold, self.cand))
				- 2 * (self.gold.label in p['dellabel']))
		if p['dep'] and headsok(self.gold) and headsok(self.cand):
			a, b = deps(self.gold), deps(self.cand)
			self.dep = sum(a[x] == b[x] for x in a), len(a)
		self.fun = self.func(self.gold, self.c, self.ctag), self.func(
				self.cand, self.g, self.gtag)

	@staticmethod
	def func(t, other, tags):
		return Counter((x.label, frozenset(x.leaves()), f) for x in t.nodes()
				if x.func for f in x.func.split('-')
				if (x.label, frozenset(x.leaves())) in other
				or (x.leaf is not None and tags[x.leaf] == x.label))


def prf(ref, cand):
	m = sum((ref & cand).values())
	a, b = sum(ref.values()), sum(cand.values())
	p, r = F(m, b) if b else None, F(m, a) if a else None
	f = None if not p or not r else 2 * p * r / (p + r)
	return p, r, f


def union(xs):
	res = Counter()
	for n, x in enumerate(xs):
		res.update({(n, a): k for a, k in x.items()})
	return res


def totals(pairs, p):
	"""Scores for a set of pairs."""
	gold, cand = union([x.g for x in pairs]), union([x.c for x in pairs])
	res = {}
	P, R, f = prf(gold, cand)
	res['labeled precision'], res['labeled recall'] = P, R
	res['labeled f-measure'] = f
	counted = [x for x in pairs if not p['disc'] or x.g or x.c]
	res['number of sentences'] = len(counted)
	res['longest sentence'] = max([x.length for x in pairs] or [0])
	res['gold brackets'] = sum(gold.values())
	res['cand. brackets'] = sum(cand.values())
	res['disc. gold brackets'] = sum(k for (_, (_, s)), k in gold.items()
			if isdisc(s))
	res['disc. cand. brackets'] = sum(k for (_, (_, s)), k in cand.items()
			if isdisc(s))
	res['exact match'] = (F(sum(x.g == x.c for x in counted), len(counted))
			if counted else None)
	words = sum(x.words for x in pairs)
	res['pos accuracy'] = F(sum(a == b for x in pairs
			for a, b in zip(x.gtag, x.ctag)), words) if words else None
	full = [x for x in pairs if x.words]
	if p['la']:
		res['leaf-ancestor'] = sum(x.la for x in full) / len(full
				) if full else None
	if p['ted']:
		den = sum(x.ted[1] for x in full)
		res['tree-dist (Dice micro avg)'] = (1 - F(sum(x.ted[0]
				for x in full), den)) if den else None
	if p['dep']:
		n = sum(x.dep[1] for x in full)
		res['unlabeled dependencies'] = F(sum(x.dep[0] for x in full), n
				) if n else None
	fg, fc = union([x.fun[0] for x in pairs]), union([x.fun[1] for x in pairs])
	res['function tags'] = prf(fg, fc)[2]
	res['have function tags'] = bool(fc)
	return res


# -- comparing ------------------------------------------------------------------

def same(ctx, got, want, key, desc):
	"""Compare percentage as printed with fraction."""
	got = got.strip()
	if want is None:
		ctx.ok(got in ('0DIV!', 'nan', 'NaN', '0.00', 'None'),
				'%s: undefined score' % key, '%r %r', got, desc)
		return
	try:
		x = float(got)
	except ValueError:
		x = float('nan')
	ctx.ok(abs(x - float(100 * want)) <= 0.00501, key, 'got %r, expected %r; %r',
			got, float(100 * want), desc)


COUNTS = ('number of sentences', 'longest sentence', 'gold brackets',
		'cand. brackets', 'disc. gold brackets', 'disc. cand. brackets')


def parsesummary(text):
	"""Read the summary; return header, {key: [value, ...]}"""
	lines = text.rstrip('\n').splitlines()
	start = max(n for n, a in enumerate(lines) if ' Summary ' in a)
	res = {}
	for line in lines[start + 1:]:
		if line.startswith('tree-dist'):
			key, rest = line[:26], line[26:]
		else:
			key, rest = line.split(':', 1)
		rest = rest.split('  (')[0] if key.startswith('unlab') else rest
		m = re.match(r'^(gold|cand\.) brackets \(disc\.\)$', key)
		if m:
			a, b = re.match(r'^ *(\d+) \((\d+)\)$', rest).groups()
			res[m.group(1) + ' brackets'] = [a]
			res['disc. %s brackets' % m.group(1)] = [b]
		else:
			res[key] = rest.split()
	return lines[start], res


def checksummary(ctx, text, pairs, p, desc):
	header, got = parsesummary(text)
	short = [x for x in pairs if x.length <= p['cutoff']]
	cols = [totals(pairs, p)]
	if cols[0]['longest sentence'] > p['cutoff']:
		ctx.ev('two columns')
		cols.insert(0, totals(short, p))
		ctx.ok('<= %d' % p['cutoff'] in header, 'header of summary', '%r', header)
	n = len(cols)
	for key in cols[-1]:
		if key == 'have function tags' or (key == 'function tags'
				and (not p['labeled'] or p['disc'] or not p['funcs'])):
			continue
		vals = got.get(key)
		if vals is None:
			if key == 'function tags':
				ctx.ok(not cols[-1]['have function tags'],
						'function tags not reported', '%r', desc)
				continue
			ctx.ok(key.startswith('disc.') and not cols[-1][
					'disc. gold brackets'] and not cols[-1][
					'disc. cand. brackets'], 'score not reported',
					'%r %r', key, desc)
			continue
		if key == 'function tags':
			ctx.ev('function tags')
		elif key == 'leaf-ancestor':
			ctx.ev('leaf ancestor')
		elif key.startswith('tree-dist'):
			ctx.ev('distance')
		ctx.eq(len(vals), n, 'columns of summary', (key, vals, desc))
		for v, c in zip(vals, cols):
			if key in COUNTS:
				ctx.eq(int(v), c[key], key, (text[-900:], desc))
			else:
				same(ctx, v, c[key], key, (text[-900:], desc))
	return cols[-1]


def num(x):
	return x.strip()


def checkbreakdowns(ctx, text, pairs, p, desc):
	"""Tables with scores per category and per tag."""
	if 'Category Statistics' not in text:
		return
	rep = lambda x: p['eql'].get(x, x)
	# attachment errors
	part = text.split('Attachment errors')[1].split('Category Statistics')[0]
	rows = Counter()
	for a in part.splitlines()[3:]:
		if a.split():
			lab, cp, gp, k = a.split()
			rows[rep(lab), rep(cp), rep(gp)] += int(k)
	# well-defined when (label, span) occurs only once in a tree
	want, skip = Counter(), False
	for x in pairs:
		a = {(l, s): q for l, s, q in x.gb}
		b = {(l, s): q for l, s, q in x.cb}
		skip |= len(a) < len(x.gb) or len(b) < len(x.cb) or not x.words
		for y in set(a) & set(b):
			if a[y] != b[y] and a[y] and b[y]:
				want[y[0], b[y], a[y]] += 1
			skip |= a[y] != b[y] and not (a[y] and b[y])
	if not skip:
		ctx.ev('attachment errors', len(want))
		ctx.eq(rows, want, 'attachment errors', (text, desc))
	# categories
	part = text.split('Category Statistics')[1]
	part = re.split(r'\n (?:Function Tag|POS) Statistics| Summary ', part)[0]
	rows, conf = {}, Counter()
	for a in part.splitlines()[3:]:
		if not a.strip() or a.startswith('_'):
			continue
		f = a[:39].split()
		if f:
			rows[rep(f[0])] = f[1:]
		f = a[39:].split()
		if f:
			conf[rep(f[0]), rep(f[1])] += int(f[2])
	gold, cand = union([x.g for x in pairs]), union([x.c for x in pairs])
	total = sum(gold.values())
	cats = {a for _, (a, _) in gold} | {a for _, (a, _) in cand}
	ctx.eq(set(rows), cats, 'categories in breakdown', (text, desc))
	ctx.ev('category rows', len(cats))
	for cat in cats:
		a, b = [Counter({x: k for x, k in y.items() if x[1][0] == cat})
				for y in (gold, cand)]
		P, R, f = prf(a, b)
		vals = rows[cat]
		ctx.eq(len(vals), 4, 'row of categories', (part, desc))
		same(ctx, vals[0], F(sum(a.values()), total) if total else None,
				'share of category', (cat, part, desc))
		same(ctx, vals[1], R, 'recall of category', (cat, part, desc))
		same(ctx, vals[2], P, 'precision of category', (cat, part, desc))
		same(ctx, vals[3], f, 'f-measure of category', (cat, part, desc))
	a, b = gold - cand, cand - gold
	ga = Counter((n, s) for (n, (_, s)), k in a.items())
	if not ga or max(ga.values()) == 1:
		gm = {(n, s): l for n, (l, s) in a}
		want = Counter((l, gm[n, s]) for n, (l, s) in b if (n, s) in gm)
		ctx.eq(conf, want, 'confused categories', (part, desc))
	# tags
	gt = [t for x in pairs for t in x.gtag]
	ct = [t for x in pairs for t in x.ctag]
	ctx.eq('POS Statistics' in text, gt != ct, 'table of tags shown',
			(text, desc))
	if gt == ct:
		return
	part = text.split('POS Statistics')[1].split(' Summary ')[0]
	rows, conf = {}, Counter()
	for a in part.splitlines()[3:]:
		if not a.strip() or a.startswith('_'):
			continue
		f = a[:39].split()
		if f:
			rows[f[0]] = f[1:]
		f = a[39:].split()
		if f:
			conf[f[0], f[1]] += int(f[2])
	ctx.eq(set(rows), set(gt), 'tags in breakdown', (text, desc))
	ctx.ev('tag rows', len(rows))
	for tag in rows:
		a = Counter(i for i, t in enumerate(gt) if t == tag)
		b = Counter(i for i, t in enumerate(ct) if t == tag)
		P, R, f = prf(a, b)
		same(ctx, rows[tag][0], F(len(a), len(gt)), 'share of tag',
				(tag, part, desc))
		same(ctx, rows[tag][1], R, 'recall of tag', (tag, part, desc))
		same(ctx, rows[tag][2], P, 'precision of tag', (tag, part, desc))
		same(ctx, rows[tag][3], f, 'f-measure of tag', (tag, part, desc))
	ctx.eq(conf, Counter((c, d) for c, d in zip(ct, gt) if c != d),
			'confused tags', (part, desc))


def checklines(ctx, text, ids, pairs, p, desc):
	"""Lines for individual sentences in the verbose output."""
	rows = {}
	for a in text.splitlines():
		m = re.match(r'^ *(\S+) +(\d+) +(\S+) +(\S+) +(\d+) +(\d+) +(\d+) +(\d+)'
				r' +(\d+) +(\S+)(.*)$', a)
		if m and m.group(1) in ids:
			ctx.ok(m.group(1) not in rows, 'sentence reported twice', '%r %r',
					a, desc)
			rows[m.group(1)] = m.groups()[1:]
	ctx.eq(set(rows), set(ids), 'sentences reported', (text, desc))
	for n, x in zip(ids, pairs):
		ctx.ev('sentence lines')
		v = rows[n]
		P, R, _ = prf(x.g, x.c)
		ok = sum(a == b for a, b in zip(x.gtag, x.ctag))
		ctx.eq([int(v[i]) for i in (0, 3, 4, 5, 6, 7)], [x.length,
				sum((x.g & x.c).values()), sum(x.g.values()),
				sum(x.c.values()), x.words, ok], 'sentence counts', (v, desc))
		same(ctx, v[1], R, 'sentence recall', (v, desc))
		same(ctx, v[2], P, 'sentence precision', (v, desc))
		same(ctx, v[8], F(ok, x.words) if x.words else None,
				'sentence tagging accuracy', (v, desc))


# -- generating -----------------------------------------------------------------

def chain(rng, items):
	x = rng.sample(items, rng.randint(2, min(9, len(items))))
	result = list(zip(x, x[1:]))
	rng.shuffle(result)
	return result


def genparam(rng):
	p = {'labeled': rng.random() > 0.15, 'disc': rng.random() < 0.2,
			'cutoff': rng.choice([40, 40, 3, 5, 0]), 'la': rng.random() < 0.6,
			'ted': rng.random() < 0.3, 'dep': False, 'verbose': False,
			'rootpt': rng.random() < 0.2, 'dellen': set(), 'dellabel': set(),
			'delword': set(), 'eqlpairs': [], 'eqwpairs': [], 'funcs': False}
	if rng.random() < 0.7:
		p['dellabel'].add('ROOT')
	if rng.random() < 0.5:
		p['dellabel'] |= set(rng.sample(sorted(set(PUNCT.values())), 2))
	if rng.random() < 0.2:
		p['dellabel'].add('CNP')
	if rng.random() < 0.3:
		p['delword'] = set(rng.sample(sorted(PUNCT), 2))
	if rng.random() < 0.05:
		p['delword'] |= set(g.WORDS)
	if rng.random() < 0.4:
		p['dellen'] = set(rng.sample(sorted(set(PUNCT.values())) + g.TAGS, 3))
	if rng.random() < 0.4:
		p['eqlpairs'] = rng.sample(EQL, rng.choice([1, 2, 3]))
		if rng.random() < 0.4:
			p['eqlpairs'] = chain(rng, ['Y', 'Z'] + [a for a in g.LABELS
					if a not in p['dellabel']])
		if 'ROOT' not in p['dellabel'] and rng.random() < 0.4:
			p['eqlpairs'].append(('ROOT', 'TOP'))
	if rng.random() < 0.3 and not p['delword'] & set(g.WORDS):
		p['eqwpairs'] = rng.sample(EQW, rng.choice([1, 2, 3]))
		if rng.random() < 0.3:
			p['eqwpairs'] = chain(rng, g.WORDS)
	p['eql'], p['eqw'] = classes(p['eqlpairs']), classes(p['eqwpairs'])
	return p


def writeparam(p, name, rng):
	lines = ['# evaluation parameters', '', 'MAX_ERROR %d' % rng.choice([0, 10]),
			'CUTOFF_LEN %d' % p['cutoff'], 'LABELED %d' % p['labeled'],
			'DISC_ONLY %d' % p['disc'], 'LA %d' % p['la'], 'TED %d' % p['ted'],
			'DELETE_ROOT_PRETERMS %d' % p['rootpt']]
	if p['verbose']:
		lines.append('DEBUG 1')
	lines += ['DELETE_LABEL %s' % a for a in p['dellabel']]
	lines += ['DELETE_WORD  %s' % a for a in p['delword']]
	lines += ['DELETE_LABEL_FOR_LENGTH %s' % a for a in p['dellen']]
	lines += ['EQ_LABEL %s %s' % tuple(rng.sample(a, 2)) for a in p['eqlpairs']]
	lines += ['EQ_WORD %s  %s' % tuple(rng.sample(a, 2)) for a in p['eqwpairs']]
	rng.shuffle(lines)
	with open(name, 'w') as out:
		out.write('\n'.join(lines) + '\n')


def edit(rng, m):
	"""Remove, add or relabel nodes and change tags."""
	for _ in range(rng.choice([1, 2, 3])):
		xs = [x for x in g.nodes(m) if x is not m]
		x = rng.choice(xs)
		op = rng.choice('DISTM')

		def change(y):
			if not isinstance(y, tuple):
				return y
			pt = not isinstance(y[1][0], tuple)
			if pt:
				return (rng.choice(g.TAGS), y[1]) if y is x and op == 'T' else y
			ch = []
			for c in y[1]:
				if c is x and op == 'D' and isinstance(c[1][0], tuple):
					ch.extend(change(c)[1])
				else:
					ch.append(change(c))
			if y is x and op == 'S':
				return rng.choice(g.LABELS), tuple(ch)
			if y is x and op == 'I':
				k = rng.randint(1, len(ch))
				new = rng.sample(ch, k)
				ch = [c for c in ch if not any(c is z for z in new)]
				ch.append((rng.choice(g.LABELS), tuple(new)))
			return y[0], tuple(ch)
		m = g.canon(change(m))
	return m


def remove(m, drop, num):
	if not isinstance(m[1][0], tuple):
		return None if m[1][0] in drop else (m[0], (num[m[1][0]], ))
	ch = [c for c in (remove(c, drop, num) for c in m[1]) if c is not None]
	return (m[0], tuple(ch)) if ch else None


def genpair(rng, p, missing=True):
	n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
	words = list(g.WORDS)
	sent = [rng.choice(sorted(PUNCT)) if rng.random() < 0.25
			else rng.choice(words) for _ in range(n)]
	labels = g.LABELS[:rng.choice([3, 8])]
	mk = lambda: g.randtree(rng, n, disc=rng.choice([0, 0, 0.7]),
			labels=labels, unary=rng.choice([0, 0.1, 0.4]), root='ROOT')

	def tagged(m):
		if isinstance(m[1][0], tuple):
			return m[0], tuple(map(tagged, m[1]))
		return PUNCT.get(sent[m[1][0]], m[0]), m[1]
	gold = tagged(mk())
	kind = rng.choice(['edit', 'edit', 'edit', 'other', 'same'])
	if kind == 'edit':
		cand = edit(rng, gold)
	elif kind == 'other':
		cand = mk()
		if rng.random() < 0.5:
			cand = tagged(cand)
	else:
		cand = gold
	if ('ROOT', 'TOP') in p['eqlpairs'] and rng.random() < 0.5:
		cand = 'TOP', cand[1]
	csent = [rng.choice([b for b in p['eqw'] if p['eqw'][b] == p['eqw'][w]])
			if w in p['eqw'] else w for w in sent]
	if missing and rng.random() < 0.3:
		# candidate without the words that are deleted by word
		drop = {i for i, w in enumerate(sent) if w in p['delword']}
		if drop and len(drop) < n:
			num = {x: i for i, x in enumerate(
					x for x in range(n) if x not in drop)}
			cand = remove(cand, drop, num)
			csent = [w for i, w in enumerate(csent) if i not in drop]
	return gold, sent, cand, csent


def observe(ctx, pairs, p, total):
	ctx.ev('pairs', len(pairs))
	ctx.ev('corpora')
	ctx.ev('deleted tokens', sum(x.deleted for x in pairs))
	ctx.ev('deleted nodes', sum(x.spliced > 0 for x in pairs))
	ctx.ev('missing tokens', sum(x.missing for x in pairs))
	ctx.ev('empty sentences', sum(not x.words for x in pairs))
	ctx.ev('discontinuous brackets', total['disc. gold brackets']
			+ total['disc. cand. brackets'])
	ctx.ev('repeated brackets', sum(max(x.g.values(), default=0) > 1
			for x in pairs))
	ctx.ev('disconly', p['disc'])
	ctx.ev('unlabeled', not p['labeled'])
	ctx.ev('equivalent labels', bool(p['eql']))
	ctx.ev('root labels', 'TOP' in p['eql'])
	ctx.ev('root preterminals', p['rootpt'])


def render(span):
	res = []
	for i in sorted(span):
		if res and res[-1][1] == i - 1:
			res[-1][1] = i
		else:
			res.append([i, i])
	return ','.join('-'.join('%d' % i for i in sorted(set(a))) for a in res)


def checkdebug(ctx, result, x, p, desc):
	"""Detailed report on a pair lists the brackets that are scored."""
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		result.debug()
	ctx.ev('detailed reports')
	lines = out.getvalue().splitlines()

	def same(lab):
		return p['eql'].get(lab, lab)

	def get(head):
		[line] = [a for a in lines if a.startswith(head)]
		line = line[len(head):].strip()
		return sorted(set() if line == '{}' else {same(a[:a.index('[')])
				+ a[a.index('['):] for a in line.split(', ')})

	def want(brackets):
		return sorted({'%s[%s]' % (same(a), render(b)) for a, b in brackets})
	for head, b in (('Gold brackets:', x.g), ('Candidate brackets:', x.c),
			('Matched brackets:', x.g & x.c),
			('Unmatched brackets:', (x.g - x.c) + (x.c - x.g))):
		ctx.eq(get(head), want(b), 'report: ' + head, (lines, desc))
	[start] = [i for i, a in enumerate(lines) if 'path score' in a]
	table = [a.split() for a in lines[start + 1:start + 1 + x.words]]
	ctx.eq([(same(a[1]), same(a[2])) for a in table],
			[(same(a), same(b)) for a, b in zip(x.gtag, x.ctag)],
			'report: tags', (lines, desc))
	if p['dep'] and x.words:
		i = next(i for i, a in enumerate(lines)
				if a.startswith('dependencies gold'))
		got = [re.findall(r'(\S+) -> +(\S+)', a) for a in lines[i + 1:i + 1
				+ x.words]]
		ctx.ev('reported dependencies', len(got))
		for which, t in ((0, x.gold), (1, x.cand)):
			words = result.gsent
			head = deps(t)
			ctx.eq([a[which] for a in got], [(words[j], words[head[j]]
					if isinstance(head[j], int) and head[j] >= 0 else 'ROOT')
					for j in range(x.words)], 'report: dependencies', (lines,
					head, desc))


def gencorpus(rng, ctx):
	p = genparam(rng)
	return rng, p, [genpair(rng, p) for _ in range(rng.choice([1, 2, 4, 6]))]


def checkcorpus(case, ctx):
	"""Through the Python interface."""
	rng, p, corpus = case
	p['verbose'] = rng.random() < 0.5
	p['dep'] = rng.random() < 0.5
	p['funcs'] = rng.random() < 0.2
	desc = ({a: b for a, b in p.items() if b}, corpus)
	writeparam(p, 'p.prm', rng)
	nodes = [(frommodel(a, rng, p['funcs']), s, frommodel(b, rng, p['funcs']), t)
			for a, s, b, t in corpus]
	pairs = [Pair(a, s, b, t, p) for a, s, b, t in nodes]
	if p['dep'] and any(x.dep is None for x in pairs if x.words):
		p['dep'] = False
	ctx.ev('dependencies', p['dep'] and any(x.words for x in pairs))
	ctx.ev('equivalent words', any(a in p['eqw'] for _, s, _, _ in corpus
			for a in s))

	def evaluate(order):
		param = ev.readparam('p.prm')
		param['DEP'] = p['dep']
		out = io.StringIO()
		res = {}
		with contextlib.redirect_stdout(out):
			e = ev.Evaluator(param)
			for i in order:
				a, s, b, t = nodes[i]
				res[i] = e.add(i + 1, build(a), s[:], build(b), t[:])
			if param['LABELED']:
				e.breakdowns()
			text = e.summary()
		return e, res, out.getvalue() + '\n' + text
	order = list(range(len(nodes)))
	e, res, text = evaluate(order)
	total = checksummary(ctx, text, pairs, p, desc)
	observe(ctx, pairs, p, total)
	if total['labeled f-measure'] not in (None, 0, 1) and (
			any(x.deleted for x in pairs) or p['eql'] or p['disc']):
		ctx.nontrivial(desc)
		ctx.sample(desc)
	for i, x in enumerate(pairs):
		if rng.random() < 0.5:
			checkdebug(ctx, res[i], x, p, desc)
	scores = e.acc.scores()
	for a, b in (('lr', 'labeled recall'), ('lp', 'labeled precision'),
			('lf', 'labeled f-measure'), ('ex', 'exact match'),
			('tag', 'pos accuracy')):
		same(ctx, scores[a], total[b], 'running score ' + a, (scores, desc))
	for i, x in enumerate(pairs):
		s = res[i].scores()
		P, R, f = prf(x.g, x.c)
		same(ctx, s['LP'], P, 'precision of pair', (s, desc))
		same(ctx, s['LR'], R, 'recall of pair', (s, desc))
		same(ctx, s['LF'], f, 'f-measure of pair', (s, desc))
		ok = sum(a == b for a, b in zip(x.gtag, x.ctag))
		same(ctx, s['POS'], F(ok, x.words) if x.words else None,
				'tagging of pair', (s, desc))
		if p['la'] and x.words:
			ctx.ok(abs(float(res[i].lascore) - float(x.la)) < 1e-9,
					'leaf ancestor of pair', '%r %r %r', res[i].lascore,
					float(x.la), desc)
		if p['ted'] and x.words:
			ctx.eq((int(res[i].ted), int(res[i].denom)), x.ted,
					'distance of pair', desc)
		if p['dep'] and x.words:
			ctx.eq(sum(a == b for a, b in zip(res[i].gdep, res[i].cdep)),
					x.dep[0], 'dependencies of pair', desc)
	if p['labeled'] and p['verbose'] and not p['disc']:
		checkbreakdowns(ctx, text, pairs, p, desc)
	if p['verbose']:
		checklines(ctx, text.split(' Rewrite rule')[0],
				[str(i + 1) for i in order], pairs, p, desc)
	if len(nodes) > 1:
		ctx.ev('permuted')
		rng.shuffle(order)
		_, _, text2 = evaluate(order)
		ctx.eq(parsesummary(text2), parsesummary(text), 'order of sentences',
				(order, desc))


HEADRULES = 'S left-to-right VP VB\nNP right-to-left NN NE NP\nVP left-to-right VB\n'


def genfiles(rng, ctx):
	p = genparam(rng)
	fmt = rng.choice(['export', 'export', 'discbracket', 'bracket'])
	corpus = [genpair(rng, p, False) for _ in range(rng.choice([1, 3, 6, 14]))]
	if fmt == 'bracket':
		corpus = [x for x in corpus if not any(g.fanout(y) > 1
				for z in (x[0], x[2]) for y in g.nodes(z))]
	if fmt != 'export':
		# quotes of brackets
		corpus = [x for x in corpus if not any('(' in y[0] for z in (x[0], x[2])
				for y in g.nodes(z))]
	if not corpus:
		return genfiles(rng, ctx)
	return rng, p, fmt, corpus


def run(argv):
	out, err = io.StringIO(), io.StringIO()
	old = sys.argv
	sys.argv = ['discodop', 'eval'] + argv
	try:
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
			ev.main()
	finally:
		sys.argv = old
	return out.getvalue()


def store(name, trees, fmt):
	with open(name, 'w') as out:
		for key, n, sent in trees:
			out.write(writetree(build(n), sent, key, fmt))


def checkfiles(case, ctx):
	"""Through files and the command line."""
	rng, p, fmt, corpus = case
	ctx.ev('files')
	p['verbose'] = rng.random() < 0.4
	p['dep'] = rng.random() < 0.3
	p['funcs'] = fmt == 'export' and rng.random() < 0.4
	if fmt == 'export':
		# exported as $[
		fix = lambda m: ('$[' if m[0] == '$(' else m[0], tuple(
				fix(c) if isinstance(c, tuple) else c for c in m[1]))
		corpus = [(fix(a), s, fix(b), t) for a, s, b, t in corpus]
		for x in ('dellabel', 'dellen'):
			p[x] = {'$[' if a == '$(' else a for a in p[x]}
		# root label is not part of the format
		corpus = [(a, s, ('ROOT', b[1]), t) for a, s, b, t in corpus]
	desc = ({a: b for a, b in p.items() if b}, fmt, corpus)
	# parameters can be given in file or as options
	opts = ['--fmt=' + fmt] if rng.random() < 0.5 else [
			'--goldfmt=' + fmt, '--parsesfmt=' + fmt]
	if fmt == 'export' and rng.random() < 0.5:
		opts = []
	q = dict(p)
	if rng.random() < 0.5:
		opts.append('--cutofflen=%d' % p['cutoff'])
		q['cutoff'] = rng.choice([2, 40])
	for name, opt in (('disc', '--disconly'), ('la', '--la'), ('ted', '--ted'),
			('verbose', '--verbose')):
		if p[name] and rng.random() < 0.5:
			q[name] = False
			opts.append(opt)
	ctx.ev('disconly in file', q['disc'])
	writeparam(q, 'p.prm', rng)
	if p['dep']:
		with open('head.rules', 'w') as out:
			out.write(HEADRULES)
		opts.append('--headrules=head.rules')
	funcs = p['funcs']
	nodes = [(frommodel(a, rng, funcs), s, frommodel(b, rng, funcs), t)
			for a, s, b, t in corpus]
	for x in nodes:
		for t in (x[0], x[2]):
			t.func = None
			for y in t.nodes():
				if y.func and y.func != 'HD' and '-' not in y.func:
					y.func = rng.choice(FUNCS)
				if p['dep'] and y.func == 'HD':
					y.func = None
	ids = ([str(i) for i in rng.sample(range(1, 200), len(nodes))]
			if fmt == 'export' else [str(i + 1) for i in range(len(nodes))])
	if fmt == 'export' and rng.random() < 0.5:
		ids.sort(key=int)
	gold = [(k, x[0], x[1]) for k, x in zip(ids, nodes)]
	cand = [(k, x[2], x[3]) for k, x in zip(ids, nodes)]
	extra = []
	if fmt == 'export' and not p['dep'] and rng.random() < 0.3:
		# gold file may contain more sentences
		m, s = genpair(rng, p)[:2]
		extra = [('500', frommodel(('ROOT', m[1]), rng), s)]
	store('gold', gold + extra, fmt)
	store('cand', cand, fmt)
	if p['dep']:
		# heads as assigned by the reader
		res = []
		for name, have in (('gold', gold), ('cand', cand)):
			c = READERS[fmt](name, headrules='head.rules', functions='remove')
			ts = c.trees()
			res.append([fromtree(ts[k if k in ts else int(k)])
					for k, _, _ in have])
		nodes = [(a, x[1], b, x[3]) for a, b, x in zip(res[0], res[1], nodes)]
	pairs = [Pair(a, s, b, t, p) for a, s, b, t in nodes]
	if p['dep'] and any(x.dep is None for x in pairs if x.words):
		opts.remove('--headrules=head.rules')
		p['dep'] = False
	ctx.ev('dependencies', p['dep'] and any(x.words for x in pairs))
	ctx.ev('equivalent words', any(a in p['eqw'] for _, s, _, _ in corpus
			for a in s))
	desc = opts, desc
	text = run(['gold', 'cand', 'p.prm'] + opts)
	total = checksummary(ctx, text, pairs, p, desc)
	observe(ctx, pairs, p, total)
	if total['labeled f-measure'] not in (None, 0, 1):
		ctx.nontrivial(desc)
		ctx.sample(desc)
	if p['labeled'] and p['verbose'] and not p['disc']:
		checkbreakdowns(ctx, text, pairs, p, desc)
	if p['verbose']:
		checklines(ctx, text.split(' Rewrite rule')[0], ids, pairs, p, desc)
	# identical files
	ctx.ev('identical')
	got = parsesummary(run(['gold', 'gold', 'p.prm'] + opts))[1]
	for key, vals in got.items():
		if key not in COUNTS:
			for v in vals:
				ctx.ok(v in ('100.00', '0DIV!', 'nan', 'NaN', 'None'),
						'identical files do not score 100', '%r %r %r', key, vals,
						desc)
	if total['gold brackets'] and not extra:
		ctx.eq(got['labeled f-measure'][-1], '100.00',
				'identical files do not score 100', (got, desc))
	# swapped
	if not extra and not p['rootpt'] and not any(
			x in p['dellabel'] or x in p['dellen']
			for x in list(PUNCT.values()) + ['$['] + g.TAGS):
		ctx.ev('swapped')
		a = parsesummary(text)[1]
		b = parsesummary(run(['cand', 'gold', 'p.prm'] + opts))[1]
		for x in ('gold brackets', 'disc. gold brackets'):
			y = x.replace('gold', 'cand.')
			if x in b:
				b[x], b[y] = b[y], b[x]
		b['labeled recall'], b['labeled precision'] = (b['labeled precision'],
				b['labeled recall'])
		for x in (a, b):
			x.pop('function tags', None)
			if 'TOP' in p['eql']:
				x.pop('tree-dist (Dice micro avg)', None)
		ctx.eq(b, a, 'swapping gold and candidate', desc)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'corpora': (gencorpus, checkcorpus, 3000 * k),
			'files': (genfiles, checkfiles, 1200 * k)}

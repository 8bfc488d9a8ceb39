"""C19: grammar files round-trip and merging adds up."""
import contextlib
import gzip
import io
import math
import os
import sys
from collections import Counter, defaultdict
from fractions import Fraction
from discodop import cli
from discodop.grammar import (writegrammar, merge, sumrules, sumlex, sumfrags,
		stripweight, grammarstats, splitweight, convertweight, printrule)
from discodop.util import merge as utilmerge
from discodop.containers import Grammar
import g

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random sets of LCFRS and PCFG rules and lexical entries with labels '
	'and words of unusual characters and weights of all magnitudes, and 1-6 '
	'sorted files that share entries; nontrivial: an entry that occurs in more '
	'than one file, or a weight that needs more than six digits; counted by '
	'entry and weights',
	require={'grammars written': 1500, 'rules': 15000, 'words': 6000,
		'precise weights': 3000, 'large weights': 1500, 'tiny weights': 500,
		'special words': 2500, 'bitpar': 400, 'loaded': 400, 'gzipped': 200,
		'merged files': 1500, 'rule files': 400, 'lexicon files': 400,
		'fragment files': 400, 'shared entries': 6000, 'entries': 15000,
		'empty files': 100, 'generic merges': 500, 'statistics': 400,
		'command line': 300},
)

LABELS = ['S', 'NP', 'VP', 'NP-SBJ', 'X|<A,B>', '$,', '.', '-LRB-', 'e', 'Ü',
		'VP_2', 'S^<NP>', ':', "''", 'a@1-2', 'A:B', 'f']
WORDS = ['the', 'dog', '(', ')', '10\u00a0000', 'a/b', 'x=y', '"', "'", 'Ä', '#',
		'0', '.', '1.5', 'e', '%', '\u65e5\u672c', 'a\u2028b', 'it\u3000s', '\\', '1e5',
		'0x1', ',']
YFS = {1: [((0, ), ), ((0, ), (0, ))],
	2: [((0, 1), ), ((0, ), (1, )), ((0, 1, 0), ), ((0, 1), (0, )), ((1, ), (0, )),
		((0, 1, 0), (1, )), ((0, 1, 0, 1), (0, ), (1, ))]}


def randweight(rng):
	kind = rng.randrange(9)
	if kind < 3:
		return rng.randint(1, 20)
	if kind == 3:
		return rng.choice([999999, 1000000, 1234567, 20000001, 10 ** 12 + 1,
			2 ** 53 - 1])
	if kind == 4:
		return rng.random()
	if kind == 5:
		return rng.choice([1e-7, 1.5e-20, 3e-300, 0.1, 1 / 3, 2.5, 1e22])
	if kind == 6:
		return rng.randint(1, 10 ** 7) / 8
	if kind == 7:
		return float(rng.randint(1, 100))
	return rng.choice([0.5, 0.25])


def text(w, rng):
	"""Some accepted form of a weight."""
	kind = rng.randrange(6)
	if kind == 0 and float(w) == w:
		return float(w).hex()
	if kind == 1 and w == int(w) and w < 1000:
		n = rng.randint(1, 5)
		return '%d/%d' % (w * n, n)
	return '%d' % w if w == int(w) and w < 1 << 53 else repr(float(w))


def randrules(rng, bitpar, n):
	res = {}
	for _ in range(n):
		k = rng.choice([1, 2, 2])
		r = (rng.choice(LABELS), ) + tuple(rng.choice(LABELS) for _ in range(k))
		yf = YFS[k][0] if bitpar else rng.choice(YFS[k])
		res[r, yf] = randweight(rng)
	return list(res.items())


def gen(rng, ctx):
	bitpar = rng.random() < 0.3
	rules = randrules(rng, bitpar, rng.randint(1, 20))
	words = {}
	for _ in range(rng.randint(1, 10)):
		words[(rng.choice(LABELS), 'Epsilon'), (rng.choice(WORDS).replace(
				'(', '#LRB#').replace(')', '#RRB#'), )] = randweight(rng)
	return rng, bitpar, rules, list(words.items())


def readrules(s, bitpar):
	res = []
	assert s == '' or s.endswith('\n')
	for line in s.split('\n')[:-1]:
		f = line.split('\t')
		if bitpar:
			k = len(f) - 2
			res.append(((tuple(f[1:]), YFS[k][0]), number(f[0])))
		else:
			yf = tuple(tuple(map(int, c)) for c in f[-2].split(','))
			res.append(((tuple(f[:-2]), yf), number(f[-1])))
	return res


def number(s):
	a, _, b = s.partition('/')
	if a.startswith('0x'):
		return Fraction(float.fromhex(a))
	return Fraction(float(a)) / Fraction(float(b or 1))


def exact(w):
	return Fraction(w)


def readlex(s):
	res = []
	for line in s.split('\n')[:-1]:
		word, *tags = line.split('\t')
		res.append((word, [(t.split(' ')[0], number(t.split(' ')[1]))
				for t in tags]))
	return res


def unesc(w):
	return w.replace('#LRB#', '(').replace('#RRB#', ')')


def observe(ctx, w, what):
	big = w >= 10 ** 6
	ctx.ev('large weights', big)
	ctx.ev('tiny weights', w < 1e-6)
	prec = Fraction('%g' % w) != Fraction(w)
	ctx.ev('precise weights', prec)
	if prec:
		ctx.nontrivial((what, w))


def check(case, ctx):
	rng, bitpar, rules, lex = case
	mixed = rules + lex
	rng.shuffle(mixed)
	rules = [a for a in mixed if a[0][0][1] != 'Epsilon']
	r, x = writegrammar(mixed, bitpar=bitpar)
	ctx.ev('grammars written')
	ctx.ev('bitpar', bitpar)
	for rule, w in mixed:
		observe(ctx, w, rule)
	ctx.ev('rules', len(rules))
	ctx.eq(readrules(r, bitpar), [(a, exact(w)) for a, w in rules],
			'rules written', mixed)
	want = defaultdict(list)
	for ((tag, _), (word, )), w in [a for a in mixed if a[0][0][1] == 'Epsilon']:
		want[unesc(word)].append((tag, exact(w)))
		ctx.ev('special words', not word.isalpha())
	got = readlex(x)
	ctx.ev('words', len(got))
	ctx.eq(len(dict(got)), len(got), 'word listed twice', mixed)
	ctx.eq({a: sorted(b) for a, b in got}, {a: sorted(b) for a, b in
			want.items()}, 'lexicon written', mixed)
	for rule, w in mixed:
		s = splitweight(text(w, rng))
		ctx.ok(close(s[0] / s[1] if isinstance(s, tuple) else s, w),
				'weight read', '%r %r', s, w)
		t = text(w, rng)
		ctx.ok(close(convertweight(t), w), 'weight read', '%r %r', t, w)


def close(a, b):
	return abs(a - b) <= 1e-12 * abs(b)


def genload(rng, ctx):
	"""A consistent grammar that can be loaded."""
	bitpar = rng.random() < 0.4
	labels = rng.sample([a for a in LABELS if '_' not in a], 5)
	fo = {a: 1 for a in labels}
	if not bitpar:
		fo['VP_2'] = 2
	rules = {}
	for lhs in ['ROOT'] + sorted(fo) + [rng.choice(sorted(fo))
			for _ in range(rng.randint(0, 8))]:
		while True:
			ch = tuple(rng.choice(sorted(fo)) for _ in range(rng.choice([1, 2, 2])))
			lh = 1 if lhs == 'ROOT' else fo[lhs]
			opts = [yf for yf in YFS[len(ch)] if len(yf) == lh and all(
				sum(c.count(n) for c in yf) == fo[b] for n, b in enumerate(ch))]
			if opts and not (len(ch) == 1 and ch[0] == lhs):
				break
		rules[(lhs, ) + ch, rng.choice(opts)] = randweight(rng)
	lex = {}
	for lab in labels:
		for _ in range(rng.randint(1, 4)):
			lex[(lab, 'Epsilon'), (rng.choice(WORDS).replace('(', '#LRB#').replace(
					')', '#RRB#'), )] = randweight(rng)
	rules = list(rules.items())
	rng.shuffle(rules)
	return rng, bitpar, rules, list(lex.items())


def checkload(case, ctx):
	rng, bitpar, rules, lex = case
	gz = rng.random() < 0.5
	ctx.ev('gzipped', gz)
	ctx.ev('loaded')
	r, x = writegrammar(rules + lex, bitpar=bitpar)
	for name, s in (('g.rules', r), ('g.lex', x)):
		with (gzip.open(name + '.gz', 'wb') if gz else open(name, 'wb')) as out:
			out.write(s.encode('utf8'))
	a = Grammar('g.rules' + '.gz' * gz, 'g.lex' + '.gz' * gz, start='ROOT')
	b = Grammar(rules + lex, start='ROOT')
	ctx.eq(bool(a.bitpar), bitpar, 'format detected', rules)
	mass = defaultdict(Fraction)
	for (rr, _), w in rules + lex:
		mass[rr[0]] += exact(w)
	for gr in (a, b):
		ctx.eq(gr.numrules, len(rules), 'number of rules', rules)
		listed = {int(s[-1].strip('[]')): s for s in (gr.rulestr(n).split()
				for n in range(gr.numrules))}
		ctx.eq(sorted(listed), list(range(len(rules))), 'rule numbers', rules)
		for n, ((rr, yf), w) in enumerate(rules):
			s = listed[n]
			want = [rr[0], '=>'] + list(rr[1:]) + [','.join(''.join(map(str, c))
					for c in yf)]
			ctx.eq(s[1:-2], want, 'rule', (n, rules))
			c, m = s[-2].split('/')
			ctx.ok(abs(float(c) - w) <= 1e-5 * w, 'count of rule', '%r %r', s, w)
			ctx.ok(abs(float(m) - float(mass[rr[0]])) <= 1e-5 * mass[rr[0]],
					'mass of label', '%r %r', s, w)
			p = float(exact(w) / mass[rr[0]])
			ctx.ok(abs(float(s[0]) - p) <= 6e-5, 'probability of rule', '%r %r', s,
					p)
		words = defaultdict(list)
		for ((tag, _), (word, )), w in lex:
			words[unesc(word)].append(float(exact(w) / mass[tag]))
		ctx.eq(set(gr.getwords()), set(words), 'words', lex)
		for word, ps in words.items():
			got = sorted(math.exp(-p) for p in gr.getlexprobs(word))
			ctx.ok(len(got) == len(ps) and all(abs(p - q) <= 1e-9 * q
					for p, q in zip(got, sorted(ps))), 'lexical probabilities',
					'%r %r %r %r', word, got, ps, (rules, lex))


def run(args):
	old = sys.argv
	# cli.argv was imported by name
	saved, cli.argv = cli.argv, ['discodop'] + args
	buf = io.StringIO()
	try:
		with contextlib.redirect_stdout(buf):
			cli.grammar()
	finally:
		cli.argv = saved
		sys.argv = old
	return buf.getvalue()


def genmerge(rng, ctx):
	kind = rng.choice(['rules', 'lexicon', 'fragments'])
	nfiles = rng.choice([1, 2, 2, 3, 6])
	bitpar = rng.random() < 0.4
	if kind == 'rules':
		pool = [(('\t'.join(r), yf) if bitpar else (r, yf)) for r, yf in [
			a for a, _ in randrules(rng, bitpar, 15)]]
		pool = []
		for (r, yf), _ in randrules(rng, bitpar, 15):
			rule = '\t'.join(r)
			if not bitpar:
				rule += '\t' + ','.join(''.join(map(str, c)) for c in yf)
			pool.append(rule)
	elif kind == 'lexicon':
		pool = rng.sample(WORDS, 12)
	else:
		pool = []
		for _ in range(10):
			words = [rng.choice(['', 'a', 'b c'[0], 'x\u00a0y', '1'])
					for _ in range(3)]
			pool.append('(S (%s 0=%s) (VP (V 1=%s) (NP 2=%s)))' % ((rng.choice(
					['NP', '$,', 'Ü']), ) + tuple(words)))
	pool = sorted(set(pool))
	files = []
	for _ in range(nfiles):
		cur = []
		share = rng.choice([0, 0.3, 0.5, 0.8, 1])
		for e in pool:
			if rng.random() < share:
				for _ in range(rng.choice([1, 1, 1, 2])):
					if kind == 'lexicon':
						cur.append((e, [(t, randweight(rng)) for t in rng.sample(
								LABELS, rng.randint(1, 3))]))
					else:
						cur.append((e, randweight(rng)))
		files.append(cur)
	return rng, kind, bitpar, files


def checkmerge(case, ctx):
	rng, kind, bitpar, files = case
	total = defaultdict(Fraction)
	seen = Counter()
	names = []
	num = lambda w: Fraction(w) if isinstance(w, int) else exact(w)
	for n, entries in enumerate(files):
		lines = []
		for e, w in entries:
			if kind == 'lexicon':
				lines.append('%s\t%s\n' % (e, '\t'.join('%s %s' % (t, text(x, rng))
						for t, x in w)))
				for t, x in w:
					total[e, t] += num(x)
			else:
				t = text(w, rng)
				if bitpar and '/' in t:
					t = repr(float(w))
				lines.append('%s\t%s\n' % ((t, e) if kind == 'rules' and bitpar
						else (e, t)))
				total[e] += num(w)
		for e in {a for a, _ in entries}:
			seen[e] += 1
		ctx.ev('empty files', not lines)
		gz = rng.random() < 0.3
		names.append('in%d%s' % (n, '.gz' * gz))
		with (gzip.open(names[-1], 'wb') if gz else open(names[-1], 'wb')) as out:
			out.write(''.join(lines).encode('utf8'))
	for e, n in seen.items():
		ctx.ev('shared entries', n > 1)
		if n > 1:
			ctx.nontrivial((e, n, len(files)))
	out = 'out' + rng.choice(['', '.gz'])
	if len(files) > 1 and rng.random() < 0.5:
		ctx.ev('command line')
		run(['grammar', 'merge', kind] + names + [out])
	elif kind == 'rules':
		merge(names, out, sumrules, stripweight)
	elif kind == 'lexicon':
		merge(names, out, sumlex, lambda x: x.split('\t', 1)[0])
	else:
		merge(names, out, sumfrags, lambda x: x.rsplit('\t', 1)[0])
	ctx.ev('merged files')
	ctx.ev({'rules': 'rule files', 'lexicon': 'lexicon files',
			'fragments': 'fragment files'}[kind])
	with (gzip.open(out, 'rb') if out.endswith('.gz') else open(out, 'rb')) as inp:
		s = inp.read().decode('utf8')
	order, got = [], {}
	ctx.ok(not s or s.endswith('\n'), 'last line', '%r', s)
	for line in s.split('\n')[:-1]:
		f = line.split('\t')
		if kind == 'lexicon':
			order.append(f[0])
			for a in f[1:]:
				t, w = a.split(' ')
				ctx.ok((f[0], t) not in got, 'entry twice', '%r %r', f, case)
				got[f[0], t] = number(w)
		else:
			e, w = (('\t'.join(f[1:]), f[0]) if kind == 'rules' and bitpar
					else ('\t'.join(f[:-1]), f[-1]))
			order.append(e)
			ctx.ok(e not in got, 'entry twice', '%r %r', f, case)
			got[e] = number(w)
	ctx.ev('entries', len(got))
	ctx.eq(order, sorted(seen), 'merged entries in order', case)
	ctx.eq(sorted(got), sorted(total), 'merged entries', case)
	for e, w in got.items():
		want = total[e] / len(files)
		ctx.ok(abs(w - want) <= want * Fraction(1, 10 ** 12), 'merged weight',
				'%r %r want %r; %r', e, float(w), float(want), case)
	# the merged file is itself accepted
	if kind == 'rules' and got:
		stats(ctx, rng, bitpar, [(e, w) for e, w in got.items()], out, case)


def stats(ctx, rng, bitpar, entries, name, desc):
	ctx.ev('statistics')
	cnt, mass = Counter(), defaultdict(Fraction)
	order = []
	for e, w in entries:
		lhs = e.split('\t')[0]
		if not order or order[-1] != lhs:
			order.append(lhs)
		cnt[lhs] += 1
		mass[lhs] += w
	if len(set(order)) < len(order):
		return
	s = run(['grammar', 'info', name]).rstrip('\n').split('\n')
	ctx.eq(len(s), len(order) + 1, 'number of labels in statistics', (s, desc))
	for lhs, line in zip(order, s[1:]):
		f = line.split('\t')
		ctx.eq(f[:2], [lhs, str(cnt[lhs])], 'statistics', (s, desc))
		ctx.ok(abs(number(f[2]) - mass[lhs]) <= mass[lhs] * Fraction(1, 10 ** 9),
				'mass in statistics', '%r %r %r', f, float(mass[lhs]), desc)


def gengeneric(rng, ctx):
	key = rng.choice([None, abs, str, lambda x: x // 3])
	lists = [sorted([rng.randint(-9, 9) for _ in range(rng.choice([0, 1, 3, 9]))],
			key=key) for _ in range(rng.randint(0, 5))]
	return rng, key, lists


def checkgeneric(case, ctx):
	rng, key, lists = case
	ctx.ev('generic merges')
	got = list(utilmerge(*[iter([(x, n, m) for m, x in enumerate(a)])
			for n, a in enumerate(lists)], key=lambda t: (key or (lambda x: x))(
			t[0])))
	allitems = [(x, n, m) for n, a in enumerate(lists) for m, x in enumerate(a)]
	ctx.eq(sorted(got), sorted(allitems), 'merged items', lists)
	ks = [(key or (lambda x: x))(t[0]) for t in got]
	ctx.eq(ks, sorted(ks), 'merged order', lists)
	for n in range(len(lists)):
		own = [t[2] for t in got if t[1] == n]
		ctx.eq(own, sorted(own), 'order within input', lists)
	ctx.eq(list(utilmerge(*lists, key=key)), [t[0] for t in got], 'merge', lists)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'write': (gen, check, 2500 * k), 'load': (genload, checkload, 800 * k),
			'merge': (genmerge, checkmerge, 2500 * k),
			'generic': (gengeneric, checkgeneric, 1000 * k)}

"""C20: the compiled grammar represents exactly the rules it was given."""
import gzip
import math
import os
import pickle
import re
from collections import Counter, defaultdict
import numpy as np
from discodop.containers import Grammar
from discodop.grammar import writegrammar
from discodop.tree import Tree
from discodop import plcfrs, pcfg, kbest
import gg
import lc

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest'],
	rule='random PCFGs and LCFRSs given as tuples, text, gzipped text, bitpar '
	'text and binary files, followed by random histories of switching, masking, '
	'adding rules, incrementing counts, pickling and storing, with the listed '
	'rules and a parse compared after each step; and mutated grammar texts. '
	'nontrivial: a state reached by at least two different operations; '
	'counted by operations and grammar',
	require={'grammars': 700, 'discontinuous': 250, 'bitpar': 100,
		'from text': 150, 'from tuples': 150, 'duplicate rules': 200,
		'rules listed': 15000, 'lexical entries listed': 10000,
		'states compared': 3000, 'switch model': 90, 'switch logprob': 400,
		'mask': 300, 'unmask': 8, 'add rules': 500, 'new labels': 100,
		'increment': 300, 'pickled': 200, 'binary file': 300,
		'parses': 1500, 'masked parses': 150, 'rule lookups': 10000,
		'absent lookups': 500, 'refused': 1500, 'still accepted': 300,
		'rule mappings': 200, 'incorrect mappings': 100, 'mass checks': 2000},
)


def split(rules):
	return ([a for a in rules if a[0][0][1] != 'Epsilon'],
			[a for a in rules if a[0][0][1] == 'Epsilon'])


class Model:
	"""Plain description of what the grammar should contain."""
	def __init__(self, rules):
		self.rules, self.lex = {}, {}
		self.models = {}
		self.current, self.log, self.mask = 'default', True, None
		self.dirty = False
		self.add(rules)

	def add(self, rules):
		for r, w in rules:
			d = self.lex if r[0][1] == 'Epsilon' else self.rules
			d[r] = d.get(r, 0) + w

	def mass(self):
		res = defaultdict(float)
		for d in (self.rules, self.lex):
			for r, w in d.items():
				res[r[0][0]] += w
		return res

	def probs(self):
		"""Current weights of rules and of lexical entries."""
		if self.current != 'default':
			m = self.models[self.current]
			n = len(self.rules)
			return (dict(zip(self.rules, m[:n])),
					dict(zip(self.lexorder(), m[n:])))
		mass = self.mass()
		return ({r: w / mass[r[0][0]] for r, w in self.rules.items()},
				{r: w / mass[r[0][0]] for r, w in self.lex.items()})

	def lexorder(self):
		return list(self.lex)


def yfstr(yf):
	return ','.join(''.join(map(str, c)) for c in yf)


def text(rng, rules, bitpar):
	"""Grammar text with duplicate lines and several notations of weights;
	returns the rules in the order they are defined."""
	phrasal, lexical = split(rules)
	lines = []
	dup = []
	for (r, yf), w in phrasal:
		parts = [w]
		if isinstance(w, int) and w > 1 and rng.random() < 0.2:
			a = rng.randint(1, w - 1)
			parts = [a, w - a]
			dup.append((r, yf))
		for p in parts:
			s = repr(p)
			kind = rng.randrange(5)
			if kind == 0:
				s = float(p).hex()
			elif kind == 1 and isinstance(p, int):
				s = '%d/%d' % (p, rng.randint(1, 100))
			lines.append(((s, ) + r) if bitpar else (r + (yfstr(yf), s)))
	if dup:
		head, rest = lines[0], lines[1:]
		rng.shuffle(rest)
		lines = [head] + rest
	byword = {}
	for (r, (w, )), x in lexical:
		byword.setdefault(w, []).append((r[0], x))
	ruletext = ''.join('\t'.join(a) + '\n' for a in lines)
	lextext = ''.join('%s\t%s\n' % (w.replace('#LRB#', '(').replace('#RRB#', ')'),
			'\t'.join('%s %r' % a for a in b)) for w, b in byword.items())
	if rng.random() < 0.2:  # no newline at the end of the file
		ruletext = ruletext[:-1]
	if rng.random() < 0.2:
		lextext = lextext[:-1]
	order = {}
	for a in lines:
		r = tuple(a[1:]) if bitpar else tuple(a[:-2])
		yf = ((0, 1), ) if len(r) == 3 else ((0, ), )
		if not bitpar:
			yf = tuple(tuple(map(int, c)) for c in a[-2].split(','))
		order[r, yf] = None
	d = dict(phrasal)
	res = [(k, d[k]) for k in order]
	for w, b in byword.items():
		res.extend((((t, 'Epsilon'), (w, )), x) for t, x in b)
	return ruletext, lextext, res, len(dup)


VOCAB = ['a', 'b', 'c', '#LRB#', '\u00fc', '10\u00a0000', "'", '0', 'x=1']
LABELS = ['A', 'B', 'NP-SBJ', 'X|<A,B>', 'S^<VP>', 'T@1', '-LRB-', '.', '$,',
		'\u00c4', 'e', 'N']


def gengrammar(rng, disc):
	return gg.grammar(rng, disc, vocab=VOCAB, labels=LABELS)


def make(rng, ctx, rules, disc):
	"""Instantiate grammar in one of the possible ways."""
	kind = rng.randrange(4)
	ctx.ev('grammars')
	ctx.ev('discontinuous', disc)
	if kind == 0:
		ctx.ev('from tuples')
		# lexical rules are grouped by word
		byword = {}
		for (r, yf), w in split(rules)[1]:
			byword.setdefault(yf, []).append(((r, yf), w))
		return (Grammar(rules, start='ROOT'),
				split(rules)[0] + [x for b in byword.values() for x in b])
	bitpar = not disc and rng.random() < 0.6
	ctx.ev('bitpar', bitpar)
	ctx.ev('from text')
	r, l, order, dups = text(rng, rules, bitpar)
	ctx.ev('duplicate rules', dups > 0)
	gz = '.gz' if rng.random() < 0.3 else ''
	for fn, s in (('g.rules', r), ('g.lex', l)):
		with (gzip.open(fn + gz, 'wb') if gz else open(fn, 'wb')) as out:
			out.write(s.encode('utf8'))
	gr = Grammar('g.rules' + gz, 'g.lex' + gz, start='ROOT')
	ctx.eq(bool(gr.bitpar), bitpar, 'format', r)
	return gr, order


def compare(gr, m, ctx, desc):
	"""Compare everything the grammar lists with the model."""
	ctx.ev('states compared')
	ctx.eq(gr.numrules, len(m.rules), 'number of rules', desc)
	ctx.eq((gr.numunary, gr.numbinary), (sum(len(r) == 2 for r, _ in m.rules),
			sum(len(r) == 3 for r, _ in m.rules)), 'unary and binary rules', desc)
	mass = m.mass()
	probs, lexprobs = m.probs()
	got = {}
	for n in range(gr.numrules):
		f = gr.rulestr(n).split(' ')
		f = [a for a in f if a]
		no = int(f[-1].strip('[]'))
		ctx.ok(no not in got, 'rule listed twice', '%r %r', f, desc)
		got[no] = f
	for no, (r, yf) in enumerate(m.rules):
		f = got[no]
		ctx.ev('rules listed')
		ctx.eq(f[1:-2], [r[0], '=>'] + list(r[1:]) + [yfstr(yf)], 'rule', desc)
		a, b = map(float, f[-2].split('/'))
		ctx.ok(abs(a - m.rules[r, yf]) <= 1e-5 * a, 'count', '%r %r', f, desc)
		ctx.ok(abs(b - mass[r[0]]) <= 1e-5 * b, 'mass', '%r %r', f, desc)
		if not m.dirty:
			ctx.ok(abs(float(f[0]) - probs[r, yf]) <= 5.1e-5, 'weight',
					'%r %r %r', f, probs[r, yf], desc)
		ctx.ev('rule lookups')
		ctx.eq(gr.getruleno(r, yf), no, 'rule number', (r, yf, desc))
		if yf in (((0, 1), ), ((0, ), )):
			ctx.eq(gr.noderuleno(Tree(r[0], [Tree(a, [0]) for a in r[1:]])), no,
					'rule number of node', (r, yf, desc))
	words = defaultdict(list)
	for ((t, _), (w, )), p in lexprobs.items():
		words[w.replace('#LRB#', '(').replace('#RRB#', ')')].append(p)
	ctx.eq(sorted(gr.getwords()), sorted(words), 'words', desc)
	for w, ps in words.items():
		ctx.ev('lexical entries listed', len(ps))
		got = gr.getlexprobs(w)
		if m.dirty:
			continue
		if m.log:
			got = [math.exp(-p) for p in got]
		ctx.ok(len(got) == len(ps) and all(abs(a - b) <= 1e-9 * b for a, b in
				zip(sorted(got), sorted(ps))), 'lexical weights', '%r %r %r %r',
				w, got, ps, desc)
	ctx.eq(gr.getlexprobs('no such word'), [], 'unknown word', desc)
	s = str(gr)
	lex = s[s.index('lexicon:\n') + 9:s.rindex('\nlabels:\n')].split('\n')
	listed = Counter()
	for line in lex:
		p, t, arrow, w = line.split(' ', 3)
		w, c = w.rsplit('    ', 1)
		listed[t, w.rstrip(' ')] += float(c.split('/')[0])
	want = {(t, w.replace('#LRB#', '(').replace('#RRB#', ')')): x
			for ((t, _), (w, )), x in m.lex.items()}
	ctx.eq(set(listed), set(want), 'lexical entries', desc)
	for k, x in want.items():
		ctx.ok(abs(listed[k] - x) <= 1e-5 * x, 'lexical count', '%r %r %r %r',
				k, listed[k], x, desc)
	labels = {'ROOT'} | {a for (r, _), _ in list(m.rules.items())
			for a in r} | {r[0] for r, _ in m.lex}
	ctx.eq(sorted(gr.getlabels()), sorted(labels), 'labels', desc)
	ctx.eq(gr.nonterminals, len(labels) + 1, 'number of labels', desc)
	ctx.eq(sorted(gr.getpos()), sorted({r[0] for r, _ in m.lex}), 'tags', desc)
	ctx.eq(gr.maxfanout, max([len(yf) for r, yf in m.rules] + [1]), 'fan-out', desc)
	ctx.eq((gr.currentmodel, bool(gr.logprob)), (m.current, m.log),
			'current weights', desc)
	ok, msg = gr.testgrammar(epsilon=1e-9)
	if m.current == 'default' or not m.models:
		ctx.ev('mass checks')
		ctx.ok(ok, 'does not sum to 1', '%r %r', msg, desc)
	elif abs(sum(m.models[m.current]) - len(labels)) > 1e-3:
		ctx.ok(not ok, 'claims to sum to 1', '%r %r', msg, desc)


def parses(gr, m, rng, ctx, desc):
	if not m.log or m.dirty:
		return
	probs, lexprobs = m.probs()
	active = [k for n, k in enumerate(m.rules) if m.mask is None or n in m.mask]
	rules = [(k, probs[k]) for k in active] + list(lexprobs.items())
	full = [(k, 1) for k in m.rules] + [(k, 1) for k in m.lex]
	for _ in range(2):
		s = gg.sentence(rng, full, 6, VOCAB)
		ref = lc.chart(lc.LC(rules, normalize=False), s)
		if ref is None:
			continue
		ctx.ev('parses')
		ctx.ev('masked parses', m.mask is not None)
		root = ('ROOT', (1 << len(s)) - 1)
		plain = [w.replace('#LRB#', '(').replace('#RRB#', ')') for w in s]
		for p in (plcfrs, pcfg)[:1 + (gr.maxfanout == 1)]:
			chart, _ = p.parse(plain, gr)
			ctx.eq(bool(chart), root in ref, 'parsed', (p.__name__, s, desc))
			if chart:
				got = kbest.lazykbest(chart, 1)[0][1]
				want = -lc.viterbi(ref)[root]
				ctx.ok(abs(got - want) <= 1e-9 * (1 + abs(want)), 'probability',
						'%r want %r; %r %r %r', got, want, p.__name__, s, desc)


def gen(rng, ctx):
	disc = rng.random() < 0.5
	return rng, disc, gengrammar(rng, disc)


OPS = ['model', 'log', 'mask', 'add', 'add', 'inc', 'pickle', 'bin']


def check(case, ctx):
	rng, disc, rules = case
	gr, order = make(rng, ctx, rules, disc)
	m = Model(order)
	hist = []
	desc = (rules, hist)
	compare(gr, m, ctx, desc)
	parses(gr, m, rng, ctx, desc)
	for a in rng.sample(list(m.rules), min(3, len(m.rules))):
		for r, yf in [((a[0][0] + 'x', ) + a[0][1:], a[1]),
				(a[0][:1] + ('nil', ) * (len(a[0]) - 1), a[1]),
				(a[0], a[1] + ((0, 1), )), (a[0][:1] + a[0][:1] + a[0][1:2], a[1])]:
			if (r, yf) not in m.rules:
				ctx.ev('absent lookups')
				try:
					n = gr.getruleno(r, yf)
				except KeyError:
					pass
				else:
					ctx.fail('number of absent rule', '%r %r %r', n, (r, yf), desc)
	compare(gr, m, ctx, desc)
	fresh = True
	kinds = set()
	for _ in range(rng.randint(1, 5)):
		op = rng.choice(OPS)
		if op == 'model':
			# give the same rules a set of weights
			if not fresh or m.mask is not None or not gr.rulesfile:
				continue
			ctx.ev('switch model')
			models = {a: np.array([rng.uniform(0.01, 1) for _ in range(
					gr.numrules + len(m.lex))]) for a in ('one', 'two')}
			bt = rng.choice([None, ['x'] * gr.numrules])
			gr = Grammar(gr.rulesfile, gr.lexiconfile, start='ROOT',
					altweights=models, backtransform=bt)
			m.models = {a: list(b) for a, b in models.items()}
			hist.append('models')
			m.current = rng.choice(['one', 'two', 'default'])
			m.log = rng.random() < 0.7
			gr.switch(m.current, m.log)
			hist.append((m.current, m.log))
			compare(gr, m, ctx, desc)
			parses(gr, m, rng, ctx, desc)
			gr = pickle.loads(pickle.dumps(gr))
			ctx.eq(gr.backtransform, bt, 'backtransform after pickling', desc)
			m.current = rng.choice(['one', 'two'])
			m.log = rng.random() < 0.5
			gr.switch(m.current, m.log)
			hist.append((m.current, m.log))
		elif op == 'log':
			ctx.ev('switch logprob')
			cur = 'default' if m.dirty else rng.choice(
					['default'] + list(m.models))
			if m.dirty:
				gr.switch(cur, not m.log)
				m.dirty = False
				m.current, m.log = cur, not m.log
				compare(gr, m, ctx, desc)
			m.current, m.log = cur, rng.random() < 0.5
			gr.switch(cur, m.log)
			hist.append((cur, m.log))
		elif op == 'mask':
			if m.mask is not None and rng.random() < 0.4:
				ctx.ev('unmask')
				gr.setmask(None)
				m.mask = None
				hist.append('unmask')
			else:
				ctx.ev('mask')
				m.mask = rng.sample(range(gr.numrules), rng.randint(
						max(0, gr.numrules - 2), gr.numrules))
				gr.setmask(m.mask)
				hist.append(('mask', m.mask))
		elif op == 'add':
			ctx.ev('add rules')
			new = additions(rng, m, disc, gr.numrules)
			ctx.ev('new labels', any(r[0][0].startswith('NEW') for r, _ in new))
			r, l = writegrammar(new, bitpar=gr.bitpar)
			gr.addrules(r.encode('utf8'), l.encode('utf8'))
			n = gr.nonterminals
			# lexical rules grouped by word
			byword = {}
			for (a, yf), w in split(new)[1]:
				byword.setdefault(yf, []).append(((a, yf), w))
			m.add(split(new)[0] + [x for b in byword.values() for x in b])
			m.current, m.models, m.dirty = 'default', {}, False
			fresh = False
			hist.append(('add', new))
		elif op == 'inc':
			ctx.ev('increment')
			n = rng.randrange(gr.numrules)
			f = rng.randint(1, 5)
			gr.incrementrulecount(n, f)
			m.rules[list(m.rules)[n]] += f
			m.dirty = True
			fresh = False
			hist.append(('increment', n, f))
			if m.current != 'default':
				m.dirty = False
		elif op == 'pickle':
			if not fresh:
				continue
			ctx.ev('pickled')
			gr = pickle.loads(pickle.dumps(gr, protocol=rng.choice([2, -1])))
			m.current, m.log, m.mask = 'default', True, None
			hist.append('pickle')
		elif op == 'bin':
			ctx.ev('binary file')
			gr.tobinfile('g.bin')
			gr = Grammar.frombinfile('g.bin', gr.rulesfile, gr.lexiconfile)
			m.models, m.current, m.log, m.mask = {}, 'default', True, None
			m.dirty = False
			fresh = False
			hist.append('binary')
		kinds.add(op)
		compare(gr, m, ctx, desc)
		parses(gr, m, rng, ctx, desc)
		if len(kinds) > 1:
			ctx.nontrivial((tuple(map(str, hist)), str(rules)))
	ctx.sample('%r' % (hist, ))


def additions(rng, m, disc, n):
	"""New and old rules with existing and new labels and words."""
	new = {}
	labs = {}
	for r, yf in m.rules:
		labs[r[0]] = len(yf)
	for r, _ in m.lex:
		labs[r[0]] = 1
	ones = sorted(a for a in labs if labs[a] == 1 and a != 'ROOT')
	for _ in range(rng.randint(0, 4)):
		kind = rng.randrange(4)
		if kind == 0:
			new[rng.choice(list(m.rules))] = rng.randint(1, 5)
		elif kind == 1:
			new[(rng.choice(['ROOT'] + ones), rng.choice(ones), rng.choice(ones)),
					((0, 1), )] = rng.randint(1, 5)
		elif kind == 2:
			a = 'NEW%d' % rng.randrange(99)
			if a not in labs:
				new[('ROOT', a), ((0, ), )] = rng.randint(1, 5)
				new[(a, 'Epsilon'), (rng.choice(VOCAB + ['nieuw']), )] = 2.5
		else:
			new[(rng.choice(ones), 'Epsilon'), (rng.choice(VOCAB + ['nov']), )
					] = rng.randint(1, 5)
	return list(new.items())


def geninvalid(rng, ctx):
	disc = rng.random() < 0.6
	return rng, disc, gengrammar(rng, disc)


def checkinvalid(case, ctx):
	rng, disc, rules = case
	bitpar = not disc and rng.random() < 0.5
	rules = [(r, max(1, int(w))) for r, w in rules]
	r, l = writegrammar(rules, bitpar=bitpar)
	good = load(r, l)
	ctx.ok(isinstance(good, Grammar), 'refused', '%r %r %r', good, r, l)
	ctx.ev('still accepted')
	rl, ll = r.split('\n')[:-1], l.split('\n')[:-1]
	n = rng.randrange(len(rl))
	k = rng.randrange(len(ll))
	f = rl[n].split('\t')
	lf = ll[k].split('\t')
	w = 0 if bitpar else -1
	bad = []  # (description, rules, lexicon)

	def badrule(msg, fields, extra=()):
		bad.append((msg, rl[:n] + ['\t'.join(fields)] + rl[n + 1:] + list(extra),
				ll))

	def put(fields, idx, val):
		fields = list(fields)
		fields[idx] = val
		return fields

	for x in ('0', '-1', 'x', '', '1x', 'nan', 'inf', '0.0', '-0', '1 2'):
		if bitpar and n == 0:
			continue  # detection of format
		badrule('weight %r' % x, put(f, w, x))
	nts = f[1:] if bitpar else f[:-2]
	badrule('Epsilon on LHS', put(f, 1 if bitpar else 0, 'Epsilon'))
	badrule('Epsilon on RHS', put(f, 2 if bitpar else 1, 'Epsilon'))
	badrule('start on RHS', put(f, 2 if bitpar else 1, 'ROOT'))
	badrule('unknown RHS', put(f, 2 if bitpar else 1, 'NEVERSEEN'))
	badrule('too many nonterminals', (f[:1] + nts + nts) if bitpar
			else nts + nts + f[-2:])
	badrule('too few nonterminals', (f[:1] + nts[:1]) if bitpar
			else nts[:1] + f[-2:])
	if not (bitpar and n == 0):
		badrule('empty line', [''])
	if not bitpar:
		badrule('only two fields', f[-2:])
		badrule('only one field', f[-1:])
		for x in ('', ',', '0,', ',0', '2', '0a', 'x', '1', '1,1', '0,,1', '01,,',
				'0' * 40 + '1', '0 1', '0;1'):
			badrule('yield function %r' % x, put(f, -2, x))
		if len(nts) == 2:
			badrule('binary yf in unary rule', put(f, -2, '01'))
			badrule('fan-out of unary rule', nts + ['0,0' if f[-2] == '0' else '0',
					'1'])
		else:
			badrule('unary yf in binary rule', put(f, -2, '0'))
			# a child with more components than it has elsewhere
			x = f[-2] + (',0' if rng.random() < 0.5 else ',1')
			badrule('fan-out', put(f, -2, x))
			if '1' in f[-2]:
				lhsf = f[-2].count(',')
				y = f[-2].replace('1', '10', 1)
				badrule('fan-out of left child', put(f, -2, y))
	for x in ('0', '-1', 'x', '', 'nan', 'inf', '1y'):
		lf2 = list(lf)
		lf2[-1] = lf[-1].split(' ')[0] + ' ' + x
		bad.append(('lexical weight %r' % x, rl, ll[:k] + ['\t'.join(lf2)]
				+ ll[k + 1:]))
	bad.append(('lexical entry without weight', rl, ll[:k] + ['\t'.join(
			lf[:-1] + [lf[-1].split(' ')[0]])] + ll[k + 1:]))
	bad.append(('lexical entry without tags', rl, ll[:k] + lf[:1] + ll[k + 1:]))
	bad.append(('word twice', rl, ll + [ll[k]]))
	bad.append(('no rules', [], ll))
	bad.append(('no words', rl, []))
	multi = [a.split('\t')[0] for a in rl if ',' in a.split('\t')[-2]] \
			if not bitpar else []
	if multi:
		bad.append(('discontinuous tag', rl, ll + ['zzz\t%s 1' % multi[0]]))
	for msg, r2, l2 in rng.sample(bad, min(12, len(bad))):
		res = load(''.join(a + '\n' for a in r2), ''.join(a + '\n' for a in l2))
		ctx.ev('refused')
		ctx.nontrivial((msg, tuple(r2)))
		ctx.ok(isinstance(res, ValueError), 'not refused: %s' % msg,
				'%r: %r\n%r', res, r2, l2)


def load(r, l):
	with open('i.rules', 'wb') as out:
		out.write(r.encode('utf8'))
	with open('i.lex', 'wb') as out:
		out.write(l.encode('utf8'))
	try:
		return Grammar('i.rules', 'i.lex', start='ROOT')
	except ValueError as err:
		return err


STRIP = re.compile('@[-0-9]+$')


def genmap(rng, ctx):
	disc = rng.random() < 0.5
	return rng, disc, gg.grammar(rng, disc, labels=['A', 'B', 'C', 'NP-X', 'D|<A>'])


def checkmap(case, ctx):
	"""A fine grammar with addressed labels, mapped to the coarse one."""
	rng, disc, coarse = case
	fine = {}
	nums = {}

	def num(a):
		if a == 'ROOT' or rng.random() < 0.3:
			return a
		x = '%s@%d' % (a, rng.randint(1, 3))
		return x
	for (r, yf), w in coarse:
		for _ in range(rng.randint(1, 3)):
			if r[1] == 'Epsilon':
				fine[(num(r[0]), 'Epsilon'), yf] = w
			else:
				fine[tuple(map(num, r)), yf] = w
	have = {r[0] for r, _ in fine}
	for (r, yf) in list(fine):
		for a in r[1:]:
			if a != 'Epsilon' and a not in have:
				base = STRIP.sub('', a)
				cand = [x for x, _ in coarse if x[0][0] == base]
				x = cand[0]
				fine[(a, ) + x[0][1:], x[1]] = 1
				have.add(a)
	while True:
		new = {a for r, _ in fine for a in r[1:]} - have - {'Epsilon'}
		if not new:
			break
		for a in sorted(new):
			x = [x for x, _ in coarse if x[0][0] == STRIP.sub('', a)][0]
			fine[(a, ) + x[0][1:], x[1]] = 1
			have.add(a)
	cg, fg = Grammar(coarse), Grammar(list(fine.items()))
	msg = fg.getmapping(cg, striplabelre=STRIP)
	used = {STRIP.sub('', a) for r, _ in fine for a in r} - {'Epsilon'}
	want = {a for (r, _), _ in coarse for a in r} - {'Epsilon'}
	ctx.eq(msg == 'label sets are equal', used == want, 'mapping of labels', (msg,
			coarse, fine))
	fg.getrulemapping(cg, STRIP)
	ctx.ev('rule mappings')
	crules = [r for r, _ in split(coarse)[0]]
	frules = [r for r in fine if r[0][1] != 'Epsilon']
	exp = [[] for _ in crules]
	for n, (r, yf) in enumerate(frules):
		exp[crules.index((tuple(STRIP.sub('', a) for a in r), yf))].append(n)
	ctx.eq([sorted(a) for a in fg.rulemapping], exp, 'rule mapping', (coarse, fine))
	ctx.nontrivial(str(fine))
	# a coarse grammar that lacks a rule or label
	if len(crules) > 1:
		drop = rng.choice([r for r in crules])
		if exp[crules.index(drop)]:
			rest = [a for a in coarse if a[0] != drop]
			labs = {r[0] for (r, _), _ in rest}
			if all(b in labs or b == 'Epsilon' for (r, _), _ in rest for b in r) \
					and 'ROOT' in labs:
				cg2 = Grammar(rest)
				ctx.ev('incorrect mappings')
				try:
					fg.getrulemapping(cg2, STRIP)
				except KeyError:
					pass
				else:
					ctx.fail('rule without coarse rule accepted', '%r %r',
							drop, coarse)
	fg2 = Grammar(list(fine.items()) + [(('ROOT', 'QQ'), ((0, ), )), (('QQ',
			'Epsilon'), ('q', ))] if False else list(fine.items()) + [
			((('ROOT', 'QQ'), ((0, ), )), 1), ((('QQ', 'Epsilon'), ('q', )), 1)])
	ctx.ev('incorrect mappings')
	try:
		fg2.getmapping(cg, striplabelre=STRIP)
	except KeyError:
		pass
	else:
		ctx.fail('label without coarse label accepted', '%r', coarse)
	fg2.getmapping(cg, striplabelre=STRIP, neverblockre=re.compile('^Q'))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'history': (gen, check, 1500 * k),
			'invalid': (geninvalid, checkinvalid, 600 * k),
			'mapping': (genmap, checkmap, 500 * k)}

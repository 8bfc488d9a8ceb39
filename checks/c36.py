"""C36: native code only accesses memory it owns.

The verdict comes from AddressSanitizer and UndefinedBehaviorSanitizer (see
``run.py``); the workloads only need to be diverse. Python exceptions are
allowed here; other checks judge when these may occur.
"""
import contextlib
import gzip
import importlib
import io
import json
import os
import pickle
import random
import re
import subprocess
import sys
import numpy as np
from discodop import (plcfrs, pcfg, kbest, coarsetofine, disambiguation,
		estimates, bit, _fragments)
from discodop.containers import (Grammar, Ctrees, Vocabulary, FixedVocabulary)
from discodop._fragments import (readtreebank, extractfragments, exactcounts,
		exactcountsslice, completebitsets, allfragments, getctrees, pygetsent)
from discodop.grammar import writegrammar
from discodop.tree import Tree
from discodop.treetransforms import binarize
import g
import gg

# checks of which the workloads are repeated here with sanitizers
OTHER = ['c04', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21',
		'c22', 'c23', 'c24', 'c25', 'c28', 'c29', 'c30', 'c37']
PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates', '_vfbit', '_vfagenda',
		'_vfchart'],
	variant='san',
	rule='(1) treebank text, well-formed and mutated, with trees around the '
	'sizes of bitset words and of the 16-bit node numbers; (2) packed '
	'treebanks, vocabularies and grammars stored in files, truncated, loaded '
	'in each mode, modified, closed, and used afterwards; (3) grammar texts, '
	'well-formed and mutated, then used with unusual arguments; (4) sentences '
	'of 0-260 words parsed with each kind of chart, followed by k-best lists, '
	'pruning and disambiguation; (5) workloads of other checks; nontrivial: a '
	'call that returned a result or raised an exception; counted by call, '
	'outcome, and stream',
	require={'calls': 60000, 'results': 40000, 'exceptions': 15000,
		'treebank texts': 250, 'treebanks read': 60, 'huge trees': 30,
		'huge trees read': 12, 'complete files': 30, 'truncated files': 300,
		'truncated grammars': 200, 'loaded pairs': 70, 'used after close': 35,
		'loaded grammars': 10, 'grammar texts': 200, 'grammars read': 20,
		'unmodified grammars': 25, 'failed updates': 4, 'sentences': 100,
		'long sentences': 20, 'short sentences': 10, 'parses cfg': 200,
		'parses lcfrs': 700, 'observations of other monitors': 500000,
		'workload c17': 12, 'workload c21': 12, 'workload c22': 50,
		'workload c24': 8, 'workload c25': 12, 'workload c29': 40,
		'workload c30': 50, 'workload c37': 20},
)


class Calls:
	"""Make calls; keep count of what happened."""
	def __init__(self, ctx, what):
		self.ctx, self.what = ctx, what

	def __call__(self, name, func, *args, **kwargs):
		self.ctx.ev('calls')
		try:
			with contextlib.redirect_stdout(io.StringIO()):
				res = func(*args, **kwargs)
		except SystemError as err:
			# native code that violates the conventions of the interpreter
			self.ctx.fail('SystemError in ' + name, '%r %r', err, args)
		except Exception as err:
			self.ctx.ev('exceptions')
			self.ctx.nontrivial((self.what, name, type(err).__name__))
			return None
		self.ctx.ev('results')
		self.ctx.nontrivial((self.what, name, type(res).__name__))
		return res


# 1. treebanks
def treetext(rng, n, labels, words):
	"""Random tree of about n nodes, in bracket format; not recursive."""
	stack, out, cnt = 0, [], 0
	while cnt < n or stack:
		if stack and (cnt >= n or (stack > 1 and rng.random() < 0.3)):
			out.append(')')
			stack -= 1
			continue
		out.append('(%s ' % rng.choice(labels))
		cnt += 1
		stack += 1
		x = rng.random()
		if x < 0.5 or cnt >= n:
			out.append('%s)' % rng.choice(words))
			stack -= 1
			if not stack:
				break
	out.append(')' * stack)
	return ''.join(out)


def flattext(n, labels, words):
	return '(%s %s)' % (labels[0], ' '.join('(%s %s)' % (labels[i % len(labels)],
			words[i % len(words)]) for i in range(n - 1)))


def mutate(rng, text, chars='()() \t\n=:0a\x00é\ud7ff',
		edits=(1, 1, 2, 5, 20)):
	text = list(text)
	for _ in range(rng.choice(edits)):
		i = rng.randrange(len(text) + 1)
		x = rng.random()
		if x < 0.3:
			text[i:i + 1] = rng.choice(chars)
		elif x < 0.6:
			text.insert(i, rng.choice(chars))
		elif x < 0.8:
			del text[i:i + rng.choice([1, 1, 3, 10])]
		else:
			j = rng.randrange(len(text) + 1)
			text[i:i] = text[j:j + rng.choice([1, 5, 30])]
	return ''.join(text)


SIZES = [1, 2, 3, 5, 20, 62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 257, 510,
		511, 512, 513, 514, 1023, 1025]


def gentext(rng, ctx):
	labels = rng.sample(['A', 'B', 'NP', 'S', 'é', 'X|<a.b>', 'L' * 300], 4)
	words = rng.sample(['a', 'b', '#', 'w' * 200, '日本', '0=', '1:2', 'c'], 4)
	lines = []
	for _ in range(rng.choice([0, 1, 2, 4])):
		n = rng.choice(SIZES if rng.random() < 0.4 else SIZES[:6])
		f = treetext if rng.random() < 0.7 else (
				lambda rng, n, a, b: flattext(n, a, b))
		line = f(rng, n, labels, words)
		if rng.random() < 0.35:
			line = mutate(rng, line)
		lines += [line] * rng.choice([1, 1, 2])
	text = '\n'.join(lines) + rng.choice(['', '\n'])
	return text, rng.choice(['bracket'] * 4 + ['discbracket', 'export'])


def usetrees(call, rng, ct, vocab):
	"""Call everything there is for a packed treebank."""
	if ct is None:
		return
	n = len(ct)
	for i in [0, n - 1, n, -1]:
		for disc in (True, False):
			call('extract', ct.extract, i, vocab, disc)
		call('extractsent', ct.extractsent, i, vocab)
		for node in (0, ct.maxnodes, ct.maxnodes - 1, 10 ** 6, -2):
			call('extract node', ct.extract, i, vocab, True, node)
	for i in (0, 1, 7, 10 ** 6, -1, -3, -5, 2 ** 31 - 1):
		call('prodrepr', vocab.prodrepr, i)
	call('repr', repr, vocab)
	if ct.maxnodes > 2000:
		return
	call('indextrees', ct.indextrees, vocab)
	kw = dict(disc=rng.random() < 0.5)
	for kw2 in (dict(approx=False), dict(approx=True),
			dict(approx=False, adjacent=True),
			dict(approx=False, twoterms=rng.choice(['A|B', '.', 'NP'])),
			dict(approx=False, debug=ct.maxnodes < 30)):
		start, end = rng.choice([(0, 0), (-1, 0), (0, n), (1, n), (0, n + 5), (n, n)])
		frags = call('extractfragments', extractfragments, ct, start, end,
				vocab, **kw, **kw2)
		if frags and not kw2['approx']:
			bitsets = list(frags.values())
			for indices in (0, 1, 2):
				call('exactcounts', exactcounts, bitsets, ct, ct, indices)
				call('exactcountsslice', exactcountsslice, bitsets, ct, ct,
						indices, start=rng.choice([None, 0, 1, n + 3]),
						end=rng.choice([None, 1, n, n + 3]),
						maxresults=rng.choice([None, 1, 5]))
	for size in (ct.maxnodes, 2, 0, 64, 30000):
		frags = call('completebitsets', completebitsets, ct, vocab, size,
				disc=kw['disc'], end=rng.choice([None, 1, n + 3]))
		if frags:
			call('exactcounts', exactcounts, frags[1], ct, ct, maxnodes=size)
			call('exactcounts', exactcounts, frags[1], ct, ct)
			call('exactcounts', exactcounts, frags[1][:1], Ctrees(), ct,
					maxnodes=size)
			call('exactcounts', exactcounts, [a[:9] for a in frags[1]], ct, ct)
		call('extractfragments', extractfragments, ct, 0, 0, vocab,
				maxnodes=size)
	if ct.maxnodes < 40:
		frags = call('allfragments', allfragments, ct, vocab,
				rng.choice([1, 2, 3, 3]), rng.choice([1, 2, 3, 999]),
				kw['disc'], rng.random() < 0.5, start=rng.choice([0, None, -1]),
				end=rng.choice([None, 1, n + 3]))


def checktext(case, ctx):
	text, fmt = case
	rng = random.Random(text)
	call = Calls(ctx, 'text')
	with open('x.mrg', 'w', encoding='utf8', errors='surrogatepass') as out:
		out.write(text)
	vocab = Vocabulary()
	ct = call('readtreebank', readtreebank, 'x.mrg', vocab, fmt,
			rng.choice([None, None, None, 1]))
	ctx.ev('treebank texts')
	if ct is not None:
		ctx.ev('treebanks read')
		ctx.sample(text[:200])
	usetrees(call, rng, ct, vocab)
	if ct is not None and rng.random() < 0.3:
		ct2 = call('readtreebank', readtreebank, 'x.mrg', vocab)
		if ct2 is not None and ct.maxnodes < 2000:
			call('indextrees', ct.indextrees, vocab)
			call('indextrees', ct2.indextrees, vocab)
			frags = call('extractfragments', extractfragments, ct, 0, 0, vocab,
					ct2, approx=False)
			if frags:
				call('exactcounts', exactcounts, list(frags.values()), ct, ct2)


# trees too large for 16-bit numbers
HUGE = [('nodes', a) for a in (8190, 16383, 16384, 16390, 20000, 32766, 32767,
		32768, 32769, 40000, 65534, 65536, 70000)] + [
		('chars', a) for a in (32766, 32767, 32768, 65535, 65536, 65600,
			70000, 100000)] + [
		('chain', a) for a in (2000, 16380)] + [
		('tree', a) for a in (16383, 16390, 32767, 32768, 40000)] + [
		('index', a) for a in (32766, 32767, 32768, 65535, 65536, 100000)]


def genhuge(rng, ctx):
	return HUGE[ctx.index % len(HUGE)] + (rng.random(), )


def checkhuge(case, ctx):
	kind, n, seed = case
	rng = random.Random(seed)
	call = Calls(ctx, 'huge ' + kind)
	vocab = Vocabulary()
	ctx.ev('huge trees')
	if kind in ('nodes', 'chars', 'chain'):
		if kind == 'nodes':
			line = flattext(n, ['A', 'B'], ['a', 'b'])
			# binarization in this format has labels of quadratic size
			line = '(R %s)' % ' '.join('(X %s)' % ' '.join(['(A a)'] * k)
					for k in [10] * (n // 20)) if rng.random() < 0 else line
			k = n // 2
			line = '(A ' + '(B (A a) ' * (k // 2) + '(A a)' + ')' * (k // 2 + 1)
			if n - k // 2 * 2 - 2 > 0:
				line = '(S %s %s)' % (line, '(A ' + '(B (A a) ' * (
						(n - k) // 2) + '(A b)' + ')' * ((n - k) // 2 + 1))
		elif kind == 'chain':
			line = '(A ' * n + 'a' + ')' * n
		else:
			line = '(S (A %s) (B b))' % ('x' * (n - 15))
		with open('x.mrg', 'w') as out:
			out.write('(S (A a) (B b))\n' + line + '\n' + '(S (A a) (B b))\n')
		ct = call('readtreebank', readtreebank, 'x.mrg', vocab)
	elif kind == 'tree':  # a flat tree, binarized to depth 14
		def rec(a, b):
			if b - a == 1:
				return Tree('A', [a])
			m = (a + b) // 2
			return Tree('X', [rec(a, m), rec(m, b)])
		k = (n + 1) // 2
		tree = rec(0, k)
		ct = Ctrees()
		call('addtrees', ct.addtrees, [(tree, ['a'] * k)], vocab)
	else:
		tree = Tree('S', [Tree('A', [0]), Tree('B', [n])])
		ct = Ctrees()
		call('addtrees', ct.addtrees, [(tree, ['a'] * (n + 1))], vocab)
	if ct is not None and len(ct):
		ctx.ev('huge trees read')
		for i in range(len(ct)):
			call('extract', ct.extract, i, vocab)
			call('extractsent', ct.extractsent, i, vocab)
		call('indextrees', ct.indextrees, vocab)
		if ct.maxnodes < 10000:
			frags = call('extractfragments', extractfragments, ct, 0, 0, vocab,
					approx=False)
			if frags:
				call('exactcounts', exactcounts, list(frags.values()), ct, ct)
		ct.tofile('x.ct')
		with Ctrees.fromfile('x.ct') as ct2:
			for i in range(len(ct)):
				call('extract', ct2.extract, i, vocab)


# 2. stored files
def gentrees(rng, n, size=12):
	labels = ['A', 'B', 'NP', 'S'][:rng.randint(1, 4)]
	res = []
	for _ in range(n):
		m = g.randtree(rng, rng.randint(1, size), disc=rng.choice([0, 0.5]),
				labels=labels, tags=['t', 'u'], maxar=2, unary=0.2)
		res.append((m, [rng.choice('abcd') for _ in g.leaves(m)]))
	return res


def genfiles(rng, ctx):
	return (gentrees(rng, rng.choice([1, 2, 10])), gg.grammar(rng,
			disc=rng.random() < 0.5), rng.random())


def truncations(rng, data, skip=range(0)):
	"""Prefixes of this file, except with these lengths."""
	yield data
	n = len(data)
	for k in {0, 1, 4, 8, 11, 12, 16, 31, 32, 33, 40, n // 2, n - 1, n - 2,
			n - 8, rng.randrange(n), rng.randrange(n)}:
		if 0 <= k < n and k not in skip:
			yield data[:k]


def closed(call, ct, vocab, rng):
	call('close', ct.close)
	call('close', vocab.close)
	usetrees(call, rng, ct, vocab)
	call('len', len, ct)
	call('pickle', pickle.dumps, ct)
	call('pickle', pickle.dumps, vocab)
	call('makeindex', vocab.makeindex)
	call('tofile', ct.tofile, 'y.ct')
	call('close', ct.close)
	call('close', vocab.close)


def checkfiles(case, ctx):
	bank, rules, seed = case
	rng = random.Random(seed)
	call = Calls(ctx, 'files')
	trees = [(g.totree(m, Tree), list(s)) for m, s in bank]
	res = getctrees(trees)
	ct, vocab = res['trees1'], res['vocab']
	ct.tofile('a.ct')
	vocab.tofile('a.voc')
	more = [(g.totree(m, Tree), list(s)) for m, s in gentrees(rng, 3)]
	with open('a.ct', 'rb') as inp:
		data = inp.read()
	with open('a.voc', 'rb') as inp:
		vdata = inp.read()
	# the format of the index is the concern of another library
	state = ct.__getstate__()
	index = range(32, len(data) - len(state['trees']) - len(state['nodes']))
	for what, variants in (('ct', truncations(rng, data, index)),
			('voc', truncations(rng, vdata))):
		for x in variants:
			with open('x.ct', 'wb') as out:
				out.write(x if what == 'ct' else data)
			with open('x.voc', 'wb') as out:
				out.write(x if what == 'voc' else vdata)
			ctx.ev('truncated files' if x not in (data, vdata)
					else 'complete files')
			for load in (Ctrees.fromfile, Ctrees.fromfilemut):
				for vload in (Vocabulary.fromfile, FixedVocabulary.fromfile):
					c = call('load', load, 'x.ct')
					v = call('vload', vload, 'x.voc')
					if c is None or v is None:
						continue
					ctx.ev('loaded pairs')
					usetrees(call, rng, c, v)
					if isinstance(v, FixedVocabulary):
						call('makeindex', v.makeindex)
					if isinstance(v, FixedVocabulary):  # queries
						q = call('getctrees', getctrees, more, vocab=v,
								index=False)
						if q:
							q = q['trees1']
							_, frags = completebitsets(q, v, q.maxnodes,
									disc=True, tostring=False)
							for indices in (0, 1, 2):
								call('query', exactcountsslice, frags, q, c,
										indices=indices, maxnodes=q.maxnodes)
					elif what == 'ct' or x == vdata:
						call('addtrees', c.addtrees, more, v)
					usetrees(call, rng, c, v)
					call('pickle', lambda: pickle.loads(pickle.dumps(c)))
					call('pickle', lambda: pickle.loads(pickle.dumps(v)))
					if isinstance(v, FixedVocabulary):
						ctx.ev('used after close')
						closed(call, c, v, rng)
	# without any trees, or another vocabulary
	empty = Ctrees()
	usetrees(call, rng, empty, Vocabulary())
	call('pickle', lambda: pickle.loads(pickle.dumps(empty)))
	call('tofile', empty.tofile, 'e.ct')
	for load in (Ctrees.fromfile, Ctrees.fromfilemut):
		c = call('load', load, 'e.ct')
		if c is not None:
			usetrees(call, rng, c, vocab)
			vocab2 = Vocabulary()
			call('addtrees', c.addtrees, more, vocab2)
			usetrees(call, rng, c, vocab2)
	call('addtrees', empty.addtrees, [], Vocabulary())
	for bad in (Tree('S', [0, 1]), Tree('S', []), Tree('A', [Tree('B', [0]),
			Tree('C', [1]), Tree('D', [2])]), Tree('A', [Tree('B', [5])]),
			Tree('A', [Tree('B', [-3])]), Tree('A', ['x'])):
		call('addtrees', empty.addtrees, [(bad, ['a', 'b', 'c'])], vocab)
	for k in (31, 32, 33, 40):  # fan-out
		bad = Tree('S', [Tree('A', [Tree('t', [i]) for i in range(0, 2 * k, 2)]
			), Tree('B', [Tree('t', [i]) for i in range(1, 2 * k, 2)])])
		call('addtrees', empty.addtrees, [(binarize(bad), ['a'] * (2 * k))],
				vocab)
		usetrees(call, rng, empty, vocab)
	# grammar
	gr = Grammar(rules)
	gr.tobinfile('g.bin')
	text, lex = writegrammar(rules)
	with open('g.rules', 'w', encoding='utf8') as out:
		out.write(text)
	with open('g.lex', 'w', encoding='utf8') as out:
		out.write(lex)
	with open('g.bin', 'rb') as inp:
		data = inp.read()
	for x in truncations(rng, data):
		with open('x.bin', 'wb') as out:
			out.write(x)
		x = call('frombinfile', Grammar.frombinfile, 'x.bin', 'g.rules',
				'g.lex')
		if x is not None:
			ctx.ev('loaded grammars')
			usegrammar(call, rng, x, rules)
		ctx.ev('truncated grammars')
	for name in ('g.rules', 'g.lex'):
		with open(name, 'rb') as inp:
			data = gzip.compress(inp.read())
		for x in truncations(rng, data):
			with open('x.gz', 'wb') as out:
				out.write(x)
			call('gzip', Grammar, *(('x.gz', 'g.lex') if name == 'g.rules'
					else ('g.rules', 'x.gz')))


# 3. grammars
def usegrammar(call, rng, gr, rules, sents=()):
	for i in (0, gr.numrules - 1, gr.numrules, gr.numrules + 1, 10 ** 6, -1):
		call('rulestr', gr.rulestr, i)
	if gr.numrules:
		call('incrementrulecount', gr.incrementrulecount, gr.numrules - 1, 1)
	call('switch', gr.switch, 'default', rng.random() < 0.5)
	call('switch', gr.switch, 'foo', True)
	call('testgrammar', gr.testgrammar)
	call('str', str, gr)
	call('repr', repr, gr)
	call('getlabels', gr.getlabels)
	call('getwords', gr.getwords)
	call('getpos', gr.getpos)
	for w in ('a', '', '\x00', 'zzz', '日'):
		call('getlexprobs', gr.getlexprobs, w)
	for r, yf in ((('S', 'NP'), ((0, ), )), (('S', ), ((0, ), )),
			(('ROOT', 'A', 'B', 'C'), ((0, 1, 2), )),
			(('S', 'NP', 'VP'), ((0, 1) * 20, )),
			(('S', 'NP', 'VP'), ((0, 1) * 16, )), (('S', 'Epsilon'), ('a', )),
			(('S', 'NP'), ()), (('S', 'NP', 'VP'), ((), ))):
		call('getruleno', gr.getruleno, r, yf)
	call('getmapping', gr.getmapping, gr, None)
	call('getmapping', gr.getmapping, gr, re.compile('x'))
	call('getrulemapping', gr.getrulemapping, gr, re.compile('x'))
	seqs = [range(0, gr.numrules, 7), [gr.numrules - 1][:gr.numrules], [],
			None, range(gr.numrules)]
	seq = rng.choice(seqs)
	call('setmask', gr.setmask, seq)
	for _ in range(3):
		sent = gg.sentence(rng, rules, 5)
		parseall(call, rng, gr, sent)
	call('setmask', gr.setmask, None)
	if rng.random() < 0.5:
		text, lex = writegrammar(rules)
		if rng.random() < 0.6:
			text = mutate(rng, text, GRCHARS, (1, 1, 1, 1, 5))
		if rng.random() < 0.6:
			lex = mutate(rng, lex, GRCHARS, (1, 1, 1, 1, 5))
		if call('addrules', lambda: gr.addrules(text.encode('utf8', 'replace'),
				lex.encode('utf8', 'replace')) or True) is None:
			return  # see checkfailed
		call('str', str, gr)
		call('rulestr', gr.rulestr, gr.numrules - 1)
		parseall(call, rng, gr, gg.sentence(rng, rules, 5))
		call('pickle', lambda: pickle.loads(pickle.dumps(gr)))


GRCHARS = '\t\t\n\n ,01/.ea-\x00é'


def gengrammar(rng, ctx):
	disc = rng.random() < 0.5
	rules = gg.grammar(rng, disc=disc)
	if disc and rng.random() < 0.5:
		rules = gg.swap(rng, rules, 0.4)
	return rules, rng.random()


def checkgrammar(case, ctx):
	rules, seed = case
	rng = random.Random(seed)
	call = Calls(ctx, 'grammar')
	bitpar = rng.random() < 0.3
	try:
		text, lex = writegrammar(rules, bitpar=bitpar)
	except ValueError:
		text, lex = writegrammar(rules)
	if rng.random() < 0.8:
		k = rng.random()
		if k < 0.6:
			text = mutate(rng, text, GRCHARS, (1, 1, 1, 1, 5))
		if k > 0.4:
			lex = mutate(rng, lex, GRCHARS, (1, 1, 1, 1, 5))
		if rng.random() < 0.1:
			yf = rng.choice([',', '', '0' * 200, '01' * 15 + '0', '01' * 16,
					'01' * 17, ',0', '0,', '0,,0', '0,' * 300 + '0', '2', '1',
					'01' * 15, ','.join('01' * 15), ','.join('01' * 16)])
			text += '%s\tX\tY\t%s\t1\n' % (rng.choice(['S', 'Z']), yf)
	else:
		ctx.ev('unmodified grammars')
	for name, x in (('x.rules', text), ('x.lex', lex)):
		with open(name, 'wb') as out:
			out.write(x.encode('utf8', 'replace'))
	ctx.ev('grammar texts')
	gr = call('Grammar', Grammar, 'x.rules', 'x.lex', rng.choice(
			['ROOT', 'ROOT', 'S', 'foo']))
	if gr is not None:
		ctx.ev('grammars read')
		usegrammar(call, rng, gr, rules)


# 4. parsing
def usechart(call, rng, chart, gr, sent):
	"""Everything there is for a chart."""
	if chart is None:
		return
	n = chart.numitems()
	for i in (range(1, n + 1) if n < 50 else (1, n // 2, n - 1, n)
			) if isinstance(chart, plcfrs.LCFRSChart) else ():
		call('indices', chart.indices, i)
		call('itemstr', chart.itemstr, i)
	for label in ('ROOT', 'S', 'NP', 'foo', 'Epsilon', ''):
		for idx in ([0], [len(sent) - 1], [0, 2], range(len(sent))):
			if not sent or max(idx) >= len(sent):
				continue
			call('itemid', chart.itemid, label, idx)
	call('root', chart.root)
	call('bool', bool, chart)
	call('contains', chart.__contains__, 1)
	call('stats', chart.stats)
	for a, b in ((0, len(sent)), (0, 1), (len(sent) - 1, len(sent)),
			(len(sent) // 2, len(sent))):
		call('bestsubtree', chart.bestsubtree, a, b)
	if n < 2000:
		call('str', str, chart)
	call('viterbi', disambiguation.viterbiderivation, chart)
	if not chart:
		for k in (0, 1, 0.01):
			call('prunechart', coarsetofine.prunechart, chart, gr, k, False,
					False, False)
		return
	for k in (1, rng.choice([2, 10, 100])):
		call('lazykbest', kbest.lazykbest, chart, k)
		for method in ('mpp', 'mpd', 'shortest', 'sl-dop-simple', 'sl-dop',
				'mcp', 'foo'):
			if call('getderivations', lambda: disambiguation.getderivations(
					chart, k, True) or True):
				call(method, disambiguation.marginalize, method, chart,
						sent=sent, k=k, sldop_n=rng.choice([1, 7]),
						mcplambda=rng.choice([0, 0.5, 1]))
	call('posterior', coarsetofine.posteriorthreshold, chart,
			rng.choice([0, 1e-5, 1e-3, 0.5, 2]))
	for k in (0, 1, 50, 0.01):
		call('getmapping', gr.getmapping, gr)
		finecfg = gr.maxfanout == 1 and rng.random() < 0.5
		res = call('prunechart', coarsetofine.prunechart, chart, gr, k,
				False, False, finecfg)
		if res and finecfg:
			call('cfg whitelist', pcfg.parse, sent, gr, whitelist=res[0])
		elif res:
			call('parse whitelist', plcfrs.parse, sent, gr, whitelist=res[0])
	call('filter', chart.filter)


def parseall(call, rng, gr, sent, deep=True):
	tags = rng.choice([None, None, ['A'] * len(sent), ['NN'] * (len(sent) + 3),
			[], ['t'], [None] * len(sent)])
	for name, func, kwargs in (
			('cfg', pcfg.parse, {}),
			('cfg tags', pcfg.parse, dict(tags=tags)),
			('cfg beam', pcfg.parse, dict(beam_beta=rng.choice([1e-3, 0.9]),
				beam_delta=rng.choice([0, 1, 40, 100]))),
			('lcfrs', plcfrs.parse, {}),
			('lcfrs tags', plcfrs.parse, dict(tags=tags)),
			('lcfrs not exhaustive', plcfrs.parse, dict(exhaustive=False)),
			('lcfrs beam', plcfrs.parse, dict(beam_beta=rng.choice(
				[0.001, 5.]), beam_delta=rng.choice([0, 1, 40, 100]))),
			('lcfrs start', plcfrs.parse, dict(start=rng.choice(['S', 'x']))),
			('cfg start', pcfg.parse, dict(start=rng.choice(['S', 'x'])))):
		res = call(name, func, list(sent), gr, **kwargs)
		if res is not None:
			call.ctx.ev('parses ' + name.split()[0])
			if deep and rng.random() < 0.5:
				usechart(call, rng, res[0], gr, list(sent))


LENGTHS = [0, 1, 2, 3, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127,
		128, 129, 130, 191, 192, 193, 255, 256, 260]
# right-branching, and two discontinuous grammars: few edges for long sentences
LONG = {
	'right': ([(('ROOT', 'A', 'S'), ((0, 1), )), (('ROOT', 'A'), ((0, ), )),
		(('S', 'A', 'S'), ((0, 1), )), (('S', 'A'), ((0, ), ))], ['a']),
	'left': ([(('ROOT', 'S', 'A'), ((0, 1), )), (('ROOT', 'A'), ((0, ), )),
		(('S', 'S', 'A'), ((0, 1), )), (('S', 'A'), ((0, ), ))], ['a']),
	# first word with the last word
	'wrap': ([(('ROOT', 'X', 'S'), ((0, 1, 0), )), (('ROOT', 'A'), ((0, ), )),
		(('X', 'A', 'B'), ((0, ), (1, ))), (('S', 'A', 'S'), ((0, 1), )),
		(('S', 'A'), ((0, ), ))], ['a', 'b']),
	# alternating
	'alternate': ([(('ROOT', 'X', 'B'), ((0, 1, 0), )),
		(('X', 'A', 'C'), ((0, ), (1, ))), (('X', 'X', 'B'), ((0, ), (0, 1))),
		(('ROOT', 'A'), ((0, ), ))], ['a', 'b', 'c']),
}


def genlong(rng, ctx):
	name = rng.choice(sorted(LONG))
	n = LENGTHS[ctx.index % len(LENGTHS)]
	rules, words = LONG[name]
	rules = list(rules) + [((w.upper(), 'Epsilon'), (w, )) for w in words]
	labels = {a for r, _ in rules for a in r}
	rules = [(r, rng.choice([0.5, 1])) for r in [(a, b) for a, b in rules]]
	for w in 'abc':
		if w not in words:
			rules.append((((w.upper(), 'Epsilon'), (w, )), 1))
	if name == 'wrap':
		sent = ['a'] * (n - 1) + ['b']
	elif name == 'alternate':
		sent = ['a'] + [rng.choice('bc') for _ in range(n - 1)]
	else:
		sent = ['a'] * n
	sent = sent[:n]
	if sent and rng.random() < 0.1:
		sent[rng.randrange(n)] = 'unknown'
	return name, rules, sent, len(labels), rng.random()


def checklong(case, ctx):
	name, rules, sent, _, seed = case
	rng = random.Random(seed)
	call = Calls(ctx, 'long')
	gr = call('Grammar', Grammar, rules)
	if gr is None:
		return
	if len(sent) > 66 and name != 'wrap':
		parse = dict(deep=False)
	else:
		parse = dict(deep=len(sent) < 34 or rng.random() < 0.3)
	parseall(call, rng, gr, sent, **parse)
	ctx.ev('long sentences' if len(sent) > 60 else 'short sentences')
	maxlen = rng.choice([1, 2, 5, 9])
	if len(sent) < 20:
		for est in (estimates.getestimates, estimates.getpcfgestimates):
			out = call(est.__name__, est, gr, maxlen, 'ROOT')
			if out is None:
				continue
			if est is estimates.getpcfgestimates:
				call('estimates', plcfrs.parse, list(sent), gr, exhaustive=False,
						estimates=('SX', out[0] if isinstance(out, tuple)
						else out))
			else:
				call('estimates', plcfrs.parse, list(sent), gr, exhaustive=False,
						estimates=('SXlrgaps', out))
				call('estimates fat', plcfrs.parse, ['a'] * 70, gr,
						exhaustive=False, estimates=('SXlrgaps', out))


def genparse(rng, ctx):
	disc = rng.random() < 0.5
	rules = gg.grammar(rng, disc=disc)
	if disc and rng.random() < 0.5:
		rules = gg.swap(rng, rules, 0.4)
	return rules, [gg.sentence(rng, rules, 7, unknown=0.1) for _ in range(3)], (
			rng.random())


def checkparse(case, ctx):
	rules, sents, seed = case
	rng = random.Random(seed)
	call = Calls(ctx, 'parse')
	gr = call('Grammar', Grammar, rules)
	if gr is None:
		return
	for sent in sents:
		parseall(call, rng, gr, sent)
		ctx.ev('sentences')


# use of a grammar after an attempt to extend it with invalid rules; in a
# separate process, because of a known finding.
def genfailed(rng, ctx):
	return gg.grammar(rng, disc=False), ctx.index


BADRULES = '''
import json, os, sys
sys.path[:0] = json.load(sys.stdin)
from discodop.containers import Grammar
from discodop import plcfrs, pcfg
lines, lex, bad = eval(open('case.txt').read())
gr = Grammar(lines)
try:
	gr.addrules(*bad)
except ValueError:
	print('exception')
for sent in lex:
	for func in plcfrs.parse, pcfg.parse:
		try:
			func(sent, gr)
		except ValueError:
			pass
	str(gr)
print('survived')
'''


def checkfailed(case, ctx):
	rules, n = case
	bad = [(b'S\tNP\tVP\t01\t0.5\nQ\tR\t0\t1\n' * 40, b'a\tA 1\n'),
			(b'ROOT\tQ\t0\t0\n', b''), (b'ROOT\tQ\t0\t1\n', b'a\tQ\n'),
			(b'Q\tQ\t0\t1\nROOT\tS\tS\t0,1\t1\n', b'a\tQ 1\n'),
			][n % 4]
	with open('case.txt', 'w') as out:
		out.write(repr((rules, [['a', 'b'], ['a'], ['c']], bad)))
	env = dict(os.environ)
	for a in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
		env[a] = ':'.join(b for b in env.get(a, '').split(':')
				if not b.startswith('log_path'))
	p = subprocess.run([sys.executable, '-c', BADRULES], env=env,
			input=json.dumps(sys.path), capture_output=True, text=True)
	ctx.ev('failed updates' if 'exception' in p.stdout else 'updates')
	ctx.nontrivial(('failed update', n % 4, p.returncode))
	err = re.search('AddressSanitizer: ([-a-zA-Z]+)|runtime error: (.*)',
			p.stderr)
	ctx.ok(p.returncode == 0 and 'survived' in p.stdout and not err,
			'use of grammar after invalid addrules', '%s %r %s', err and err[0],
			rules, p.stderr[-1500:])


# 5. other workloads
class Ignore:
	"""Monitoring context which does not judge."""
	def __init__(self, ctx, pid):
		self.__dict__.update(ctx.__dict__)
		self.ctx, self.pid, self.thorough = ctx, pid, False
		self.events = {}

	def ev(self, name, n=1):
		self.ctx.events['observations of other monitors'] += n

	def ok(self, *args):
		self.ev('')

	eq = ok

	def nontrivial(self, sig):
		self.ctx.nontrivial((self.pid, sig))

	def sample(self, obj):
		pass

	def fail(self, *args):
		raise ValueError('other check')

	def rng(self, stream, i):
		return self.ctx.rng(stream, i)


def others(ctx, pid, share):
	mod = importlib.import_module('checks.' + pid)
	result = {}
	sub = Ignore(ctx, pid)
	for name, (gen, check, n) in mod.streams(sub).items():
		def gen1(rng, ctx, gen=gen, sub=sub, name=name):
			sub.stream, sub.index = name, ctx.index
			return gen(rng, sub)

		def check1(case, ctx, check=check, sub=sub, name=name, pid=pid):
			try:
				check(case, sub)
			except Exception:
				ctx.ev('ended early')
			ctx.ev('workload ' + pid)

		result[pid + '-' + name.replace(' ', '_')] = (gen1, check1,
				max(8, int(n * share)))
	return result


def streams(ctx):
	k = 15 if ctx.thorough else 1
	result = dict(
			text=(gentext, checktext, 400 * k),
			huge=(genhuge, checkhuge, len(HUGE)),
			files=(genfiles, checkfiles, 24 * k),
			grammar=(gengrammar, checkgrammar, 300 * k),
			update=(genfailed, checkfailed, 8),
			parse=(genparse, checkparse, 60 * k),
			long=(genlong, checklong, 78 * k))
	for pid in OTHER:
		result.update(others(ctx, pid, 0.3 if ctx.thorough else 0.03))
	return result

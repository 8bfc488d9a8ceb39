"""C31: packed treebanks and vocabularies survive storage unchanged."""
import os
import pickle
import re
from discodop.tree import Tree, ParentedTree, escape, unescape, discbrackettree
from discodop.treetransforms import binarize, handledisc
from discodop.treebank import writetree, READERS
from discodop.containers import Ctrees, Vocabulary, FixedVocabulary
from discodop._fragments import getctrees, readtreebank
import g

PLAN = dict(
	mods=['bit', 'containers', '_fragments'], variant='san',
	rule='treebanks of 0-30 (binarized, possibly discontinuous) trees of 1-25 '
	'words, now and then a tree of hundreds of nodes, sharing productions, with '
	'words and labels in many scripts; packed at once, incrementally, from '
	'bracket, discbracket and export files; random histories of add/save/load/'
	'mmap/pickle; nontrivial: at least 3 trees sharing a production, counted '
	'by treebank',
	require={'treebanks': 100, 'trees compared': 4000, 'nodes compared': 20000,
		'saves': 80, 'loads': 40, 'mmaps': 80, 'pickles': 35,
		'adds after load': 40, 'files read': 45, 'discontinuous': 300,
		'frontier': 200, 'index entries': 4000, 'malformed': 500,
		'big trees': 3, 'two treebanks': 24, 'same bytes': 50},
)
WORDS = g.WORDS + ['S', 'NP', 'Epsilon', 'é', '日本', '𝒳', '"', '=', '3=x',
		'a=b', '#', '%', '|', '/', "'", '0', 'x' * 300, '<', '&amp;', 'ﬁ', '\\']
LABELS = g.LABELS[:4] + ['NP-SBJ', 'Ä', '$,', 'X*1', 'S_2']
# contains the marker of binarization, so cannot be binarized again
BINLABELS = LABELS + ['NP|<A,B>', 'S|<NP.VP>']


def binmodel(rng, n, disc, labels, tags, unary, chain=False):
	"""A binary tree; every terminal under a unary preterminal."""
	if chain:  # left- or right-branching
		m = (tags[0], (0, ))
		for i in range(1, n):
			m = (rng.choice(labels), (m, (rng.choice(tags), (i, ))))
		return m
	return g.randtree(rng, n, disc=disc, labels=labels, tags=tags, maxar=2,
			unary=unary, root=rng.choice([None, 'ROOT']))


def gentreebank(rng, ntrees, disc, big=False, frontier=0):
	labels = rng.sample(BINLABELS, rng.choice([1, 3, 6]))
	tags = rng.sample(g.TAGS + ['Ö', '$,', 'S'], rng.choice([1, 3, 5]))
	words = rng.sample(WORDS, rng.choice([3, 10, len(WORDS)]))
	result = []
	for _ in range(ntrees):
		n = rng.choice([1, 2, 3, 5, 8, 13, 25])
		if big and sum(len(s) > 100 for _, s in result) < 2 and (
				rng.random() < 0.4):
			n = rng.choice([200, 511, 530])
			m = binmodel(rng, n, 0, labels, tags, 0.1, chain=True)
		else:
			m = binmodel(rng, n, disc, labels, tags, rng.choice([0, 0.1, 0.4]))
		sent = [None if n > 1 and rng.random() < frontier
				else rng.choice(words) for _ in range(n)]
		result.append((m, sent))
	return result


CACHE = {}


def prods(m, sent):
	"""{production}; independent of grammar.py. Fan-out > 32 not supported."""
	key = id(m), id(sent)
	if key in CACHE:
		return CACHE[key]
	result = set()
	for label, ch in g.nodes(m):
		if isinstance(ch[0], int):
			w = sent[ch[0]]
			result.add((label, ) if w is None else (label, 'W', escape(w)))
		else:
			yf = ''
			prev = None
			order = sorted((i, k) for k, c in enumerate(ch)
					for i in g.leaves(c))
			for i, k in order:
				if prev is None:
					yf += str(k)
				elif i != prev[0] + 1:
					yf += ',' + str(k)
				elif k != prev[1]:
					yf += str(k)
				prev = i, k
			result.add((label, yf) + tuple(c[0] for c in ch))
	CACHE[key] = result
	return result


def reprof(p):
	if len(p) == 1:
		return '%s %s %s %s' % ('', p[0], repr(None), '')
	if p[1] == 'W':
		return '%s %s %s %s' % ('', p[0], repr(p[2]), '')
	return '%s %s %s %s' % (p[1], p[0], p[2], p[3] if len(p) > 3 else '')


def expected(m, sent):
	"""The text form."""
	return '(%s %s)' % (m[0], ' '.join(expected(c, sent)
			if isinstance(c, tuple) else '%d=%s' % (c, ''
				if sent[c] is None else escape(sent[c])) for c in m[1]))


def content(ct, vocab, bank, ctx, what, index=True, hasindex=True):
	"""Compare everything that can be read from ct with the plain trees."""
	ctx.eq(len(ct), len(bank), 'len', '%s: number of trees' % what)
	nnodes = [len(g.nodes(m)) for m, _ in bank]
	ctx.eq((ct.numnodes, ct.numwords, ct.maxnodes),
			(sum(nnodes), sum(len(s) for _, s in bank),
				max(nnodes, default=0)), 'totals',
			'%s: number of nodes, words, max nodes' % what)
	for n, (m, sent) in enumerate(bank):
		got = ct.extract(n, vocab, disc=True)
		ctx.eq(got, expected(m, sent), 'extract',
				'%s: tree %d of %d differs' % (what, n, len(bank)))
		ctx.ev('trees compared')
		ctx.eq(ct.extractsent(n, vocab),
				[None if w is None else escape(w) for w in sent],
				'extractsent', '%s: sentence %d differs' % (what, n))
		if g.fanout(m) == 1 and all(g.fanout(x) == 1 for x in g.nodes(m)):
			want = g.tostr(m, lambda i: '' if sent[i] is None
					else escape(sent[i]))
			ctx.eq(ct.extract(n, vocab, disc=False), want, 'extract cont',
					'%s: continuous tree %d differs' % (what, n))
		else:
			ctx.ev('discontinuous')
		if nnodes[n] < 60 and n < 5:
			got = sorted(ct.extract(n, vocab, disc=True, node=k)
					for k in range(nnodes[n]))
			ctx.eq(got, sorted(expected(x, sent) for x in g.nodes(m)),
					'subtrees', '%s: subtrees of tree %d differ' % (what, n))
			ctx.ev('nodes compared', len(got))
	for n in (-1, len(bank)):
		try:
			ct.extract(n, vocab)
		except IndexError:
			ctx.ev('index errors')
		else:
			ctx.fail('range', '%s: tree %d of %d' % (what, n, len(bank)))
	if not index:
		return
	want = {}
	for n, (m, sent) in enumerate(bank):
		for p in prods(m, sent):
			want.setdefault(reprof(p), set()).add(n)
	got = {}
	for k, rb in enumerate(ct.prodindex):
		if rb:
			key = vocab.prodrepr(k)
			ctx.ok(key not in got, 'dup prod', '%s: two numbers for production '
					'%r' % (what, key))
			got[key] = set(rb)
			ctx.ev('index entries', len(got[key]))
	ctx.eq(got, want, 'prodindex', '%s: index of productions' % what)


def totrees(bank, cls=Tree):
	return [(g.totree(m, cls), list(sent)) for m, sent in bank]


def raw(path):
	with open(path, 'rb') as inp:
		return inp.read()


def genhistory(rng, ctx):
	big = rng.random() < 0.05
	bank = gentreebank(rng, rng.choice([1, 2, 4, 9, 5 if big else 30]),
			rng.choice([0, 0.5]), big=big, frontier=rng.choice([0, 0, 0, 0.3]))
	n = len(bank)
	ops = []
	pos = rng.choice([0, 1, n // 2, n])
	ops.append((rng.choice(['getctrees', 'addtrees', 'getctrees']), pos))
	while pos < n or (rng.random() < 0.5 and len(ops) < (4 if big else 12)):
		op = rng.choice(['add', 'add', 'save', 'pickle', 'map'])
		if big and len(ops) > 4:
			op = 'add'
		if op == 'add':
			if pos == n:
				continue
			k = rng.randint(1 + (n - pos) // 3, n - pos)
			ops.append(('add', k))
			pos += k
		else:
			ops.append((op, 0))
	return dict(bank=bank, ops=ops, share=rng.random() < 0.5)


def checkhistory(case, ctx):
	CACHE.clear()
	bank, ops = case['bank'], case['ops']
	ctx.ev('treebanks')
	if any(len(s) > 100 for _, s in bank):
		ctx.ev('big trees')
	ctx.ev('frontier', sum(w is None for _, s in bank for w in s))
	trees = totrees(bank)
	op, pos = ops[0]
	vocab = Vocabulary()
	if op == 'getctrees':
		res = getctrees(trees[:pos], None, vocab)
		ct = res['trees1']
		ctx.ok(res['vocab'] is vocab, 'vocab', 'other vocabulary returned')
		ctx.ok(res['trees2'] is None, 'trees2', 'second treebank returned')
	else:
		ct = Ctrees()
		ct.addtrees(trees[:pos], vocab)
	loaded = None
	history = [ops[0]]
	for i, (op, k) in enumerate(ops[1:]):
		history.append((op, k))
		what = 'after %s' % (history, )
		if op == 'add':
			ct.addtrees(trees[pos:pos + k], vocab)
			pos += k
			if loaded:
				ctx.ev('adds after load')
		elif op == 'save':
			ct.tofile('x%d.ct' % i)
			vocab.tofile('x%d.idx' % i)
			ctx.ev('saves')
			ct = Ctrees.fromfilemut('x%d.ct' % i)
			vocab = Vocabulary.fromfile('x%d.idx' % i)
			os.unlink('x%d.ct' % i)
			os.unlink('x%d.idx' % i)
			loaded = True
			ctx.ev('loads')
		elif op == 'pickle':
			proto = 2 + i % 4
			vocab = pickle.loads(pickle.dumps(vocab, protocol=proto))
			ct = pickle.loads(pickle.dumps(ct, protocol=proto))
			loaded = True
			ctx.ev('pickles')
		elif op == 'map':
			ct.tofile('m%d.ct' % i)
			vocab.tofile('m%d.idx' % i)
			with Ctrees.fromfile('m%d.ct' % i) as ro, \
					FixedVocabulary.fromfile('m%d.idx' % i) as rv:
				content(ro, rv, bank[:pos], ctx, 'memory map ' + what)
				rv.makeindex()
				ctx.eq(repr(rv), repr(vocab), 'vocab', 'numbers of prods/labels')
				rv2 = pickle.loads(pickle.dumps(rv))
				content(ro, rv2, bank[:pos], ctx, 'pickled map ' + what)
				# same productions get the same numbers, nothing is added
				rest = getctrees(trees[pos:], None, rv2, index=False)['trees1']
				ctx.eq(repr(rv2), repr(vocab), 'fixed', 'fixed vocabulary grew')
				known = set()
				for m, sent in bank[:pos]:
					known |= prods(m, sent)
				for n, (m, sent) in enumerate(bank[pos:]):
					if prods(m, sent) <= known:
						ctx.eq(rest.extract(n, rv2), expected(m, sent), 'fixed',
								'tree packed with fixed vocabulary')
						ctx.ev('fixed vocabulary')
					elif not {x[0] for x in g.nodes(m)} & {
							p[0] for p in known}:
						ctx.ok('<UNKNOWN>' in rest.extract(n, rv2), 'unknown',
								'unknown production has a label')
			os.unlink('m%d.ct' % i)
			os.unlink('m%d.idx' % i)
			ctx.ev('mmaps')
		content(ct, vocab, bank[:pos], ctx, what)
	# all at once
	ref = getctrees(trees, None, None)
	content(ref['trees1'], ref['vocab'], bank, ctx, 'at once')
	if bank:
		ct.tofile('a.ct')
		ref['trees1'].tofile('b.ct')
		vocab.tofile('a.idx')
		ref['vocab'].tofile('b.idx')
		ctx.ok(raw('a.ct') == raw('b.ct'), 'bytes', 'packed treebank after %s '
				'has other bytes than when built at once' % (ops, ))
		ctx.ok(raw('a.idx') == raw('b.idx'), 'bytes', 'vocabulary after %s has '
				'other bytes than when built at once' % (ops, ))
		ctx.ev('same bytes')
	allp = [p for m, sent in bank for p in prods(m, sent)]
	if len(bank) >= 3 and len(set(allp)) < len(allp):
		ctx.nontrivial((len(bank), len(set(allp)), len(ops)))
		ctx.sample(dict(trees=len(bank), ops=ops, prods=len(set(allp))))


def gentwo(rng, ctx):
	return dict(a=gentreebank(rng, rng.choice([1, 3, 8]), rng.choice([0, 0.5])),
			b=gentreebank(rng, rng.choice([1, 3, 8]), rng.choice([0, 0.5])),
			index=rng.random() < 0.7)


def checktwo(case, ctx):
	CACHE.clear()
	a, b = case['a'], case['b']
	res = getctrees(totrees(a), totrees(b, ParentedTree), index=case['index'])
	vocab = res['vocab']
	ctx.ev('two treebanks')
	content(res['trees1'], vocab, a, ctx, 'first', index=case['index'])
	content(res['trees2'], vocab, b, ctx, 'second', index=case['index'])
	res['trees1'].indextrees(vocab)
	res['trees2'].indextrees(vocab)
	content(res['trees1'], vocab, a, ctx, 'first')
	content(res['trees2'], vocab, b, ctx, 'second')
	one = Vocabulary()
	x = getctrees(totrees(a), None, one)['trees1']
	before = {one.prodrepr(n) for n in range(len(x.prodindex))}
	y = getctrees(totrees(b), None, one)['trees1']
	content(x, one, a, ctx, 'first alone')
	content(y, one, b, ctx, 'second alone')
	for ct, bank, what in ((x, a, 'first'), (y, b, 'second')):
		ct.tofile('s.ct')
		one.tofile('s.idx')
		with Ctrees.fromfile('s.ct') as ro:
			content(ro, Vocabulary.fromfile('s.idx'), bank, ctx,
					'stored ' + what)
		ctx.ev('saves')
		ctx.ev('mmaps')
	seq = [vocab.prodrepr(n) for n in range(len(y.prodindex))]
	ctx.eq(seq, [one.prodrepr(n) for n in range(len(y.prodindex))],
			'numbering', 'production numbers depend on how trees were added')
	ctx.ok(before <= set(seq), 'vocab', 'productions disappeared')


# reading files
def genfile(rng, ctx):
	fmt = rng.choice(['bracket', 'bracket', 'discbracket', 'export'])
	bank = []
	labels = rng.sample(LABELS if fmt == 'bracket' else g.LABELS,
			rng.choice([1, 3, 6]))
	tags = rng.sample(g.TAGS, rng.choice([1, 3]))
	words = [w for w in WORDS if w != '<']
	big = rng.random() < 0.06
	for i in range(rng.choice([1, 2, 5, 20])):
		n = rng.choice([1, 2, 3, 5, 8, 13, 25])
		if big and i == 0:
			n = rng.choice([60, 300, 600] if fmt == 'bracket' else [60, 120])
		m = g.randtree(rng, n, disc=0 if n > 25 or fmt == 'bracket' else 0.4,
				labels=labels, tags=tags, maxar=rng.choice([2, 3, 5, 30]),
				unary=rng.choice([0, 0.1, 0.4]))
		bank.append((m, g.randsent(rng, n, words=words)))
	return dict(bank=bank, fmt=fmt, limit=rng.choice([None, None, 1, 3, 99]),
			space=rng.choice([' ', '  ']), dup=rng.random() < 0.5)


def checkfile(case, ctx):
	CACHE.clear()
	bank, fmt, limit = case['bank'], case['fmt'], case['limit']
	ctx.ev('treebanks')
	if any(len(s) > 100 for _, s in bank):
		ctx.ev('big trees')
	with open('f', 'w', encoding='utf8') as out:
		for n, (m, sent) in enumerate(bank, 1):
			text = writetree(g.totree(m, ParentedTree), list(sent), str(n), fmt)
			if fmt == 'bracket':
				text = text.replace(' ', case['space'])
			out.write(text)
	vocab = Vocabulary()
	ct = readtreebank('f', vocab, fmt, limit, 'utf8')
	ctx.ev('files read')
	# fragment extraction and the like binarize with these settings
	want = []
	for _, item in READERS[fmt]('f', encoding='utf8').itertrees(0, limit):
		t = binarize(handledisc(item.tree), dot=True)
		want.append((g.tomodel(t), item.sent))
	ct.indextrees(vocab)
	ctx.eq(len(ct), len(bank[:limit]), 'limit', 'trees read with limit %s'
			% limit)
	content(ct, vocab, want, ctx, 'read as %s' % fmt)
	for n, (m, sent) in enumerate(bank[:limit]):
		# the original tree, by contracting the binarization
		got = discbrackettree(ct.extract(n, vocab))
		ctx.eq(got[1], [unescape(escape(w)) for w in sent], 'words',
				'words of tree')
		ctx.eq(g.canon(debin(g.tomodel(got[0]))), g.canon(m), 'debinarized',
				'original tree')
	# vocabulary is shared between files; read again: nothing new
	before = repr(vocab)
	again = readtreebank('f', vocab, fmt, limit, 'utf8')
	again.indextrees(vocab)
	ctx.eq(repr(vocab), before, 'vocab', 'reading twice extends vocabulary')
	content(again, vocab, want, ctx, 'read twice')
	# trees from memory get the same productions as trees from file
	mem = getctrees([(g.totree(m, Tree), sent) for m, sent in want], None,
			vocab)
	ctx.eq(repr(vocab), before, 'vocab',
			'same trees from memory extend vocabulary')
	mem['trees1'].tofile('a.ct')
	ct.tofile('b.ct')
	content(mem['trees1'], vocab, want, ctx, 'from memory')


def debin(m):
	"""Remove nodes introduced by binarization and splitting."""
	def rec(m):
		if not isinstance(m, tuple):
			return [m]
		ch = tuple(x for c in m[1] for x in rec(c))
		if '|<' in m[0]:
			return list(ch)
		return [(m[0], ch)]
	return rec(m)[0]


# frontier nonterminals and malformed lines
def strict(line):
	"""Independent reader; None if the line is not a tree."""
	tokens = re.findall(r'[()]|[^\s()]+', line)
	sent = []

	def tree(i):
		if tokens[i] != '(' or tokens[i + 1] in '()':
			raise ValueError
		label, i, ch = tokens[i + 1], i + 2, []
		if tokens[i] == ')':
			sent.append(None)
			return (label, (len(sent) - 1, )), i + 1
		if tokens[i] != '(':
			sent.append(tokens[i])
			if tokens[i + 1] != ')':
				raise ValueError
			return (label, (len(sent) - 1, )), i + 2
		while tokens[i] == '(':
			c, i = tree(i)
			ch.append(c)
		if tokens[i] != ')':
			raise ValueError
		return (label, tuple(ch)), i + 1
	try:
		m, i = tree(0)
	except (ValueError, IndexError):
		return None
	return (m, sent) if i == len(tokens) else None


def genlines(rng, ctx):
	n = rng.choice([1, 2, 3, 5, 8])
	m = g.randtree(rng, n, disc=0, labels=g.LABELS[:3], tags=g.TAGS[:3],
			maxar=rng.choice([2, 3, 5]), unary=rng.choice([0, 0.3]))
	sent = [rng.choice(g.WORDS) if rng.random() < 0.7 else None
			for _ in range(n)]
	text = g.tostr(m, lambda i: sent[i] or '')
	bad = []
	for _ in range(12):
		t = text
		for _ in range(rng.choice([1, 1, 2, 4])):
			i = rng.randrange(len(t) + 1)
			op = rng.random()
			if op < 0.35:
				t = t[:i] + t[i + 1:]
			elif op < 0.5:
				t = t[:i]
			elif op < 0.6:
				t = t[i:]
			else:
				t = t[:i] + rng.choice(['(', ')', ' ', ' x', '(', ')', 'é',
						' (X y) ', '()', ' y ']) + t[i:]
		bad.append(t)
	bad += rng.sample(['', ' ', ')', '(', '()', '( )', 'x', 'x)', ' x )',
			'(S', '(S ', '(S)', '(S )', '((', '))', '(S (', '(S (NP', ')(',
			'(S (NP x) y)', '(S (NP x) y (VP z))', '(S x (NP y))', '(S x y)',
			'(S (A a) (B b) (C c)', '(S (A a)) (S (B b))', '( (S (A a)))',
			'((S (A a)))', '(S ((A a)))'], 6)
	return dict(model=m, sent=sent, text=text, bad=bad)


def checklines(case, ctx):
	CACHE.clear()
	m, sent = case['model'], case['sent']
	if len(sent) > 1:
		with open('g', 'w', encoding='utf8') as out:
			out.write(case['text'] + '\n')
		vocab = Vocabulary()
		ct = readtreebank('g', vocab, 'bracket')
		t = binarize(g.totree(m, Tree), dot=True)
		want = [(g.tomodel(t), sent)]
		ct.indextrees(vocab)
		content(ct, vocab, want, ctx, 'with frontier non-terminals')
		before = repr(vocab)
		mem = getctrees([(t, sent)], None, vocab)['trees1']
		ctx.eq(repr(vocab), before, 'vocab',
				'same tree from memory extends vocabulary')
		content(mem, vocab, want, ctx, 'frontiers from memory')
		ctx.ev('frontier', sum(w is None for w in sent))
	good = '(S (NP x) (VP y))\n'
	for line in case['bad']:
		with open('b', 'w', encoding='utf8') as out:
			out.write(good + line + '\n' + good)
		vocab = Vocabulary()
		ctx.ev('malformed')
		try:
			ct = readtreebank('b', vocab, 'bracket')
		except Exception:
			ctx.ev('refused')
			continue
		ctx.eq(len(ct), 3, 'malformed', 'line %r: number of trees' % line)
		want = strict(line)
		if want is None:
			ctx.ok(re.search(r'[^\s()]\(', line), 'malformed',
					'line %r accepted as %r' % (line, ct.extract(1, vocab)))
			continue
		t = g.tomodel(binarize(g.totree(want[0], Tree), dot=True))
		s = want[1]
		ctx.eq(ct.extract(1, vocab), expected(t, s), 'malformed',
				'line %r: read as other tree' % line)
		ctx.ev('accepted')
		ctx.eq(ct.extract(2, vocab), '(S (NP 0=x) (VP 1=y))', 'after malformed',
				'tree after line %r' % line)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'history': (genhistory, checkhistory, 130 * k),
		'two': (gentwo, checktwo, 60 * k),
		'file': (genfile, checkfile, 110 * k),
		'lines': (genlines, checklines, 90 * k),
	}

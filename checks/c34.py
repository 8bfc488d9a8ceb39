"""C34: searching through treebanks."""
import contextlib
import io
import logging
import os
import random
import re
import shutil
import sys
import warnings
from collections import Counter, OrderedDict
from discodop.tree import Tree, escape, discbrackettree
from discodop.treebank import writetree
from discodop.treetransforms import unbinarize
from discodop import treesearch
from discodop.treesearch import (RegexSearcher, FragmentSearcher,
		charindices, applyhighlight)
import g
import fr
from checks import c29

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
PLAN = dict(
	mods=['bit', 'containers', '_fragments'], variant='plain',
	rule='1-3 corpora of 1-8 sentences (plain text with blank lines and '
	'non-ASCII words; bracket, discbracket and export treebanks); histories of '
	'3-10 queries on a searcher, in which queries are repeated with another '
	'range, limit or set of files, the searcher is reopened with the same or '
	'another list of files, and files change; 1-3 processes; command line; '
	'nontrivial: a query with several matches, some outside the range or '
	'beyond the limit',
	require={'histories': 1500, 'queries': 8000, 'matches': 35000,
		'fragment queries': 4000, 'regex queries': 4000, 'ranges': 3500,
		'limits': 1500, 'subsets': 2000, 'repeated query': 1500,
		'reopened': 1200, 'other files': 400, 'changed file': 400,
		'several processes': 80, 'command line': 700, 'batch': 1800,
		'trees': 400, 'brackets': 400, 'breakdown': 900,
		'unseen words or rules': 800, 'macros': 1000, 'highlight': 3500,
		'discontinuous matches': 50, 'non-ASCII': 350},
)
LETTERS = 'ab'


# plain text
def gentext(rng, utf8):
	n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.15 else (
			rng.choice([1, 2, 3, 5, 8]))
	words = ['a', 'b', 'ab', 'ba', 'aab', 'A', 'B', '12', '.', ',']
	if utf8:
		words += ['é', 'naïve', '日本', 'aé', 'Éa']
	lines = []
	for _ in range(n):
		if rng.random() < 0.2:
			lines.extend([''] * rng.choice([1, 1, 2]))
		lines.append(' '.join(rng.choice(words)
				for _ in range(rng.choice([1, 2, 4, 6]))))
	text = '\n'.join(lines)
	if lines and rng.random() < 0.85:
		text += '\n'
		if rng.random() < 0.15:
			text += '\n'
	return text


def genregex(rng, utf8):
	atoms = ['a', 'b', 'ab', 'A', r'\w', '[ab]', '(?:a|b)', r'\d', ' ', '.',
			r'\.', 'a+', 'b?', '(a)', '(a|(b))', '[^a]', r'\s', r'\b', '1',
			'ba{1,2}', '(?:ab)*', r'a\b', '.*?', '(?i:B)']
	if utf8:
		atoms += ['é', '日', '[é]', 'é?', 'ï']
	while True:
		q = ''.join(rng.choice(atoms) for _ in range(rng.choice([1, 2, 3])))
		if rng.random() < 0.15:
			q = '^' + q
		if rng.random() < 0.15:
			q += '$'
		if all(re.compile(q).fullmatch(x) is None and (
				next(re.compile(q, re.M).finditer(x), None) is None)
				for x in ('', '\n')):
			return q


class Text:
	"""Naive scan of a text."""
	def __init__(self, text):
		self.text = text
		self.starts, pos = [], 0
		for line in text.split('\n'):
			if line:
				self.starts.append(pos)
			pos += len(line) + 1
		self.lines = [a for a in text.split('\n') if a]

	def __len__(self):
		return len(self.lines)

	def matches(self, query, flags, start, end):
		"""[(lineno, begin, end, matched text)]"""
		lo = (start or 1) - 1
		hi = len(self) if end is None else min(end, len(self))
		if lo >= hi:
			return []
		offset = self.starts[lo]
		chunk = self.text[offset:self.starts[hi] if hi < len(self) else None]
		result = []
		for m in re.compile(query, flags | re.M).finditer(chunk):
			pos = m.start() + offset
			n = sum(a <= pos for a in self.starts)
			result.append((n, pos - self.starts[n - 1],
					m.end() + offset - self.starts[n - 1], m.group()))
		return result

	def bytematches(self, query, flags, start, end):
		"""As above, when every byte is a character."""
		other = Text(self.text.encode('utf8').decode('latin1'))
		result = []
		for n, a, b, m in other.matches(query.encode('utf8').decode('latin1'),
				flags | re.A, start, end):
			line = (other.text[other.starts[n - 1]:]).encode('latin1')
			result.append((n, len(line[:a].decode('utf8')),
					len(line[:b].decode('utf8')),
					m.encode('latin1').decode('utf8')))
		return result


def genargs(rng, maxlen):
	args = {}
	if rng.random() < 0.4:
		args['start'] = rng.randint(1, maxlen + 2)
	if rng.random() < 0.4:
		args['end'] = rng.randint(max(1, args.get('start', 1) - 1), maxlen + 2)
	return args


def genqueries(rng, gen, maxlen, methods):
	pool = [gen() for _ in range(rng.choice([1, 2, 3]))]
	pastargs = [{}]
	result = []
	for _ in range(rng.choice([3, 5, 10])):
		if rng.random() < 0.15:
			result.append((rng.choice(['reopen', 'other', 'change']), None, {}))
			continue
		args = genargs(rng, maxlen)
		if rng.random() < 0.4:
			args = dict(rng.choice(pastargs))
		pastargs.append(args)
		args = dict(args)
		method = rng.choice(methods)
		if rng.random() < 0.3:
			args['subset'] = True
		if method in ('sents', 'trees', 'batchsents') and rng.random() < 0.7:
			args['maxresults'] = rng.choice([1, 2, 3, None])
		query = rng.choice(pool)
		if method.startswith('batch'):
			query = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6]))]
		result.append((method, query, args))
	return result


def genregexcase(rng, ctx):
	utf8 = rng.random() < 0.15
	files = ['%s.txt' % x for x in 'abc'[:rng.choice([1, 2, 3])]]
	texts = {a: gentext(rng, utf8) for a in files}
	return dict(files=files, texts=texts, utf8=utf8, numproc=rng.choice(
				[1] * 30 + [2, 3]), inmemory=rng.random() < 0.3
				and all(texts.values()),
			ignorecase=rng.random() < 0.2, macros=rng.random() < 0.15,
			queries=genqueries(rng, lambda: genregex(rng, utf8),
				max(len(Text(t)) for t in texts.values()),
				['counts', 'indices', 'breakdown', 'sents', 'sents',
				'batchcounts', 'batchsents']),
			new=[gentext(rng, utf8) or 'a' for _ in range(10)],
			seed=rng.randrange(10 ** 9))


def wipe():
	for a in os.listdir('.'):
		if os.path.isfile(a):
			os.unlink(a)


def write(name, text):
	with open(name, 'w', encoding='utf8', newline='') as out:
		out.write(text)


def withmacro(query, macros):
	return '{m%d}' % macros.index(query) if query in macros else query


def checkregex(case, ctx):
	rng = random.Random(case['seed'])
	wipe()
	texts = dict(case['texts'])
	for a in texts:
		write(a, texts[a])
	files = list(case['files'])
	flags = re.I if case['ignorecase'] else 0
	ctx.ev('histories')
	macros = None
	if case['macros']:
		# whitespace around macros is removed
		macros = [q for method, q, _ in case['queries']
				if isinstance(q, str) and q == q.strip()] or None
		write('macros', ''.join('m%d=%s\n' % x
				for x in enumerate(macros or ())))

	def reopen():
		return RegexSearcher(files if rng.random() < 0.5 else tuple(files),
				macros='macros' if macros else None, numproc=case['numproc'],
				ignorecase=case['ignorecase'], inmemory=case['inmemory'])

	s = reopen()
	if case['numproc'] > 1:
		ctx.ev('several processes')
	seen = set()
	new = list(case['new'])
	try:
		for method, query, args in case['queries']:
			if query is None:
				s.close()
				if method == 'other':
					# another list of files of the same length
					extra = 'z%d.txt' % len(new)
					texts[extra] = new.pop()
					write(extra, texts[extra])
					files[rng.randrange(len(files))] = extra
					ctx.ev('other files')
				elif method == 'change':
					a = rng.choice(files)
					texts[a] = new.pop()
					write(a, texts[a])
					ctx.ev('changed file')
				seen.clear()
				s = reopen()
				ctx.ev('reopened')
				continue
			corp = {a: Text(texts[a]) for a in files}
			args = dict(args)
			sub = files
			if args.pop('subset', None):
				sub = rng.sample(files, rng.randint(1, len(files)))
				args['subset'] = sub
				ctx.ev('subsets')
			regexquery(case, ctx, s, corp, method, query, args, sub, flags,
					seen, macros)
		a = rng.choice(files)
		t = Text(texts[a])
		idx = [rng.randint(1, len(t)) for _ in range(3) if len(t)]
		ctx.eq(s.extract(a, idx, sents=True), [t.lines[n - 1] for n in idx],
				'extract', ('sentences', a, idx))
		for n in (0, len(t) + 1):
			try:
				x = s.extract(a, [n], sents=True)
			except IndexError:
				pass
			else:
				ctx.fail('extract', 'sentence %d of %d: %s' % (n, len(t), x))
		info = s.getinfo(a)
		ctx.eq((info.len, info.numwords), (len(t),
				sum(len(x.split(' ')) for x in t.lines)), 'info', a)
	finally:
		s.close()


def regexquery(case, ctx, s, corp, method, query, args, sub, flags, seen,
		macros):
	start, end = args.get('start'), args.get('end')
	queries = query if isinstance(query, list) else [query]
	if start or end:
		ctx.ev('ranges')
	if case['utf8']:
		ctx.ev('non-ASCII')
	known = None
	wants = {(a, q): corp[a].matches(q, flags, start, end)
			for a in sub for q in queries}
	if case['utf8']:
		try:
			known = {(a, q): corp[a].bytematches(q, flags, start, end)
					for a in sub for q in queries}
		except UnicodeDecodeError:
			known = UnicodeDecodeError
		if known == wants:
			known = None
	key = (method.replace('breakdown', 'counts').replace('indices', 'counts'),
			str(query))
	if key in seen:
		ctx.ev('repeated query')
	seen.add(key)
	ctx.ev('queries')
	ctx.ev('regex queries')
	ctx.ev('matches', sum(map(len, wants.values())))
	if start or args.get('maxresults'):
		if sum(map(len, wants.values())) > 1:
			ctx.nontrivial((str(query), start, end, str(corp[sub[0]].lines)))
	qq = query
	if macros is not None:
		ctx.ev('macros')
		queries1 = [withmacro(q, macros) if '{' not in q or q in macros
				else q.replace('{', '{{').replace('}', '}}') for q in queries]
		qq = queries1 if isinstance(query, list) else queries1[0]
	try:
		got = runregex(s, method, qq, args)
	except Exception as err:
		if not decodeerror(err):
			raise
		if known is None or known is not UnicodeDecodeError and method not in (
				'sents', 'batchsents', 'breakdown'):
			raise
		ctx.fail('regex on bytes', 'query %r splits up characters' % query)
		return
	want = expectregex(wants, corp, method, queries, args, sub)
	if known is UnicodeDecodeError:
		if got != want:
			ctx.fail('regex on bytes', 'query %r matches parts of characters'
					% query)
		return
	elif known is not None and got != want:
		if got == expectregex(known, corp, method, queries, args, sub):
			ctx.fail('regex on bytes', 'query %r treats bytes as characters'
					% query)
			return
	ctx.eq(got, want, 'regex ' + method, (query, args))
	if method == 'batchcounts':
		ctx.ev('batch')
		ctx.eq([a for a, _ in got], list(sub), 'order', 'order of corpora')
	elif method == 'batchsents':
		ctx.ev('batch')
	elif method == 'breakdown':
		ctx.ev('breakdown')
	if args.get('maxresults'):
		ctx.ev('limits')
	if method == 'sents':
		for _, _, sent, high1, high2 in [x for x in got][:3]:
			checkhighlight(ctx, sent, high1, high2)


def decodeerror(err):
	if err is None:
		return False
	return (isinstance(err, UnicodeDecodeError)
			or 'UnicodeDecodeError' in str(err)
			or decodeerror(err.__context__) or decodeerror(err.__cause__))


def checkhighlight(ctx, sent, high1, high2):
	x = applyhighlight(sent, high1, high2)
	colors, cur = [], None
	for a in re.findall(r'\x1b\[[0-9;]*m|(?s:.)', x):
		if a == '\x1b[0m':
			cur = None
		elif a.startswith('\x1b['):
			cur = a
		else:
			colors.append((a, cur))
	ctx.eq(''.join(a for a, _ in colors), sent, 'highlight', 'text')
	red, blue = '\x1b[31;1m', '\x1b[34;1m'
	ctx.eq([b for _, b in colors], [red if n in high1 else blue
			if n in high2 else None for n in range(len(sent))], 'highlight',
			(sent, high1, high2))
	ctx.ev('highlight')


def runregex(s, method, query, args):
	if method == 'counts':
		return dict(s.counts(query, **args))
	elif method == 'indices':
		return {a: list(b) for a, b in
				s.counts(query, indices=True, **args).items()}
	elif method == 'breakdown':
		return {a: dict(b) for a, b in
				s.counts(query, breakdown=True, **args).items()}
	elif method == 'sents':
		return sorted([tuple(x) for x in s.sents(query, **args)],
				key=lambda x: x[0])
	elif method == 'batchcounts':
		return [(a, list(b)) for a, b in s.batchcounts(query, **args)]
	return [(a, [tuple(x) for x in b]) for a, b in s.batchsents(query, **args)]


def expectregex(wants, corp, method, queries, args, sub):
	q = queries[0]
	limit = args.get('maxresults', 100)

	def items(a, q):
		return [(n, corp[a].lines[n - 1], range(x, y), ())
				for n, x, y, _ in wants[a, q][:limit]]

	if method == 'counts':
		return {a: len(wants[a, q]) for a in sub}
	elif method == 'indices':
		return {a: [x[0] for x in wants[a, q]] for a in sub}
	elif method == 'breakdown':
		return {a: dict(Counter(x[3] for x in wants[a, q])) for a in sub}
	elif method == 'sents':
		return [(a, ) + x for a in sorted(sub) for x in items(a, q)]
	elif method == 'batchcounts':
		return [(a, [len(wants[a, q]) for q in queries]) for a in sub]
	return [(a, [x for q in queries for x in items(a, q)]) for a in sub]


# treebanks
EXT = {'mrg': 'bracket', 'dbr': 'discbracket', 'export': 'export'}


def okword(w):
	return (len(w.splitlines()) == 1 and not re.match('%%|#|[0-9]+=', w)
			and not re.search(r'\s', w) and w not in ('Epsilon', '-LRB-'))


def genbank(rng, disc, labels, tags, words):
	bank = []
	for m, sent in c29.gentreebank(rng, disc, None, False, labels, tags,
			words):
		bank.append((m, [w if okword(w) else 'w' for w in sent]))
	return bank


def genfrags(rng, banks, disc, n):
	"""Fragments given as (filename, tree, node, nodes, changes)."""
	return [(rng.random(), rng.random(), rng.choice([0.3, 0.6, 1]),
			rng.randrange(10 ** 9), rng.random() < 0.15, rng.random() < 0.3)
			for _ in range(n)]


def gentreecase(rng, ctx):
	kind = rng.choice(['mrg', 'mrg', 'dbr', 'export', 'mixed'])
	files = []
	labels = g.LABELS[:rng.choice([1, 2, 4])]
	tags = g.TAGS[:rng.choice([1, 2, 4])]
	words = rng.sample(g.WORDS, rng.choice([1, 3, 6])) + (
			['a-b', 'x-1', 'é', '(', 'a=x'] if rng.random() < 0.2 else [])
	banks = {}
	for x in 'abc'[:rng.choice([1, 2, 3])]:
		ext = rng.choice(['mrg', 'dbr', 'export']) if kind == 'mixed' else kind
		disc = 0 if ext == 'mrg' else rng.choice([0, 0.5, 1])
		banks['%s.%s' % (x, ext)] = genbank(rng, disc, labels, tags, words)
		files.append('%s.%s' % (x, ext))
	new = [genbank(rng, 0, labels, tags, words) for _ in range(10)]
	return dict(files=files, banks=banks, new=new,
			numproc=rng.choice([1] * 30 + [2, 3]),
			inmemory=rng.random() < 0.7, macros=rng.random() < 0.15,
			queries=genqueries(rng, lambda: genfrags(rng, banks, False,
				rng.choice([1, 1, 1, 2, 3])),
				max(map(len, banks.values())),
				['counts', 'indices', 'breakdown', 'sents', 'brackets',
				'trees', 'batchcounts', 'batchsents']),
			seed=rng.randrange(10 ** 9))


def makefrag(spec, corp, files, disc):
	"""Turn specification into (text, abstract form)."""
	x, y, p, seed, change, nary = spec
	rng = random.Random(seed)
	bank = corp[files[int(x * len(files))]]
	t = bank[int(y * len(bank))]
	i = rng.randrange(len(t))
	nodes, todo = set(), [i]
	while todo:
		n = todo.pop()
		nodes.add(n)
		todo.extend(c for c in t.ch[n] if rng.random() < p)
	if change:  # something that may not occur
		other = fr.T.__new__(fr.T)
		other.label, other.ch = list(t.label), t.ch
		other.leaves, other.prod = t.leaves, list(t.prod)
		kind = rng.choice(['word', 'label'])
		if kind == 'word':
			for n in sorted(nodes):
				if not t.ch[n]:
					other.prod[n] = (t.label[n], 'W',
							rng.choice(['unseen', 'a', 'saw']))
					break
		else:
			n = rng.choice(sorted(nodes))
			other.label[n] = rng.choice(['UNSEEN', 'NP', 'VB'])
			for n in range(len(t)):
				if t.ch[n]:
					other.prod[n] = (other.label[n], t.prod[n][1],
							tuple(other.label[c] for c in t.ch[n]))
				else:
					other.prod[n] = (other.label[n], 'W', other.prod[n][2])
		t = other
	nodes = frozenset(nodes)
	text = fr.text(t, i, nodes, disc)
	front = [t.label[c] for n in nodes for c in t.ch[n] if c not in nodes]
	if nary and not change and not any('|<' in a for a in front + [t.label[i]]):
		text = c29.debin(text, disc)
	return text, fr.abstract(t, i, nodes), [fr.escape(t.prod[n][2])
			for n in nodes if not t.ch[n]]


def checktrees(case, ctx):
	rng = random.Random(case['seed'])
	wipe()
	banks = dict(case['banks'])
	files = list(case['files'])
	for a in files:
		c29.writebank(a, banks[a], EXT[a.rsplit('.')[-1]])
	corp = {a: c29.readbank(a, EXT[a.rsplit('.')[-1]]) for a in files}
	ctx.ev('histories')
	macros = None
	if case['macros']:
		disc = any(not a.endswith('.mrg') for a in files)
		macros = [makefrag(q[0], corp, files, disc)[0] for _, q, _
				in case['queries'] if q and not isinstance(q[0], list)]
		macros = [x for x in macros if '{' not in x and '}' not in x] or None
		write('macros', ''.join('m%d=%s\n' % x
				for x in enumerate(macros or ())))

	def reopen():
		return FragmentSearcher(files if rng.random() < 0.5 else tuple(files),
				macros='macros' if macros else None,
				numproc=case['numproc'], inmemory=case['inmemory'])

	s = reopen()
	if case['numproc'] > 1:
		ctx.ev('several processes')
	seen = set()
	new = list(case['new'])
	try:
		for method, specs, args in case['queries']:
			if specs is None:
				s.close()
				if method == 'other':
					extra = 'z%d.mrg' % len(new)
					banks[extra] = new.pop()
					c29.writebank(extra, banks[extra], 'bracket')
					files[rng.randrange(len(files))] = extra
					corp[extra] = c29.readbank(extra, 'bracket')
					ctx.ev('other files')
				elif method == 'change':
					a = rng.choice(files)
					fmt = EXT[a.rsplit('.')[-1]]
					c29.writebank(a, new.pop(), fmt)
					corp[a] = c29.readbank(a, fmt)
					ctx.ev('changed file')
				elif rng.random() < 0.5:
					files = rng.sample(sorted(corp), rng.randint(1, len(corp)))
				seen.clear()
				s = reopen()
				ctx.ev('reopened')
				continue
			args = dict(args)
			sub = files
			if args.pop('subset', None):
				sub = rng.sample(files, rng.randint(1, len(files)))
				args['subset'] = sub
				ctx.ev('subsets')
			treequery(case, ctx, rng, s, corp, files, method, specs, args, sub,
					seen, macros)
		a = rng.choice(files)
		t = corp[a]
		idx = [rng.randint(1, len(t)) for _ in range(3)]
		ctx.eq(s.extract(a, idx, sents=True), [' '.join(t[n - 1].sent)
				for n in idx], 'extract', ('sentences', a, idx))
		ctx.eq([(g.canon(g.tomodel(x)), y) for x, y in s.extract(a, idx)],
				[(g.canon(model(t[n - 1])), t[n - 1].sent) for n in idx],
				'extract', ('trees', a, idx))
		for n in (0, len(t) + 1):
			try:
				x = s.extract(a, [n])
			except IndexError:
				pass
			else:
				ctx.fail('extract', 'tree %d of %d: %s' % (n, len(t), x))
		info = s.getinfo(a)
		ctx.eq(tuple(info), (len(t), sum(len(x.sent) for x in t),
				sum(map(len, t)), max(map(len, t))), 'info', a)
	finally:
		s.close()


def model(t, i=0):
	if not t.ch[i]:
		return t.label[i], (t.leaves[i][0], )
	return t.label[i], tuple(model(t, c) for c in t.ch[i])


def treequery(case, ctx, rng, s, corp, files, method, specs, args, sub, seen,
		macros):
	start, end = args.get('start'), args.get('end')
	disc = any(not a.endswith('.mrg') for a in files)
	batch = isinstance(specs[0], list)
	if start or end:
		ctx.ev('ranges')
	frags = [makefrag(x, corp, files, disc)
			for y in (specs if batch else [specs]) for x in (y[:1]
				if batch else y)]
	queries = [text for text, _, _ in frags]
	if macros is not None:
		ctx.ev('macros')
		queries = [withmacro(q, macros) if q in macros
				else q.replace('{', '{{').replace('}', '}}') for q in queries]
	query = queries if batch else '\n'.join(queries)
	if batch and rng.random() < 0.3:
		query = iter(queries) if method == 'batchcounts' else tuple(queries)
	lo = (start or 1) - 1
	occ = {(a, n): [(x, j) for x, j in fr.occurrences(f, corp[a])
			if x >= lo and (end is None or x < end)]
			for a in sub for n, (_, f, _) in enumerate(frags)}
	if not any(occ.values()):
		ctx.ev('unseen words or rules')
	key = (method.replace('breakdown', 'counts').replace('indices', 'counts')
			.replace('brackets', 'sents'), str(queries))
	if key in seen:
		ctx.ev('repeated query')
	seen.add(key)
	ctx.ev('queries')
	ctx.ev('fragment queries')
	ctx.ev('matches', sum(map(len, occ.values())))
	if start or args.get('maxresults'):
		if sum(map(len, occ.values())) > 1:
			ctx.nontrivial((str(queries), start, end))
	if args.get('maxresults'):
		ctx.ev('limits')
	limit = args.get('maxresults', 10 if method == 'trees' else 100)

	def flat(a):
		return [(x, j, n) for n in range(len(frags)) for x, j in occ[a, n]]

	if disc and any(c29.isdiscfrag(f) and occ[a, n] for a in sub
			for n, (_, f, _) in enumerate(frags)):
		ctx.ev('discontinuous matches')
	msg = (method, queries, args)
	if method == 'counts':
		got = s.counts(query, **args)
		ctx.eq(dict(got), {a: len(flat(a)) for a in sub}, 'counts', msg)
	elif method == 'indices':
		got = s.counts(query, indices=True, **args)
		ctx.eq({a: list(b) for a, b in got.items()},
				{a: [x + 1 for x, _, _ in flat(a)] for a in sub}, 'indices',
				msg)
	elif method == 'breakdown':
		got = s.counts(query, breakdown=True, **args)
		ctx.eq({a: dict(b) for a, b in got.items()},
				{a: {q: len(occ[a, n]) for n, q in enumerate(queries)}
					for a in sub}, 'breakdown', msg)
		ctx.ev('breakdown')
	elif method == 'batchcounts':
		got = [(a, list(b)) for a, b in s.batchcounts(query, **args)]
		ctx.eq(got, [(a, [len(occ[a, n]) for n in range(len(frags))])
				for a in sub], 'batch', msg)
		ctx.ev('batch')
	elif method == 'batchsents':
		got = list(s.batchsents(query, **args))
		ctx.eq([a for a, _ in got], list(sub), 'order', 'order of corpora')
		ctx.ev('batch')
		for a, res in got:
			want = [(x, j, n) for n in range(len(frags))
					for x, j in occ[a, n]]
			rest = [tuple(x) for x in res]
			for n in range(len(frags)):
				k = len(occ[a, n][:limit])
				checksents(ctx, corp[a], [x for x in want if x[2] == n], frags,
						disc, False, rest[:k], msg, limit)
				rest = rest[k:]
			ctx.eq(rest, [], 'batch', msg)
	elif method in ('sents', 'brackets'):
		got = s.sents(query, **(dict(args, brackets=True)
				if method == 'brackets' else args))
		ctx.ok({x[0] for x in got} <= set(sub), 'files', '%s %s', sub, msg)
		for a in sub:
			checksents(ctx, corp[a], flat(a), frags, disc,
					method == 'brackets',
					[tuple(x[1:]) for x in got if x[0] == a], msg, limit)
		if method == 'brackets':
			ctx.ev('brackets')
	elif method == 'trees':
		nofunc = rng.random() < 0.3
		got = s.trees(query, nofunc=nofunc, **args)
		ctx.ev('trees')
		for a in sub:
			want = []
			for x, j, n in flat(a):
				t = corp[a][x]
				want.append((x + 1, n, (g.canon(model(t)), list(t.sent),
						g.canon(model(t, j)), sorted(t.leaves[j]))))
			res = []
			for fn, x, tree, sent, high in got:
				if fn != a:
					continue
				sub1 = [y for y in high if isinstance(y, Tree)]
				res.append((x, (g.canon(g.tomodel(tree)), sent,
						sub1 and g.canon(g.tomodel(sub1[0])),
						sorted(y for y in high if isinstance(y, int)))))
				ctx.ok(sub1 and all(any(y is z for z in sub1)
						for y in sub1[0].subtrees()) and any(
						sub1[0] is z for z in tree.subtrees()),
						'trees', 'highlighted nodes %s', high)
			inorder(ctx, res, want, limit, 'trees', msg)


def inorder(ctx, got, want, limit, key, msg):
	"""Items are in order of query and sentence, in any order in a sentence.

	got contains (sentno, item), want contains (sentno, query number, item)."""
	cut = want[:limit]
	ctx.eq([x[0] for x in got], [x[0] for x in cut], key, msg)
	pos = 0
	while pos < len(cut):
		x, n, _ = cut[pos]
		group = [z for y, m, z in want if (y, m) == (x, n)]
		end = min(pos + len(group), len(cut))
		for _, item in got[pos:end]:
			ctx.ok(item in group, key, '%s sentence %d\ngot: %s\nexpected: %s',
					msg, x, item, group)
			group.remove(item)
		pos = end


def checksents(ctx, trees, want, frags, disc, brackets, got, msg, limit):
	res = []
	for x, j, n in want:
		t = trees[x]
		if brackets:
			a, b = c29.subtree(t, 0), c29.subtree(t, j)
			if not disc:
				a, b = (re.sub(r' [0-9]+=', ' ', y) for y in (a, b))
			res.append((x + 1, n, (a, b, '')))
			continue
		pos, chars = 0, {}
		for k, w in enumerate(t.sent):
			chars[k] = set(range(pos, pos + len(w) + (k < len(t.sent) - 1)))
			pos += len(w) + 1
		m2 = set().union(*(chars[k] for k in t.leaves[j]))
		m1 = set().union(*(chars[k] for k in t.leaves[j]
				if escape(t.sent[k]) in frags[n][2]))
		res.append((x + 1, n, (' '.join(t.sent), m1, m2)))
	inorder(ctx, [(x[0], x[1:] if brackets else (x[1], set(x[2]), set(x[3])))
			for x in got], res, limit, 'sents', msg)
	if not brackets:
		for _, sent, m1, m2 in got[:3]:
			checkhighlight(ctx, sent, m1, m2)


# command line
def gencliregex(rng, ctx):
	case = genregexcase(rng, ctx)
	return dict(files=case['files'], texts={a: gentext(rng, False)
				for a in case['files']},
			queries=[genregex(rng, False) for _ in range(rng.choice([1, 1, 3]))],
			args=genargs(rng, 8), limit=rng.choice([None, None, 0, 1, 2]),
			mode=rng.choice(['counts', 'csv', 'indices', 'breakdown', 'sents',
				'only', 'sentsbreakdown']), number=rng.random() < 0.5,
			ignorecase=rng.random() < 0.2, nofile=rng.random() < 0.3,
			fromfile=rng.random() < 0.2)


def run(argv):
	out = io.TextIOWrapper(io.BytesIO(), encoding='utf8', newline='')
	old = sys.argv
	sys.argv = ['discodop', 'treesearch'] + argv
	try:
		with contextlib.redirect_stdout(out):
			treesearch.main()
	finally:
		sys.argv = old
	out.flush()
	return out.buffer.getvalue().decode('utf8')


def plain(x):
	return re.sub(r'\x1b\[[0-9;]*m', '', x)


def checkcliregex(case, ctx):
	wipe()
	for a in case['texts']:
		write(a, case['texts'][a])
	files, queries, mode = case['files'], case['queries'], case['mode']
	start, end = case['args'].get('start'), case['args'].get('end')
	if mode in ('indices', 'breakdown'):
		queries = queries[:1]
	corp = {a: Text(case['texts'][a]) for a in files}
	flags = re.I if case['ignorecase'] else 0
	m = {(a, q): corp[a].matches(q, flags, start, end)
			for a in files for q in queries}
	argv = ['--engine=regex', '--numproc=1']
	query = '\n'.join(queries)
	if case['fromfile']:
		write('queries', query)
		argv.append('--file')
		query = 'queries'
	if start or end:
		argv.append('--slice=%s:%s' % (start or '', end or ''))
	if case['ignorecase']:
		argv.append('-i')
	if case['limit'] is not None:
		argv.append('--max-count=%d' % case['limit'])
	if case['nofile']:
		argv.append('--no-filename')
	if case['number']:
		argv.append('-n')
	argv += {'counts': ['-c'], 'csv': ['-c', '--csv'], 'indices': ['--indices'],
			'breakdown': ['-c', '--breakdown'], 'sents': [],
			'only': ['-o'], 'sentsbreakdown': ['-s', '--breakdown']}[mode]
	got = run(argv + ['--', query] + files)
	ctx.ev('command line')
	ctx.ev('queries')
	limit = 100 if case['limit'] is None else case['limit'] or None
	prefix = len(files) > 1 and not case['nofile']
	want = []
	if mode == 'counts' and len(queries) > 1:
		for a in files:
			want += [a] + ['%s\t%d' % (q, len(m[a, q])) for q in queries
					if m[a, q]] + ['']
	elif mode == 'counts':
		for a in files:
			want.append((a + ':' if prefix else '') + str(len(m[a, query0(
					queries)])))
	elif mode == 'indices':
		for a in files:
			want.append((a + ':' if prefix else '') + str([x[0] for x in
					m[a, queries[0]]]))
	elif mode == 'csv':
		got = [x for x in __import__('csv').reader(io.StringIO(got))]
		ctx.eq(got, [['filename'] + queries] + [[a] + [str(len(m[a, q]))
				for q in queries] for a in files], 'command line', argv)
		return
	elif mode == 'breakdown':
		gots = plain(got).split('\n\n')
		for a, x in zip(files, gots):
			pass
		for a in files:
			want += [a] + sorted('%s\t%d' % x for x in Counter(
					y[3] for y in m[a, queries[0]]).items()) + ['']
		got = sorted(got.split('\n'))
		ctx.eq(got, sorted('\n'.join(want).split('\n') + ['']),
				'command line', argv)
		return
	elif mode == 'sentsbreakdown':
		cnt = Counter()
		for a in files:
			for q in queries:
				for n, x, y, _ in m[a, q][:limit]:
					sent = corp[a].lines[n - 1]
					cnt[re.sub(' {2,}', ' ... ', ''.join(c if x <= k < y
							else ' ' for k, c in enumerate(sent)))] += 1
		ctx.eq(sorted(got.split('\n')[:-1]), sorted('%5d %s' % (b, a)
				for a, b in cnt.items()), 'command line', argv)
		return
	else:
		for a in files:
			for q in queries:
				for n, x, y, _ in m[a, q][:limit]:
					sent = corp[a].lines[n - 1]
					want.append((a + ':' if prefix else '')
							+ ('%d:' % n if case['number'] else '')
							+ (sent[x:y] if mode == 'only' else sent))
	ctx.eq(plain(got), ''.join(x + '\n' for x in want), 'command line', argv)


def query0(queries):
	return queries[0]


def genclitrees(rng, ctx):
	case = gentreecase(rng, ctx)
	case.update(frags=genfrags(rng, case['banks'], False,
				rng.choice([1, 1, 3])), args=genargs(rng, 8),
			limit=rng.choice([None, None, 0, 1, 2]), number=rng.random() < 0.5,
			mode=rng.choice(['counts', 'csv', 'indices', 'breakdown', 'sents',
				'brackets', 'only', 'brackets only', 'brackets breakdown',
				'trees']))
	if case['mode'] in ('only', 'brackets only', 'brackets breakdown'):
		case['limit'] = 0
	return case


def checkclitrees(case, ctx):
	wipe()
	files, mode = case['files'], case['mode']
	for a in files:
		c29.writebank(a, case['banks'][a], EXT[a.rsplit('.')[-1]])
	corp = {a: c29.readbank(a, EXT[a.rsplit('.')[-1]]) for a in files}
	disc = any(not a.endswith('.mrg') for a in files)
	frags = [makefrag(x, corp, files, disc) for x in case['frags']]
	if mode == 'indices':
		frags = frags[:1]
	queries = [x for x, _, _ in frags]
	start, end = case['args'].get('start'), case['args'].get('end')
	lo = (start or 1) - 1
	occ = {(a, n): [(x, j) for x, j in fr.occurrences(f, corp[a])
			if x >= lo and (end is None or x < end)]
			for a in files for n, (_, f, _) in enumerate(frags)}
	argv = ['--numproc=1']
	if start or end:
		argv.append('--slice=%s:%s' % (start or '', end or ''))
	if case['limit'] is not None:
		argv.append('--max-count=%d' % case['limit'])
	if case['number']:
		argv.append('-n')
	argv += {'counts': ['-c'], 'csv': ['-c', '--csv'], 'indices': ['--indices'],
			'breakdown': ['-c', '--breakdown'], 'sents': [], 'trees': ['-t'],
			'brackets': ['-b'], 'only': ['-o'], 'brackets only': ['-b', '-o'],
			'brackets breakdown': ['-b', '--breakdown']}[mode]
	got = run(argv + ['\n'.join(queries)] + files)
	ctx.ev('command line')
	ctx.ev('queries')
	limit = 100 if case['limit'] is None else case['limit'] or None
	prefix = len(files) > 1
	want = []

	def pre(a, n):
		return (a + ':' if prefix else '') + (
				'%d:' % n if case['number'] else '')

	if mode == 'csv':
		got = [x for x in __import__('csv').reader(io.StringIO(got))]
		ctx.eq(got, [['filename'] + queries] + [[a] + [str(len(occ[a, n]))
				for n in range(len(queries))] for a in files], 'command line',
				argv)
		return
	elif mode == 'breakdown' or mode == 'counts' and len(queries) > 1:
		for a in files:
			tmp = [('%s\t%d' % (q, len(occ[a, n])), len(occ[a, n]))
					for n, q in enumerate(queries)]
			if mode == 'breakdown':  # a dictionary
				tmp = list(OrderedDict.fromkeys(tmp))
			want += [a] + [x for x, y in tmp if y] + ['']
	elif mode == 'counts':
		want = [(a + ':' if prefix else '') + str(len(occ[a, 0]))
				for a in files]
	elif mode == 'indices':
		want = [(a + ':' if prefix else '') + str([x + 1 for x, _ in occ[a, 0]])
				for a in files]
	elif mode == 'trees':
		num = sum(min(sum(len(occ[a, n]) for n in range(len(queries))),
				limit or 10 ** 9) for a in files)
		if case['number']:
			ctx.eq(len(re.findall(r'\x1b\[32m([0-9]+)\x1b\[0m:\n', got)), num,
					'command line', argv)
		ctx.ok(bool(got.strip()) == bool(num), 'command line', '%s', argv)
		return
	else:
		cnt = Counter()
		for a in files:
			for n in range(len(queries)):
				for x, j in occ[a, n][:limit]:
					t = corp[a][x]
					tree, match = c29.subtree(t, 0), c29.subtree(t, j)
					if not disc:
						tree, match = (re.sub(r' [0-9]+=', ' ', y)
								for y in (tree, match))
					cnt[match] += 1
					if mode == 'brackets':
						want.append(pre(a, x + 1) + tree)
					elif mode == 'brackets only':
						want.append(pre(a, x + 1) + match)
					elif mode == 'sents':
						want.append(pre(a, x + 1) + ' '.join(t.sent))
					elif mode == 'only':
						want.append(pre(a, x + 1) + ''.join(
								w + (' ' if k < len(t.sent) - 1 else '')
								for k, w in enumerate(t.sent)
								if k in t.leaves[j]))
		if mode == 'brackets breakdown':
			want = ['%5d %s' % (b, a) for a, b in cnt.items()]
			ctx.eq(sorted(got.split('\n')[:-1]), sorted(want), 'command line',
					argv)
			return
	if mode in ('only', 'brackets only'):
		# order of matches in a sentence is not specified
		ctx.eq(sorted(plain(got).split('\n')), sorted(want + ['']),
				'command line', argv)
		return
	ctx.eq(plain(got), ''.join(x + '\n' for x in want), 'command line', argv)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'regex': (genregexcase, checkregex, 2000 * k),
		'trees': (gentreecase, checktrees, 2000 * k),
		'cliregex': (gencliregex, checkcliregex, 900 * k),
		'clitrees': (genclitrees, checkclitrees, 900 * k),
	}

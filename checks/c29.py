"""C29: fragment extraction returns exactly the recurring fragments."""
import contextlib
import io
import logging
import os
import random
import re
import shutil
from collections import Counter
from discodop.tree import Tree, ParentedTree, discbrackettree, brackettree
from discodop.treetransforms import binarize, unbinarize, handledisc
from discodop.treebank import writetree, READERS
from discodop import _fragments, fragments
from discodop.containers import Vocabulary
import g
import fr

logging.disable(logging.CRITICAL)
PLAN = dict(
	mods=['bit', 'containers', '_fragments'], variant='plain',
	rule='one or two treebanks of 1-8 trees of up to 30 words with shared '
	'labels and words, binarized in several ways, continuous and discontinuous,'
	' some with more than 64 nodes; every option of the function and the '
	'command line, 1-4 processes; nontrivial: some fragment of depth > 1 with a '
	'frontier and at least 2 occurrences, counted by treebank',
	require={'treebanks': 400, 'fragments': 6000, 'counts': 12000,
		'deep fragments': 1000, 'discontinuous fragments': 170,
		'index sets': 8000, 'node numbers': 8000, 'slices': 300,
		'limited': 200, 'parts of the work': 150, 'two treebanks': 120,
		'large trees': 60, 'multiple processes': 25, 'command line': 120,
		'batch': 20, 'complete': 60, 'twoterms': 60, 'twoterms fragments': 150,
		'adjacent': 40, 'approximate counts': 2000, 'not in haystack': 100,
		'debinarized': 200},
)
CONTENT = '^(?:NN|VB)'


def gentreebank(rng, disc, ntrees=None, large=False, labels=None, tags=None,
		words=None, unary=None):
	"""Trees that share substructures."""
	labels = labels or g.LABELS[:rng.choice([1, 2, 4])]
	tags = tags or g.TAGS[:rng.choice([1, 2, 4])]
	words = words or rng.sample(g.WORDS, rng.choice([1, 3, 10]))
	unary = rng.choice([0, 0.1, 0.4]) if unary is None else unary
	result, prev = [], []
	for _ in range(ntrees or rng.choice([1, 2, 3, 5, 8])):
		n = rng.choice([1, 2, 3, 5, 7, 10])
		d = disc
		if large and rng.random() < 0.5:
			n = rng.choice([31, 32, 33, 45, 66])
			d = 0  # yield functions have at most 32 elements
		if prev and rng.random() < 0.4:  # a variation of an earlier tree
			m, sent = rng.choice(prev)
			sent = [w if rng.random() < 0.8 else rng.choice(words)
					for w in sent]
			if rng.random() < 0.7:
				m = relabel(rng, m, labels)
		else:
			m = g.randtree(rng, n, disc=d, labels=labels, tags=tags,
					maxar=rng.choice([2, 3, 5]), unary=unary)
			sent = g.randsent(rng, n, words=words,
					hostile=rng.choice([0, 0, 0.2]))
			sent = [w if ' ' not in w else 'x' for w in sent]
		prev.append((m, sent))
		result.append((m, sent))
	return result


def relabel(rng, m, labels):
	if isinstance(m[1][0], int):
		return m
	label = rng.choice(labels) if rng.random() < 0.1 else m[0]
	return label, tuple(relabel(rng, c, labels) for c in m[1])


def binbank(bank, kw):
	result = []
	for m, sent in bank:
		t = binarize(g.totree(m, Tree), **kw)
		result.append((g.tomodel(t), sent))
	return result


def gencase(rng, ctx, two=None):
	disc = rng.choice([0, 0.5, 1])
	two = rng.random() < 0.35 if two is None else two
	large = rng.random() < 0.15
	labels = g.LABELS[:rng.choice([1, 2, 4])]
	tags = g.TAGS[:rng.choice([1, 2, 4])]
	words = rng.sample(g.WORDS, rng.choice([1, 3, 10]))
	unary = rng.choice([0, 0.1, 0.4])
	kw = rng.choice([dict(dot=True), dict(horzmarkov=1), dict(horzmarkov=0),
			dict(vertmarkov=2, horzmarkov=1), dict(factor='left')])
	a = gentreebank(rng, disc, None, large, labels, tags, words, unary)
	b = None
	if two:
		if rng.random() < 0.3:
			words = rng.sample(g.WORDS, 4)
		b = gentreebank(rng, disc, None, rng.random() < 0.2, labels, tags,
				words, unary)
		if rng.random() < 0.5:
			b += [rng.choice(a)]
	return dict(a=a, b=b, kw=kw, disc=disc > 0 or rng.random() < 0.3,
			seed=rng.randrange(10 ** 9))


def pack(bank, bank2=None):
	res = _fragments.getctrees(
			[(g.totree(m, Tree), sent) for m, sent in bank],
			None if bank2 is None else
			[(g.totree(m, Tree), sent) for m, sent in bank2])
	return res['trees1'], res['trees2'], res['vocab']


def twoterms(ws):
	return len(ws) >= 2 and any(re.match(CONTENT, p[0]) for p in ws)


def observe(ctx, want):
	for t, (f, occ) in want.items():
		ctx.ev('fragments')
		if fr.depth(f) > 1:
			ctx.ev('deep fragments')
			if fr.frontiers(f):
				yield t
		if isdiscfrag(f):
			ctx.ev('discontinuous fragments')


def isdiscfrag(f):
	return (f[0][1] != 'W' and len(f[0][1]) > 1) or any(
			isdiscfrag(c) for c in f[1] if c is not None)


def checkcore(case, ctx):
	rng = random.Random(case['seed'])
	a = binbank(case['a'], case['kw'])
	b = case['b'] and binbank(case['b'], case['kw'])
	ta = [fr.T(*x) for x in a]
	tb = b and [fr.T(*x) for x in b]
	disc = case['disc']
	ca, cb, vocab = pack(a, b)
	ctx.ev('treebanks')
	if b:
		ctx.ev('two treebanks')
	if max(ca.maxnodes, cb.maxnodes if b else 0) > 63:
		ctx.ev('large trees')
	want = fr.common(ta, tb, disc)
	deep = list(observe(ctx, want))
	got = _fragments.extractfragments(ca, 0, 0, vocab, cb, disc=disc,
			approx=False)
	ctx.eq(set(got), set(want), 'fragments', 'fragments in common (disc=%s)'
			% disc)
	approx = _fragments.extractfragments(ca, 0, 0, vocab, cb, disc=disc,
			approx=True)
	ctx.eq(approx, {t: len(occ) for t, (f, occ) in want.items()}, 'approx',
			'number of occurrences as maximal fragment')
	ctx.ev('approximate counts', len(approx))
	keys = sorted(got)
	bits = [got[t] for t in keys]
	maxnodes = max(ca.maxnodes, cb.maxnodes) if b else None
	for hay, thay in ((ca, ta), (cb, tb)):
		if not thay:
			continue
		occ = [fr.occurrences(want[t][0], thay) for t in keys]
		if thay is ta:
			if any(len(o) > 1 for t, o in zip(keys, occ) if t in deep):
				ctx.nontrivial((len(keys), len(ta)))
				ctx.sample(dict(trees=len(ta), fragments=keys[:3]))
		counts = _fragments.exactcounts(bits, ca, hay, indices=0,
				maxnodes=maxnodes)
		ctx.eq(list(counts), [len(o) for o in occ], 'counts',
				'frequencies of fragments')
		ctx.ev('counts', len(keys))
		idx = _fragments.exactcounts(bits, ca, hay, indices=1,
				maxnodes=maxnodes)
		ctx.eq([list(x) for x in idx], [[n for n, _ in o] for o in occ],
				'indices', 'indices of fragments')
		ctx.ev('index sets', len(keys))
		idx = _fragments.exactcounts(bits, ca, hay, indices=2,
				maxnodes=maxnodes)
		checknodes(idx, occ, hay, thay, vocab, ctx)
		# parts of the treebank
		for _ in range(3):
			start = rng.randint(0, len(thay))
			end = rng.randint(start, len(thay) + 1)
			sub = [[(n, j) for n, j in o if n >= start
					and (n < end or not end)] for o in occ]
			if end == 0:
				sub = occ
			x = _fragments.exactcountsslice(bits, ca, hay, 0, maxnodes,
					start, end)
			ctx.eq(list(x), [len(o) for o in sub], 'slice',
					('counts in part of treebank', start, end))
			x = _fragments.exactcountsslice(bits, ca, hay, 1, maxnodes,
					start, end)
			ctx.eq([list(y) for y in x], [[n for n, _ in o] for o in sub],
					'slice', ('indices in part of treebank', start, end))
			x = _fragments.exactcountsslice(bits, ca, hay, 2, maxnodes,
					start, end)
			checknodes(x, sub, hay, thay, vocab, ctx)
			ctx.ev('slices')
			if keys:
				k = rng.randrange(len(keys))
				limit = rng.choice([1, 2, 3])
				x = _fragments.exactcountsslice([bits[k]], ca, hay, 1,
						maxnodes, start, end, limit)
				ctx.eq(list(x[0]), [n for n, _ in sub[k]][:limit], 'limit',
						('first %d indices' % limit, start, end))
				x = _fragments.exactcountsslice([bits[k]], ca, hay, 0,
						maxnodes, start, end, limit)
				ctx.eq(list(x), [min(limit, len(sub[k]))], 'limit',
						('at most %d matches' % limit, start, end))
				x = _fragments.exactcountsslice(bits, ca, hay, 0, maxnodes,
						start, end, limit)
				ctx.eq(sum(x), min(limit, sum(len(o) for o in sub)), 'limit',
						('at most %d matches in total' % limit, start, end))
				ctx.ev('limited')
	# parts of the work
	parts = {}
	pos = 0
	while pos < len(ta):
		end = rng.randint(pos + 1, len(ta))
		for t, w in _fragments.extractfragments(ca, pos, end, vocab, cb,
				disc=disc, approx=True).items():
			parts[t] = parts.get(t, 0) + w
		pos = end
	ctx.eq(parts, approx, 'parts', 'sum of parts of the work')
	if b:
		i = rng.randint(0, len(tb) - 1)
		j = rng.randint(i + 1, len(tb))
		x = _fragments.extractfragments(ca, 0, 0, vocab, cb, start2=i, end2=j,
				disc=disc, approx=True)
		w = fr.common(ta, tb, disc, pairs=lambda n, m: i <= m < j)
		ctx.eq(x, {t: len(o) for t, (_, o) in w.items()}, 'parts',
				('part of second treebank', i, j))
		x = _fragments.extractfragments(ca, 0, 0, vocab, cb, start2=i, end2=j,
				disc=disc, approx=True, twoterms=CONTENT)
		w = fr.common(ta, tb, disc, pairs=lambda n, m: i <= m < j,
				keep=twoterms)
		ctx.eq(x, {t: len(o) for t, (_, o) in w.items()}, 'twoterms',
				('two terminals; part of second treebank', i, j))
	ctx.ev('parts of the work')
	# restrictions
	w = fr.common(ta, tb, disc, keep=twoterms)
	x = _fragments.extractfragments(ca, 0, 0, vocab, cb, disc=disc,
			approx=True, twoterms=CONTENT)
	ctx.eq(x, {t: len(o) for t, (_, o) in w.items()}, 'twoterms',
			'fragments with two terminals')
	ctx.ev('twoterms')
	ctx.ev('twoterms fragments', len(w))
	w = fr.common(ta, tb, disc, pairs=lambda n, m: m == n + 1)
	x = _fragments.extractfragments(ca, 0, 0, vocab, cb, disc=disc,
			approx=True, adjacent=True)
	ctx.eq(x, {t: len(o) for t, (_, o) in w.items()}, 'adjacent',
			'fragments from adjacent trees')
	ctx.ev('adjacent')
	if len(ta) < 4:
		with contextlib.redirect_stdout(io.StringIO()):
			x = _fragments.extractfragments(ca, 0, 0, vocab, cb, disc=disc,
					debug=True)
		ctx.eq(x, approx, 'debug', 'result with debug')
	# the needles: whole trees
	if b:
		mn = max(ca.maxnodes, cb.maxnodes)
		strs, bits = _fragments.completebitsets(ca, vocab, mn, disc)
		every = [(t, 0, frozenset(range(len(t)))) for t in ta]
		ctx.eq(strs, [fr.text(*x, disc) for x in every], 'complete',
				'complete trees as fragments')
		occ = [fr.occurrences(fr.abstract(*x), tb) for x in every]
		x = _fragments.exactcounts(bits, ca, cb, indices=1, maxnodes=mn)
		ctx.eq([list(y) for y in x], [[n for n, _ in o] for o in occ],
				'complete', 'indices of complete trees')
		ctx.ev('complete')
		ctx.ev('not in haystack', sum(not o for o in occ))


def checknodes(idx, occ, hay, thay, vocab, ctx):
	for (trees, nodes), o in zip(idx, occ):
		ctx.eq(list(trees), [n for n, _ in o], 'indices',
				'indices of fragments with node numbers')
		got = Counter((n, hay.extract(n, vocab, True, j))
				for n, j in zip(trees, nodes))
		want = Counter((n, subtree(thay[n], j)) for n, j in o)
		ctx.eq(got, want, 'nodes', 'nodes where fragment occurs')
		ctx.ev('node numbers', len(o))


def subtree(t, j):
	if not t.ch[j]:
		return '(%s %d=%s)' % (t.label[j], t.leaves[j][0],
				fr.escape(t.prod[j][2]))
	return '(%s %s)' % (t.label[j], ' '.join(subtree(t, c) for c in t.ch[j]))


def checkrecurring(case, ctx):
	rng = random.Random(case['seed'])
	a = binbank(case['a'], case['kw'])
	ta = [fr.T(*x) for x in a]
	ctx.ev('treebanks')
	trees = [g.totree(m, ParentedTree) for m, _ in a]
	sents = [sent for _, sent in a]
	disc = case['disc']
	want = fr.common(ta, None, disc)
	list(observe(ctx, want))
	# leave another treebank behind
	if rng.random() < 0.5:
		fragments.PARAMS.update(trees2='garbage', cover=(1, 1), nofreq=True,
				complete=False)
	results = []
	for numproc in (1, rng.choice([2, 3, 4])):
		for indices in (True, False):
			if numproc > 1 and rng.random() < 0.5:
				continue
			got = fragments.recurringfragments(trees, sents, numproc, disc,
					indices, maxdepth=0)
			occ = {t: [n for n, _ in fr.occurrences(f, ta)]
					for t, (f, _) in want.items()}
			if not indices:
				occ = {t: len(o) for t, o in occ.items()}
			else:
				got = {t: list(o) for t, o in got.items()}
			ctx.eq(got, occ, 'recurring', 'recurring fragments, %d processes'
					% numproc)
			ctx.ev('counts', len(occ))
			if numproc > 1:
				ctx.ev('multiple processes')
	order = list(range(len(trees)))
	rng.shuffle(order)
	got = fragments.recurringfragments([trees[n] for n in order],
			[sents[n] for n in order], 1, disc, False, maxdepth=0)
	ctx.eq(got, {t: len(fr.occurrences(f, ta)) for t, (f, _) in want.items()},
			'order', 'fragments of trees in other order')


# command line
def gencli(rng, ctx):
	case = gencase(rng, ctx, two=rng.random() < 0.5)
	case['fmt'] = rng.choice(['bracket', 'discbracket', 'export'])
	if case['fmt'] == 'bracket':
		case['a'] = [x for x in case['a'] if contin(x[0])]
		case['b'] = case['b'] and [x for x in case['b'] if contin(x[0])]
	for x in 'ab':
		if case[x] is not None:
			case[x] = [(m, ['w' if re.match('%%|#', w) else w for w in s])
					for m, s in case[x]]
	if not case['a']:
		case['a'] = gentreebank(rng, 0)
	if not case['b']:
		case['b'] = None
	opts = set()
	mode = rng.choice(['', '', 'indices', 'relfreq', 'approx', 'nofreq'])
	if mode:
		opts.add(mode)
	if case['b'] and mode in ('', 'indices') and rng.random() < 0.4:
		opts.add('complete')
	for x in ('twoterms', 'adjacent', 'numtrees', 'debin', 'alt', 'cover'):
		if rng.random() < (0.15 if x == 'adjacent' else 0.25) and not (
				'complete' in opts and x in ('twoterms', 'adjacent', 'cover')):
			opts.add(x)
	if case['b']:
		opts.discard('numtrees')
	if 'alt' in opts and case['fmt'] != 'bracket':
		opts.discard('alt')
	case['opts'] = sorted(opts)
	case['numproc'] = rng.choice([1, 1, 1, 2, 3])
	case['batch'] = bool(case['b']) and case['numproc'] == 1 and (
			rng.random() < 0.5) and 'cover' not in opts
	case['numtrees'] = rng.randint(1, len(case['a']) + 1)
	case['cover'] = rng.choice([(1, 999), (2, 999), (2, 0), (1, 1)])
	return case


def contin(m):
	return all(g.fanout(x) == 1 for x in g.nodes(m))


def writebank(name, bank, fmt):
	with open(name, 'w', encoding='utf8') as out:
		for n, (m, sent) in enumerate(bank, 1):
			out.write(writetree(g.totree(m, ParentedTree), sent, str(n), fmt))


def readbank(name, fmt, limit=None):
	return [fr.T(g.tomodel(binarize(handledisc(item.tree), dot=True)),
				item.sent) for _, item in READERS[fmt](name).itertrees(0, limit)]


def debin(t, disc):
	tree, sent = (discbrackettree(t) if disc
			else brackettree(t, detectdisc=False))
	return writetree(unbinarize(tree), sent, 0,
			'discbracket' if disc else 'bracket').strip()


def alt(t):
	t = re.sub(r'"', "''", t)
	t = re.sub(r'\(([^ ()]+) ([^ ()]+)\)', r'(\1 "\2")', t)
	return re.sub(r'\(([^ ()]+) \)', r'\1', t)


def expectedlines(case, ta, tb, hay):
	"""Counter of lines."""
	opts, disc = case['opts'], case['fmt'] != 'bracket'
	if 'complete' in opts:
		items = []
		for t in ta:
			x = (t, 0, frozenset(range(len(t))))
			items.append((fr.text(*x, disc), fr.abstract(*x), None))
	else:
		keep = twoterms if 'twoterms' in opts else None
		pairs = (lambda n, m: m == n + 1) if 'adjacent' in opts else None
		items = [(t, f, o) for t, (f, o) in fr.common(ta, tb, disc, keep,
				pairs).items()]
	if 'cover' in opts:
		d, w = case['cover']
		seen = {t for t, _, _ in items}
		for n, a in enumerate(ta):
			for i in range(len(a)):
				for nodes in fr.allfrags(a, i, d):
					f = fr.abstract(a, i, nodes)
					t = fr.text(a, i, nodes, disc)
					if fr.frontiers(f) <= w and t not in seen:
						seen.add(t)
						items.append((t, f, None))
	result = Counter()
	sums = Counter()
	rows = []
	for t, f, o in items:
		x = [n for n, _ in fr.occurrences(f, hay)]
		cnt = len(o) if 'approx' in opts and o is not None else len(x)
		if not cnt:
			continue
		if 'debin' in opts:
			t = debin(t, disc)
		if 'alt' in opts:
			t = alt(t)
		label = t[1:t.index(' ')]
		sums[label] += cnt
		rows.append((t, x, cnt, label))
	for t, x, cnt, label in rows:
		if 'nofreq' in opts:
			result[t] += 1
		elif 'indices' in opts:
			if 'adjacent' in opts:
				x = [n for n in x if n - 1 in x or n + 1 in x]
			result['%s\t%s' % (t, x)] += 1
		elif 'relfreq' in opts:
			result['%s\t%d/%d' % (t, cnt, sums[label])] += 1
		else:
			result['%s\t%d' % (t, cnt)] += 1
	return result


def checkcli(case, ctx):
	fmt, opts = case['fmt'], case['opts']
	writebank('A', case['a'], fmt)
	files = ['A']
	limit = case['numtrees'] if 'numtrees' in opts else None
	ta = readbank('A', fmt, limit)
	tb = None
	if case['b']:
		writebank('B', case['b'], fmt)
		files.append('B')
		tb = readbank('B', fmt)
	argv = files + ['--fmt=' + fmt, '--quiet']
	for x in opts:
		argv.append({'twoterms': '--twoterms=' + CONTENT,
				'numtrees': '--numtrees=%s' % limit,
				'cover': '--cover=%d%s' % (case['cover'][0],
					'' if case['cover'][1] == 999
					else ',%d' % case['cover'][1])}.get(x, '--' + x))
	ctx.ev('treebanks')
	ctx.ev('command line')
	if 'debin' in opts:
		ctx.ev('debinarized')
	if case['batch']:
		os.makedirs('out', exist_ok=True)
		writebank('C', case['a'][:2] + case['b'][:2], fmt)
		tc = readbank('C', fmt)
		with contextlib.redirect_stdout(io.StringIO()):
			fragments.main(argv[:1] + ['C', 'B'] + argv[2:] + ['--batch=out'])
		for name, t2 in (('B', tb), ('C', tc)):
			with open('out/A_' + name, encoding='utf8') as inp:
				got = Counter(inp.read().splitlines())
			check2(ctx, case, got, expectedlines(case, ta, t2, t2),
					(name, argv))
		ctx.eq(sorted(os.listdir('out')), ['A_B', 'A_C'], 'batch', 'files')
		shutil.rmtree('out')
		ctx.ev('batch')
		return
	argv.append('--numproc=%d' % case['numproc'])
	if case['numproc'] > 1:
		ctx.ev('multiple processes')
	out = io.TextIOWrapper(io.BytesIO(), encoding='utf8')
	if case['seed'] % 2:
		argv += ['-o', 'output']
	with contextlib.redirect_stdout(out):
		fragments.main(argv)
	if case['seed'] % 2:
		with open('output', encoding='utf8') as inp:
			got = inp.read()
		os.unlink('output')
	else:
		out.flush()
		got = out.buffer.getvalue().decode('utf8')
	check2(ctx, case, Counter(got.splitlines()), expectedlines(case, ta, tb,
			tb if 'complete' in opts else ta), argv)


def check2(ctx, case, got, want, argv):
	ctx.eq(got, want, 'command line', argv)
	ctx.ev('counts', len(want))


def gencore(rng, ctx):
	return gencase(rng, ctx)


def genrec(rng, ctx):
	return gencase(rng, ctx, two=False)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'core': (gencore, checkcore, 3000 * k),
		'recurring': (genrec, checkrecurring, 300 * k),
		'cli': (gencli, checkcli, 1800 * k),
	}

"""C07: all views of a corpus agree and no sentence is lost."""
import glob
import gzip
import os
import re
import shutil
import subprocess
from xml.sax.saxutils import quoteattr, escape as xmlescape
from discodop.tree import Tree, ParentedTree
from discodop.treebank import writetree, READERS
import g

PLAN = dict(
	mods=['bit'],
	rule='corpora of 1-5 files with 0-6 sentences each in all seven corpus '
	'formats, optionally compressed, read through a random sequence of view '
	'calls (trees, sents, tagged_sents, blocks, itertrees with and without '
	'slices); nontrivial: at least two files or slices within the corpus; '
	'counted by format, file sizes and contents',
	require={'views': 1500, 'slices': 500, 'multiple files': 200,
		'compressed': 100, 'multiple directories': 60, 'blocks re-read': 500, 'rejected files': 50,
		'xml corpora': 100, 'incomplete iterations': 50},
)
FORMATS = ['export', 'export', 'bracket', 'bracket', 'discbracket', 'tiger',
		'alpino', 'alpinocompact', 'ftb']
WORDS = g.WORDS + ['é', '日本', '&', '<', '"', "it's", '1/2', 'a=b', '3=x', '-']
# (unsorted names, in expected order)
NAMES = [['wsj_1', 'wsj_2', 'wsj_10', 'wsj_100', 'wsj_101'],
		['a', 'b', 'c', 'd', 'e'],
		['part.01', 'part.2', 'part.03', 'part.20', 'part.100'],
		['x-1-b', 'x-2-a', 'x-2-b', 'x-10-a', 'x-11-c'],
		['00/wsj_9', '00/wsj_10', '01/wsj_2', '02/wsj_1', '02/wsj_20'],
		['a/02', 'a/10', 'b/1', 'c/9', 'c/100']]


def gen(rng, ctx):
	fmt = rng.choice(FORMATS)
	names = rng.choice(NAMES)
	nfiles = rng.choice([1, 1, 2, 3, 5])
	names = sorted(rng.sample(names, nfiles), key=names.index)
	files = []
	disc = 0 if fmt in ('bracket', 'ftb') else 0.5
	root = {'export': 'ROOT', 'tiger': 'VROOT', 'ftb': 'SENT',
			'alpino': 'TOP', 'alpinocompact': 'TOP'}.get(fmt, 'S')
	for n in names:
		sents = []
		for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
			size = rng.randint(1, 7)
			m = g.randtree(rng, size, disc=disc, root=root)
			if fmt.startswith('alpino'):
				m = alpinocase(m)
			sents.append((m, g.randsent(rng, size, words=WORDS)))
		files.append((n, sents))
	if not any(a[1] for a in files) and (
			fmt not in ('bracket', 'discbracket', 'export')):
		files[0][1].append(((root, (('NN' if fmt[0] != 'a' else 'nn', (0, )),
				)), ['x']))
	comp = None
	if fmt in ('export', 'bracket', 'discbracket', 'tiger', 'ftb'):
		comp = rng.choice([None, None, '.gz', '.zst'])
		if comp == '.zst' and not shutil.which('zstd'):
			comp = '.gz'
	return rng, fmt, files, comp


def alpinocase(m):
	if not isinstance(m, tuple):
		return m
	return (m[0].lower() if g.preterminal(m) else m[0].upper(),
			tuple(alpinocase(c) for c in m[1]))


def tigerxml(m, sent, sentid):
	terms, nts = [], []
	cnt = [500]

	def rec(m, isroot=False):
		if g.preterminal(m):
			i = m[1][0]
			terms.append((i, '<t id="%s_%d" word=%s lemma="--" pos="%s" '
					'morph="--" />' % (sentid, i + 1, quoteattr(sent[i]),
					m[0])))
			return '%s_%d' % (sentid, i + 1)
		cnt[0] += 1
		nid = 'VROOT' if isroot else str(cnt[0])
		edges = ''.join('<edge label="--" idref="%s" />' % rec(c)
				for c in m[1])
		nts.append('<nt id="%s_%s" cat="%s">%s</nt>\n' % (
				sentid, nid, m[0], edges))
		return '%s_%s' % (sentid, nid)
	root = rec(m, True)
	return ('<s id="%s">\n<graph root="%s">\n<terminals>\n%s\n</terminals>\n'
			'<nonterminals>\n%s</nonterminals>\n</graph>\n</s>\n' % (
			sentid, root, '\n'.join(a for _, a in sorted(terms)),
			''.join(nts)))


def ftbxml(m, sent, nb):
	def rec(m):
		if g.preterminal(m):
			return '<w cat="%s" lemma="x">%s</w>' % (
					m[0], xmlescape(sent[m[1][0]]))
		return '<%s>%s</%s>' % (m[0], ''.join(map(rec, m[1])), m[0])
	return '<SENT nb="%s" textid="1">%s</SENT>\n' % (
			nb, ''.join(map(rec, m[1])))


def put(name, data, comp):
	data = data.encode('utf8') if isinstance(data, str) else data
	if os.path.dirname(name):
		os.makedirs(os.path.dirname(name), exist_ok=True)
	if comp == '.gz':
		with gzip.open(name + comp, 'wb') as f:
			f.write(data)
	elif comp == '.zst':
		subprocess.run(['zstd', '-q', '-f', '-', '-o', name + comp],
				input=data, check=True)
	else:
		with open(name, 'wb') as f:
			f.write(data)


def fresh(d):
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)


def write(fmt, files, comp, d):
	"""Write files; return pattern and [(key, model, sent), ...]."""
	fresh(d)
	result = []
	n = 0
	ext = {'export': '.export', 'bracket': '.mrg', 'discbracket': '.dbr',
			'tiger': '.xml', 'alpino': '.xml', 'ftb': '.xml',
			'alpinocompact': ''}[fmt]
	for name, sents in files:
		if fmt in ('export', 'bracket', 'discbracket'):
			text = '#FORMAT 3\n%% header\n' if fmt == 'export' else ''
			for m, sent in sents:
				n += 1
				text += writetree(g.totree(m, ParentedTree), sent, str(n), fmt)
				result.append((str(n) if fmt == 'export' else n, m, sent))
			put(os.path.join(d, name + ext), text, comp)
		elif fmt == 'tiger':
			text = ('<?xml version="1.0" encoding="UTF-8"?>\n<corpus id="x">'
					'<head><meta /></head>\n<body>\n')
			for m, sent in sents:
				n += 1
				text += tigerxml(m, sent, 's%d' % n)
				result.append(('s%d' % n, m, sent))
			put(os.path.join(d, name + ext), text + '</body></corpus>', comp)
		elif fmt == 'ftb':
			text = '<?xml version="1.0" encoding="UTF-8"?>\n<text>\n'
			for i, (m, sent) in enumerate(sents, 1):
				text += ftbxml(m, sent, i)
				base = os.path.basename(name) + ext if comp else (
						os.path.basename(name))
				result.append(('%s-%d' % (base, i), m, sent))
			put(os.path.join(d, name + ext), text + '</text>\n', comp)
		elif fmt == 'alpino':
			for i, (m, sent) in enumerate(sents):
				n += 1
				base = '%d' % n
				put(os.path.join(d, base + ext), writetree(g.totree(m,
						ParentedTree), sent, base, 'alpino'), None)
				result.append(('%s/%s' % (os.path.basename(d), base), m, sent))
		elif fmt == 'alpinocompact':
			data = ''
			base = os.path.basename(name)
			for i, (m, sent) in enumerate(sents, 1):
				block = writetree(g.totree(m, ParentedTree), sent, i, 'alpino')
				data += ('<?xml version="1.0" encoding="UTF-8"?>\n'
						+ block.replace('<sentence>',
							'<sentence sentid="%s.%d">' % (base, i)))
				if not data.endswith('\n'):
					data += '\n'
				result.append(('%s/%s.%d' % (base, base, i), m, sent))
			put(os.path.join(d, name + '.index'), '', None)
			with gzip.open(os.path.join(d, name + '.data.dz'), 'wb') as f:
				f.write(data.encode('utf8'))
	sub = '*/*' if '/' in files[0][0] and fmt != 'alpino' else '*'
	pattern = os.path.join(d, sub + ext + (comp or ''))
	if fmt == 'alpinocompact':
		pattern = os.path.join(d, sub + '.index')
	return pattern, result


def tagged(m, sent):
	tags = {a[1][0]: a[0] for a in g.nodes(m) if g.preterminal(a)}
	return [(w, tags[i]) for i, w in enumerate(sent)]


def reread(ctx, fmt, block, m, sent, what):
	"""Feed raw block to reader."""
	ctx.ev('blocks re-read')
	fresh('again')
	if fmt == 'alpino':
		put('again/1.xml', block, None)
		pattern = 'again/*.xml'
	elif fmt == 'alpinocompact':
		if isinstance(block, str):
			block = block.encode('utf8')
		with gzip.open('again/x.data.dz', 'wb') as f:
			f.write(block)
		put('again/x.index', '', None)
		pattern = 'again/x.index'
	else:
		if isinstance(block, bytes):
			block = block.decode('utf8')
		if fmt == 'tiger':
			block = '<corpus><body>%s</body></corpus>' % block
		elif fmt == 'ftb':
			block = '<text>%s</text>' % block
		put('again/x', block, None)
		pattern = 'again/x'
	items = list(READERS[fmt](pattern).itertrees())
	ctx.eq([(g.tomodel(item.tree), item.sent) for _, item in items],
			[(m, sent)], 're-reading block, ' + fmt, (what, block))


def check(case, ctx):
	rng, fmt, files, comp = case
	d = 'corp'
	pattern, want = write(fmt, files, comp, d)
	keys = [k for k, _, _ in want]
	wtrees = [m for _, m, _ in want]
	wsents = [s for _, _, s in want]
	desc = (fmt, comp, files)
	if fmt in ('tiger', 'alpino', 'ftb', 'alpinocompact'):
		ctx.ev('xml corpora')
	if fmt == 'alpino':
		# one file per sentence, in numeric order
		pass
	if len(files) > 1:
		ctx.ev('multiple files')
		ctx.ev('multiple directories', '/' in files[0][0])
	if comp:
		ctx.ev('compressed')
	ctx.sample(desc)
	reader = READERS[fmt](pattern)
	nontriv = len([a for a in files if a[1]]) > 1
	for _ in range(rng.randint(2, 7)):
		view = rng.choice(['trees', 'sents', 'tagged_sents', 'blocks',
				'itertrees', 'slice', 'slice', 'partial'])
		ctx.ev('views')
		if view == 'slice':
			a = rng.choice([None, 0, rng.randint(0, len(want) + 1)])
			b = rng.choice([None, rng.randint(0, len(want) + 2)])
			ctx.ev('slices')
			nontriv = True
			got = list(reader.itertrees(a, b))
			ctx.eq([(k, g.tomodel(x.tree), x.sent) for k, x in got],
					want[a:b], 'itertrees slice, ' + fmt, ((a, b), desc))
		elif view == 'partial':  # an abandoned iteration has no effect
			it = reader.itertrees()
			for _ in range(rng.randint(0, 2)):
				next(it, None)
			ctx.ev('incomplete iterations')
		elif view == 'itertrees':
			got = list(reader.itertrees())
			ctx.eq([(k, g.tomodel(x.tree), x.sent) for k, x in got],
					want, 'itertrees, ' + fmt, desc)
		elif view == 'trees':
			got = reader.trees()
			ctx.eq([(k, g.tomodel(x)) for k, x in got.items()],
					list(zip(keys, wtrees)), 'trees, ' + fmt, desc)
		elif view == 'sents':
			got = reader.sents()
			ctx.eq(list(got.items()), list(zip(keys, wsents)),
					'sents, ' + fmt, desc)
		elif view == 'tagged_sents':
			got = reader.tagged_sents()
			ctx.eq(list(got.items()), [(k, tagged(m, s))
					for k, m, s in want], 'tagged_sents, ' + fmt, desc)
		elif view == 'blocks':
			got = reader.blocks()
			ctx.eq(list(got), keys, 'blocks keys, ' + fmt, desc)
			for (k, block), (_, m, s) in zip(got.items(), want):
				if rng.random() < 0.4:
					reread(ctx, fmt, block, m, s, k)
	if nontriv:
		ctx.nontrivial(desc)
	# raw block of items
	for (k, item), (_, m, s) in zip(reader.itertrees(), want):
		if rng.random() < 0.2 and item.block:
			reread(ctx, fmt, item.block, m, s, k)
	# several readers with one file each
	got = []
	if fmt not in ('alpino', ) and len(files) > 1:
		for name, sents in files:
			fn = [a for a in glob.glob(os.path.join(d, name + '*'))
					if re.match(re.escape(os.path.basename(name))
					+ r'(\.export|\.mrg|\.dbr|\.xml|\.index)(\.gz|\.zst)?$',
					os.path.basename(a))]
			assert len(fn) == 1, (fn, name)
			got += [(g.tomodel(x.tree), x.sent) for _, x in
					READERS[fmt](fn[0]).itertrees()]
		ctx.eq(got, list(zip(wtrees, wsents)), 'concatenation, ' + fmt, desc)


def genopts(rng, ctx):
	fmt = rng.choice(['export', 'bracket', 'discbracket'])
	sents = []
	tags = g.TAGS[:3] + ['$,', '$.', '-NONE-', '``', ':']
	for _ in range(rng.randint(1, 5)):
		size = rng.randint(1, 9)
		m = g.randtree(rng, size, disc=0.4 if fmt != 'bracket' else 0,
				root='ROOT', tags=tags)
		sents.append((m, [rng.choice(g.WORDS + [',', '.', '"', '-', ':', '(']
				+ ([''] if fmt != 'export' else [])) for _ in range(size)]))
	return (rng, fmt, sents, rng.choice([None, 'move', 'moveall', 'remove',
			'removeall', 'prune', 'root']), rng.random() < 0.4)


def checkopts(case, ctx):
	"""With transforming options, the views agree among each other."""
	rng, fmt, sents, punct, removeempty = case
	pattern, want = write(fmt, [('a', sents)], None, 'corp')

	def new():
		return READERS[fmt](pattern, punct=punct, removeempty=removeempty)
	desc = (fmt, punct, removeempty, sents)
	items = list(new().itertrees())
	keys = [k for k, _, _ in want]
	ctx.eq([k for k, _ in items], keys, 'keys with options', desc)
	views = ['trees', 'sents', 'tagged_sents', 'trees', 'sents']
	rng.shuffle(views)
	reader = new()
	for view in views:
		ctx.ev('views')
		got = list(getattr(reader, view)().items())
		if view == 'trees':
			got = [(k, g.tomodel(t)) for k, t in got]
			exp = [(k, g.tomodel(x.tree)) for k, x in items]
		elif view == 'sents':
			exp = [(k, x.sent) for k, x in items]
		else:
			if any(len(x.sent) != len(list(x.tree.pos())) for _, x in items):
				continue
			exp = [(k, [(w, t) for w, (_, t) in zip(x.sent,
					sorted(x.tree.pos()))]) for k, x in items]
		ctx.eq(got, exp, view + ' with options', desc)
	for k, x in items:
		ctx.eq(sorted(x.tree.leaves()), list(range(len(x.sent))),
				'tokens of tree and sentence', (desc, k))


def genbad(rng, ctx):
	fmt = 'export'
	sents = []
	for _ in range(rng.randint(2, 5)):
		size = rng.randint(1, 5)
		sents.append((g.randtree(rng, size), g.randsent(rng, size)))
	return rng, sents, rng.choice(['dup', 'noeos', 'nobos', 'wrongeos'])


def checkbad(case, ctx):
	"""Material that would lead to lost sentences is refused."""
	rng, sents, how = case
	ctx.ev('rejected files')
	i = rng.randrange(len(sents))
	j = rng.choice([a for a in range(len(sents)) if a != i])
	text = ''
	for n, (m, sent) in enumerate(sents):
		s = writetree(g.totree(m, ParentedTree), sent, str(n), 'export')
		lines = s.splitlines()
		if n == i:
			if how == 'dup':
				lines[0], lines[-1] = '#BOS %d' % j, '#EOS %d' % j
			elif how == 'noeos' and n < len(sents) - 1:
				lines.pop()
			elif how in ('nobos', 'noeos'):
				lines.pop(0)
			else:
				lines[-1] = '#EOS 99'
		text += '\n'.join(lines) + '\n'
	fresh('corp')
	put('corp/x.export', text, None)
	reader = READERS['export']('corp/x.export')
	try:
		got = list(reader.itertrees())
	except ValueError:
		pass
	else:
		ctx.fail('malformed export accepted', '%s: %d trees from\n%s', how,
				len(got), text)
	for args in ((), ('nonexistent*', )):
		if args:
			try:
				READERS[rng.choice(list(READERS))](*args)
			except ValueError:
				pass
			else:
				ctx.fail('no files', 'pattern without files accepted')


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return dict(
			corpora=(gen, check, 900 * k),
			options=(genopts, checkopts, 400 * k),
			malformed=(genbad, checkbad, 100 * k))

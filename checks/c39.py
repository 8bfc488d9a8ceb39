"""C39: command-line conversions conserve the corpus."""
import contextlib
import glob
import gzip
import io
import os
import re
import shutil
import subprocess
import sys
from discodop import cli
from discodop.tree import Tree, ParentedTree, DrawTree
from discodop.treebank import READERS, EXPORTHEADER, writetree
from discodop import treetransforms as T
from discodop.treebanktransforms import (transform, reversetransform,
		expandpresets)
from discodop.grammar import (treebankgrammar, dopreduction, doubledop, dop1,
		compiletsg, writegrammar)
import g
import lc
from checks import c06, c07, c11

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'coarsetofine',
		'disambiguation', '_fragments', 'estimates'],
	rule='random corpora (1-9 trees, discontinuous, hostile words, functions, '
	'morphology, lemmas) in seven input formats, converted by the command line '
	'tool with random combinations of documented options; compared with the '
	'model of the corpus (formats, selection, order, identifiers, encodings), '
	'with the composition of library functions (transformations), and with the '
	'input (reversible conversions); grammar and treedraw commands likewise; '
	'nontrivial: at least two options besides formats; counted by options and '
	'corpus',
	require={'conversions': 600, 'trees converted': 2500, 'slices': 200,
		'negative slices': 60, 'maxlen': 100, 'renumber': 100, 'encodings': 100,
		'output encodings': 100, 'verbatim': 60, 'library pipelines': 400,
		'transformations': 300, 'binarize': 150, 'markovthreshold': 30,
		'reduced Markov order': 10, 'round trips': 200,
		'standard input and output': 20, 'dependency formats': 30,
		'reader options': 200, 'xml input': 100, 'sentence ids': 100,
		'grammar command': 120, 'fragments read': 20, 'gzip grammars': 30,
		'estimators': 15, 'backtransforms': 40, 'treedraw': 40,
		'drawings': 100, 'merges': 40,
		'refused': 10},
)
INFMT = ['export', 'bracket', 'discbracket']
XML = ['tiger', 'alpino', 'ftb', 'alpinocompact']
REPO = os.environ.get('VF_REPO', '/repo')
DRIVER = ('import sys; sys.argv[0] = "discodop"; '
		'from discodop.cli import main; main()')


def run(argv, ctx):
	"""Run command in this process; returns stdout, stderr, error."""
	old = sys.argv[:]
	out, err = io.StringIO(), io.StringIO()
	oldstderr, oldstdout = cli.stderr, cli.stdout
	error = None
	try:
		sys.argv[:] = ['discodop'] + argv
		cli.argv = sys.argv
		cli.stderr = err
		with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
			cli.main()
	except SystemExit as ex:
		error = ex
	except ValueError as ex:
		error = ex
	finally:
		sys.argv[:] = old
		cli.stderr, cli.stdout = oldstderr, oldstdout
	return out.getvalue(), err.getvalue(), error


def randcorpus(rng, fmt, enc, n=None, cont=None, plain=False):
	result = []
	if n is None:
		n = rng.choice([1, 2, 3, 5, 9])
	disc = 0 if fmt == 'bracket' or cont else 0.5
	root = 'ROOT' if fmt == 'export' else rng.choice(['ROOT', 'S', 'TOP'])
	for _ in range(n):
		size = g.size(rng)
		m = g.randtree(rng, size, disc=disc, root=root, unary=rng.choice(
				[0, 0.15]))
		if not plain and rng.random() < 0.4:
			m = c06.label(rng, m)
		sent = c06.words(rng, size, enc)
		comment = (rng.choice(['a comment', 'x', 'n=1'])
				if fmt != 'bracket' and rng.random() < 0.2 else None)
		result.append((m, sent, comment))
	return result


def slicearg(rng, n):
	def bound():
		return rng.choice(['', '', '0', '1', str(n), str(n // 2), str(n + 2),
				'2', '-1', '-2', str(-n), str(-n - 1)])
	a, b = bound(), bound()
	return a, b


def sliced(seq, a, b):
	return list(seq)[int(a) if a else None:int(b) if b else None]


# formats, selection, and encodings: judged from the model of the corpus
def genconv(rng, ctx):
	infmt = rng.choice(INFMT)
	outfmt = rng.choice(INFMT + ['tokens', 'wordpos', infmt])
	inenc, outenc = rng.choice(c06.ENC), rng.choice(c06.ENC)
	how = rng.random()
	if how < 0.4:
		inenc = outenc = 'utf8'
	elif how < 0.6:
		outenc = inenc
	# words need to be representable in both encodings
	enc = 'iso-8859-1' if {inenc, outenc} & {'cp1252', 'iso-8859-1'} else 'utf8'
	corpus = randcorpus(rng, infmt, enc, cont=outfmt == 'bracket')
	return rng, infmt, outfmt, inenc, outenc, corpus


def checkconv(case, ctx):
	rng, infmt, outfmt, inenc, outenc, corpus = case
	keys = [str(a) for a in range(1, len(corpus) + 1)]
	if infmt == 'export' and rng.random() < 0.5:
		keys = ['%s%d' % (rng.choice(['s', 'x_', 'a|']), a)
				for a in rng.sample(range(99), len(corpus))]
	shutil.rmtree('out', ignore_errors=True)
	text, _ = c06.write(ctx, rng, infmt, inenc, corpus, 'in.' + infmt, keys)
	opts = []
	if infmt == outfmt and rng.random() < 0.4:
		opts.append('--fmt=' + infmt)
	else:
		if infmt != 'export' or rng.random() < 0.5:
			opts.append('--inputfmt=' + infmt)
		if outfmt != 'export' or rng.random() < 0.5:
			opts.append('--outputfmt=' + outfmt)
	if inenc == outenc and inenc != 'utf8' and rng.random() < 0.5:
		opts.append('--enc=' + inenc)
	else:
		if inenc != 'utf8':
			opts.append('--inputenc=' + inenc)
		if outenc != 'utf8' or rng.random() < 0.1:
			opts.append('--outputenc=' + outenc)
	ctx.ev('encodings', inenc != 'utf8')
	ctx.ev('output encodings', outenc != 'utf8')
	want = list(zip(keys, corpus))
	if outfmt == 'export':  # this format does not represent the root label
		want = [(k, (('ROOT', m[1]), s, c)) for k, (m, s, c) in want]
	nopts = 0
	if rng.random() < 0.5:
		a, b = slicearg(rng, len(corpus))
		opts.append('--slice=%s:%s' % (a, b))
		want = sliced(want, a, b)
		ctx.ev('slices')
		ctx.ev('negative slices', '-' in a + b)
		nopts += 1
	if set(x.split('=')[0] for x in opts) <= {'--slice', '--inputenc',
			'--outputenc', '--inputfmt', '--outputfmt'} and infmt == outfmt:
		ctx.ev('verbatim')
	if rng.random() < 0.3:
		maxlen = rng.randint(1, 9)
		opts.append('--maxlen=%d' % maxlen)
		want = [(k, x) for k, x in want if len(x[1]) <= maxlen]
		ctx.ev('maxlen')
		nopts += 1
	if rng.random() < 0.3:
		opts.append('--renumber')
		want = [('%8d' % n, x) for n, (_, x) in enumerate(want, 1)]
		ctx.ev('renumber')
		nopts += 1
	sentid = rng.random() < 0.2 and outfmt in ('tokens', 'wordpos')
	if sentid:
		opts.append('--sentid')
	rng.shuffle(opts)
	desc = (opts, text)
	inp, outname = 'in.' + infmt, 'out.' + outfmt
	argv = ['treetransforms']
	kind = rng.random()
	if kind < 0.06:  # stdin and stdout
		with open(inp, 'rb') as f:
			p = subprocess.run([sys.executable, '-c', DRIVER] + argv + opts
					+ rng.choice([[], ['-'], ['-', '-']]), stdin=f,
					stdout=subprocess.PIPE, stderr=subprocess.PIPE,
					env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path),
						PYTHONUTF8='1'))
		data, err, error = p.stdout, p.stderr.decode('utf8'), p.returncode
		ctx.ev('standard input and output')
		ctx.eq(error, 0, 'exit code', (desc, err))
	else:
		args = [inp, outname]
		_, err, error = run(argv + (opts + args if kind < 0.5 else args + opts),
				ctx)
		ctx.ok(error is None, 'refused', '%r %s %r', error, err, desc)
		with open(outname, 'rb') as f:
			data = f.read()
		os.unlink(outname)
	ctx.ev('conversions')
	ctx.ev('trees converted', len(want))
	if nopts > 1:
		ctx.nontrivial((opts, text))
	ctx.ok('transformed %d trees' % len(want) in err, 'report', '%r %r', err,
			desc)
	out = data.decode(outenc)
	if outfmt in ('tokens', 'wordpos'):
		lines = []
		for k, (m, sent, _) in want:
			if outfmt == 'wordpos':
				pos = {x[1][0]: x[0] for x in g.nodes(m) if g.preterminal(x)}
				sent = ['%s/%s' % (w, pos[i]) for i, w in enumerate(sent)]
			lines.append(('%s|' % k if sentid else '') + ' '.join(sent))
		ctx.ev('sentence ids', sentid and len(lines))
		ctx.eq(out, ''.join(a + '\n' for a in lines), outfmt, desc)
		return
	# NB: CPython writes no byte order mark to a pipe.
	with open(outname, 'w', encoding=outenc, newline='') as f:
		f.write(out)
	if not want and not out:
		os.unlink(outname)
		return
	items = list(READERS[outfmt](outname, encoding=outenc).itertrees())
	os.unlink(outname)
	ctx.eq(len(items), len(want), 'number of trees', (out, desc))
	if outfmt == 'export':
		ctx.eq([k.strip() for k, _ in items], [str(k).strip() for k, _ in want],
				'identifiers', (out, desc))
		ctx.ev('sentence ids', len(want))
		if infmt == outfmt and '--renumber' not in opts:
			ctx.eq(out.count('#BOS'), len(want) + sum('#BOS' in (x[2] or '')
					for _, x in want), 'BOS lines', (out, desc))
	for (k, (m, sent, comment)), (_, item) in zip(want, items):
		got = g.tomodel(item.tree)
		if infmt == 'bracket' or outfmt == 'bracket':
			ctx.eq(g.canon(got), g.canon(m), 'tree', (k, desc, out))
		else:
			ctx.eq(g.canon(got), g.canon(m), 'tree', (k, desc, out))
		ctx.eq(item.sent, sent, 'sentence', (k, desc, out))
		if outfmt != 'bracket':
			ctx.eq(item.comment, None if infmt == 'bracket' else comment,
					'comment', (k, desc, out))


# arbitrary options: judged by composing library functions
LABELFUNS = ['lambda n: n.label.split("-")[0]', 'lambda n: n.label[:1]']


def genpipe(rng, ctx):
	infmt = rng.choice(INFMT + INFMT + XML)
	outfmt = rng.choice(['export', 'discbracket', 'discbracket', 'bracket',
			'tokens', 'wordpos', 'conll', 'mst'])
	corpus = randcorpus(rng, 'bracket' if infmt == 'ftb' else
			'export' if infmt in XML else infmt, 'utf8',
			cont=outfmt == 'bracket', plain=infmt in XML or rng.random() < 0.5)
	return rng, infmt, outfmt, corpus


def makeinput(rng, infmt, corpus, ctx):
	"""Write corpus, return pattern."""
	if infmt in XML:
		words = [(m, [rng.choice(g.WORDS) for _ in sent])
				for m, sent, _ in corpus]
		if infmt != 'ftb':
			words = [(m if m[0] == 'ROOT' else ('ROOT', m[1]), s)
					for m, s in words]
		pattern, _ = c07.write(infmt, [('a', words)], None, 'xmlin')
		ctx.ev('xml input')
		texts = []
		for path in sorted(glob.glob('xmlin/*.xml')):
			with open(path, encoding='utf8') as f:
				data = f.read()
			if infmt == 'alpino':  # every node has a relation
				data = re.sub(r'<node (?![^>]*\brel=)', lambda _: '<node rel="%s" '
						% rng.choice(['--', 'su', 'hd', 'mod', 'obj1']), data)
				with open(path, 'w', encoding='utf8') as f:
					f.write(data)
			texts.append(data)
		return pattern, repr((words, texts))
	text, _ = c06.write(ctx, rng, infmt, 'utf8', corpus, 'in.' + infmt,
			[str(n) for n in range(1, len(corpus) + 1)])
	return 'in.' + infmt, text


def checkpipe(case, ctx):
	rng, infmt, outfmt, corpus = case
	pattern, text = makeinput(rng, infmt, corpus, ctx)
	opts, kw = [], {}
	if infmt != 'export':
		opts.append('--inputfmt=' + infmt)
	if outfmt != 'export':
		opts.append('--outputfmt=' + outfmt)

	def choose(name, p, values, key=None):
		if rng.random() < p:
			v = rng.choice(values)
			opts.append('--%s=%s' % (name, v))
			kw[key or name] = v
			ctx.ev('reader options')
	choose('functions', 0.3, ['leave', 'remove', 'add', 'replace', 'between']
			if infmt in ('export', 'tiger', 'alpino', 'alpinocompact')
			else ['leave', 'remove'])
	if infmt in ('export', 'tiger', 'alpino', 'alpinocompact'):
		choose('morphology', 0.3, ['no', 'add', 'replace', 'between'])
		choose('lemmas', 0.3, ['no', 'add', 'replace', 'between'])
	choose('punct', 0.2, ['remove', 'move', 'restore'])
	choose('ensureroot', 0.2, ['ROOT', 'TOP', 'X'])
	if outfmt in ('conll', 'mst') or rng.random() < 0.3:
		if not (outfmt in ('conll', 'mst') and rng.random() < 0.15):
			opts.append('--headrules=' + rng.choice([os.path.join(REPO, a) for a
					in ('negra.headrules', 'ptb.headrules')]))
			kw['headrules'] = opts[-1].split('=')[1]
	if rng.random() < 0.15:
		opts.append('--removeempty')
		kw['removeempty'] = True
	# transformations
	acts, flags = [], {}
	for name, p in (('factor', 0.3), ('h', 0.5), ('v', 0.4), ('H', 0.2),
			('markhead', 0.2), ('direction', 0.2), ('leftunary', 0.2),
			('rightunary', 0.2), ('tailmarker', 0.2), ('dot', 0.1),
			('labelfun', 0.15), ('filterlabels', 0.15), ('markorigin', 0.3)):
		if rng.random() < p:
			flags[name] = (rng.choice(['left', 'right']) if name == 'factor'
				else rng.choice([0, 1, 2, 3]) if name == 'h'
				else rng.choice([1, 2, 3]) if name == 'v'
				else rng.choice([0, 1, 2]) if name == 'H'
				else rng.choice(LABELFUNS) if name == 'labelfun'
				else 'NP NN' if name == 'filterlabels' else True)
	for _ in range(rng.choice([0, 1, 1, 2, 3])):
		a = rng.choice(['binarize', 'binarize', 'binarize', 'optimalbinarize',
				'unbinarize', 'splitdisc', 'mergedisc', 'raisedisc',
				'canonical', 'introducepreterminals', 'transforms',
				'reversetransforms'])
		if a in ('binarize', 'optimalbinarize') and any(
				b in ('binarize', 'optimalbinarize', 'transforms')
				for b, _ in acts):
			continue
		if a == 'raisedisc' and (not kw.get('headrules') or acts):
			continue
		if a == 'mergedisc' and [b for b, _ in acts] != ['splitdisc']:
			continue
		v = None
		if a.endswith('transforms'):
			v = rng.choice(['MARK-UNARY', 'PARENT', 'NP-PP', 'MARK-YEAR', 'PUNCT',
					'PUNCT,PARENT', 'negra', 'FUNC-NODE', 'APPEND-FUNC'])
			if a == 'reversetransforms':
				v = rng.choice(['PARENT', 'MARK-YEAR', 'negra'])
		acts.append((a, v))
	if ('optimalbinarize', None) in acts and len(corpus[0][1]) > 9:
		acts = []
	for a, v in acts:
		opts.append('--' + a if v is None else '--%s=%s' % (a, v))
	for name, v in flags.items():
		x = '-' + name if len(name) == 1 else '--' + name
		opts.extend([x] if v is True else [x, str(v)] if len(name) == 1
				else ['%s=%s' % (x, v)])
	thr = None
	if ('binarize', None) in acts and rng.random() < 0.35:
		thr = rng.choice([1, 2, 5, 100])
		opts.append('--markovthreshold=%d' % thr)
	n = len(corpus)
	sl = ('', '')
	if rng.random() < 0.2:
		sl = slicearg(rng, n)
		opts.append('--slice=%s:%s' % sl)
	maxlen = None
	if rng.random() < 0.15:
		maxlen = rng.randint(2, 9)
		opts.append('--maxlen=%d' % maxlen)
	renumber = rng.random() < 0.2
	if renumber:
		opts.append('--renumber')
	desc = (opts, text)
	# what the library does
	want, werr = None, None
	try:
		a, b = [int(x) if x else None for x in sl]
		neg = min(a or 0, b or 0) < 0
		reader = READERS[infmt](pattern, **kw)
		if all(x is None or x >= 0 for x in (a, b)):
			items = list(reader.itertrees(a, b))
		else:
			a, b, _ = slice(a, b).indices(len(corpus))
			items = list(reader.itertrees(a, max(a, b)))
		items = [(k, x) for k, x in items
				if maxlen is None or len(x.sent) <= maxlen]
		if renumber:
			items = [('%8d' % i, x) for i, (_, x) in enumerate(items, 1)]
		h, v = flags.get('h', 999), flags.get('v', 1)
		revh = flags.get('H', 0)
		before = []
		for _, item in items:
			for a, val in acts:
				t, s = item.tree, item.sent
				if a == 'binarize':
					t = T.binarize(t, flags.get('factor', 'right'), h, v, revh,
							leftmostunary='leftunary' in flags,
							rightmostunary='rightunary' in flags,
							tailmarker='$' if 'tailmarker' in flags else '',
							direction='direction' in flags,
							headoutward='headrules' in kw,
							markhead='markhead' in flags, dot='dot' in flags,
							filterlabels=tuple(flags.get('filterlabels',
								'').split()), labelfun=eval(flags['labelfun'])
							if 'labelfun' in flags else None)
				elif a == 'optimalbinarize':
					t = ParentedTree.convert(T.optimalbinarize(t, '|',
							'headrules' in kw, h, v))
				elif a == 'unbinarize':
					t = T.unbinarize(t, s)
				elif a == 'splitdisc':
					t = T.splitdiscnodes(t, 'markorigin' in flags)
				elif a == 'mergedisc':
					t = T.mergediscnodes(t)
				elif a == 'raisedisc':
					t = T.raisediscnodes(t)
				elif a == 'canonical':
					t = T.canonicallyorderedtree(t, s)
				elif a == 'introducepreterminals':
					t = T.introducepreterminals(t, s)
				elif a == 'transforms':
					t = transform(t, s, expandpresets(val.split(',')))
				elif a == 'reversetransforms':
					t = reversetransform(t, s, expandpresets(val.split(',')))
				item.tree = t
		if thr is not None:
			before = [str(x.tree) for _, x in items]
			T.markovthreshold([x.tree for _, x in items], thr, revh + h - 1,
					v - 1 if v > 1 else 1)
			ctx.ev('reduced Markov order', before != [str(x.tree)
					for _, x in items])
		if outfmt in ('conll', 'mst') and 'headrules' not in kw:
			raise ValueError('head rules')
		want = EXPORTHEADER if outfmt == 'export' else ''
		for k, item in items:
			if outfmt == 'bracket':
				item.tree = T.canonicalize(item.tree)
			want += writetree(item.tree, item.sent, k, outfmt,
					comment=item.comment)
	except Exception as ex:  # pylint: disable=broad-except
		werr = ex
	# the command
	outname = 'out.' + outfmt
	if len(acts) < 2 and not any(len(a) == 2 for a in opts):
		rng.shuffle(opts)  # NB: short options have a separate argument
	try:
		_, err, error = run(['treetransforms', pattern, outname] + opts, ctx)
	except Exception as ex:  # pylint: disable=broad-except
		error = ex
		if neg and werr is None:
			# the trees outside of the selection are read as well
			ctx.ev('not judged')
			try:
				list(READERS[infmt](pattern, **kw).itertrees())
			except Exception:  # pylint: disable=broad-except
				return
		if werr is None:
			raise
	if werr is not None:
		ctx.ev('refused')
		if error is None and os.path.exists(outname):
			os.unlink(outname)
		ctx.ok(error is not None, 'accepted',
				'the library raises %r; the command does not: %r', werr, desc)
		return
	ctx.ok(error is None, 'refused', '%r %s %r', error, err, desc)
	with open(outname, encoding='utf8', newline='') as f:
		out = f.read()
	os.unlink(outname)
	if infmt == outfmt and set(x.split('=')[0] for x in opts) <= {'--slice',
			'--inputfmt', '--outputfmt'}:
		return  # copied verbatim, see checkconv
	ctx.ev('library pipelines')
	ctx.ev('transformations', len(acts))
	ctx.ev('binarize', ('binarize', None) in acts)
	ctx.ev('markovthreshold', thr is not None)
	ctx.ev('dependency formats', outfmt in ('conll', 'mst'))
	ctx.ev('trees converted', len(items))
	if len(opts) > 3:
		ctx.nontrivial((opts, text))
	ctx.eq(out, want, 'differs from library', desc)
	ctx.ok('transformed %d trees' % len(items) in err, 'report', '%r %r', err,
			desc)
	ctx.sample((opts, out[:300]))


# reversible conversions
def genback(rng, ctx):
	infmt = rng.choice(INFMT)
	kind = rng.choice(['formats', 'binarize', 'binarize', 'optimalbinarize',
			'splitdisc', 'same call'])
	return rng, infmt, kind, randcorpus(rng, infmt, 'utf8',
			cont=infmt == 'bracket', plain=True)


def checkback(case, ctx):
	rng, infmt, kind, corpus = case
	text, _ = c06.write(ctx, rng, infmt, 'utf8', corpus, 'a', [
			'%d' % n for n in range(1, len(corpus) + 1)])
	mid = rng.choice(INFMT if infmt == 'bracket' and kind != 'splitdisc'
			else ['export', 'discbracket'])
	if any(len(c[1]) > 100 or len(g.nodes(c[0])) > 80 for c in corpus):
		mid = 'discbracket'
	first, second = [], []
	if kind in ('binarize', 'same call'):
		first = ['--binarize'] + rng.choice([[], ['-h', '1'], ['-v', '2'],
				['-h', '2', '-v', '3'], ['--factor=left'],
				['--leftunary', '--rightunary', '--tailmarker'], ['-H', '1'],
				['--markovthreshold=3', '-h', '2']])
		second = ['--unbinarize']
		if '--leftunary' in first or '--rightunary' in first:
			pass
	elif kind == 'optimalbinarize':
		first, second = ['--optimalbinarize'] + rng.choice([[], ['-h', '1']]), [
				'--unbinarize']
		corpus = [c for c in corpus if len(c[1]) <= 8]
		first.append('--maxlen=8')
	elif kind == 'splitdisc':
		first, second = ['--splitdisc', '--markorigin'], ['--mergedisc']
	desc = (kind, first, second, mid, text)
	if kind == 'same call':
		_, err, error = run(['treetransforms', 'a', 'c', '--fmt=' + infmt]
				+ first + second, ctx)
		ctx.ok(error is None, 'refused', '%r %r', error, desc)
	else:
		_, err, error = run(['treetransforms', 'a', 'b', '--inputfmt=' + infmt,
				'--outputfmt=' + mid] + first, ctx)
		ctx.ok(error is None, 'refused', '%r %r', error, desc)
		_, err, error = run(['treetransforms', 'b', 'c', '--inputfmt=' + mid,
				'--outputfmt=' + infmt] + second, ctx)
		ctx.ok(error is None, 'refused', '%r %r', error, desc)
	if infmt == 'export' or mid == 'export' and kind != 'same call':  # this format does not represent the root label
		corpus = [(('ROOT', m[1]), sent, c) for m, sent, c in corpus]
	got = list(READERS[infmt]('c').itertrees()) if os.path.getsize(
			'c') or infmt == 'export' else []
	ctx.eq(len(got), len(corpus), 'round trip: number of trees', desc)
	for (m, sent, _), (k, item) in zip(corpus, got):
		if kind == 'splitdisc' and not c11.separable(ctx, m, True):
			continue
		ctx.ev('round trips')
		ctx.eq(item.sent, sent, 'round trip: sentence', desc)
		ctx.eq(g.canon(g.tomodel(item.tree)), g.canon(m), 'round trip: tree',
				desc)


# grammars
def gengram(rng, ctx):
	model = rng.choice(['pcfg', 'plcfrs', 'plcfrs', 'dopreduction', 'doubledop',
			'dop1', 'ptsg', 'ptsg'])
	disc = 0 if model == 'pcfg' or rng.random() < 0.3 else 0.8
	trees, sents = g.randtreebank(rng, rng.randint(2, 5), maxlen=6, disc=disc,
			maxar=3, words=g.WORDS[:4], labels=g.LABELS[:3], tags=g.TAGS[:3])
	return rng, model, disc, [lc.binarized(rng, m, mark=False)
			for m in trees], sents


def checkgram(case, ctx):
	rng, model, disc, trees, sents = case
	shutil.rmtree('gr', ignore_errors=True)
	os.mkdir('gr')
	fmt = rng.choice(['bracket'] if not disc else []) if not disc and (
			rng.random() < 0.6) else rng.choice(['discbracket', 'export'])
	ptrees = [g.totree(m, ParentedTree) for m in trees]
	opts = []
	estimator = None
	text = EXPORTHEADER if fmt == 'export' else ''
	for n, (t, s) in enumerate(zip(ptrees, sents), 1):
		text += writetree(t, s, str(n), fmt)
	with open('gr/in', 'w', encoding='utf8') as f:
		f.write(text)
	if model == 'ptsg':
		ts = [T.addfanoutmarkers(g.totree(m, Tree)) for m in trees]
		from discodop.fragments import recurringfragments
		frags, _, _, _ = dop1frags(ts, sents)
		weights = {}
		brackets = not disc and rng.random() < 0.5
		for f, _ in frags:
			weights[f] = rng.choice([rng.randint(1, 9), '%d/%d' % (
					rng.randint(1, 9), rng.choice([3, 7, 10])), 0.25])
		lines = []
		for f, w in weights.items():
			if brackets:
				# (label index=word) => (label word); (label index=) => (label )
				f = re.sub(r' (\d+)=([^ ()]*)\)', r' \2)', f)
			lines.append('%s\t%s\n' % (f, w))
		ctx.ev('bracket fragments', brackets)
		with open('gr/in', 'w', encoding='utf8') as f:
			f.writelines(lines)
		text = ''.join(lines)
		want, bt, _ = compiletsg({f: float(eval(w)) if isinstance(w, str)
				else float(w) for f, w in weights.items()})
		ctx.ev('fragments read', len(weights))
		bitpar = None
	else:
		if fmt != 'export':
			opts.append('--inputfmt=' + fmt)
		items = list(READERS[fmt]('gr/in').itertrees())
		ts = [T.addfanoutmarkers(T.canonicalize(x.tree)) for _, x in items]
		ss = [x.sent for _, x in items]
		bitpar = model == 'pcfg' or fmt == 'bracket'
		bt, alt = None, {}
		if model in ('pcfg', 'plcfrs'):
			want = treebankgrammar(ts, ss)
		elif model == 'dopreduction':
			packed = rng.random() < 0.4
			if packed:
				opts.append('--packed')
			want, alt = dopreduction(ts, ss, packedgraph=packed)
		elif model == 'doubledop':
			if rng.random() < 0.2:
				opts.append('--numproc=2')
			want, bt, alt, _ = doubledop(ts, ss, numproc=1)
		elif model == 'dop1':
			maxdepth = rng.choice([None, 1, 2, 4])
			if maxdepth is not None:
				opts.append('--maxdepth=%d' % maxdepth)
			maxfrontier = rng.choice([None, None, 1, 2])
			if maxfrontier is not None:
				opts.append('--maxfrontier=%d' % maxfrontier)
			want, bt, alt, _ = dop1(ts, ss, maxdepth=maxdepth or 3,
					maxfrontier=999 if maxfrontier is None else maxfrontier)
		if alt and rng.random() < 0.5:
			estimator = rng.choice(sorted(set(alt) & {'ewe', 'shortest'})
					or [None])
			if estimator is not None:
				opts.append('--dopestimator=' + estimator)
				want = [(r, w) for (r, _), w in zip(want, alt[estimator])]
				ctx.ev('estimators')
	gz = rng.random() < 0.3
	if gz:
		opts.append('--gzip')
		ctx.ev('gzip grammars')
	desc = (model, opts, text)
	out, err, error = run(['grammar', model, 'gr/in', 'gr/out'] + opts, ctx)
	if all(r[0][1] == 'Epsilon' for r, _ in want):
		ctx.ev('no phrasal rules')  # not useful
		return
	ctx.ok(error is None, 'grammar refused', '%r %r', error, desc)
	ctx.ev('grammar command')

	def read(name):
		name = 'gr/out.' + name + ('.gz' if gz else '')
		with (gzip.open if gz else open)(name, 'rt', encoding='utf8') as f:
			return f.read()
	got = read('rules'), read('lex')
	options = [writegrammar(want, bitpar=b) for b in (
			(False, True) if bitpar is None else (bitpar, ))]
	ctx.ok(got in options or sortlines(got) in map(sortlines, options),
			'grammar', 'got %r\nexpected %r\n%r', got, options[0], desc)
	if bt is not None:
		ctx.ev('backtransforms')
		ctx.eq(read('backtransform'), ''.join('%s\n' % a for a in bt),
				'backtransform', desc)
	shutil.rmtree('gr')


def sortlines(x):
	return [sorted(a.split('\n')) for a in x]


def dop1frags(ts, sents):
	return dop1([t.copy(True) for t in ts], sents, maxdepth=2)[3], 0, 0, 0


# visualization: every tree selected is shown, in order
def gendraw(rng, ctx):
	fmt = rng.choice(INFMT)
	return rng, fmt, randcorpus(rng, fmt, 'utf8', plain=True)


def checkdraw(case, ctx):
	rng, fmt, corpus = case
	corpus = [(m, [rng.choice(g.WORDS) for _ in sent], None)
			for m, sent, _ in corpus]
	keys = [str(n) for n in range(1, len(corpus) + 1)]
	text = ''.join(writetree(g.totree(m, ParentedTree), sent, k, fmt)
			for k, (m, sent, _) in zip(keys, corpus))
	with open('draw.txt', 'w', encoding='utf8') as f:
		f.write(text)
	n = rng.choice([None, 1, 2, 100])
	opts = ['--plain']
	auto = rng.random() < 0.4
	opts.append('--fmt=auto' if auto else '--fmt=' + fmt)
	if n:
		opts.extend(rng.choice([['-n', str(n)], ['--numtrees=%d' % n]]))
	front = rng.random() < 0.5
	if front:
		opts.append('--frontier')
	out, err, error = run(['treedraw', 'draw.txt'] + opts, ctx)
	desc = (opts, text)
	ctx.ok(error is None, 'treedraw refused', '%r %r', error, desc)
	ctx.ev('treedraw')
	want = corpus[:n]
	got = re.findall(r'^(\d+)\. ', out, flags=re.M)
	ctx.eq(got, keys[:len(want)], 'trees drawn', (out, desc))
	pieces = re.split(r'^\d+\. ', out, flags=re.M)[1:]
	for (m, sent, _), piece in zip(want, pieces):
		tokens = re.sub('\x1b\\[[0-9;]*m', '', piece).split()
		for w in sent:
			ctx.ok(w in tokens, 'word drawn', '%r not in %s; %r', w, piece,
					desc)
		if not front:
			for x in g.nodes(m):
				ctx.ok(x[0] in tokens, 'label drawn', '%r not in %s; %r', x[0],
						piece, desc)


# the drawings are those of the library functions
def gendraw2(rng, ctx):
	fmt = rng.choice(INFMT)
	return rng, fmt, [randcorpus(rng, fmt, 'utf8', plain=True)
			for _ in range(rng.choice([1, 1, 2, 3]))]


def checkdraw2(case, ctx):
	rng, fmt, corpora = case
	names, texts = [], []
	for n, corpus in enumerate(corpora):
		text = ''.join(writetree(g.totree(m, ParentedTree),
				[rng.choice(g.WORDS) for _ in sent], str(k), fmt)
				for k, (m, sent, _) in enumerate(corpus, 1))
		names.append('draw%d.txt' % n)
		texts.append(text)
		with open(names[-1], 'w', encoding='utf8') as f:
			f.write(text)
	output = rng.choice(['text', 'html', 'svg', 'tikznode', 'tikzmatrix',
			'tikzqtree'])
	opts = ['--fmt=' + fmt]
	if output != 'text' or rng.random() < 0.5:
		opts.append('--output=' + output)
	plain = rng.random() < 0.3
	if plain:
		opts.append('--plain')
	abbr = rng.random() < 0.3
	if abbr:
		opts.append('--abbr')
	sec = rng.random() < 0.3
	if sec:
		opts.append('--secedge')
	func = rng.choice([None, None, '-f', 'add', 'leave', 'remove', 'between'])
	if func:
		opts.append('-f' if func == '-f' else '--functions=' + func)
	func = 'add' if func == '-f' else func
	limit = rng.choice([None, None, 1, 2])
	if limit:
		opts.append('--numtrees=%d' % limit)
	rng.shuffle(opts)
	desc = (opts, texts)
	out, err, error = run(['treedraw'] + rng.choice(
			[opts + names, names + opts]), ctx)
	ctx.ok(error is None, 'treedraw refused', '%r %r', error, desc)
	loaded = [list(READERS[fmt](a, functions=func).itertrees())
			for a in names]
	pos = 0
	shown = 0
	funcsep = '-' if func in ('add', 'between') else None
	for items in list(zip(*loaded))[:limit]:
		for name, (key, item) in zip(names, items):
			head = (name + ':' if len(names) > 1 else '') + '%s. ' % key
			x = out.find(head, pos)
			ctx.ok(x >= 0, 'tree not drawn', '%r after %d: %r; %r', head, pos,
					out, desc)
			dt = DrawTree(item.tree, item.sent, abbr=abbr, secedge=sec)
			want = (dt.text(unicodelines=True,
					ansi=output == 'text' and not plain,
					html=output == 'html' and not plain, funcsep=funcsep)
					if output in ('text', 'html')
					else dt.tikzqtree() if output == 'tikzqtree'
					else getattr(dt, output)(funcsep=funcsep)).rstrip('\n')
			y = out.find(want, x)
			ctx.ok(y >= 0, 'drawing', 'got %r\nexpected %r\n%r', out[x:], want,
					desc)
			ctx.ok(len(out[x + len(head):y].split()) == len((item.comment
					or 'None').split()), 'text before drawing', '%r; %r',
					out[x:y], desc)
			pos = y + len(want)
			shown += 1
	ctx.ok(not re.search(r'(?:^|:)\d+\. ', out[pos:], flags=re.M),
			'extra trees', '%r; %r', out[pos:], desc)
	ctx.ev('drawings', shown)
	ctx.ev('drawings ' + output)


# merging grammars and fragments: the weights add up
def genmerge(rng, ctx):
	what = rng.choice(['rules', 'lexicon', 'fragments'])
	vocab = {'rules': ['S\tNP\tVP\t01', 'NP\tDT\tN\t01', 'S\tVP\t0',
			'VP_2\tV\tN\t0,1', 'VP\tVP_2\tNP\t010', 'X\tNP\t0'],
			'lexicon': ['a', 'the', 'Haus', 'é', '42', '#x', 'dog'],
			'fragments': ['(S (NP ) (VP ))', '(NP (DT the) (N ))', '(N dog)',
				'(VP_2 (V is) (N ))\tx y']}[what]
	files = []
	for _ in range(rng.choice([2, 2, 3, 4])):
		part = {}
		for a in rng.sample(vocab, rng.randint(1, len(vocab))):
			if what == 'lexicon':
				part[a] = {t: rng.randint(1, 20) for t in rng.sample(
						['N', 'DT', 'V'], rng.randint(1, 3))}
			else:
				part[a] = {'': rng.randint(1, 20)}
		files.append(part)
	return rng, what, files


def checkmerge(case, ctx):
	rng, what, files = case
	names = ['merge%d' % n for n in range(len(files))]
	want = {}
	for name, part in zip(names, files):
		lines = []
		for a, ws in part.items():
			lines.append('%s\t%s\n' % (a, '\t'.join(('%s %d' % (t, w)).strip()
					for t, w in ws.items())))
			for t, w in ws.items():
				want.setdefault(a, {}).setdefault(t, 0)
				want[a][t] += w / len(files)
		with open(name, 'w', encoding='utf8') as f:
			f.writelines(sorted(lines))
	out, err, error = run(['grammar', 'merge', what] + names + ['merged'], ctx)
	ctx.ok(error is None, 'merge refused', '%r %r', error, case[1:])
	got = {}
	with open('merged', encoding='utf8') as f:
		for line in f:
			if what == 'lexicon':
				a, *ws = line.rstrip('\n').split('\t')
				ws = [x.split(' ') for x in ws]
			else:
				a, w = line.rstrip('\n').rsplit('\t', 1)
				ws = [('', w)]
			ctx.ok(a not in got, 'merged twice', '%r', line)
			got[a] = {t: number(w) for t, w in ws}
	ctx.ev('merges')
	ctx.ok(got.keys() == want.keys() and all(got[a].keys() == want[a].keys()
			and all(abs(got[a][t] - want[a][t]) < 1e-6 for t in want[a])
			for a in want), 'merged', 'got %r\nexpected %r\n%r', got, want,
			case[1:])
	ctx.nontrivial(repr(files))


def number(w):
	a, _, b = w.partition('/')
	return (float.fromhex(a) if a.startswith('0x') else float(a)) / (
			float(b) if b else 1)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'formats': (genconv, checkconv, 2400 * k),
		'pipelines': (genpipe, checkpipe, 2400 * k),
		'reversible': (genback, checkback, 600 * k),
		'grammars': (gengram, checkgram, 600 * k),
		'treedraw': (gendraw, checkdraw, 200 * k),
		'drawings': (gendraw2, checkdraw2, 200 * k),
		'merges': (genmerge, checkmerge, 100 * k),
	}

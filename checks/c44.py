"""C44: text is read and tokenized without loss."""
import bz2
import contextlib
import gzip
import os
import signal
import subprocess
import tempfile
from discodop.util import (tokenize, openread, readbytes, genericcompressor,
		genericdecompressor, graphemelength, graphemecenter, OrderedSet, run)
import g

PLAN = dict(
	mods=['bit'],
	rule='(1) sentences composed of words, numbers, abbreviations, English and '
	'French contractions and punctuation, with the tokens known by '
	'construction, and arbitrary strings; (2) texts of 0 to 300 KB written '
	'plain or compressed, read as text and bytes, damaged files; (3) strings '
	'with combining characters; ordered sets; counted by text; nontrivial: '
	'tokens without spaces between them; compressed files',
	require={'sentences': 1500, 'contractions': 1500, 'attached punctuation':
		3000, 'arbitrary strings': 1500, 'gz': 20, 'zst': 20, 'damaged files': 8,
		'centered': 1000, 'ordered sets': 800, 'large files': 8, 'partial reads': 1},
)
WORD = [a for a in g.WORDS if len(a) > 1] + ['naïve', 'Ünïcode', 'Straße',
		'e-mail', 'and/or', 'AT&T', '日本語', 'x2', 'über', 'NATO', 'o-ring',
		'cannoli', 'wannabe', 'tisane', 'mores', 'gimmes']
NUMBER = ['2,500', '3.14', '10,000.5', '1/2', '7', '1999', '12-15']
ABBR = ['e.g.', 'U.S.', 'Mr.', 'i.e.']
CONTR = [('ca', "n't"), ('do', "n't"), ('is', "n't"), ('he', "'ll"), ('we',
		"'re"), ('they', "'ve"), ('dog', "'s"), ('I', "'m"), ('she', "'d"),
		('can', 'not'), ('Gim', 'me'), ('gon', 'na'), ('Got', 'ta'), ('lem', 'me'),
		('Wan', 'na'), ('T', 'is'), ('t', 'was'), ('Ca', "N'T"), ("l'", 'homme'),
		("qu'", 'il'), ("Jusqu'", 'ici'), ("d'", 'eau'), ("aujourd'", 'hui'),
		("puisqu'", 'on'), ("c'", 'est'), ("L'", 'été'), ("quoiqu'", 'il')]
AFTER = [';', ':', '!', '?', ')', ']', '”', '"', '»', '…', '%', '}', ',', "'",
		'€', '*']
BEFORE = ['(', '[', '“', '"', '«', '$', '{', '#', '—', '„']


def gensent(rng, ctx):
	"""Text and its tokens."""
	text, tokens = '', []
	for n in range(rng.choice([1, 2, 4, 8, 15])):
		for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
			tokens.append(rng.choice(BEFORE))
			text += tokens[-1]
		r = rng.random()
		last = None
		if r < 0.25:
			last = rng.choice(CONTR)
			tokens.extend(last)
			text += ''.join(last)
		elif r < 0.35:
			tokens.append(rng.choice(NUMBER))
			text += tokens[-1]
		elif r < 0.42 and n:
			tokens.append(rng.choice(ABBR))
			text += tokens[-1] + ' '
			tokens.append(rng.choice(WORD))
			text += tokens[-1]
		else:
			tokens.append(rng.choice(WORD))
			text += tokens[-1]
		for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
			x = rng.choice(AFTER)
			if x in ",'":
				# comma and quote only when end of the token is clear
				if len(tokens[-1]) < 2 and tokens[-1].isalnum():
					continue
				tokens.append(x)
				text += x
				break
			tokens.append(x)
			text += x
		text += rng.choice([' ', ' ', ' ', '  ', '\n', '\t', '\xa0'])
	r = rng.random()
	if tokens[-1] in ",'":  # separated from what follows only by space
		pass
	elif r < 0.5:
		text = text.rstrip() + '.'
		tokens.append('.')
	elif r < 0.6:
		text = text.rstrip() + '.)'
		tokens.extend('.)')
	elif r < 0.8:
		text = text.rstrip()
	return text, tokens


def checksent(case, ctx):
	text, tokens = case
	ctx.ev('sentences')
	ctx.ev('contractions', sum((a, b) in CONTR for a, b in zip(tokens,
			tokens[1:])))
	ctx.ev('attached punctuation', sum(a in AFTER + BEFORE for a in tokens))
	got = tokenize(text)
	ctx.eq(got, tokens, 'tokens', text)
	if len(text.split()) != len(tokens):
		ctx.nontrivial(text)
		ctx.sample((text, tokens))


def genstr(rng, ctx):
	pieces = [a for b in CONTR for a in b] + ABBR + NUMBER + AFTER + BEFORE + (
			g.WORDS + g.HOSTILE) + [' ', ' ', ' ', '\n', '', "'", "''", '``', '.',
			'...', ',', '-', '_', '\u200b', '\u3000', '\x1f', '\u0301']
	return ''.join(rng.choice(pieces) + rng.choice([' ', ' ', ''])
			for _ in range(rng.choice([0, 1, 2, 5, 20])))


def checkstr(text, ctx):
	ctx.ev('arbitrary strings')
	got = tokenize(text)
	ctx.ok(isinstance(got, list) and all(a and a.split() == [a] for a in got),
			'not a list of tokens', '%r %r', text, got)
	ctx.eq(''.join(got), ''.join(text.split()),
			'characters lost, added or reordered', text)
	ctx.ok(len(got) >= len(text.split()) - text.lower().count("'"),
			'tokens merged', '%r %r', text, got)


def genfile(rng, ctx):
	big = rng.random() < 0.4
	enc = rng.choice(['utf8', 'utf8', 'utf8', 'iso-8859-1'])
	words = [a for a in g.WORDS + g.HOSTILE + ['\ufeff', '\x85', '\u2028']
			if enc == 'utf8' or a.isascii()]
	lines = [' '.join(rng.choice(words) for _ in range(rng.randrange(12)))
			for _ in range(rng.choice([0, 1, 3, 30]))] * (
			rng.choice([100, 600, 2000]) if big else 1)
	text = '\n'.join(lines) + ('\n' if rng.random() < 0.7 and lines else '')
	return (rng, rng.choice(['', '.gz', '.zst', '.zst', '.cmp']), enc, text)


@contextlib.contextmanager
def limit(ctx, what, *args):
	"""Report when something does not end."""
	def handler(*_):
		raise TimeoutError

	old = signal.signal(signal.SIGALRM, handler)
	signal.alarm(20)
	try:
		yield
	except TimeoutError:
		ctx.fail('does not end: ' + what, '%r', args)
	finally:
		signal.alarm(0)
		signal.signal(signal.SIGALRM, old)


def checkfile(case, ctx):
	rng, ext, enc, text = case
	data = text.encode(enc)
	ctx.ev('large files', len(data) > 65536)
	with tempfile.TemporaryDirectory() as tmp:
		fn = os.path.join(tmp, 'file' + ext)
		if ext == '':
			with open(fn, 'wb') as out:
				out.write(data)
		elif ext == '.gz':
			ctx.ev('gz')
			with open(fn, 'wb') as out:
				out.write(gzip.compress(data))
		elif ext == '.zst' and rng.random() < 0.5:
			ctx.ev('zst')
			with open(fn + '.tmp', 'wb') as out:
				out.write(data)
			subprocess.check_call(['zstd', '-q', fn + '.tmp', '-o', fn])
		else:
			ctx.ev('compressor')
			cmd = 'zstd' if ext == '.zst' else rng.choice(['gzip', 'bzip2', 'zstd'])
			binary = rng.random() < 0.5
			with genericcompressor(cmd, fn, None if binary else enc,
					rng.choice([1, 3, 8])) as out:
				n = rng.choice([0, len(text) // 2, len(text)])
				for a in (text[:n], text[n:]):
					out.write(a.encode(enc) if binary else a)
			if ext == '.cmp':
				raw = open(fn, 'rb').read()
				if cmd == 'gzip':
					raw = gzip.decompress(raw)
				elif cmd == 'bzip2':
					raw = bz2.decompress(raw)
				else:
					raw = subprocess.check_output(['zstd', '-q', '-dc', fn])
				ctx.eq(raw, data, 'compressed data', (cmd, enc))
				for e in (enc, None):
					with genericdecompressor(cmd, fn, e) as inp:
						ctx.eq(inp.read(), text if e else data,
								'decompressed data', (cmd, enc))
				return
		ctx.eq(readbytes(fn), data, 'bytes', ext)
		with openread(fn, encoding=None) as inp:
			ctx.eq(inp.read(), data, 'binary', ext)
		with openread(fn, encoding=enc) as inp:
			ctx.eq(inp.read(), text, 'text', (ext, enc))
		if enc == 'utf8':
			with openread(fn) as inp:
				ctx.eq(inp.read(), text, 'text, default encoding', ext)
		if '\x85' not in text and '\u2028' not in text:
			with openread(fn, encoding=enc) as inp:
				ctx.eq(list(inp), text.splitlines(True), 'lines', (ext, enc))
		# stop reading early
		with limit(ctx, 'file not read completely', (ext, enc, len(data))):
			with openread(fn, encoding=None) as inp:
				n = rng.choice([0, 1, 70, len(data)])
				ctx.eq(inp.read(n), data[:n], 'first bytes', (ext, n))
			with openread(fn, encoding=enc) as inp:
				line = next(iter(inp), '')
				ctx.ok(text.startswith(line) and bool(line) == bool(text),
						'first line', '%r %r', line, ext)
			ctx.ev('partial reads', len(data) > 70000 and ext == '.zst')
		code, out, err = run(['cat', fn])
		ctx.eq((code, out, err), (0, open(fn, 'rb').read(), b''), 'run')
		if ext and rng.random() < 0.5:  # damaged file
			raw = open(fn, 'rb').read()
			raw = raw[:max(4, len(raw) // 2)] if rng.random() < 0.5 else (
					b'xxxx' + raw)
			with open(fn, 'wb') as out:
				out.write(raw)
			ctx.ev('damaged files')
			try:
				res = readbytes(fn)
			except (ValueError, EOFError, OSError):
				pass
			else:
				ctx.fail('damaged file read without error', '%r %r', ext, res[:99])
		if ext:
			ctx.nontrivial((ext, enc, len(text)))


def genother(rng, ctx):
	marks = ['', '', '', '\u0301', '\u0323\u0301']
	text = ''.join(rng.choice(['a', 'b', 'é', '日', ' ', '(', '🎈', 'ß'])
			+ rng.choice(marks) for _ in range(rng.randrange(9)))
	text = text.lstrip('\u0301\u0323')
	items = [rng.sample(range(9), rng.randrange(7)) for _ in range(2)]
	return text, rng.randrange(14), rng.choice([' ', '─', '.']), items


def checkother(case, ctx):
	text, width, fill, (a, b) = case
	n = len([c for c in text if c not in '\u0301\u0323'])
	ctx.ev('centered')
	ctx.eq(graphemelength(text), n, 'graphemes', text)
	got = graphemecenter(text, width, fill)
	left, right = (max(0, width - n) // 2, max(0, width - n + 1) // 2)
	ctx.eq(got, fill * left + text + fill * right, 'centered', case)
	ctx.ev('ordered sets')
	x, y = OrderedSet(a), OrderedSet(b)
	sa, sb = set(a), set(b)
	ctx.eq((list(x), len(x), list(reversed(x))), (a, len(a), a[::-1]), 'order', a)
	ctx.eq([x[n] for n in range(len(a))], a, 'index', a)
	ctx.eq([n in x for n in range(9)], [n in sa for n in range(9)], 'member', a)
	ctx.eq((x == y, x != y, hash(x) == hash(y)), (sa == sb, sa != sb, sa == sb),
			'equality', (a, b))
	ctx.eq((x <= y, x < y, x >= y, x.isdisjoint(y)), (sa <= sb, sa < sb,
			sa >= sb, sa.isdisjoint(sb)), 'subsets', (a, b))
	ctx.eq(x == OrderedSet(sorted(a)) and hash(x) == hash(OrderedSet(sorted(a))),
			True, 'equal without regard for order', a)
	ctx.eq(list(x & y), [n for n in a if n in sb], 'intersection', (a, b))
	ctx.eq((set(x | y), set(x - y), set(x ^ y)), (sa | sb, sa - sb, sa ^ sb),
			'set operations', (a, b))
	ctx.eq(repr(x), 'OrderedSet(%s)' % (repr(tuple(a)) if a else ''), 'repr', a)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'sentences': (gensent, checksent, 4000 * k),
			'strings': (genstr, checkstr, 4000 * k),
			'files': (genfile, checkfile, 400 * k),
			'other': (genother, checkother, 3000 * k)}

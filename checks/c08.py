"""C08: incremental tree reader."""
from discodop.tree import ParentedTree
from discodop.treebank import (incrementaltreereader, writetree, exporttree,
		segmentbrackets, segmentexport)
import g
import xmlw

PLAN = dict(
	mods=['bit'],
	rule='streams of 0-8 random trees in bracket, discbracket or export '
	'notation, serialized with random whitespace, surrounded by text, divided '
	'into lines in several ways, optionally followed by truncated or '
	'malformed material; nontrivial: at least 2 trees, counted by the full '
	'input and its division into lines',
	require={'trees read': 3000, 'divisions': 1500, 'text items': 500,
		'malformed tails': 300, 'export trees': 500, 'discbracket trees': 300,
		'tables': 50, 'alpino trees': 300, 'shallow brackets': 100},
)
WORDS = g.WORDS + ['é', '日本', '[x]', '/', '1/2', "'", '``', '"', '&', '<b>',
		'-LRB-', '%', '#', '*', '|', '_', ',', '.', '=', 'a=b', '12', '(', ')',
		'a(b', '--', '#x']
TEXT = ['some text', 'n=3 0=x', '1.', 'score -2.5', '  indented', '# comment',
		'é ü', 'a\tb', '----', '500', '*', '"quoted"', '%', '#', 'BOS']
PTEXT = ['see (below)', '(foo)', '(a) and (b)', 'foox ) y', '(DT the)']


def esc(w):
	return '' if w is None else w.replace('(', '#LRB#').replace(')', '#RRB#')


def serialize(rng, m, sent, disc, ws):
	if not isinstance(m, tuple):
		return '%d=%s' % (m, esc(sent[m])) if disc else esc(sent[m])
	if g.preterminal(m) and not disc and sent[m[1][0]] is None:
		return '(%s )' % m[0]
	out = '(' + m[0]
	for c in m[1]:
		out += ws(rng) + serialize(rng, c, sent, disc, ws)
	if isinstance(m[1][-1], tuple) and rng.random() < 0.1:
		out += ws(rng)
	return out + ')'


def plain(_rng):
	return ' '


def pretty(rng):
	return rng.choice([' ', ' ', '\n', '\n  ', '\t', '\n\t', '  '])


def nums(m, cnt):
	"""Number leaves left to right in the order in which they appear."""
	if not isinstance(m, tuple):
		return next(cnt)
	return (m[0], tuple(nums(c, cnt) for c in m[1]))


def gentrees(rng, n, disc):
	result = []
	for _ in range(n):
		k = rng.randint(1, 8)
		m = g.randtree(rng, k, disc=0.6 if disc else 0,
				root=rng.choice(['S', 'ROOT', '']))
		sent = [rng.choice(WORDS) for _ in range(k)]
		if rng.random() < 0.1:
			sent[rng.randrange(k)] = None
		if not disc and all(w is None for w in sent):
			sent[0] = 'x'
		result.append((m, sent))
	return result


def divide(rng, lines):
	"""Divide a list of complete lines into an iterable of chunks."""
	how = rng.choice(['lines', 'nonl', 'one', 'chunks', 'crlf', 'gen'])
	if how == 'lines':
		return how, [a + '\n' for a in lines]
	elif how == 'nonl':
		return how, list(lines)
	elif how == 'one':
		return how, ['\n'.join(lines) + rng.choice(['', '\n'])]
	elif how == 'crlf':
		return how, [a + '\r\n' for a in lines]
	elif how == 'gen':
		return how, (a + '\n' for a in list(lines))
	chunks = []
	i = 0
	while i < len(lines):
		j = i + rng.randint(1, 4)
		chunks.append('\n'.join(lines[i:j]) + '\n')
		i = j
	return how, chunks


def norm(text):
	return [a.strip() for a in (text or '').split('\n') if a.strip()]


def genbr(rng, ctx):
	items = []
	for m, sent in [x for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))
			for x in gentrees(rng, 1, rng.random() < 0.4)]:
		disc = g.leaves(m) != list(range(len(sent))) or rng.random() < 0.3
		items.append((m, sent, disc))
	return rng, items, rng.random() < 0.3, rng.random() < 0.5


def sentok(got, want):
	return [a or None for a in got] == [a or None for a in want]


def collect(ctx, inp, desc, **kw):
	"""Run the reader; return flat list of trees and lines of text."""
	out, trees = [], []
	for tree, sent, rest in incrementaltreereader(inp, **kw):
		if tree is not None:
			ctx.ok(isinstance(tree, ParentedTree), 'not a ParentedTree',
					'%r', desc)
			trees.append((g.tomodel(tree), list(sent)))
			out.append(trees[-1])
		out.extend(norm(rest))
	return out, trees


def compare(ctx, trees, want, desc, key):
	ctx.eq(len(trees), len(want), 'number of trees, ' + key, desc)
	for (m1, s1), (m2, s2) in zip(trees, want):
		if key == 'bad':
			m1, m2 = g.canon(m1), g.canon(m2)
		ctx.eq(m1, m2, 'tree, ' + key, desc)
		ctx.ok(sentok(s1, s2), 'sentence, ' + key, 'got %r want %r in %r',
				s1, s2, desc)


def checkbr(case, ctx):
	rng, items, withprefix, multi = case
	robust = rng.random() < 0.7
	lines, want = [], []  # want: trees and text in order
	anytree = False
	for m, sent, disc in items:
		for _ in range(rng.choice([0, 0, 0, 1, 3])):
			t = rng.choice(TEXT + (PTEXT if robust else ['']))
			lines.append(t)
			want.extend(norm(t))
			ctx.ev('text items')
		if robust and rng.random() < 0.1:
			t = '(NN %s)' % rng.choice(g.WORDS)
			lines.append(t)
			want.append(t)
			ctx.ev('shallow brackets')
		elif not robust and rng.random() < 0.2:
			w = rng.choice(g.WORDS)
			lines.append('(NN %s)' % w)
			want.append((('NN', (0, )), [w]))
			anytree = True
			ctx.ev('shallow brackets')
		text = serialize(rng, m, sent, disc, pretty if multi else plain)
		if disc:
			ctx.ev('discbracket trees')
		prefix = ''
		if withprefix and rng.random() < 0.7:
			prefix = rng.choice(['1. ', 'text: ', 'x\t', '(foo) ' if robust
				else 'foo '])
		trail = ''
		if rng.random() < 0.3:
			trail = rng.choice(['\t0.5', ' foo bar', ' % n', '  ', '!', 'x y']
					+ [' (x) y', ' see ) y'] * robust)
		first, *rest = text.split('\n')
		if (lines and anytree and rng.random() < 0.15
				and isinstance(want[-1], tuple)):
			lines[-1] += rng.choice(['', ' ', ' ; ', '; ', ';\t']) + prefix + first
			if ';' in lines[-1][:-len(prefix + first)][-2:]:
				if not withprefix:
					want.append(';')
		else:
			lines.append(prefix + first)
		lines.extend(rest)
		# the model as discodop should see it
		if not disc:
			wsent = [sent[i] for i in g.leaves(m)]
			m = nums(m, iter(range(len(sent))))
		else:
			wsent = sent
		want.append((m, wsent))
		anytree = True
		lines[-1] += trail
		if not withprefix:
			want.extend(norm(trail))
	for _ in range(rng.choice([0, 0, 1, 2])):
		t = rng.choice(TEXT)
		lines.append(t)
		want.extend(norm(t))
	wtrees = [a for a in want if isinstance(a, tuple)]
	for _ in range(2):
		how, inp = divide(rng, lines)
		kw = dict(robust=robust)
		if rng.random() < 0.5 and not any('foox )' in a or ' see )' in a
				for a in lines):
			kw['strict'] = True
		othertext = rng.random() < 0.7
		desc = (how, kw, othertext, lines)
		ctx.ev('divisions')
		ctx.ev('trees read', len(wtrees))
		out, trees = collect(ctx, inp, desc, othertext=othertext, **kw)
		compare(ctx, trees, wtrees, desc, 'bracket')
		if othertext and not withprefix:
			if how in ('one', 'chunks'):
				# text before the first tree in a chunk is not reported
				def strip(x, pending=False):
					res = []
					for a in x:
						if isinstance(a, tuple):
							pending = True
						if pending:
							res.append(a)
					return res
				if how == 'one':
					out, cmpwant = strip(out), strip(want)
				else:  # compare only trees and text after those
					out = [a for a in out if a in want]
					cmpwant = out
			else:
				cmpwant = want
			texts = [a if isinstance(a, str) else None for a in out]
			wtexts = [a if isinstance(a, str) else None for a in cmpwant]
			ctx.eq(texts, wtexts, 'text between trees', desc)
	if len(wtrees) > 1:
		ctx.nontrivial((how, lines))


def genexp(rng, ctx):
	return rng, gentrees(rng, rng.choice([0, 1, 2, 4, 7]), True)


def checkexp(case, ctx):
	rng, items = case
	lines, want, wtrees = [], [], []
	functions = rng.choice([None, None, 'add', 'leave', 'remove', 'between'])
	morphology = rng.choice([None, None, 'add', 'replace', 'between'])
	if rng.random() < 0.3:
		lines.append('#FORMAT %d' % rng.choice([3, 4]))
	if rng.random() < 0.3:
		ctx.ev('tables')
		lines += ['#BOT ORIGIN', '0\tfoo', '1\t(bar (x))', '%% x',
				'#EOT ORIGIN']
	for n, (m, sent) in enumerate(items):
		if m[0] == '':
			m = ('ROOT', m[1])
		sent = [w or 'x' for w in sent]
		m = g.canon(('ROOT', m[1] if m[0] == 'ROOT' else (m, )))
		for _ in range(rng.choice([0, 0, 1, 2])):
			t = rng.choice(TEXT[:5] + PTEXT[:3] + ['', '%% comment'])
			lines.append(t)
			if not t.startswith('%%'):
				want.extend(norm(t))
			ctx.ev('text items')
		tree = g.totree(m, ParentedTree)
		for node in tree.subtrees():
			node.source = None
		block = writetree(tree, sent, str(n + 1), 'export',
				comment='c%d' % n if rng.random() < 0.3 else None
				).splitlines()
		if rng.random() < 0.5:  # random functions, morphology
			for i in range(1, len(block) - 1):
				fields = block[i].split('\t')
				while '' in fields:
					fields.remove('')
				assert len(fields) in (5, 6), fields
				fields[-3] = rng.choice(['--', 'Nom.Sg', '3.Pl'])
				fields[-2] = rng.choice(['SB', 'HD', '--', 'OA'])
				block[i] = rng.choice(['\t', '\t\t', '  ']).join(fields)
		if rng.random() < 0.1:
			block.insert(rng.randrange(1, len(block)), '')
		lines += block
		item = exporttree([a for a in block if a], functions, morphology)
		if functions in (None, 'leave') and morphology is None:
			ctx.eq(g.canon(g.tomodel(item.tree)), m, 'exporttree', block)
		want.append((g.tomodel(item.tree), item.sent))
		wtrees.append((g.tomodel(item.tree), item.sent))
		ctx.ev('export trees')
	for _ in range(2):
		how, inp = divide(rng, lines)
		if how in ('one', 'chunks'):
			how, inp = 'lines', [a + '\n' for a in lines]
		kw = dict(functions=functions, morphology=morphology)
		if rng.random() < 0.5 and not any(
				a.count('(') != a.count(')') for a in lines):
			kw['strict'] = True
		desc = (how, kw, lines)
		ctx.ev('divisions')
		ctx.ev('trees read', len(wtrees))
		out, trees = collect(ctx, inp, desc, othertext=True, **kw)
		ctx.eq([m for m, _ in trees], [m for m, _ in wtrees], 'trees, export',
				desc)
		ctx.eq([s for _, s in trees], [s for _, s in wtrees],
				'sentences, export', desc)
		texts = [a if isinstance(a, str) else None for a in out]
		# comments are reported as part of the tree
		texts = [a for a in texts if a is None or not (
				a[0] == 'c' and a[1:].isdigit())]
		ctx.eq(texts, [a if isinstance(a, str) else None for a in want],
				'text between trees, export', desc)
	if len(wtrees) > 1:
		ctx.nontrivial((how, lines))


def genbad(rng, ctx):
	return rng, gentrees(rng, rng.randint(1, 5), False), rng.random() < 0.3


def checkbad(case, ctx):
	"""A malformed tail does not affect the trees before it."""
	rng, items, export = case
	lines, want = [], []
	for n, (m, sent) in enumerate(items):
		if export:
			sent = [w or 'x' for w in sent]
			m = g.canon(('ROOT', m[1] if m[0] in ('ROOT', '') else (m, )))
			lines += writetree(g.totree(m, ParentedTree), sent, str(n + 1),
					'export').splitlines()
		else:
			lines += serialize(rng, m, sent, False, pretty).split('\n')
		want.append((m, sent))
	good = len(lines)
	how = rng.choice(['truncated', 'garbage', 'unbalanced', 'empty'])
	m, sent = gentrees(rng, 1, True)[0]
	if export:
		tail = writetree(g.totree(g.canon(m), ParentedTree), [w or 'x' for w in
				sent], '99', 'export').splitlines()
		if how == 'truncated':
			tail = tail[:rng.randint(1, len(tail) - 1)]
			if rng.random() < 0.5:
				tail[-1] = tail[-1][:rng.randrange(len(tail[-1]))]
		elif how == 'garbage':
			i = rng.randrange(1, len(tail))
			tail[i] = rng.choice(['x', 'x y', '#500', '', 'a\tb\tc', '#BOS 7',
					'a\tB\t--\t--\t777', 'a\tB\t--\t--\tx'])
		elif how == 'unbalanced':
			tail = tail[1:]
		else:
			tail = ['#EOS 99']
	else:
		text = serialize(rng, m, sent, rng.random() < 0.5, pretty)
		if how == 'truncated':
			text = text[:rng.randrange(1, len(text))]
		elif how == 'garbage':
			text = ''.join(rng.choice('(()) \nab=01') for _ in
					range(rng.randint(1, 30)))
		elif how == 'unbalanced':
			text = list(text)
			for _ in range(rng.randint(1, 3)):
				text[rng.randrange(len(text))] = rng.choice('()')
			text = ''.join(text)
		else:
			text = rng.choice(['(S (A))', '(())', '((()))', '(S (A)) (S (B',
					'(S ( ) )', '(S 0=x (A 0=))', ')', '(', '(S (A) (B))\n('])
		if rng.random() < 0.3:
			text += rng.choice(['\n(S (A b))', ' (S (A b))', '\nfoo', ')'])
		tail = text.split('\n')
	alllines = lines + tail
	ctx.ev('malformed tails')
	kind, inp = divide(rng, alllines)
	if export or kind == 'one' or kind == 'chunks':
		kind, inp = 'lines', [a + '\n' for a in alllines]
	desc = (kind, lines, tail)
	got = []
	error = None
	try:
		for tree, sent, _rest in incrementaltreereader(inp,
				othertext=rng.random() < 0.5):
			if tree is not None:
				got.append((g.tomodel(tree), list(sent)))
	except Exception as err:
		if isinstance(err, (ValueError, IndexError, KeyError, AssertionError,
				TypeError)):
			error = err
			ctx.ev('errors raised')
		else:
			raise
	ctx.ok(len(got) >= len(want), 'dropped trees before malformed material',
			'got %r want %r: %r, error: %r', got, want, desc, error)
	compare(ctx, got[:len(want)], want, desc, 'bad')
	if len(want) > 1:
		ctx.nontrivial(desc)
	assert good


def alpcase(m):
	if not isinstance(m, tuple):
		return m
	return (m[0].lower() if g.preterminal(m) else (m[0] or 'TOP').upper(),
			tuple(alpcase(c) for c in m[1]))


def checkalp(case, ctx):
	rng, items = case
	lines, want, wtrees = [], [], []
	func = rng.choice([None, None, 'add'])
	for n, (m, sent) in enumerate(items):
		sent = [w or 'x' for w in sent]
		m = alpcase(m)
		for _ in range(rng.choice([0, 0, 1, 2])):
			t = rng.choice(TEXT + PTEXT[:3] + [''])
			lines.append(t)
			want.extend(norm(t))
			ctx.ev('text items')
		comment = 'c%d' % n if rng.random() < 0.3 else None
		xml, info = xmlw.alpino(rng, m, sent, indices=rng.random() < 0.7,
				comment=comment, header=rng.random() < 0.6)
		block = xml.splitlines()
		if rng.random() < 0.2:
			block.insert(rng.randrange(2, len(block)),
					rng.choice(['', '  <!-- (S (NP a) (VP b)) -->']))
		lines += block
		if func == 'add':
			info[0]['func'] = '--'  # not added to the root
			order = iter(info)

			def rec(m):
				if not isinstance(m, tuple):
					return m
				x = next(order)['func']
				return (m[0] + ('' if x == '--' else '-' + x),
						tuple(map(rec, m[1])))
			m = rec(m)
		want.append((m, sent))
		wtrees.append((m, sent))
		if comment:
			want.append(comment)
		ctx.ev('alpino trees')
	for _ in range(2):
		how, inp = divide(rng, lines)
		if how in ('one', 'chunks'):
			how, inp = 'lines', [a + '\n' for a in lines]
		desc = (how, func, lines)
		ctx.ev('divisions')
		ctx.ev('trees read', len(wtrees))
		out, trees = collect(ctx, inp, desc, othertext=True, functions=func)
		ctx.eq(len(trees), len(wtrees), 'number of trees, alpino', desc)
		ctx.eq(out, want, 'trees and text, alpino', desc)
	if len(wtrees) > 1:
		ctx.nontrivial((how, lines))


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {
		'bracket': (genbr, checkbr, 22000 * k),
		'export': (genexp, checkexp, 1000 * k),
		'alpino': (genexp, checkalp, 300 * k),
		'malformed': (genbad, checkbad, 2000 * k),
	}

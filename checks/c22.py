"""C22: discontinuous parsing finds all and only the grammar's parses."""
import contextlib
import io
import math
import re
from collections import defaultdict
from discodop.containers import Grammar
from discodop import plcfrs, pcfg, kbest, estimates
from discodop._vfchart import contents
import g
import gg
import lc
from ref import Ref, close, istag

PLAN = dict(
	mods=['bit', 'containers', 'plcfrs', 'pcfg', 'kbest', 'estimates',
		'_vfchart'],
	rule='random binarized LCFRSs of fan-out up to 3 and derivable, nearly '
	'derivable, and random sentences; the same sentences moved past the 64th '
	'word; and long random trees (up to 127 words) whose rules form the '
	'grammar. nontrivial: the parse uses a discontinuous item; counted by '
	'grammar and sentence',
	require={'sentences': 2000, 'parsed': 3000, 'no parse': 1500,
		'best-first': 2000, 'exhaustive': 2000, 'SXlrgaps': 300, 'SX': 60, 'improbable': 60,
		'beyond estimates': 35,
		'discontinuous parses': 200, 'fan-out 3 items': 3000, 'ambiguous': 300,
		'cycles': 60, 'with tags': 300, 'unseen tags': 60, 'other start': 150,
		'unknown words': 60, 'items compared': 15000, 'edges compared': 20000,
		'shifted': 300, 'around 64': 150, 'long trees': 100,
		'refused': 20, 'beam': 100},
)
VOCAB = gg.VOCAB + ['Éa', 'x']
LABELS = gg.LABELS + ['T', 'T@2', 'T-x', 'T^y', 'TT', 'T/z', 'T.']


def bits(m):
	return tuple(i for i in range(m.bit_length()) if m >> i & 1)


def compare(name, chart, msg, ref, start, desc, ctx):
	"""Compare the verdict and the best derivation; return its tree."""
	want = ref.get(start)
	ctx.ev(name)
	ctx.ev('parsed' if want is not None else 'no parse')
	ctx.eq(bool(chart), want is not None, 'parsed', (name, desc))
	if want is None:
		ctx.ok(msg.startswith('no parse'), 'silent failure', '%r %r', msg, desc)
		return None
	d = kbest.lazykbest(chart, 1)
	ctx.ok(len(d) == 1, 'no derivation', '%r %r', name, desc)
	s, cost = d[0]
	t = lc.parsetree(s)
	ctx.ok(t[0] == start, 'start symbol', '%r %r %r', s, name, desc)
	ctx.eq(sorted(g.leaves(t)), list(range(len(ref.words))), 'yield',
			(name, s, desc))
	p = ref.treeprob(t)
	ctx.ok(p is not None, 'not licensed', '%r %r %r', name, s, desc)
	ctx.ok(close(p, -cost), 'stated probability', '%r want %r: %r %r %r', -cost,
			p, name, s, desc)
	ctx.ok(close(want, -cost), 'not the best', '%r want %r: %r %r %r', -cost,
			want, name, s, desc)
	return t


def items(name, chart, ref, rulenos, start, desc, ctx, exhaustive):
	"""Compare the whole chart."""
	seen = set()
	for (a, idx), (cost, edges) in contents(chart).items():
		m = sum(1 << i for i in idx)
		p = ref.best.get((a, m))
		ctx.ok(p is not None, 'underivable item', '%r %r %r', name, (a, idx), desc)
		ctx.ev('items compared')
		parts = len(g.parts(list(idx)))
		ctx.ev('fan-out 3 items', parts >= 3)
		ctx.ok(close(p, -cost) or (-cost < p and not exhaustive),
				'item probability', '%r want %r: %r %r %r', -cost, p, name,
				(a, idx), desc)
		seen.add((a, m))
		mine = set()
		for e in edges:
			if e[0] is None:
				mine.add(e[1])
				continue
			no, left, right = e
			r, yf = rulenos[no]
			ctx.eq((r[0], left[0], ) + ((right[0], ) if right else ()), r,
					'labels of edge', (name, e, desc))
			ch = ((left[0], sum(1 << i for i in left[1])), )
			if right:
				ch += ((right[0], sum(1 << i for i in right[1])), )
				ctx.ok(not ch[0][1] & ch[1][1] and ch[0][1] | ch[1][1] == m,
						'spans of edge', '%r %r %r', name, e, desc)
			else:
				ctx.eq(ch[0][1], m, 'span of unary edge', (name, e, desc))
			mine.add(((r, yf), ch))
		ctx.eq(len(mine), len(edges), 'edge listed twice', (name, a, idx, desc))
		ctx.ev('edges compared', len(mine))
		want = {ch if r is None else (r, ch) for _, r, ch in ref.edges[a, m]}
		if exhaustive:
			ctx.eq(mine, want, 'edges', (name, a, idx, desc))
		else:
			ctx.ok(mine <= want, 'edges', '%r %r %r', mine - want, name, desc)
	if exhaustive:
		ctx.eq(seen, set(ref.edges), 'items', (name, desc))


def gencase(rng, ctx):
	disc = rng.random() < 0.85
	rules = gg.grammar(rng, disc=disc, size=rng.choice([1, 2, 3, 4, 6, 9]),
			labels=LABELS, vocab=VOCAB[:rng.choice([2, 4, 7])],
			unary=rng.choice([0.1, 0.3, 0.5]))
	if rng.random() < 0.25:
		rules = gg.swap(rng, rules)
	return rng, disc, rules


def make(rules, start='ROOT'):
	gr = Grammar(list(rules), start=start)
	nos = {gr.getruleno(r, yf): (r, yf) for (r, yf), _ in rules
			if r[1] != 'Epsilon'}
	return gr, nos


def getestimates(gr, maxlen, ctx):
	"""Available estimates."""
	res = []
	with contextlib.redirect_stdout(io.StringIO()):
		res.append(('SXlrgaps', estimates.getestimates(gr, maxlen, 'ROOT')))
		if gr.maxfanout == 1:
			res.append(('SX', estimates.getpcfgestimates(gr, maxlen, 'ROOT')))
	return res


def check(case, ctx):
	rng, disc, rules = case
	labels = sorted({r[0] for (r, yf), _ in rules
			if r[1] == 'Epsilon' or len(yf) == 1})
	rare = rng.random() < 0.1
	if rare:  # very improbable words
		rules = rules + [((r, yf), 1e60) for (r, yf) in {
				((r[0], 'Epsilon'), ('common', )) for (r, _), _ in rules
				if r[1] == 'Epsilon'}]
	gr, nos = make(rules)
	est = (getestimates(gr, rng.choice([9, 9, 9, 5]), ctx)
			if rare or rng.random() < 0.4 else ())
	lexlabels = sorted({r[0] for (r, _), _ in rules if r[1] == 'Epsilon'})
	for _ in range(4):
		sent = gg.sentence(rng, rules, rng.choice([4, 6, 9]), VOCAB, 0.05)
		if rng.random() < 0.1:
			i = rng.randrange(len(sent))
			sent[i] = sent[i].upper()
		tags = None
		if rng.random() < 0.25:
			tags = [None if rng.random() < 0.4 else rng.choice(lexlabels + ['T',
					'NP'] + ['QQ'] * (rng.random() < 0.2)) for _ in sent]
			if rng.random() < 0.6:
				for i, w in enumerate(sent):
					c = [r[0] for (r, yf), _ in rules if r[1] == 'Epsilon'
							and yf[0] == w]
					if c and tags[i]:
						tags[i] = rng.choice(c)
						if rng.random() < 0.3:
							tags[i] = re.split('[-@^/]', tags[i])[0]
			ctx.ev('with tags', any(tags))
		start = rng.choice(labels) if rng.random() < 0.15 else 'ROOT'
		ref = Ref(rules, sent, tags, 20000)
		if ref.edges is None:
			continue
		ctx.ev('other start', start != 'ROOT')
		desc = (sent, tags, start, rules)
		ctx.ev('sentences')
		ctx.ev('unknown words', ref.missing and tags is None)
		if tags:
			ctx.ev('unseen tags', any(t and c and not any(istag(x, t) for x, _
					in ref.lc.lex.get(w, ())) for w, t, c in zip(
					sent, tags, ref.cand)))
		kw = {} if start == 'ROOT' else {'start': start}
		root = start, (1 << len(sent)) - 1
		ctx.ev('cycles', lc.cyclic(ref.edges, root))
		ctx.ev('ambiguous', root in ref.edges and any(len(ref.edges[x]) > 1
				for x in lc.reachable(ref.edges, root)))
		for ex in (False, True):
			name = 'exhaustive' if ex else 'best-first'
			chart, msg = plcfrs.parse(list(sent), gr, tags=tags, exhaustive=ex,
					**kw)
			t = compare(name, chart, msg, ref, start, desc, ctx)
			if not ref.missing:
				items(name, chart, ref, nos, start, desc, ctx,
						ex and start == 'ROOT')
		if t is not None and any(len(g.parts(g.leaves(x))) > 1
				for x in g.nodes(t)):
			ctx.ev('discontinuous parses')
			ctx.nontrivial((sent, rules))
		if start == 'ROOT' and not tags:
			for e in est:
				ctx.ev('improbable', (ref.get(start) or 0) < -300)
				ctx.ev('beyond estimates', len(sent) >= e[1].shape[1])
				chart, msg = plcfrs.parse(list(sent), gr, estimates=e,
						exhaustive=rng.random() < 0.5)
				compare(e[0], chart, msg, ref, start, desc, ctx)
		if rng.random() < 0.2:
			ctx.ev('beam')
			beam = rng.choice([1.0, 1e4])
			chart, msg = plcfrs.parse(list(sent), gr, tags=tags, beam_beta=beam,
					beam_delta=rng.choice([2, 50]), **kw)
			if beam > 10:
				compare('beam', chart, msg, ref, start, desc, ctx)
			elif chart:
				s, cost = kbest.lazykbest(chart, 1)[0]
				p = ref.treeprob(lc.parsetree(s))
				ctx.ok(p is not None and close(p, -cost), 'beam parse',
						'%r %r %r %r', s, p, -cost, desc)
		if start == 'ROOT' and sent and rng.random() < 0.4:
			shifted(rng, rules, sent, tags, ref, desc, ctx)


def shifted(rng, rules, sent, tags, ref, desc, ctx):
	"""Add words around the sentence, one rule per word, such that it starts
	before or after the 64th word."""
	n = rng.choice([64 - len(sent), 63, 64, 62, 70, 65, 63 - len(sent),
			64 - len(sent) // 2, 127 - len(sent), 128 - len(sent)])
	extra = []
	for i in range(n):
		extra.append(((('P%d' % i, 'W%d' % i, 'P%d' % (i + 1) if i < n - 1 else
			'ROOT'), ((0, 1), )), 1))
		extra.append(((('W%d' % i, 'Epsilon'), ('w%d' % i, )), 1))
	gr, nos = make([((('TOP', 'P0'), ((0, ), )), 1)] + extra + rules, 'TOP')
	sent1 = ['w%d' % i for i in range(n)] + sent
	tags1 = [None] * n + tags if tags else None
	ex = rng.random() < 0.5
	try:
		chart, msg = plcfrs.parse(sent1, gr, tags=tags1, exhaustive=ex)
	except ValueError:
		if len(sent1) < 128:
			raise
		ctx.ev('refused')
		return
	ctx.ev('shifted')
	ctx.ev('around 64', n < 64)
	want = ref.get('ROOT')
	desc = n, desc
	ctx.eq(bool(chart), want is not None, 'parsed when shifted', desc)
	if want is None:
		ctx.ok(msg.startswith('no parse'), 'silent failure', '%r %r', msg, desc)
	if not ref.missing:
		for (a, idx), (cost, edges) in contents(chart).items():
			if a[0] in 'WP' and a[1:].isdigit() or a == 'TOP':
				continue
			m = sum(1 << i for i in idx)
			p = ref.best.get((a, m >> n)) if not m & ((1 << n) - 1) else None
			ctx.ok(p is not None, 'underivable item', 'shifted %r %r', (a, idx),
					desc)
			ctx.ok(-cost <= p + 1e-9 * (1 + abs(p)), 'item probability',
					'%r want %r: shifted %r %r', -cost, p, (a, idx), desc)
			if ex:
				ctx.ok(close(-cost, p), 'item probability',
						'%r want %r: shifted %r %r', -cost, p, (a, idx), desc)
				ctx.eq(len(edges), len(ref.edges[a, m >> n]), 'edges',
						('shifted', a, idx, desc))
	if want is not None:
		s, cost = kbest.lazykbest(chart, 1)[0]
		ctx.ok(close(want, -cost), 'not the best', 'shifted %r want %r: %r',
				-cost, want, desc)
		t = lc.parsetree(s)
		ctx.eq(sorted(g.leaves(t)), list(range(len(sent1))), 'yield', (s, desc))
		x = [x for x in g.nodes(t) if x[0] == 'ROOT'][0]
		p = ref.treeprob(move(x, n))
		ctx.ok(p is not None and close(p, want), 'not licensed', 'shifted %r %r',
				s, desc)


def move(x, n):
	return x[0], tuple(move(c, n) if isinstance(c, tuple) else c - n for c in x[1])


def genlong(rng, ctx):
	n = rng.choice([60, 63, 64, 65, 66, 80, 100, 126, 127, 128, 129, 140, 256,
			300])
	m = lc.binarized(rng, g.randtree(rng, n, disc=rng.choice([0.1, 0.4, 0.8])))
	return rng, n, m


def checklong(case, ctx):
	rng, n, m = case
	words = ['%s%d' % (rng.choice('ab'), i % rng.choice([n, 40]))
			for i in range(n)]
	# labels are shared rarely, so that the chart stays small
	names = {}

	def relabel(x):
		if not isinstance(x, tuple):
			return x
		f = len(g.parts(g.leaves(x)))
		a = 'N%d_%d' % (rng.randrange(max(4, n)), f)
		if not isinstance(x[1][0], tuple):
			a = 'T%s' % words[x[1][0]]
		return a, tuple(relabel(c) for c in x[1])
	m = 'ROOT', (relabel(m), )
	rules = defaultdict(float)
	for x in g.nodes(m):
		rules[lc.noderule(lc.LC([]), x, words)] += 1
	rules = list(rules.items())
	desc = (n, m)
	if any(sum(map(len, yf)) > 30 for _, yf in dict(rules)):
		return  # beyond documented parsing complexity
	gr, nos = make(rules)
	if n >= 128:
		try:
			chart, msg = plcfrs.parse(list(words), gr)
		except ValueError:
			ctx.ev('refused')
			return
		ctx.fail('too long', '%r', desc)
	ref = Ref(rules, words, None, 20000)
	if ref.edges is None:
		return
	ctx.ev('long trees')
	for ex in (False, True):
		chart, msg = plcfrs.parse(list(words), gr, exhaustive=ex)
		compare('long', chart, msg, ref, 'ROOT', desc, ctx)
		items('long', chart, ref, nos, 'ROOT', desc, ctx, ex)
	ctx.nontrivial(m)


def streams(ctx):
	k = 20 if ctx.thorough else 1
	return {'random': (gencase, check, 4500 * k),
		'long': (genlong, checklong, 600 * k)}

"""C05: bit-vector operations against sets of integers."""
from discodop.bit import bitcount, fanout, pyintbitcount, pyintnextset
from discodop import _vfbit as b

PLAN = dict(
	mods=['bit', '_vfbit'],
	variant='san',
	rule='bit vectors of 0-300 bits (uniform, sparse, dense, runs, empty, '
	'full, single bits at word boundaries) with all or boundary positions; '
	'nontrivial: at least one set and one unset bit within the used width; '
	'counted by value and width',
	require={'fanout': 1000, 'next set': 5000, 'next unset': 2000,
		'word operations': 5000, 'array operations': 5000,
		'beyond one word': 500},
)
BOUND = [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192]


def randvec(rng, bits):
	"""A vector with at most ``bits`` bits."""
	if bits == 0:
		return 0
	how = rng.randrange(8)
	full = (1 << bits) - 1
	if how == 0:
		return rng.getrandbits(bits)
	elif how == 1:
		return rng.choice([0, full, 1, 1 << (bits - 1), full >> 1,
				full & ~1])
	elif how == 2:  # runs
		v, pos = 0, 0
		while pos < bits:
			n = rng.choice([1, 2, 3, rng.randint(1, bits), 64, 63])
			if rng.random() < 0.5:
				v |= ((1 << n) - 1) << pos
			pos += n
		return v & full
	elif how == 3:  # sparse
		v = 0
		for _ in range(rng.randint(1, 4)):
			v |= 1 << rng.randrange(bits)
		return v
	elif how == 4:  # dense
		v = full
		for _ in range(rng.randint(1, 4)):
			v &= ~(1 << rng.randrange(bits))
		return v
	elif how == 5:  # boundary
		v = 0
		for _ in range(rng.randint(1, 5)):
			p = rng.choice(BOUND)
			if p < bits:
				v |= 1 << p
		return v
	elif how == 6:  # value close to powers of two
		return max(0, min(full, (1 << rng.randrange(bits))
				+ rng.choice([-2, -1, 0, 1, 2])))
	return rng.getrandbits(bits) & rng.getrandbits(bits)


def bits(v):
	return [n for n in range(v.bit_length()) if v >> n & 1]


def genpy(rng, ctx):
	return rng, randvec(rng, rng.choice([0, 1, 8, 31, 32, 33, 62, 63, 64, 65,
			100, 127, 128, 129, 200, 300]))


def checkpy(case, ctx):
	rng, v = case
	s = bits(v)
	ss = set(s)
	if v and len(s) != v.bit_length():
		ctx.nontrivial('%x' % v)
	ctx.sample('%x' % v)
	if v.bit_length() > 64:
		ctx.ev('beyond one word')
	ctx.ev('fanout')
	ctx.eq(fanout(v), sum(1 for n in s if n - 1 not in ss), 'fanout', hex(v))
	ctx.eq(pyintbitcount(v), len(s), 'pyintbitcount', hex(v))
	if v < 1 << 64:
		ctx.eq(bitcount(v), len(s), 'bitcount', hex(v))
	else:
		try:
			got = bitcount(v)
		except OverflowError:
			pass
		else:
			ctx.fail('bitcount', 'no OverflowError for %x: %d', v, got)
	pos = set(BOUND) | {v.bit_length() + a for a in (-1, 0, 1, 64)
			} | {rng.randint(0, 320) for _ in range(6)}
	for p in pos:
		if p >= 0:
			ctx.ev('next set')
			ctx.eq(pyintnextset(v, p), min([n for n in s if n >= p] or [-1]),
					'pyintnextset', (hex(v), p))


def genword(rng, ctx):
	return rng, randvec(rng, rng.choice([0, 1, 8, 16, 31, 32, 33, 63, 64, 64]))


def checkword(case, ctx):
	rng, v = case
	s = bits(v)
	if v and v != (1 << 64) - 1:
		ctx.nontrivial('word %x' % v)
	for p in range(64):
		ctx.ev('word operations')
		ctx.eq(b.vnextset(v, p), min([n for n in s if n >= p] or [-1]),
				'nextset', (hex(v), p))
		ctx.ev('next unset')
		ctx.eq(b.vnextunset(v, p), min(n for n in range(p, 65)
				if not v >> n & 1), 'nextunset', (hex(v), p))
		for width in (8, 16, 32, 64):
			if p < width and v < 1 << width:
				ctx.eq(bool(b.vtestbit(v, p, width)), bool(v >> p & 1),
						'testbit', (hex(v), p, width))
	ctx.eq(b.vbitlength(v), v.bit_length(), 'bitlength', hex(v))


def genarr(rng, ctx):
	slots = rng.choice([1, 1, 2, 2, 2, 3, 5])
	v = randvec(rng, rng.choice([slots * 64, slots * 64, slots * 64 - 1,
			rng.randint(0, slots * 64)]))
	w = randvec(rng, slots * 64)
	if rng.random() < 0.4:  # subset, or almost
		w |= v
		if rng.random() < 0.5 and v:
			w &= ~(1 << rng.choice(bits(v)))
	return rng, slots, v, w


def checkarr(case, ctx):
	rng, slots, v, w = case
	s = bits(v)
	width = slots * 64
	full = (1 << width) - 1
	unset = bits(full & ~v)
	info = (slots, hex(v), hex(w))
	if v and v != full:
		ctx.nontrivial(info)
	if slots > 1:
		ctx.ev('beyond one word')
	ctx.ev('array operations')
	ctx.eq(b.vabitcount(v, slots), len(s), 'abitcount', info)
	ctx.eq(b.vabitlength(v, slots), v.bit_length(), 'abitlength', info)
	pos = {p for p in BOUND if p < width} | {width - 1} | {
			rng.randrange(width) for _ in range(8)} | set(s[:3]) | set(s[-3:])
	for p in pos:
		ctx.ev('next set')
		ctx.eq(b.vanextset(v, p, slots), min([n for n in s if n >= p]
				or [-1]), 'anextset', (info, p))
		ctx.ev('next unset')
		ctx.eq(b.vanextunset(v, p, slots), min([n for n in unset if n >= p]
				or [width]), 'anextunset', (info, p))
	ctx.eq(b.vanextset(v, width, slots), -1, 'anextset at end', info)
	ctx.eq(b.vanextunset(v, width, slots), width, 'anextunset at end', info)
	ctx.eq(b.viterset(v, slots, width + 1), s, 'iteratesetbits', info)
	ctx.eq(b.viterunset(v, slots, width + 1), unset, 'iterateunsetbits', info)
	for op, want in (
			('subset', (v & w == v, v, w, 0)),
			('intersectinplace', (None, v & w, w, 0)),
			('unioninplace', (None, v | w, w, 0)),
			('intersect', (None, v, w, v & w)),
			('union', (None, v, w, v | w))):
		ctx.ev('array operations')
		ctx.eq(b.vset(op, v, w, slots), want, op, info)
	for p in pos:
		for op, want in (
				('test', (bool(v >> p & 1), v)),
				('set', (None, v | 1 << p)),
				('clear', (None, v & ~(1 << p))),
				('toggle', (None, v ^ 1 << p))):
			ctx.ev('array operations')
			ctx.eq(b.vmacro(op, v, p, slots), want, op + ' macro', (info, p))


def genslots(rng, ctx):
	return rng.randint(0, 400)


def checkslots(n, ctx):
	ctx.eq(b.nslots(n), -(-n // 64), 'BITNSLOTS', n)


def streams(ctx):
	k = 15 if ctx.thorough else 1
	return dict(
			py=(genpy, checkpy, 6000 * k),
			word=(genword, checkword, 2500 * k),
			array=(genarr, checkarr, 4000 * k),
			slots=(genslots, checkslots, 400))

# Exposes the inlined bit vector functions of discodop.bit to the monitors.
from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t
from libc.stdlib cimport malloc, free
from discodop.bit cimport (testbit, nextset, nextunset, bitlength, abitcount,
		abitlength, anextset, anextunset, iteratesetbits, iterateunsetbits,
		setintersectinplace, setunioninplace, setintersect, setunion, subset)

cdef extern from "macros.h":
	uint64_t TESTBIT(uint64_t a[], int b)
	void CLEARBIT(uint64_t a[], int b)
	void TOGGLEBIT(uint64_t a[], int b)
	void SETBIT(uint64_t a[], int b)
	int BITNSLOTS(int nb)

MASK = (1 << 64) - 1

cdef uint64_t *toarray(vec, int slots) except NULL:
	# exact-size heap allocation, so that ASan sees any overrun
	cdef uint64_t *result = <uint64_t *>malloc(slots * sizeof(uint64_t))
	cdef int n
	if result is NULL:
		raise MemoryError
	for n in range(slots):
		result[n] = <uint64_t>((vec >> (64 * n)) & MASK)
	return result

cdef fromarray(uint64_t *vec, int slots):
	cdef int n
	result = 0
	for n in range(slots):
		result |= int(vec[n]) << (64 * n)
	return result

def vtestbit(vec, uint32_t pos, int width):
	if width == 8:
		return testbit[uint8_t](<uint8_t>vec, pos)
	elif width == 16:
		return testbit[uint16_t](<uint16_t>vec, pos)
	elif width == 32:
		return testbit[uint32_t](<uint32_t>vec, pos)
	return testbit[uint64_t](<uint64_t>vec, pos)

def vnextset(uint64_t vec, uint32_t pos):
	return nextset(vec, pos)

def vnextunset(uint64_t vec, uint32_t pos):
	return nextunset(vec, pos)

def vbitlength(uint64_t vec):
	return bitlength(vec)

def nslots(int nb):
	return BITNSLOTS(nb)

def vabitcount(vec, int slots):
	cdef uint64_t *a = toarray(vec, slots)
	try:
		return abitcount(a, slots)
	finally:
		free(a)

def vabitlength(vec, int slots):
	cdef uint64_t *a = toarray(vec, slots)
	try:
		return abitlength(a, slots)
	finally:
		free(a)

def vanextset(vec, uint32_t pos, int slots):
	cdef uint64_t *a = toarray(vec, slots)
	try:
		return anextset(a, pos, slots)
	finally:
		free(a)

def vanextunset(vec, uint32_t pos, int slots):
	cdef uint64_t *a = toarray(vec, slots)
	try:
		return anextunset(a, pos, slots)
	finally:
		free(a)

def viterset(vec, int slots, int limit):
	cdef uint64_t *a = toarray(vec, slots)
	cdef uint64_t cur
	cdef int idx = 0, n
	try:
		result = []
		cur = a[0]
		n = iteratesetbits(a, slots, &cur, &idx)
		while n != -1 and len(result) < limit:
			result.append(n)
			n = iteratesetbits(a, slots, &cur, &idx)
		return result
	finally:
		free(a)

def viterunset(vec, int slots, int limit):
	cdef uint64_t *a = toarray(vec, slots)
	cdef uint64_t cur
	cdef int idx = 0, n
	try:
		result = []
		cur = ~a[0]
		n = iterateunsetbits(a, slots, &cur, &idx)
		while n != -1 and len(result) < limit:
			result.append(n)
			n = iterateunsetbits(a, slots, &cur, &idx)
		return result
	finally:
		free(a)

def vset(str op, vec1, vec2, int slots):
	"""returns result, operands after the operation"""
	cdef uint64_t *a = toarray(vec1, slots)
	cdef uint64_t *b = toarray(vec2, slots)
	cdef uint64_t *c = toarray(0, slots)
	try:
		result = None
		if op == 'subset':
			result = subset(a, b, slots)
		elif op == 'intersectinplace':
			setintersectinplace(a, b, slots)
		elif op == 'unioninplace':
			setunioninplace(a, b, slots)
		elif op == 'intersect':
			setintersect(c, a, b, slots)
		elif op == 'union':
			setunion(c, a, b, slots)
		return (result, fromarray(a, slots), fromarray(b, slots),
				fromarray(c, slots))
	finally:
		free(a)
		free(b)
		free(c)

def vmacro(str op, vec, int pos, int slots):
	cdef uint64_t *a = toarray(vec, slots)
	try:
		result = None
		if op == 'test':
			result = TESTBIT(a, pos) != 0
		elif op == 'set':
			SETBIT(a, pos)
		elif op == 'clear':
			CLEARBIT(a, pos)
		elif op == 'toggle':
			TOGGLEBIT(a, pos)
		return result, fromarray(a, slots)
	finally:
		free(a)

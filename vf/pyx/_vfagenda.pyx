# Exposes the native agenda of discodop/_containers.h to the monitors.
from libc.stdint cimport uint32_t, uint64_t
from libcpp.vector cimport vector
from libcpp.utility cimport pair

cdef extern from "_containers.h":
	cdef cppclass SmallChartItem:
		uint32_t label
		uint64_t vec
		SmallChartItem()
		SmallChartItem(uint32_t, uint64_t)
	cdef cppclass Agenda[K, V]:
		ctypedef pair[K, V] item_type
		Agenda()
		void reserve(size_t n)
		void replace_entries(vector[item_type] entries)
		void kbest_entries(vector[item_type] entries, size_t k)
		size_t size()
		bint empty()
		bint member(K k)
		void setitem(K k, V v)
		void setifbetter(K k, V v)
		item_type pop()
	cdef cppclass SmallChartItemAgenda[V]:
		SmallChartItemAgenda()
		size_t size()
		bint empty()
		bint member(SmallChartItem k)
		void setitem(SmallChartItem k, V v)
		void setifbetter(SmallChartItem k, V v)
		pair[SmallChartItem, V] pop()


cdef class IntAgenda:
	cdef Agenda[uint32_t, double] ob

	def reserve(self, size_t n):
		self.ob.reserve(n)

	cdef vector[pair[uint32_t, double]] conv(self, pairs):
		cdef vector[pair[uint32_t, double]] entries
		cdef pair[uint32_t, double] p
		for a, b in pairs:
			p.first = a
			p.second = b
			entries.push_back(p)
		return entries

	def replace_entries(self, pairs):
		self.ob.replace_entries(self.conv(pairs))

	def kbest_entries(self, pairs, size_t k):
		self.ob.kbest_entries(self.conv(pairs), k)

	def __len__(self):
		return self.ob.size()

	def empty(self):
		return self.ob.empty()

	def member(self, k):
		return self.ob.member(k)

	def setitem(self, k, v):
		self.ob.setitem(k, v)

	def setifbetter(self, k, v):
		self.ob.setifbetter(k, v)

	def pop(self):
		cdef pair[uint32_t, double] p = self.ob.pop()
		return p.first, p.second


cdef class ItemAgenda:
	cdef SmallChartItemAgenda[double] ob

	def __len__(self):
		return self.ob.size()

	def empty(self):
		return self.ob.empty()

	def member(self, k):
		return self.ob.member(SmallChartItem(k[0], k[1]))

	def setitem(self, k, double v):
		self.ob.setitem(SmallChartItem(k[0], k[1]), v)

	def setifbetter(self, k, double v):
		self.ob.setifbetter(SmallChartItem(k[0], k[1]), v)

	def pop(self):
		cdef pair[SmallChartItem, double] p = self.ob.pop()
		return (p.first.label, p.first.vec), p.second

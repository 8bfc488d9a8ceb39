# Lists everything a chart contains, so that monitors can judge it.
from discodop.containers cimport Chart, Edge, ItemNo, Grammar
from libc.stdint cimport uint64_t

def contents(Chart chart):
	"""{(label, indices): (prob, [edge, ...])}; an edge is a tuple
	(rule number, left item, right item or None), or (None, word index)."""
	cdef uint64_t n
	cdef ItemNo item
	cdef Edge edge
	result = {}
	if chart.parseforest.size() == 0:  # no items
		return result
	for n in range(1, chart.numitems() + 1):
		item = chart.getitemidx(n)
		edges = []
		for edge in chart.parseforest[item]:
			if edge.rule is NULL:
				edges.append((None, chart.lexidx(edge)))
			else:
				edges.append((edge.rule.no, key(chart, chart._left(item, edge)),
						key(chart, chart._right(item, edge))
						if edge.rule.rhs2 else None))
		k = key(chart, item)
		if k in result:
			raise ValueError('item listed twice: %r' % (k, ))
		result[k] = (chart.subtreeprob(item), edges)
	return result

cdef key(Chart chart, ItemNo item):
	return (chart.grammar.tolabel[chart.label(item)],
			tuple(chart.indices(item)))

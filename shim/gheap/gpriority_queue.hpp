#ifndef VF_GPQ_H
#define VF_GPQ_H
#include <queue>
#include <vector>
template <class Heap, class T, class Container = std::vector<T>,
		class LessComparer = std::less<T> >
class gpriority_queue
	: public std::priority_queue<T, Container, LessComparer> {
	typedef std::priority_queue<T, Container, LessComparer> base;
public:
	gpriority_queue() : base() {}
	template <class It> gpriority_queue(It first, It last)
		: base(first, last) {}
};
#endif

#ifndef VF_BTREE_SET_H
#define VF_BTREE_SET_H
#include <set>
namespace btree {
template <typename K, typename C = std::less<K> >
class btree_set : public std::set<K, C> {};
}
#endif

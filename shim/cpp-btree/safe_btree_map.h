#ifndef VF_SAFE_BTREE_MAP_H
#define VF_SAFE_BTREE_MAP_H
#include <map>
namespace btree {
template <typename K, typename V, typename C = std::less<K> >
class safe_btree_map : public std::map<K, V, C> {};
}
#endif

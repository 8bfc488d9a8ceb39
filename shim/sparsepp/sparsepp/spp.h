// Verification stand-in for the sparsepp submodule (which is empty in this
// offline checkout). Same public names/semantics as used by disco-dop, backed
// by the standard library so that the sanitizers see ordinary heap memory.
#ifndef VF_SPP_H
#define VF_SPP_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <utility>
namespace spp {
template <typename T> struct spp_hash {
	size_t operator()(const T &v) const { return std::hash<T>()(v); }
};
template <class T> inline void hash_combine(std::size_t &seed, T const &v) {
	seed ^= spp_hash<T>()(v) + 0x9e3779b97f4a7c15ULL + (seed << 12) + (seed >> 4);
}
template <typename K, typename V, typename H = spp_hash<K> >
class sparse_hash_map : public std::unordered_map<K, V, H> {
	typedef std::unordered_map<K, V, H> base;
public:
	sparse_hash_map() : base() {}
	explicit sparse_hash_map(size_t n) : base(n) {}
	void resize(size_t n) { base::reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { base::clear(); }
};
template <typename K, typename H = spp_hash<K> >
class sparse_hash_set : public std::unordered_set<K, H> {
	typedef std::unordered_set<K, H> base;
public:
	sparse_hash_set() : base() {}
	explicit sparse_hash_set(size_t n) : base(n) {}
	void resize(size_t n) { base::reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { base::clear(); }
};
}
#endif

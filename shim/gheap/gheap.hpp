#ifndef VF_GHEAP_H
#define VF_GHEAP_H
#include <cstddef>
template <size_t Fanout = 2, size_t PageChunks = 1> class gheap {};
#endif

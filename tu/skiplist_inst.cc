// Instantiates the repository's skip list template for verification with a
// comparator that is only declared (its contract: any total order).
#include <cstdint>
#include "db/skiplist.h"
struct VCmp { int operator()(const uint64_t& a, const uint64_t& b) const; };
namespace lsmdb { 
template class SkipList<uint64_t, VCmp>;
}

#include <fmt/format.h>
#include <fmt/ostream.h>
#include "generic.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
namespace dreal {
template class ScopedVector<VElem>;
template class ScopedUnorderedMap<VKey, VElem, VHash>;
template class ScopedUnorderedSet<VKey, VHash>;
}  // namespace dreal

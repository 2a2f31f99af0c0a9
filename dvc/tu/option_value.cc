#include "generic.h"
#include "dreal/util/option_value.h"
namespace dreal {
template class OptionValue<VElem>;
}  // namespace dreal

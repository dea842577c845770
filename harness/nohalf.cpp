// Stands in for the CPU feature probe so that the software half-float path runs.
#include "HalfFloat.h"
namespace cuttlefish
{
extern const bool hasHardwareHalfFloat;
const bool hasHardwareHalfFloat = false;
}

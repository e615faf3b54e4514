// P27: the same operations in every configuration; what is observed is folded into digests that check.py compares.
// Only what no setting is documented to change is observed: scope ids of up to three ASCII characters, no exceptions' texts,
// no streams (absent with IPADDRESS_NO_OVERLOAD_STD).
#include "ops.hpp"
PBT_MAIN("P27", OPS)

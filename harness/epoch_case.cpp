// C32: case mappings of the released epoch.
#include <pystd2025ref.hpp>
#include <pystd2025.hpp>
#include "epoch.hpp"
//@unit repo=core25,ref_core bcflags=-Wno-macro-redefined bcflags=-mllvm bcflags=-phi-node-folding-threshold=0 bcflags=-mllvm bcflags=-two-entry-phi-node-folding-threshold=0 natflags=-Wno-macro-redefined
namespace released {
using namespace pystd2025ref;
#include "epoch_case.inc"
}
namespace current {
using namespace pystd2025;
#include "epoch_case.inc"
}

//@ C32 the upper case of every 32-bit value [time=60/900] [flags=--intervals]
HARNESS(epoch_upper) { EPOCH(upper_any); }
//@ C32 the lower case of every 32-bit value [time=60/900] [flags=--intervals]
HARNESS(epoch_lower) { EPOCH(lower_any); }

#include "conc_pre.h"
namespace conc_30mac {
#include "mod_30mac.cc"
}

#include "conc_pre.h"
namespace conc_elt {
#include "mod_elt.cc"
}

#include "conc_pre.h"
namespace conc_30elt {
#include "mod_30elt.cc"
}

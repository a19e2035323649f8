#include "conc_pre.h"
namespace conc_fc {
#include "mod_fc.cc"
}

#include "conc_pre.h"
namespace conc_30iter {
#include "mod_30iter.cc"
}

#include "conc_pre.h"
namespace conc_hlp {
#include "mod_hlp.cc"
}

#include "conc_pre.h"
namespace conc_diverse {
#include "mod_diverse.cc"
}

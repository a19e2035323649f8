#include "conc_pre.h"
namespace conc_pool {
#include "mod_pool.cc"
}

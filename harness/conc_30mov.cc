#include "conc_pre.h"
namespace conc_30mov {
#include "mod_30mov.cc"
}

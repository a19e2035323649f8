#include "conc_pre.h"
namespace conc_mov {
#include "mod_mov.cc"
}

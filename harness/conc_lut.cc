#include "conc_pre.h"
namespace conc_lut {
#include "mod_lut.cc"
}

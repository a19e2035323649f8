#include "conc_pre.h"
namespace conc_relu {
#include "mod_relu.cc"
}

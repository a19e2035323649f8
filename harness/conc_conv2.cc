#include "conc_pre.h"
namespace conc_conv2 {
#include "mod_conv2.cc"
}

#include "conc_pre.h"
namespace conc_rnn {
#include "mod_rnn.cc"
}

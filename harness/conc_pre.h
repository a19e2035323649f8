// Everything the modules include, so that each can be compiled inside a namespace of its own.
#pragma once
#include <algorithm>
#include "mon.h"
#include "t2.h"
#include "t3.h"
#include "models.h"
#include "mli_api.h"
#include "mli_config.h"
#include "mli_helpers_api.h"
#include "mli_mov_api.h"

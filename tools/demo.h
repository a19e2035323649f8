// Small helpers for the demonstrations: contiguous tensors over std::vector.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <initializer_list>
#include <vector>
#include "mli_api.h"
#include "mli_types.h"
template <class T> struct DT {
    mli_tensor t; std::vector<T> v;
    DT(mli_element_type et, std::initializer_list<uint32_t> sh) {
        memset(&t, 0, sizeof t); t.el_type = et; t.rank = sh.size(); int i = 0; size_t n = 1;
        for (uint32_t s : sh) { t.shape[i++] = s; n *= s; }
        size_t st = 1; for (int k = (int)t.rank - 1; k >= 0; k--) { t.mem_stride[k] = st; st *= t.shape[k]; }
        v.assign(n, 0); t.data.capacity = n * sizeof(T); t.data.mem.pi8 = (int8_t*)v.data();
    }
    DT& fx(int f) { t.el_params.fx.frac_bits = f; return *this; }
    DT& sa(int s, int z, int f) { auto& q = t.el_params.sa; memset(&q, 0, sizeof q); q.type = MLI_EL_PARAM_SC16_ZP16; q.dim = -1; q.scale.mem.i16 = s; q.zero_point.mem.i16 = z; q.scale_frac_bits.mem.i8 = f; return *this; }
    T& operator[](size_t i) { return v[i]; }
};
static int bad = 0;
#define CHECK(cond, ...) do { if (!(cond)) { printf(__VA_ARGS__); printf("\n"); bad = 1; } } while (0)

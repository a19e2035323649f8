// Small helpers for the demonstrations of the 3.0 interface.
#pragma once
#include "demo.h"
#include "mli_debug.h"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_runtime_api.hpp"
namespace m3 = snps_arc::metaware::mli;
namespace m3r = snps_arc::metaware::mli::ref;
using T4 = m3::Tensor<m3::NoBuffer, 4>;
using It4 = m3::TensorIterator<m3::NoBuffer, 4, 4>;
static const int32_t kOrd4[4] = {0, 1, 2, 3};
inline T4 t4(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { uint32_t s[4] = {a, b, c, d}; int32_t st[4] = {(int32_t)(b * c * d), (int32_t)(c * d), (int32_t)d, 1}; return T4(s, st); }
inline It4 it4(T4 t, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { uint32_t s[4] = {a, b, c, d}; return It4(t, s, kOrd4); }
struct Mem { std::vector<uint64_t> v; explicit Mem(size_t n) : v(n / 8 + 1) {} void* p() { return v.data(); } };
struct Inst {
    std::vector<uint64_t> blob, obj; m3::ExecutionInterface* ex;
    Inst(m3::CompilerGenericInterface* op, std::vector<uint64_t> bases) {
        uint32_t ps = op->GetKernelPrivateDataSize(), rs = op->GetRuntimeObjectSize();
        blob.resize(ps / 8 + 1); obj.resize(rs / 8 + 1);
        op->GetKernelPrivateData(blob.data());
        ex = m3::ExecutionInterface::Create(obj.data(), rs, blob.data(), ps, bases.data(), (int)bases.size());
    }
};
// copies between a whole contiguous BHWC array and a tile buffer laid out with the whole array's strides
template <class T> void tcopy(T* full, T* tile, const uint32_t dim[4], const int32_t off[4], const uint32_t sz[4], bool in) {
    for (uint32_t a = 0; a < sz[0]; a++) for (uint32_t b = 0; b < sz[1]; b++) for (uint32_t c = 0; c < sz[2]; c++) for (uint32_t d = 0; d < sz[3]; d++) {
        size_t f = (((a + off[0]) * dim[1] + b + off[1]) * (size_t)dim[2] + c + off[2]) * dim[3] + d + off[3];
        size_t t = ((a * dim[1] + b) * (size_t)dim[2] + c) * dim[3] + d;
        if (in) tile[t] = full[f]; else full[f] = tile[t];
    }
}

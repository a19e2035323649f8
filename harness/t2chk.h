// Misuse monitor, compiled in where the library checks its arguments (MON_CHK):
// after a valid call has succeeded, one operand description or configuration
// field is corrupted, and the same call has to be refused with nothing written.
// Included from the middle of namespace t2, after Ten.
struct Bad {
    std::string name; int op;                                   // op: operand index, -1: configuration
    std::function<bool(mli_tensor&, Rng&)> f;                   // corrupts the operand's copy; false: not applicable
    std::function<bool(Rng&)> g; std::function<void()> undo;    // corrupts a configuration in place
    int op2 = -1; std::function<bool(mli_tensor&, mli_tensor&, Rng&)> f2;   // corrupts two operands
    bool together = false; Ty group{};                          // corrupts the types of all operands of one type
    Bad(const std::string& n, int o, std::function<bool(mli_tensor&, Rng&)> f_, std::function<bool(Rng&)> g_ = nullptr, std::function<void()> u = nullptr)
        : name(n), op(o), f(f_), g(g_), undo(u) {}
};
inline size_t span_bytes(const mli_tensor& t, int es) {
    size_t s = 1; for (uint32_t i = 0; i < t.rank; i++) s += (size_t)(t.shape[i] - 1) * t.mem_stride[i]; return s * es;
}
// keeps arrays of corrupted per-axis parameters alive for the duration of one probe
inline thread_local std::vector<std::unique_ptr<Raw>> g_tmp;
inline int rdim(const mli_tensor& t, Rng& r) { return (int)r.in(0, (int)t.rank - 1); }

// corruptions any valid tensor description must not have
inline std::vector<Bad> tensor_bads(const Ten& x, int op, unsigned free_dims) {
    std::vector<Bad> v; int es = esz(x.ty);
    auto add = [&](const char* n, std::function<bool(mli_tensor&, Rng&)> f) { v.emplace_back(n, op, f); };
    add("null_data", [](mli_tensor& t, Rng&) { if (!t.rank) return false; t.data.mem.pi8 = nullptr; return true; });
    add("rank_above_4", [](mli_tensor& t, Rng& r) { t.rank = (uint32_t)(r.chance(50) ? 5 : r.in(5, 1 << 20)); return true; });
    add("zero_dim", [](mli_tensor& t, Rng& r) { if (!t.rank) return false; t.shape[rdim(t, r)] = 0; return true; });
    add("zero_stride", [](mli_tensor& t, Rng& r) { if (!t.rank) return false; t.mem_stride[rdim(t, r)] = 0; return true; });
    add("negative_stride", [](mli_tensor& t, Rng& r) { if (!t.rank) return false; int d = rdim(t, r); t.mem_stride[d] = r.chance(50) ? -t.mem_stride[d] : -(int)r.in(1, 1 << 20); return true; });
    add("overlapping_strides", [](mli_tensor& t, Rng& r) {
        if (t.rank < 2) return false; int d = (int)r.in(0, (int)t.rank - 2); int64_t inner = (int64_t)t.shape[d + 1] * t.mem_stride[d + 1];
        if (inner < 2) return false; t.mem_stride[d] = (int)(r.chance(50) ? inner - 1 : r.in(1, inner - 1)); return true; });
    add("small_capacity", [es](mli_tensor& t, Rng& r) { if (!t.rank) return false; int64_t n = (int64_t)span_bytes(t, es); t.data.capacity = (uint32_t)(r.chance(50) ? n - 1 : r.in(0, n - 1)); return true; });
    add("wrapping_size", [](mli_tensor& t, Rng& r) {      // a size that does not fit the tensor's memory, nor 32 bits
        if (!t.rank) return false; int d = rdim(t, r); static const uint32_t big[] = {0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0x40000001u, 0x7FFFFFFFu, 0x20000001u};
        t.shape[d] = big[r.in(0, 5)]; return true; });
    add("el_type", [](mli_tensor& t, Rng& r) {
        static const mli_element_type ts[] = {MLI_EL_FX_4, MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32}; auto n = ts[r.in(0, 5)]; if (n == t.el_type) return false; t.el_type = n; return true; });
    if (x.sa()) {
        add("scale_not_positive", [](mli_tensor& t, Rng& r) {
            auto& q = t.el_params.sa; int16_t bad = (int16_t)(r.chance(50) ? 0 : r.in(-32768, -1));
            if (q.dim < 0) { q.scale.mem.i16 = bad; return true; }
            if (q.dim >= (int)t.rank || !q.scale.mem.pi16) return false;
            g_tmp.emplace_back(new Raw(q.scale.capacity)); memcpy(g_tmp.back()->p, q.scale.mem.pi16, q.scale.capacity);
            ((int16_t*)g_tmp.back()->p)[r.in(0, t.shape[q.dim] - 1)] = bad; q.scale.mem.pi16 = (int16_t*)g_tmp.back()->p; return true; });
        add("zero_point_range", [](mli_tensor& t, Rng& r) {
            auto& q = t.el_params.sa; int16_t bad = (int16_t)(r.chance(50) ? r.in(128, 32767) : r.in(-32768, -129)); if (r.chance(40)) bad = r.chance(50) ? 128 : -129;
            if (q.dim < 0) { q.zero_point.mem.i16 = bad; return true; }
            if (q.dim >= (int)t.rank || !q.zero_point.mem.pi16) return false;
            g_tmp.emplace_back(new Raw(q.zero_point.capacity)); memcpy(g_tmp.back()->p, q.zero_point.mem.pi16, q.zero_point.capacity);
            ((int16_t*)g_tmp.back()->p)[r.in(0, t.shape[q.dim] - 1)] = bad; q.zero_point.mem.pi16 = (int16_t*)g_tmp.back()->p; return true; });
        add("axis_above_rank", [](mli_tensor& t, Rng& r) { auto& q = t.el_params.sa; if (q.dim < 0) return false; q.dim = (int8_t)(r.chance(50) ? t.rank : r.in(t.rank, 127)); return true; });
        static const char* nm[] = {"axis_scale_capacity", "axis_zero_point_capacity", "axis_frac_capacity"};
        static const char* nn[] = {"axis_scale_null", "axis_zero_point_null", "axis_frac_null"};
        for (int k = 0; k < 3; k++) {
            add(nm[k], [k](mli_tensor& t, Rng& r) { auto& q = t.el_params.sa; if (q.dim < 0 || q.dim >= (int)t.rank) return false;
                auto& d = k == 0 ? q.scale : k == 1 ? q.zero_point : q.scale_frac_bits; int64_t need = (int64_t)t.shape[q.dim] * (k == 2 ? 1 : 2);
                d.capacity = (uint32_t)(r.chance(60) ? need - 1 : r.in(0, need - 1)); return true; });
            add(nn[k], [k](mli_tensor& t, Rng&) { auto& q = t.el_params.sa; if (q.dim < 0 || q.dim >= (int)t.rank) return false;
                auto& d = k == 0 ? q.scale : k == 1 ? q.zero_point : q.scale_frac_bits; d.mem.pi8 = nullptr; return true; });
        }
        add("becomes_per_axis", [](mli_tensor& t, Rng& r) {      // valid on its own, not where per-tensor parameters are required
            auto& q = t.el_params.sa; if (q.dim >= 0 || !t.rank) return false; int d = rdim(t, r); size_t n = t.shape[d];
            auto *a = new Raw(n * 2), *b = new Raw(n * 2), *c = new Raw(n); g_tmp.emplace_back(a); g_tmp.emplace_back(b); g_tmp.emplace_back(c);
            for (size_t i = 0; i < n; i++) { ((int16_t*)a->p)[i] = q.scale.mem.i16; ((int16_t*)b->p)[i] = q.zero_point.mem.i16; c->p[i] = (uint8_t)q.scale_frac_bits.mem.i8; }
            q.dim = (int8_t)d; q.scale.capacity = (uint32_t)a->n; q.zero_point.capacity = (uint32_t)b->n; q.scale_frac_bits.capacity = (uint32_t)c->n;
            q.scale.mem.pi16 = (int16_t*)a->p; q.zero_point.mem.pi16 = (int16_t*)b->p; q.scale_frac_bits.mem.pi8 = (int8_t*)c->p; return true; });
    }
    if (x.sa()) {
        add("becomes_per_tensor", [](mli_tensor& t, Rng&) {
            auto& q = t.el_params.sa; if (q.dim < 0 || q.dim >= (int)t.rank || !q.scale.mem.pi16) return false;
            int16_t s = q.scale.mem.pi16[0], z = q.zero_point.mem.pi16[0]; int8_t f = q.scale_frac_bits.mem.pi8[0]; auto ty = q.type;
            memset(&q, 0, sizeof q); q.type = ty; q.dim = -1; q.scale.mem.i16 = s; q.zero_point.mem.i16 = z; q.scale_frac_bits.mem.i8 = f; return true; });
        add("other_axis", [](mli_tensor& t, Rng& r) {
            auto& q = t.el_params.sa; if (q.dim < 0 || q.dim >= (int)t.rank || t.rank < 2 || !q.scale.mem.pi16) return false;
            int d = (int)((q.dim + r.in(1, (int)t.rank - 1)) % t.rank); size_t n = t.shape[d], o = t.shape[q.dim];
            auto *a = new Raw(n * 2), *b = new Raw(n * 2), *c = new Raw(n); g_tmp.emplace_back(a); g_tmp.emplace_back(b); g_tmp.emplace_back(c);
            for (size_t i = 0; i < n; i++) { ((int16_t*)a->p)[i] = q.scale.mem.pi16[i % o]; ((int16_t*)b->p)[i] = q.zero_point.mem.pi16[i % o]; c->p[i] = (uint8_t)q.scale_frac_bits.mem.pi8[i % o]; }
            q.dim = (int8_t)d; q.scale.capacity = (uint32_t)a->n; q.zero_point.capacity = (uint32_t)b->n; q.scale_frac_bits.capacity = (uint32_t)c->n;
            q.scale.mem.pi16 = (int16_t*)a->p; q.zero_point.mem.pi16 = (int16_t*)b->p; q.scale_frac_bits.mem.pi8 = (int8_t*)c->p; return true; });
    }
    // descriptions that are valid on their own and do not fit the other operands
    auto pick = [free_dims](const mli_tensor& t, Rng& r) { int d = t.rank ? rdim(t, r) : -1; return d >= 0 && (free_dims >> d & 1) ? -1 : d; };
    add("shorter_dim", [pick](mli_tensor& t, Rng& r) { int d = pick(t, r); if (d < 0) return false; if (t.shape[d] < 2) return false; t.shape[d] -= (uint32_t)(r.chance(60) ? 1 : r.in(1, t.shape[d] - 1)); return true; });
    add("longer_dim", [es, pick](mli_tensor& t, Rng& r) {
        int d = pick(t, r); if (d < 0) return false; t.shape[d] += (uint32_t)(r.chance(60) ? 1 : r.in(1, 9));
        for (int k = d - 1; k >= 0; k--) t.mem_stride[k] = std::max<int>(t.mem_stride[k], t.shape[k + 1] * t.mem_stride[k + 1]);
        size_t n = span_bytes(t, es); g_tmp.emplace_back(new Raw(n)); t.data.mem.pi8 = (int8_t*)g_tmp.back()->p; t.data.capacity = (uint32_t)n; return true; });
    add("inner_stride", [es](mli_tensor& t, Rng& r) {
        if (!t.rank || t.mem_stride[t.rank - 1] != 1) return false; int m = (int)r.in(2, 4);
        for (uint32_t k = 0; k < t.rank; k++) t.mem_stride[k] *= m;
        size_t n = span_bytes(t, es); g_tmp.emplace_back(new Raw(n)); t.data.mem.pi8 = (int8_t*)g_tmp.back()->p; t.data.capacity = (uint32_t)n; return true; });
    add("lower_rank", [](mli_tensor& t, Rng& r) {        // same elements, first two dimensions merged
        if (t.rank < 2 || t.mem_stride[0] != (int)t.shape[1] * t.mem_stride[1]) return false;
        t.shape[1] *= t.shape[0]; for (uint32_t k = 0; k + 1 < t.rank; k++) { t.shape[k] = t.shape[k + 1]; t.mem_stride[k] = t.mem_stride[k + 1]; }
        t.rank--; return true; });
    add("higher_rank", [](mli_tensor& t, Rng&) {         // same elements behind a new outer dimension of 1
        if (t.rank > 3 || !t.rank) return false; int st = t.shape[0] * t.mem_stride[0];
        for (uint32_t k = t.rank; k > 0; k--) { t.shape[k] = t.shape[k - 1]; t.mem_stride[k] = t.mem_stride[k - 1]; }
        t.shape[0] = 1; t.mem_stride[0] = st; t.rank++; return true; });
    return v;
}
// operand-specific corruptions
typedef std::function<bool(mli_tensor&, Rng&)> Corrupt;
inline Corrupt bad_zero_point() {       // weights and bias are symmetric
    return [](mli_tensor& t, Rng& r) {
        auto& q = t.el_params.sa; int16_t z = (int16_t)(r.chance(50) ? 1 : r.in(-128, 127)); if (!z) z = -1;
        if (q.dim < 0) { q.zero_point.mem.i16 = z; return true; }
        auto* b = new Raw(q.zero_point.capacity); g_tmp.emplace_back(b); memcpy(b->p, q.zero_point.mem.pi16, b->n);
        ((int16_t*)b->p)[r.in(0, t.shape[q.dim] - 1)] = z; q.zero_point.mem.pi16 = (int16_t*)b->p; return true; };
}
inline Corrupt bad_bias_scale() {       // a bias scale that is not the product of input and weights scales
    return [](mli_tensor& t, Rng& r) {
        auto& q = t.el_params.sa; auto wrong = [&](int v) { return v < 100 ? 0 : r.chance(50) ? v / 2 : v < 20000 ? v + v / 2 : v - v / 4; };
        if (q.dim < 0) { int v = wrong(q.scale.mem.i16); if (!v) return false; q.scale.mem.i16 = (int16_t)v; return true; }
        int i = (int)r.in(0, t.shape[q.dim] - 1), v = wrong(q.scale.mem.pi16[i]); if (!v) return false;
        auto* b = new Raw(q.scale.capacity); g_tmp.emplace_back(b); memcpy(b->p, q.scale.mem.pi16, b->n);
        ((int16_t*)b->p)[i] = (int16_t)v; q.scale.mem.pi16 = (int16_t*)b->p; return true; };
}
inline Corrupt bad_frac_above(int top) { // more fractional bits than the accumulator has
    return [top](mli_tensor& t, Rng& r) { if (top > 126) return false; t.el_params.fx.frac_bits = (int8_t)(r.chance(60) ? top + 1 : r.in(top + 1, 127)); return true; };
}
inline Corrupt bad_dim_above(int d, int64_t most, int es) { // a dimension beyond what the other operands allow
    return [=](mli_tensor& t, Rng& r) {
        t.shape[d] = (uint32_t)(most + (r.chance(60) ? 1 : r.in(1, 40)));
        for (int k = d - 1; k >= 0; k--) t.mem_stride[k] = std::max<int>(t.mem_stride[k], t.shape[k + 1] * t.mem_stride[k + 1]);
        size_t n = span_bytes(t, es); g_tmp.emplace_back(new Raw(n)); t.data.mem.pi8 = (int8_t*)g_tmp.back()->p; t.data.capacity = (uint32_t)n; return true; };
}

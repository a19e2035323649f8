// 2.0 argmax and permute.
#include "t2.h"
#include <algorithm>
using namespace t2;

static std::vector<std::vector<int64_t>> parts(const Shape& s, int axis) {     // elements of each index of the axis (all other dimensions)
    int64_t n = prod(s); std::vector<std::vector<int64_t>> o(axis < 0 ? 1 : s[axis]);
    int64_t inner = 1; if (axis >= 0) for (size_t i = axis + 1; i < s.size(); i++) inner *= s[i];
    for (int64_t i = 0; i < n; i++) o[axis < 0 ? 0 : (i / inner) % s[axis]].push_back(i);
    return o;
}
MON_TEST(argmax) {
    Rng& r = c.r; Ty ty = r.chance(50) ? FX16 : SA8;
    std::string site = std::string("mli_krn_argmax_") + tn(ty);
    Shape s = rshape(r); Ten in, out; make(in, r, "in", ty, s, r.chance(60) ? 1 : 0);
    int axis = r.chance(30) ? -(int)r.in(1, 3) : (int)r.in(0, (int)s.size() - 1);
    auto pt = parts(s, axis); int64_t slice = (int64_t)pt[0].size(); int dims = (int)pt.size();
    int topk = (int)(r.chance(30) ? slice : r.chance(50) ? r.in(1, std::min<int64_t>(slice, 6)) : r.in(1, slice));
    make(out, r, "out", SA32, {dims, topk}, 0);
    if (ty == SA8) quant(in, r.in(1, 0x7fff), r.in(0, 20), r.in(-128, 127)); else fx(in, (int)r.in(0, 15));
    fill(in, r);
    if (r.chance(30)) { int64_t base = r.in(-50, 50); for (int64_t i = 0; i < in.n(); i++) in.set(i, base + r.in(0, 4)); }       // many ties
    else if (r.chance(30)) { int64_t v = r.in(-100, 0); for (int64_t i = 0; i < in.n(); i++) in.set(i, v + (r.chance(50) ? i % 97 : -(i % 97))); }
    c.d("%s %s strides [%d %d %d %d] axis %d topk %d", site.c_str(), ss(s).c_str(), in.t.mem_stride[0], in.t.mem_stride[1], in.t.mem_stride[2], in.t.mem_stride[3], axis, topk);
    Raw cfgm(sizeof(mli_argmax_cfg)); auto* cfg = (mli_argmax_cfg*)cfgm.p; cfg->axis = axis; cfg->topk = topk;
    out.may_change_struct = true; mli_tensor so = out.t;
    Prot p(c, site); p.in(in).out(out).raw(cfgm);
    p.may(in, "scale_not_positive zero_point_range longer_dim shorter_dim lower_rank higher_rank");
    p.bad<mli_argmax_cfg>("axis", cfg, [=](mli_argmax_cfg& g, Rng& q) { int k = (int)s.size(); g.axis = (int)(q.chance(60) ? k : q.in(k, 100)); return true; });
    p.bad<mli_argmax_cfg>("topk", cfg, [=](mli_argmax_cfg& g, Rng& q) { g.topk = (int)(q.chance(60) ? topk + (q.chance(50) ? 1 : -1) : q.chance(50) ? q.in(topk + 1, 1 << 20) : q.in(-(1 << 20), 0)); return true; });
    if (!p.run([&] { return ty == SA8 ? mli_krn_argmax_sa8(&in.t, cfg, &out.t) : mli_krn_argmax_fx16(&in.t, cfg, &out.t); })) return;
    c.count("fn:" + site); c.count(axis < 0 ? "whole" : "axis:" + std::to_string(axis));
    auto& q = out.t.el_params.sa;
    if (q.dim != -1 || q.type != MLI_EL_PARAM_SC16_ZP16 || q.scale.mem.i16 != 1 || q.zero_point.mem.i16 != 0 || q.scale_frac_bits.mem.i8 != 0) c.fail("value", site + ":out_params", "output is not described as plain integers");
    so.el_params = out.t.el_params; if (memcmp(&so, &out.t, sizeof so)) c.fail("memory", site + ":out_struct", "output shape or data description modified");
    auto v = in.vals(); c.count("outputs_checked", (uint64_t)dims * topk);
    for (int d = 0; d < dims; d++) {
        std::map<int64_t, int64_t> byoff; for (auto i : pt[d]) byoff[(int64_t)in.off[i]] = v[i];
        std::vector<int64_t> all; for (auto i : pt[d]) all.push_back(v[i]);
        std::sort(all.rbegin(), all.rend());
        std::set<int64_t> seen;
        for (int k = 0; k < topk; k++) {
            int64_t o = out.get((int64_t)d * topk + k); auto it = byoff.find(o);
            c.h((uint64_t)all[k]); if (all[k] != all.back()) c.nontrivial = true;
            if (it == byoff.end()) { c.fail("value", site + ":position", "slice %d: result %d = %lld is not the position of an element of the slice", d, k, (long long)o); return; }
            if (!seen.insert(o).second) { c.fail("value", site + ":duplicate", "slice %d: position %lld returned twice", d, (long long)o); return; }
            if (it->second != all[k]) { c.fail("value", site + ":order", "slice %d: result %d refers to value %lld, rank %d value is %lld", d, k, (long long)it->second, k, (long long)all[k]); return; }
        }
    }
}

MON_TEST(permute) {
    Rng& r = c.r; int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    std::string site = std::string("mli_krn_permute_") + tn(ty);
    Shape s = rshape(r); int rank = (int)s.size(); std::vector<int> perm(rank); for (int i = 0; i < rank; i++) perm[i] = i;
    for (int i = rank - 1; i > 0; i--) std::swap(perm[i], perm[r.in(0, i)]);
    Shape os; for (int i = 0; i < rank; i++) os.push_back(s[perm[i]]);
    Ten in, out; make(in, r, "in", ty, s, (int)r.in(0, 2)); make(out, r, "out", ty, os, (int)r.in(0, 2)); fill(in, r);
    int mode = -1; Raw osc(0), ozp(0), osf(0); std::unique_ptr<Raw> a, b, d;
    if (ty != SA8) { fx(in, (int)r.in(-5, 20)); fx(out, (int)r.in(-5, 20)); }
    else if (r.chance(40)) { quant(in, r.in(1, 0x7fff), r.in(0, 30), r.in(-128, 127)); quant(out, r.in(1, 0x7fff), r.in(0, 30), r.in(-128, 127)); }
    else {
        int dim = (int)r.in(0, rank - 1); std::vector<int64_t> sc, fr, zp; for (int i = 0; i < s[dim]; i++) { sc.push_back(r.in(1, 0x7fff)); fr.push_back(r.in(0, 30)); zp.push_back(r.in(-128, 127)); }
        quant_axis(in, dim, sc, fr, zp); mode = (int)r.in(0, 2);
        auto& q = out.t.el_params.sa; memset(&q, 0, sizeof q); q.type = MLI_EL_PARAM_SC16_ZP16; q.dim = r.chance(50) ? -1 : (int)r.in(0, rank - 1);
        if (mode == 1) { q = in.t.el_params.sa; q.dim = r.chance(50) ? -1 : (int)r.in(0, rank - 1); }
        if (mode == 2) {
            size_t x = r.chance(50) ? 0 : (size_t)r.in(1, 4); a.reset(new Raw((s[dim] + x) * 2)); b.reset(new Raw((s[dim] + x) * 2)); d.reset(new Raw(s[dim] + x));
            q.scale.mem.pi16 = (int16_t*)a->p; q.zero_point.mem.pi16 = (int16_t*)b->p; q.scale_frac_bits.mem.pi8 = (int8_t*)d->p;
            q.scale.capacity = (uint32_t)a->n; q.zero_point.capacity = (uint32_t)b->n; q.scale_frac_bits.capacity = (uint32_t)d->n;
        }
        c.d("axis %d mode %d ", dim, mode);
    }
    Raw cfgm(sizeof(mli_permute_cfg)); auto* cfg = (mli_permute_cfg*)cfgm.p; for (int i = 0; i < MLI_MAX_RANK; i++) cfg->perm_dim[i] = i < rank ? (uint8_t)perm[i] : (uint8_t)r.in(0, 255);
    c.d("%s %s strides [%d %d %d %d] perm", site.c_str(), ss(s).c_str(), in.t.mem_stride[0], in.t.mem_stride[1], in.t.mem_stride[2], in.t.mem_stride[3]); for (int x : perm) c.d(" %d", x);
    std::vector<int64_t> exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) { std::vector<int> co(rank), ci(rank); int64_t q = i; for (int k = rank - 1; k >= 0; k--) { co[k] = (int)(q % os[k]); q /= os[k]; } for (int k = 0; k < rank; k++) ci[perm[k]] = co[k]; exp[i] = in.get(in.idx(ci)); }
    c.nontrivial = mixed(exp); c.count("fn:" + site); c.count("rank:" + std::to_string(rank)); if (mode >= 0) c.count("per_axis_mode:" + std::to_string(mode));
    out.may_change_struct = true; mli_tensor so = out.t;
    Prot p(c, site); p.in(in).out(out).raw(cfgm); p.noshare = mode == 2;
    p.overlap(in, out).may(in, "inner_stride scale_not_positive zero_point_range becomes_per_axis becomes_per_tensor other_axis").may(out, "inner_stride");
    p.bad<mli_permute_cfg>("perm_out_of_range", cfg, [=](mli_permute_cfg& g, Rng& q) { g.perm_dim[q.in(0, rank - 1)] = (uint8_t)(q.chance(60) ? rank : q.in(rank, 255)); return true; });
    p.bad<mli_permute_cfg>("perm_repeats", cfg, [=](mli_permute_cfg& g, Rng& q) { if (rank < 2) return false; int i = (int)q.in(0, rank - 1), j = (int)((i + q.in(1, rank - 1)) % rank); g.perm_dim[i] = g.perm_dim[j]; return true; });
    if (!p.run([&] { return tyi == 0 ? mli_krn_permute_fx8(&in.t, cfg, &out.t) : tyi == 1 ? mli_krn_permute_fx16(&in.t, cfg, &out.t) : mli_krn_permute_sa8(&in.t, cfg, &out.t); })) return;
    compare(c, site, out, exp);
    so.el_params = out.t.el_params; if (memcmp(&so, &out.t, sizeof so)) c.fail("memory", site + ":out_struct", "output shape or data description modified");
    if (ty != SA8) { if (out.frac() != in.frac()) c.fail("value", site + ":out_params", "frac_bits %d, input has %d", out.frac(), in.frac()); return; }
    auto &q = out.t.el_params.sa, &w = in.t.el_params.sa;
    if (w.dim < 0) { if (q.dim >= 0 || q.scale.mem.i16 != w.scale.mem.i16 || q.zero_point.mem.i16 != w.zero_point.mem.i16 || q.scale_frac_bits.mem.i8 != w.scale_frac_bits.mem.i8) c.fail("value", site + ":out_params", "per-tensor parameters were not copied"); return; }
    int od = 0; while (perm[od] != w.dim) od++;
    if (q.dim != od) { c.fail("value", site + ":out_dim", "quantised dimension is %d instead of %d", q.dim, od); return; }
    if (mode < 2) {
        if (q.scale.mem.pi16 != w.scale.mem.pi16 || q.zero_point.mem.pi16 != w.zero_point.mem.pi16 || q.scale_frac_bits.mem.pi8 != w.scale_frac_bits.mem.pi8 || q.scale.capacity != w.scale.capacity || q.zero_point.capacity != w.zero_point.capacity || q.scale_frac_bits.capacity != w.scale_frac_bits.capacity)
            c.fail("value", site + ":out_params", "per-axis parameters do not refer to the input's arrays");
    } else {
        if (q.scale.mem.pi16 != (int16_t*)a->p || q.zero_point.mem.pi16 != (int16_t*)b->p || q.scale_frac_bits.mem.pi8 != (int8_t*)d->p) { c.fail("value", site + ":out_params", "pre-allocated parameter arrays were replaced"); return; }
        for (int i = 0; i < s[w.dim]; i++) if (q.scale.mem.pi16[i] != in.scale(i) || q.zero_point.mem.pi16[i] != in.zpv(i) || q.scale_frac_bits.mem.pi8[i] != in.sfrac(i)) { c.fail("value", site + ":out_params", "parameters of index %d were not copied", i); return; }
        for (size_t i = (size_t)s[w.dim] * 2; i < a->n; i++) if (a->p[i] != 0x3c || b->p[i] != 0x3c) { c.fail("memory", site + ":out_arrays", "parameter array written beyond the axis size"); return; }
        for (size_t i = (size_t)s[w.dim]; i < d->n; i++) if (d->p[i] != 0x3c) { c.fail("memory", site + ":out_arrays", "parameter array written beyond the axis size"); return; }
    }
}

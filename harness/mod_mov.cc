// 2.0 data movement: tensor moves, configuration builders, asynchronous handles.
#include "t2.h"
#include "mli_mov_api.h"
using namespace t2;

namespace {
template <class T> T rnd_junk(Rng& r) { return (T)r.next(); }

struct Move {
    Ty ty; Shape s; int rank; std::vector<int> perm, off, size, sub, doff, pre, post;
    Ten src, dst; mli_mov_cfg_t cfg; std::vector<int64_t> exp; std::vector<int> wr, dshape, dstr;
    int mode = -1, sdim = -1, ddim = -1; std::unique_ptr<Raw> a, b, d; bool pad = false;
    std::vector<int64_t> sc, fr, zp;
    Raw cfgm{sizeof(mli_mov_cfg_t)};

    void build(Case& c) {
        Rng& r = c.r; ty = (Ty)r.in(0, 4); s = rshape(r, 4, 6, 40, 3000); rank = (int)s.size();
        int huge = mille(r, 4) ? (int)r.in(0, rank - 1) : -1;            // one dimension longer than 15 / 16 bits
        if (huge >= 0) { for (int i = 0; i < rank; i++) s[i] = i == huge ? (int)(r.chance(50) ? r.in(33000, 70000) : r.in(200, 3000)) : (int)r.in(1, 2); }
        int sm = huge >= 0 ? 0 : (int)r.in(0, 2); bool near = r.chance(40);              // near: identity with at most a few features
        if (near && r.chance(60)) sm = 0;
        make(src, r, "src", ty, s, sm); fill(src, r);
        bool f_perm = r.chance(near ? 15 : 40), f_crop = r.chance(near ? 30 : 50), f_sub = r.chance(near ? 15 : 35), f_pad = r.chance(near ? 20 : 45), f_do = r.chance(near ? 40 : 40), f_ds = r.chance(near ? 20 : 45);
        perm.resize(rank); for (int i = 0; i < rank; i++) perm[i] = i;
        if (f_perm) for (int i = rank - 1; i > 0; i--) std::swap(perm[i], perm[r.in(0, i)]);
        off.assign(rank, 0); size = pre = post = doff = off; sub.assign(rank, 1);
        auto dims = [&]() { return r.chance(50); }; bool small = prod(s) <= 200;
        if (f_pad) for (int i = 0; i < rank; i++) if (dims()) { pre[i] = (int)r.in(0, 3); post[i] = (int)r.in(0, 3); if (small && mille(r, 40)) (r.chance(50) ? pre[i] : post[i]) = (int)r.in(4, 255); }
        if (f_crop) for (int i = 0; i < rank; i++) if (dims()) {
            int full = s[i] + pre[i] + post[i]; off[i] = (int)r.in(0, s[i] - 1);
            if (r.chance(60)) size[i] = (int)r.in(1, full - off[i]);
        }
        if (f_crop && near && r.chance(50)) for (int i = 0; i < rank; i++) size[i] = std::max(1, s[i] - (int)r.in(0, 1)), off[i] = std::min(off[i], s[i] + pre[i] + post[i] - size[i]);
        if (f_sub) for (int i = 0; i < rank; i++) if (dims()) sub[i] = mille(r, 30) ? (int)r.in(5, 255) : (int)r.in(1, 4);
        if (f_do) for (int i = 0; i < rank; i++) if (dims()) doff[i] = small && mille(r, 25) ? (int)r.in(4, 300) : (int)r.in(0, near ? 1 : 3);
        if (huge >= 0) { int i = huge; if (f_sub) sub[i] = (int)r.in(1, 700); if (f_crop && s[i] > 33000) { off[i] = (int)r.in(0, s[i] - 1); size[i] = (int)r.in(1, s[i] + pre[i] + post[i] - off[i]); } if (f_do) doff[i] = (int)r.in(0, 70000); }
        if (r.chance(5)) for (int i = 0; i < rank; i++) size[i] = s[i] + pre[i] + post[i] - off[i];
        if (near && f_do && r.chance(60)) {                              // same shape reached through crop + offset
            int i = (int)r.in(0, rank - 1); if (s[i] > 1 && perm[i] == i && sub[i] == 1) { doff[i] = (int)r.in(1, std::min(s[i] - 1, 2)); pre[i] = post[i] = 0; size[i] = s[i] - doff[i]; off[i] = (int)r.in(0, doff[i]); }
        }
        wr.resize(rank); dshape.resize(rank);
        for (int i = 0; i < rank; i++) {
            int p = perm[i], cp = size[p] > 0 ? size[p] : s[p] - off[p] + pre[p] + post[p];
            wr[i] = (cp + sub[p] - 1) / sub[p]; dshape[i] = wr[i] + doff[i]; pad |= pre[i] || post[i];
        }
        if (prod(wr) > 200000 || prod(dshape) > 1000000) { pad = false; build(c); return; }
        // destination strides: from cfg, from the tensor, or computed
        for (auto* x : {&cfg}) { uint8_t* q = (uint8_t*)x; for (size_t i = 0; i < sizeof *x; i++) q[i] = (uint8_t)r.next(); }   // unused entries hold junk
        make(dst, r, "dst", ty, wr, 0); dstr.assign(rank, 0);
        for (int i = 0; i < MLI_MAX_RANK; i++) { dst.t.shape[i] = (uint32_t)r.in(0, 50); dst.t.mem_stride[i] = i < rank ? 0 : (int)r.in(0, 9); }
        dst.t.rank = (uint32_t)r.in(0, 4); dst.t.el_type = mt((Ty)r.in(0, 4));
        int st = 1;
        for (int i = rank - 1; i >= 0; i--) {
            int how = f_ds ? (int)r.in(0, 2) : 0, v = st;
            if (how && r.chance(60) && (i < rank - 1 || r.chance(40))) v = st + (int)r.in(1, 6);
            cfg.dst_mem_stride[i] = 0;
            if (how == 1) { cfg.dst_mem_stride[i] = v; dst.t.mem_stride[i] = r.chance(50) ? 0 : (int)r.in(1, 50); }
            if (how == 2) dst.t.mem_stride[i] = v;
            if (how == 0) v = st;
            dstr[i] = v; st = v * dshape[i];
        }
        int64_t n = prod(wr); dst.off.assign(n, 0); size_t mx = 0; exp.assign(n, 0);
        for (int64_t i = 0; i < n; i++) {
            std::vector<int> ci(rank); int64_t q = i; size_t o = 0; bool in = true;
            for (int k = rank - 1; k >= 0; k--) { int pos = (int)(q % wr[k]); q /= wr[k]; o += (size_t)(pos + doff[k]) * dstr[k]; int p = perm[k], sp = pos * sub[p] + off[p] - pre[p]; if (sp < 0 || sp >= s[p]) in = false; ci[p] = sp; }
            dst.off[i] = o; mx = std::max(mx, o); exp[i] = in ? src.get(src.idx(ci)) : 0;
        }
        size_t span = 1; for (int i = 0; i < rank; i++) span += (size_t)(dshape[i] - 1) * dstr[i];
        dst.mem.reset(new Raw(span * esz(ty))); dst.live.assign(dst.mem->n, 0);
        for (int64_t i = 0; i < n; i++) for (int x = 0; x < esz(ty); x++) dst.live[dst.off[i] * esz(ty) + x] = 1;
        dst.t.data.capacity = (uint32_t)dst.mem->n; set_ptr(dst.t.data, ty, dst.mem->p);
        for (int i = 0; i < rank; i++) {
            cfg.offset[i] = off[i]; cfg.size[i] = size[i]; cfg.sub_sample_step[i] = sub[i]; cfg.dst_offset[i] = doff[i];
            cfg.perm_dim[i] = (uint8_t)perm[i]; cfg.padding_pre[i] = (uint8_t)pre[i]; cfg.padding_post[i] = (uint8_t)post[i];
        }
        // quantisation
        memset(&dst.t.el_params, 0, sizeof dst.t.el_params);
        if (ty == FX8 || ty == FX16) fx(src, (int)r.in(-5, 25)); else if (ty == FP32) memset(&src.t.el_params, 0, sizeof src.t.el_params);
        else if (r.chance(45)) quant(src, r.in(1, 0x7fff), r.in(0, 30), r.in(-128, 127));
        else {
            sdim = (int)r.in(0, rank - 1); for (int i = 0; i < s[sdim]; i++) { sc.push_back(r.in(1, 0x7fff)); fr.push_back(r.in(0, 30)); zp.push_back(r.in(-128, 127)); }
            quant_axis(src, sdim, sc, fr, zp); ddim = 0; while (perm[ddim] != sdim) ddim++;
            bool whole = wr[ddim] == s[sdim] && off[sdim] == 0 && !pre[sdim] && !post[sdim] && sub[sdim] == 1 && doff[ddim] == 0;
            mode = whole ? (int)r.in(0, 2) : 2; auto& q = dst.t.el_params.sa;
            if (mode == 1) q = src.t.el_params.sa;
            if (mode == 2) {
                size_t m = dshape[ddim] + (r.chance(50) ? 0 : (size_t)r.in(1, 4)); a.reset(new Raw(m * 2)); b.reset(new Raw(m * 2)); d.reset(new Raw(m));
                q.scale.mem.pi16 = (int16_t*)a->p; q.zero_point.mem.pi16 = (int16_t*)b->p; q.scale_frac_bits.mem.pi8 = (int8_t*)d->p;
                q.scale.capacity = (uint32_t)a->n; q.zero_point.capacity = (uint32_t)b->n; q.scale_frac_bits.capacity = (uint32_t)d->n;
            }
            q.type = MLI_EL_PARAM_SC16_ZP16; q.dim = r.chance(50) ? -1 : (int)r.in(0, 3);
        }
        memcpy(cfgm.p, &cfg, sizeof cfg);
        reset_arrays();
        auto L = [&](const char* n, const std::vector<int>& v) { c.d(" %s%s", n, ss(v).c_str()); };
        c.d("%s %s src strides [%d %d %d %d]", tn(ty), ss(s).c_str(), src.t.mem_stride[0], src.t.mem_stride[1], src.t.mem_stride[2], src.t.mem_stride[3]);
        L("perm", perm); L("off", off); L("size", size); L("sub", sub); L("doff", doff); L("pre", pre); L("post", post); L("dst_strides", dstr); L("dst_shape", dshape);
        if (sdim >= 0) c.d(" axis %d->%d mode %d", sdim, ddim, mode);
        c.nontrivial = mixed(exp); c.count(std::string("type:") + tn(ty)); c.count("rank:" + std::to_string(rank));
        std::string f; if (f_perm) f += "perm "; if (f_crop) f += "crop "; if (f_sub) f += "sub "; if (pad) f += "pad "; if (f_do) f += "offset "; c.count("features:" + f);
        if (mode >= 0) c.count("per_axis_mode:" + std::to_string(mode));
    }
    mli_mov_cfg_t* pc() { return (mli_mov_cfg_t*)cfgm.p; }
    void reset_arrays() { for (auto* x : {a.get(), b.get(), d.get()}) if (x) memset(x->p, 1, x->n); }

#ifdef MON_CHK
    void misuse(Prot& p) {
        int R = rank; p.soft = true; for (Raw* x : {a.get(), b.get(), d.get()}) if (x) p.keep.push_back(x); typedef mli_mov_cfg_t C;
        p.may(src, "scale_not_positive zero_point_range becomes_per_axis becomes_per_tensor other_axis el_type inner_stride shorter_dim longer_dim lower_rank higher_rank");
        p.may(dst, "null_data rank_above_4 zero_dim zero_stride negative_stride overlapping_strides small_capacity wrapping_size el_type inner_stride shorter_dim longer_dim lower_rank higher_rank");
        size_t need = dst.mem->n; Raw* sm = src.mem.get(); uint32_t scap = src.t.data.capacity;
        p.badt(dst, "dst_null_data", [](mli_tensor& t, Rng&) { t.data.mem.pi8 = nullptr; return true; });
        p.badt(dst, "dst_small_capacity", [need](mli_tensor& t, Rng& r) { t.data.capacity = (uint32_t)(r.chance(60) ? need - 1 : r.in(0, (int64_t)need - 1)); return true; });
        int es = esz(ty); p.badt(dst, "overlap_src", [=](mli_tensor& t, Rng& r) { t.data.mem.pi8 = (int8_t*)sm->p + r.in(0, scap / es - 1) * es; return true; });
        if (mode == 2) {
            static const char* nm[] = {"dst_axis_scale_capacity", "dst_axis_zero_point_capacity", "dst_axis_frac_capacity"};
            static const char* nn[] = {"dst_axis_scale_null", "dst_axis_zero_point_null", "dst_axis_frac_null"}; int m = dshape[ddim];
            for (int k = 0; k < 3; k++) {
                auto sel = [k](mli_tensor& t) -> mli_data_container& { auto& q = t.el_params.sa; return k == 0 ? q.scale : k == 1 ? q.zero_point : q.scale_frac_bits; };
                p.badt(dst, nm[k], [=](mli_tensor& t, Rng& r) { int64_t n = (int64_t)m * (k == 2 ? 1 : 2); sel(t).capacity = (uint32_t)(r.chance(60) ? n - 1 : r.in(0, n - 1)); return true; });
                p.badt(dst, nn[k], [=](mli_tensor& t, Rng&) { sel(t).mem.pi8 = nullptr; return true; });
            }
        }
        std::vector<int> S = s, po = pre, pp = post, of = off, ds = dstr, dsh = dshape;
        auto full = [=](int i) { return (int64_t)S[i] + po[i] + pp[i]; };
        p.bad<C>("size_beyond", pc(), [=](C& g, Rng& r) { int i = (int)r.in(0, R - 1); g.size[i] = (uint32_t)(full(i) - of[i] + (r.chance(60) ? 1 : r.in(1, 1 << 20))); return true; });
        p.bad<C>("size_wraps", pc(), [=](C& g, Rng& r) { int i = (int)r.in(0, R - 1); if (!g.offset[i]) return false; g.size[i] = (uint32_t)-g.offset[i] + (uint32_t)r.in(0, std::min<int64_t>(full(i), g.offset[i] - 1)); return true; });
        p.bad<C>("offset_beyond", pc(), [=](C& g, Rng& r) { int i = (int)r.in(0, R - 1); g.offset[i] = (uint32_t)(full(i) + (r.chance(60) ? 1 : r.in(1, 0x7fffffff))); return true; });
        p.bad<C>("zero_subsample", pc(), [=](C& g, Rng& r) { g.sub_sample_step[r.in(0, R - 1)] = 0; return true; });
        p.bad<C>("perm_above_rank", pc(), [=](C& g, Rng& r) { g.perm_dim[r.in(0, R - 1)] = (uint8_t)(r.chance(60) ? R : r.in(R, 255)); return true; });
        p.bad<C>("dst_stride", pc(), [=](C& g, Rng& r) {
            int i = (int)r.in(0, R - 1); int64_t in = i + 1 < R ? (int64_t)ds[i + 1] * dsh[i + 1] : 1;
            g.dst_mem_stride[i] = in > 1 && r.chance(60) ? (int)(r.chance(50) ? in - 1 : r.in(1, in - 1)) : -(int)r.in(1, 1000); return true; });
    }
#endif
    // state of the destination after a completed move
    void check(Case& c, const std::string& site) {
        compare(c, site, dst, exp);
        auto bad = [&](const char* what, long long g, long long e) { c.fail("value", site + ":" + what, "destination %s is %lld, expected %lld", what, g, e); };
        if (dst.t.rank != (uint32_t)rank) bad("rank", dst.t.rank, rank);
        if (dst.t.el_type != mt(ty)) bad("el_type", dst.t.el_type, mt(ty));
        for (int i = 0; i < rank; i++) { if (dst.t.shape[i] != (uint32_t)dshape[i]) { bad("shape", dst.t.shape[i], dshape[i]); break; } if (dst.t.mem_stride[i] != dstr[i]) { bad("mem_stride", dst.t.mem_stride[i], dstr[i]); break; } }
        if (dst.t.data.mem.pi8 != (int8_t*)dst.mem->p || dst.t.data.capacity != dst.mem->n) c.fail("memory", site + ":data", "destination data container modified");
        if (ty == FP32) return;
        if (ty == FX8 || ty == FX16) { if (dst.frac() != src.frac()) bad("frac_bits", dst.frac(), src.frac()); return; }
        auto &q = dst.t.el_params.sa, &w = src.t.el_params.sa;
        if (sdim < 0) { if (q.dim >= 0 || q.scale.mem.i16 != w.scale.mem.i16 || q.zero_point.mem.i16 != w.zero_point.mem.i16 || q.scale_frac_bits.mem.i8 != w.scale_frac_bits.mem.i8) c.fail("value", site + ":el_params", "per-tensor parameters not copied"); return; }
        if (q.dim != ddim) { bad("quantised dimension", q.dim, ddim); return; }
        if (mode < 2) {
            if (q.scale.mem.pi16 != w.scale.mem.pi16 || q.zero_point.mem.pi16 != w.zero_point.mem.pi16 || q.scale_frac_bits.mem.pi8 != w.scale_frac_bits.mem.pi8 || q.scale.capacity != w.scale.capacity || q.zero_point.capacity != w.zero_point.capacity || q.scale_frac_bits.capacity != w.scale_frac_bits.capacity)
                c.fail("value", site + ":el_params", "per-axis parameters do not refer to the source's arrays");
            return;
        }
        if (q.scale.mem.pi16 != (int16_t*)a->p || q.zero_point.mem.pi16 != (int16_t*)b->p || q.scale_frac_bits.mem.pi8 != (int8_t*)d->p) { c.fail("value", site + ":el_params", "pre-allocated parameter arrays replaced"); return; }
        int lo = doff[ddim], hi = lo + wr[ddim];
        for (int i = 0; i < (int)d->n; i++) {
            int64_t es = 0x0101, ez = 0x0101, ef = 1;
            if (i >= lo && i < hi) { int sp = (i - lo) * sub[sdim] + off[sdim] - pre[sdim]; bool in = sp >= 0 && sp < s[sdim]; es = in ? sc[sp] : 1; ez = in ? zp[sp] : 0; ef = in ? fr[sp] : 0; }
            if (((int16_t*)a->p)[i] != es || ((int16_t*)b->p)[i] != ez || ((int8_t*)d->p)[i] != ef) {
                c.fail(i >= lo && i < hi ? "value" : "memory", site + ":el_params", "parameters of destination index %d: scale %d zp %d frac %d, expected %lld %lld %lld", i, ((int16_t*)a->p)[i], ((int16_t*)b->p)[i], ((int8_t*)d->p)[i], (long long)es, (long long)ez, (long long)ef); return;
            }
        }
    }
};
}  // namespace

MON_TEST(mov_sync) {
    Move m; m.build(c); std::string site = "mli_mov_tensor_sync";
    m.dst.may_change_struct = true;
    Prot p(c, site); p.in(m.src).out(m.dst).raw(m.cfgm); p.noshare = m.mode == 2;
#ifdef MON_CHK
    m.misuse(p);
#endif
    if (!p.run([&] { return mli_mov_tensor_sync(&m.src.t, m.pc(), &m.dst.t); }, [&] { m.reset_arrays(); })) return;
    m.check(c, site);
}

// ---------------------------------------------------------------- builders
MON_TEST(mov_cfg) {
    Rng& r = c.r; int which = (int)r.in(0, 7);
    Raw mem(sizeof(mli_mov_cfg_t)); for (size_t i = 0; i < mem.n; i++) mem.p[i] = (uint8_t)r.next();
    auto* cfg = (mli_mov_cfg_t*)mem.p;
    struct A { std::unique_ptr<Raw> m; int* p; A(Rng& r, int lo, int hi) : m(new Raw(MLI_MAX_RANK * 4)), p((int*)m->p) { for (int i = 0; i < MLI_MAX_RANK; i++) p[i] = (int)r.in(lo, hi); } };
    A off(r, 0, 100), sz(r, 0, 100000), sub(r, 1, 9), doff(r, 0, 70000), str(r, 0, 1000000); Raw pm(MLI_MAX_RANK); for (int i = 0; i < MLI_MAX_RANK; i++) pm.p[i] = (uint8_t)i;
    for (int i = MLI_MAX_RANK - 1; i > 0; i--) std::swap(pm.p[i], pm.p[r.in(0, i)]);
    uint8_t pl = (uint8_t)r.in(0, 255), pr = (uint8_t)r.in(0, 255), pt = (uint8_t)r.in(0, 255), pb = (uint8_t)r.in(0, 255);
    mli_mov_cfg_t e; memset(&e, 0, sizeof e); for (int i = 0; i < MLI_MAX_RANK; i++) { e.sub_sample_step[i] = 1; e.perm_dim[i] = (uint8_t)i; }
    mli_status st = MLI_STATUS_OK; const char* names[] = {"copy", "slice", "concat", "subsample", "permute", "padding2d_chw", "padding2d_hwc", "all"};
    auto strides = [&] { for (int i = 0; i < MLI_MAX_RANK; i++) e.dst_mem_stride[i] = str.p[i]; };
    auto pads = [&](int h, int w) { e.padding_pre[w] = pl; e.padding_post[w] = pr; e.padding_pre[h] = pt; e.padding_post[h] = pb; };
    switch (which) {
        case 0: st = mli_mov_cfg_for_copy(cfg); break;
        case 1: st = mli_mov_cfg_for_slice(cfg, off.p, sz.p, str.p); strides(); for (int i = 0; i < MLI_MAX_RANK; i++) { e.offset[i] = off.p[i]; e.size[i] = sz.p[i]; } break;
        case 2: st = mli_mov_cfg_for_concat(cfg, doff.p, str.p); strides(); for (int i = 0; i < MLI_MAX_RANK; i++) e.dst_offset[i] = doff.p[i]; break;
        case 3: st = mli_mov_cfg_for_subsample(cfg, sub.p, str.p); strides(); for (int i = 0; i < MLI_MAX_RANK; i++) e.sub_sample_step[i] = sub.p[i]; break;
        case 4: st = mli_mov_cfg_for_permute(cfg, pm.p); for (int i = 0; i < MLI_MAX_RANK; i++) e.perm_dim[i] = pm.p[i]; break;
        case 5: st = mli_mov_cfg_for_padding2d_chw(cfg, pl, pr, pt, pb, str.p); strides(); pads(1, 2); break;
        case 6: st = mli_mov_cfg_for_padding2d_hwc(cfg, pl, pr, pt, pb, str.p); strides(); pads(0, 1); break;
        default:
            st = mli_mov_cfg_all(cfg, off.p, sz.p, sub.p, doff.p, str.p, pm.p, pl, pr, pt, pb); strides(); pads(0, 1);
            for (int i = 0; i < MLI_MAX_RANK; i++) { e.offset[i] = off.p[i]; e.size[i] = sz.p[i]; e.sub_sample_step[i] = sub.p[i]; e.dst_offset[i] = doff.p[i]; e.perm_dim[i] = pm.p[i]; }
    }
    c.count("calls"); c.d("mli_mov_cfg_%s", names[which]); c.count(std::string("fn:mli_mov_cfg_") + names[which]);
    if (st != MLI_STATUS_OK) { c.fail("status", std::string("mli_mov_cfg_") + names[which], "status %d", (int)st); return; }
    if (memcmp(cfg->offset, e.offset, sizeof e.offset) || memcmp(cfg->size, e.size, sizeof e.size) || memcmp(cfg->sub_sample_step, e.sub_sample_step, sizeof e.size) || memcmp(cfg->dst_offset, e.dst_offset, sizeof e.size) ||
        memcmp(cfg->dst_mem_stride, e.dst_mem_stride, sizeof e.size) || memcmp(cfg->perm_dim, e.perm_dim, 4) || memcmp(cfg->padding_pre, e.padding_pre, 4) || memcmp(cfg->padding_post, e.padding_post, 4))
        c.fail("value", std::string("mli_mov_cfg_") + names[which], "the filled configuration differs from its arguments and neutral values");
    c.count("outputs_checked"); c.nontrivial = true; for (size_t i = 0; i < sizeof e; i++) c.h(((uint8_t*)&e)[i]);
}

// ---------------------------------------------------------------- histories
namespace {
struct Slot {
    mli_mov_handle_t h; int num = 0, ch = -1; bool held = false, prepared = false, started = false, cb = false; int32_t cookie = 0; int fired = 0, expected = 0;
    std::unique_ptr<Move> m; bool late = false;
};
std::vector<Slot>* g_slots; Case* g_case; int g_fired_total;
void on_done(int32_t cookie) {
    g_fired_total++;
    for (auto& s : *g_slots) if (s.held && s.cb && s.cookie == cookie) {
        s.fired++;
        if (!s.m) return;
        for (int64_t i = 0; i < s.m->dst.n(); i++) if (s.m->dst.get(i) != s.m->exp[i]) { s.late = true; return; }
        return;
    }
    g_case->fail("value", "mli_mov_start:callback_unknown", "callback invoked with cookie %d, which no live transfer registered", cookie);
}
}
MON_TEST(mov_async) {
    Rng& r = c.r; int n = (int)r.in(1, 16), base = (int)r.in(0, 16 - n);
    if (r.chance(40)) base = 16 - n;
    mli_mov_set_num_dma_ch(base, n);
    std::vector<Slot> sl(6); g_slots = &sl; g_case = &c; std::vector<int> owner(16, -1); g_fired_total = 0; int total = 0;
    c.d("pool %d..%d:", base, base + n - 1); int steps = (int)r.in(8, 60); int32_t cookies = (int32_t)r.in(-1000, 1000); c.nontrivial = true;
    for (int step = 0; step < steps; step++) {
        int k = (int)r.in(0, (int)sl.size() - 1); Slot& s = sl[k]; int op = (int)r.in(0, 9); c.count("history_steps"); c.h(op * 64 + k);
        if (!s.held) {
            if (op == 0) {                                                          // a synchronous move in between
                Move m; m.build(c); mli_status st = mli_mov_tensor_sync(&m.src.t, m.pc(), &m.dst.t); c.count("calls"); c.d(" | sync");
                if (st != MLI_STATUS_OK) c.fail("status", "mli_mov_tensor_sync:status", "status %d while other handles are in use", (int)st); else m.check(c, "mli_mov_tensor_sync");
            } else {
                int want = r.chance(60) ? 1 : (int)r.in(1, std::min(16, n + 2)); memset(&s.h, (int)r.in(0, 255), sizeof s.h);
                mli_status st = mli_mov_acquire_handle(want, &s.h); c.count("calls"); c.d(" | %d:acquire %d", k, want);
                bool possible = false; for (int i = base; i + want <= base + n; i++) { bool ok = true; for (int q = 0; q < want; q++) ok &= owner[i + q] < 0; possible |= ok; }
                if ((st == MLI_STATUS_OK) != possible) { c.fail("value", "mli_mov_acquire_handle:availability", "%d adjacent channels %s in the pool, call returned %d", want, possible ? "are free" : "are not free", (int)st); return; }
                c.count(possible ? "acquired" : "refused");
                if (st != MLI_STATUS_OK) continue;
                if (s.h.num_ch != want || s.h.dma_ch < base || s.h.dma_ch + want > base + n) { c.fail("value", "mli_mov_acquire_handle:outside_pool", "handle holds channels %d..%d outside the pool %d..%d", s.h.dma_ch, s.h.dma_ch + s.h.num_ch - 1, base, base + n - 1); return; }
                for (int q = 0; q < want; q++) { if (owner[s.h.dma_ch + q] >= 0) { c.fail("value", "mli_mov_acquire_handle:double_use", "channel %d is already held by another handle", s.h.dma_ch + q); return; } owner[s.h.dma_ch + q] = k; }
                s.held = true; s.prepared = s.started = s.cb = s.late = false; s.fired = s.expected = 0; s.ch = s.h.dma_ch; s.num = want; s.m.reset();
                if (mli_mov_isdone(&s.h)) c.fail("value", "mli_mov_isdone:early", "fresh handle reports a finished transfer");
            }
        } else if (!s.prepared) {
            if (op < 3) { s.cb = true; s.cookie = ++cookies; mli_mov_registercallback(&s.h, on_done, s.cookie); c.d(" | %d:callback %d", k, s.cookie); c.count("callbacks_registered"); }
            else if (op == 3) goto release;
            else {
                s.m.reset(new Move); s.m->build(c); s.m->dst.t.data.capacity = (uint32_t)s.m->dst.mem->n;
                mli_status st = mli_mov_prepare(&s.h, &s.m->src.t, s.m->pc(), &s.m->dst.t); c.count("calls"); c.d(" | %d:prepare", k);
                if (st != MLI_STATUS_OK) { c.fail("status", "mli_mov_prepare:status", "status %d", (int)st); return; }
                s.prepared = true; s.started = false;
                if (mli_mov_isdone(&s.h)) c.fail("value", "mli_mov_isdone:early", "transfer reported done before it was started");
            }
        } else if (!s.started) {
            if (op == 0) { s.cb = true; s.cookie = ++cookies; mli_mov_registercallback(&s.h, on_done, s.cookie); c.d(" | %d:callback %d", k, s.cookie); continue; }
            if (op == 1) { if (mli_mov_isdone(&s.h)) c.fail("value", "mli_mov_isdone:early", "transfer reported done before it was started"); continue; }
            mli_status st = mli_mov_start(&s.h, &s.m->src.t, s.m->pc(), &s.m->dst.t); c.count("calls"); c.d(" | %d:start", k);
            if (st != MLI_STATUS_OK) { c.fail("status", "mli_mov_start:status", "status %d", (int)st); return; }
            s.started = true; if (s.cb) { s.expected++; total++; }
            if (mli_mov_wait(&s.h) != MLI_STATUS_OK) c.fail("status", "mli_mov_wait:status", "wait failed");
            if (!mli_mov_isdone(&s.h)) c.fail("value", "mli_mov_isdone:never", "transfer not done after wait");
            s.m->check(c, "mli_mov_prepare");
            if (s.late) c.fail("value", "mli_mov_start:callback_early", "callback ran before the data was in place");
        } else {
            if (op < 3) { s.prepared = s.started = false; c.d(" | %d:reuse", k); continue; }      // another transfer on the same handle
            release:
            mli_status st = mli_mov_release_handle(&s.h); c.count("calls"); c.d(" | %d:release", k);
            if (st != MLI_STATUS_OK) c.fail("status", "mli_mov_release_handle:status", "status %d", (int)st);
            for (auto& o : owner) if (o == k) o = -1;
            s.held = false; s.m.reset();
        }
        for (auto& q : sl) if (q.held && q.fired != q.expected) { c.fail("value", "mli_mov_start:callback_count", "callback of a transfer ran %d times for %d completed transfers", q.fired, q.expected); return; }
        if (g_fired_total != total) { c.fail("value", "mli_mov_start:callback_count", "%d callbacks for %d completed transfers with a callback", g_fired_total, total); return; }
    }
    c.count("callbacks_seen", g_fired_total);
    for (auto& s : sl) if (s.held) mli_mov_release_handle(&s.h);
}

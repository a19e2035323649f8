// 2.0 convolution family: conv2d / depthwise / group / transpose, all data
// types and specialisations, against an independent wide-integer model.
#include "t2.h"
using namespace t2;

typedef mli_status (*ConvFn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_conv2d_cfg*, mli_tensor*);
struct Spec { ConvFn f; const char* name; int k, s; };
#define S(fn, k, s) {fn, #fn, k, s}
#define FAM(base, ty) {S(mli_krn_##base##_hwcn_##ty, 0, 0), S(mli_krn_##base##_hwcn_##ty##_k3x3, 3, 0), S(mli_krn_##base##_hwcn_##ty##_k5x5, 5, 0)}
#define FAM1(base, ty) {S(mli_krn_##base##_hwcn_##ty, 0, 0), S(mli_krn_##base##_hwcn_##ty##_k3x3, 3, 0), S(mli_krn_##base##_hwcn_##ty##_k5x5, 5, 0), S(mli_krn_##base##_hwcn_##ty##_k1x1, 1, 0)}
#define FAMT(base, ty) {S(mli_krn_##base##_hwcn_##ty, 0, 0), S(mli_krn_##base##_hwcn_##ty##_k2x2_str2, 2, 2), S(mli_krn_##base##_hwcn_##ty##_k4x4_str2, 4, 2)}

enum Kind { CONV, DW, GROUP, TRANS };
static const std::vector<Spec> kTab[4][3] = {
    {FAM1(conv2d, fx16), FAM1(conv2d, fx16_fx8_fx8), FAM1(conv2d, sa8_sa8_sa32)},
    {FAM(depthwise_conv2d, fx16), FAM(depthwise_conv2d, fx16_fx8_fx8), FAM(depthwise_conv2d, sa8_sa8_sa32)},
    {FAM(group_conv2d, fx16), FAM(group_conv2d, fx16_fx8_fx8), FAM(group_conv2d, sa8_sa8_sa32)},
    {FAMT(transpose_conv2d, fx16), FAMT(transpose_conv2d, fx16_fx8_fx8), FAMT(transpose_conv2d, sa8_sa8_sa32)},
};

static int rdim(Rng& r, int small, int big) { return r.chance(88) ? (int)r.in(1, small) : (int)r.in(1, big); }

static void conv_case(Case& c, Kind kind) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2);
    const std::vector<Spec>& specs = kTab[kind][tyi];
    size_t si = r.chance(45) ? 0 : (size_t)r.in(0, specs.size() - 1);
    const Spec& sp = specs[si];
    int kh, kw, sh, sw, dh = 1, dw = 1, pt, pb, pl, pr, ih, iw, oh, ow;
    // generic function is also exercised on the specialised sizes
    int ksz = sp.k ? sp.k : 0;
    if (!ksz && r.chance(30)) ksz = kind == TRANS ? (r.chance(50) ? 2 : 4) : (r.chance(50) ? 3 : 5);
    if (ksz) kh = kw = ksz; else { kh = rdim(r, 4, 9); kw = rdim(r, 4, 9); }
    int ci, co, groups = 1;
    if (kind == GROUP) { groups = (int)r.in(1, 4); int cw = (int)r.in(1, 4), cf = (int)r.in(1, 3); if (r.chance(8)) cw = (int)r.in(1, 16); ci = groups * cw; co = groups * cf; }
    else { ci = rdim(r, 5, 36); co = kind == DW ? ci : rdim(r, 5, 36); }
    // seldom one extent, stride or dilation far beyond the usual ones
    int W = mille(r, 35) ? (int)r.in(0, 7) : -1;
    if (W == 0 || W == 1) { if (!ksz && r.chance(60)) kh = kw = 1; }
    if (W == 0) { if (kind == DW) ci = co = wide(r); else if (kind == GROUP) { groups = wide(r, 300); ci = groups * (int)r.in(1, 2); co = groups * (int)r.in(1, 2); } else { ci = wide(r, 60000 / (kh * kw)); co = (int)r.in(1, 2); } }
    if (W == 1) { if (kind == DW || kind == GROUP) W = 0; else { co = wide(r); ci = (int)r.in(1, 2); } }
    if (W == 4 && !ksz) { (r.chance(50) ? kh : kw) = (int)r.in(10, 140); if (kind != GROUP) { ci = (int)r.in(1, 2); co = kind == DW ? ci : (int)r.in(1, 2); } }
    if (kind != TRANS) {
        sh = r.chance(55) ? 1 : r.chance(90) ? (int)r.in(1, 4) : (int)r.in(1, 12);
        sw = r.chance(55) ? 1 : r.chance(90) ? (int)r.in(1, 4) : (int)r.in(1, 12);
        if (r.chance(35)) { dh = (int)r.in(1, 4); dw = (int)r.in(1, 4); }
        if (r.chance(2)) { dh = (int)r.in(1, 40); }
        if (r.chance(2)) { dw = (int)r.in(1, 40); }
        if (W == 5) (r.chance(50) ? sh : sw) = (int)r.in(13, 255);
        if (W == 6) { if (r.chance(50)) dh = (int)r.in(41, 255); else dw = (int)r.in(41, 255); }
        int ekh = (kh - 1) * dh + 1, ekw = (kw - 1) * dw + 1;
        auto pad = [&](int ek) { return ek == 1 || r.chance(35) ? 0 : r.chance(15) ? std::min(ek - 1, 255) : std::min(255, (int)r.in(0, ek - 1)); };
        pt = pad(ekh); pb = pad(ekh); pl = pad(ekw); pr = pad(ekw);
        // effective kernel must fit the input (documented); +random extra
        bool big = r.chance(6);
        ih = ekh + (int)r.in(0, big ? 20 : 7); iw = ekw + (int)r.in(0, big ? 40 : 7);
        if (W == 0 || W == 1) { ih = ekh + (int)r.in(0, 2); iw = ekw + (int)r.in(0, 2); }
        if (W == 2) { ih = ekh + wide(r); iw = ekw + (int)r.in(0, 1); if (kind != GROUP) ci = (int)r.in(1, 2), co = kind == DW ? ci : (int)r.in(1, 2); }
        if (W == 3) { iw = ekw + wide(r); ih = ekh + (int)r.in(0, 1); if (kind != GROUP) ci = (int)r.in(1, 2), co = kind == DW ? ci : (int)r.in(1, 2); }
        if (W == 5) { if (sh > 12) ih = ekh + (int)r.in(1, 3 * sh); if (sw > 12) iw = ekw + (int)r.in(1, 3 * sw); }
        if (r.chance(20)) { // padding wide against the input: kernel overlaps both borders
            ih = ekh; if (r.chance(50)) iw = ekw;
        }
        oh = (ih + pt + pb - ekh) / sh + 1; ow = (iw + pl + pr - ekw) / sw + 1;
        if (r.chance(10)) { oh = (int)r.in(1, oh); ow = (int)r.in(1, ow); }   // smaller output is a valid crop
    } else {
        if (sp.s) sh = sw = sp.s;
        else { sh = (int)r.in(1, std::max(1, kh - 1)); sw = (int)r.in(1, std::max(1, kw - 1)); if (ksz && r.chance(60)) sh = sw = ksz >= 2 ? 2 : 1; }
        for (int tries = 0;; tries++) {
            auto pad = [&](int k) { return k == 1 || r.chance(30) ? 0 : (int)r.in(0, k - 1); };
            pt = pad(kh); pb = pad(kh); pl = pad(kw); pr = pad(kw);
            bool big = r.chance(6);
            ih = (int)r.in(1, big ? 24 : 7); iw = (int)r.in(1, big ? 40 : 7);
            if (W == 0 || W == 1) { ih = (int)r.in(1, 2); iw = (int)r.in(1, 2); }
            if (W == 2) { ih = wide(r, 3000); iw = (int)r.in(1, 2); ci = co = 1; }
            if (W == 3) { iw = wide(r, 3000); ih = (int)r.in(1, 2); ci = co = 1; }
            oh = (ih - 1) * sh + 1 + kh - 1 - pt - pb; ow = (iw - 1) * sw + 1 + kw - 1 - pl - pr;
            if (oh >= 1 && ow >= 1) break;
            if (tries > 30) { c.skipped = true; return; }
        }
    }
    // keep the work bounded
    while ((int64_t)oh * ow * co * kh * kw * (kind == DW ? 1 : ci / groups) > 400000) {
        if (kind == GROUP) { c.skipped = true; return; }
        if (ci > 1) ci = (ci + 1) / 2; if (kind == DW) co = ci; else if (co > 1) co = (co + 1) / 2;
        if (ci == 1 && co == 1) { c.skipped = true; return; }
    }
    int cw = kind == DW ? 1 : ci / groups;
    Ty ity = tyi == 2 ? SA8 : FX16, wty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA8, bty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA32;
    Ten in, w, b, out;
    int smode = r.chance(60) ? 1 : 0;
    make(in, r, "in", ity, {ih, iw, ci}, smode);
    make(w, r, "weights", wty, {kh, kw, cw, co}, r.chance(50) ? 1 : 0);
    make(b, r, "bias", bty, {co}, 0);
    make(out, r, "out", ity, {oh, ow, co}, r.chance(60) ? 1 : 0);
    std::unique_ptr<Raw> cfgm(new Raw(sizeof(mli_conv2d_cfg)));
    mli_conv2d_cfg* cfg = (mli_conv2d_cfg*)cfgm->p;
    cfg->relu.type = (mli_relu_type)r.in(0, 3);
    cfg->stride_width = sw; cfg->stride_height = sh; cfg->dilation_width = dw; cfg->dilation_height = dh;
    cfg->padding_left = pl; cfg->padding_right = pr; cfg->padding_top = pt; cfg->padding_bottom = pb;
    c.d("%s in%s w%s out%s stride %dx%d dil %dx%d pad t%d b%d l%d r%d relu %d", sp.name, ss(in.shape).c_str(), ss(w.shape).c_str(), ss(out.shape).c_str(), sh, sw, dh, dw, pt, pb, pl, pr, (int)cfg->relu.type);
    int64_t taps = (int64_t)kh * kw * cw;
    std::vector<int64_t> exp(out.n());
    int fi = 0, fw = 0, fb = 0, fo = 0;
    SaMul im{};
    if (tyi < 2) {
        fi = (int)r.in(0, 15); fw = (int)r.in(0, tyi == 0 ? 15 : 7);
        if (r.chance(10)) { fi = (int)r.in(-3, 18); }
        int top = fi + fw; if (top < 0) { fi = 0; top = fw; }
        fo = r.chance(50) ? std::min(top, (int)r.in(std::max(0, top - 16), top)) : (int)r.in(std::max(0, top - 24), top);
        fb = r.chance(70) ? std::max(0, top - (int)r.in(0, tyi == 0 ? 14 : 10)) : (int)r.in(std::min(0, top), top);
        fx(in, fi); fx(w, fw); fx(b, fb); fx(out, fo);
        c.d(" frac in%d w%d b%d o%d", fi, fw, fb, fo);
        int64_t il = 32767, wl = tmax(wty);
        // the 32 bit accumulator of fx16_fx8 must not overflow (documented bound on reductions)
        int64_t lim = tyi == 1 ? ((int64_t)1 << 31) - 1 : ((int64_t)1 << 38);
        while (il * (wl + 1) * taps > lim) { if (il > wl) il /= 2; else wl /= 2; }
        if (r.chance(30)) { int sft = (int)r.in(0, 10); il = std::max<int64_t>(1, il >> sft); wl = std::max<int64_t>(1, wl >> r.in(0, 5)); }
        if (il == 32767) fill(in, r); else fill(in, r, -il, il);
        if (wl == tmax(wty)) fill(w, r); else fill(w, r, -wl, wl);
        // -32768*-128*taps could touch the limit: re-check below
        fill(b, r);
    } else {
        int64_t si_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff), so_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
        bool ext = mille(r, 25);       // scales of very different magnitude
        int fi_ = ext ? (int)r.in(-25, 60) : (int)r.in(8, 24), fo_ = ext ? (int)r.in(-25, 60) : (int)r.in(8, 24);
        quant(in, si_, fi_, r.chance(25) ? 0 : r.in(-128, 127));
        quant(out, so_, fo_, r.chance(25) ? 0 : r.in(-128, 127));
        bool axis = r.chance(60);
        // choose weights scales so that the overall multiplier lands in a sensible range
        int nk = axis ? co : 1;
        std::vector<int64_t> ws(nk), wf(nk), wz(nk, 0), bs(nk), bf(nk);
        double ratio = (double)si_ / so_ * std::pow(2.0, fo_ - fi_);
        for (int k = 0; k < nk; k++) {
            ws[k] = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
            // target multiplier 2^-tgt
            int tgt = ext ? (int)r.in(-12, 50) : r.chance(70) ? (int)r.in(2, 13) : (int)r.in(-2, 24);
            int f = (int)std::lround(std::log2(ratio * ws[k])) + tgt;
            wf[k] = ext ? std::max(-40, std::min(90, f)) : std::max(0, std::min(60, f));
            int64_t p = si_ * ws[k]; int s = 0; while (rm::rshr(p, s, 40) > 32767) s++;
            bs[k] = (int64_t)rm::rshr(p, s, 40); bf[k] = fi_ + wf[k] - s; if (bf[k] > 127) { c.skipped = true; return; }
        }
        if (axis) { quant_axis(w, 3, ws, wf, wz); quant_axis(b, 0, bs, bf, wz); }
        else { quant(w, ws[0], wf[0], 0); quant(b, bs[0], bf[0], 0); }
        c.d(" sa in(%lld,%lld,%lld) out(%lld,%lld,%lld) w0(%lld,%lld) axis%d", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv(), (long long)out.scale(), (long long)out.sfrac(), (long long)out.zpv(), (long long)w.scale(), (long long)w.sfrac(), axis);
        fill(in, r); fill(w, r);
        int64_t bl = r.chance(30) ? ((int64_t)1 << 30) : r.chance(50) ? taps * 4000 : 2000;
        fill(b, r, -bl, bl);
        im = sa_in_out(in.scale(), in.sfrac(), out.scale(), out.sfrac());
    }
    // ------------------------------------------------------------- model
    Lim lim = tyi < 2 ? relu_limits(cfg->relu.type, FX16, 0, 1, fo) : relu_limits(cfg->relu.type, SA8, out.zpv(), out.scale(), out.sfrac());
    int64_t izp = tyi == 2 ? in.zpv() : 0;
    std::vector<int64_t> vi = in.vals(), vw = w.vals(), vb = b.vals();
    bool over = false; int saturated = 0;
    int accw = tyi == 0 ? 64 : 32;
    double maxerr = 0;
    for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int o = 0; o < co; o++) {
        int64_t acc = 0, absum = 0;
        for (int a = 0; a < kh; a++) for (int e = 0; e < kw; e++) {
            int yy, xx;
            if (kind != TRANS) { yy = y * sh - pt + a * dh; xx = x * sw - pl + e * dw; }
            else {
                // adjoint of the forward convolution: in[yy] scatters w[a] to yy * stride + a - padding
                int py = y + pt - a, px = x + pl - e;
                if (py < 0 || px < 0) continue;
                if (py % sh || px % sw) continue;
                yy = py / sh; xx = px / sw;
            }
            if (yy < 0 || yy >= ih || xx < 0 || xx >= iw) continue;
            for (int d = 0; d < cw; d++) {
                int ic = kind == DW ? o : kind == GROUP ? (o / (co / groups)) * cw + d : d;
                int64_t p = (vi[((int64_t)yy * iw + xx) * ci + ic]) * vw[(((int64_t)a * kw + e) * cw + d) * co + o];
                acc += p - izp * vw[(((int64_t)a * kw + e) * cw + d) * co + o];
                absum += std::llabs(p) + std::llabs(izp * 128);
            }
        }
        if (absum >= ((int64_t)1 << (tyi == 0 ? 39 : 31))) over = true;
        int64_t q;
        if (tyi < 2) {
            int bsh = fi + fw - fb, osh = fi + fw - fo;
            acc = (int64_t)rm::satw((i128)acc + rm::shl(vb[o], bsh, accw), accw);
            q = (int64_t)rm::cast(acc, osh, accw, 16);
            if (q == 32767 || q == -32768) saturated++;
            q = clampl(q, lim);
        } else {
            int k = w.t.el_params.sa.dim < 0 ? 0 : o;
            int64_t a2 = (int64_t)rm::satw((i128)acc + sa_bias(vb[o]), 32);
            q = sa_result(a2, im, w.scale(k), w.sfrac(k), out.zpv(), lim);
            // second, real-valued oracle: the ideal affine result
            double real = (double)a2 * in.real_scale() * w.real_scale(k) / out.real_scale();
            bool use = kFullAccu;
            if (!use && std::fabs(real) < 256) { use = std::llabs(a2) < 30000; }
            if (use) {
                double ideal = std::min<double>(std::max<double>(std::round(real) + out.zpv(), -128), 127);
                ideal = (double)clampl((int64_t)ideal, lim);
                maxerr = std::max(maxerr, std::fabs(ideal - q));
                c.count("real_valued_checked");
            }
        }
        exp[((int64_t)y * ow + x) * co + o] = q;
    }
    if (over) { c.skipped = true; return; }
    Prot p(c, sp.name);
    p.in(in).in(w).in(b).out(out).raw(*cfgm);
    int ekh = (kh - 1) * dh + 1, ekw = (kw - 1) * dw + 1;
    p.overlap(in, out); weights_misuse(p, in, w, b, &out);
    p.may(b, "");
    if (kind == TRANS) {
        p.bad<mli_conv2d_cfg>("dilation", cfg, [](mli_conv2d_cfg& g, Rng& q) { uint8_t v = (uint8_t)(q.chance(30) ? 0 : q.in(2, 255)); (q.chance(50) ? g.dilation_width : g.dilation_height) = v; return true; });
        p.bad<mli_conv2d_cfg>("stride_above_kernel", cfg, [=](mli_conv2d_cfg& g, Rng& q) { if (q.chance(50)) g.stride_width = (uint8_t)q.in(kw + 1, 255); else g.stride_height = (uint8_t)q.in(kh + 1, 255); return true; });
        p.bad<mli_conv2d_cfg>("padding_changes_output", cfg, [=](mli_conv2d_cfg& g, Rng& q) {
            uint8_t* a[] = {&g.padding_left, &g.padding_right, &g.padding_top, &g.padding_bottom}; int k = (int)q.in(0, 3), m = k < 2 ? kw : kh; if (m < 2) return false;
            *a[k] = (uint8_t)((*a[k] + q.in(1, m - 1)) % m); return true; });
    } else {
        int chan = kind == GROUP ? 4 : 0;           // another number of channels may be another valid grouping
        p.may(in, "", 3 | chan).may(w, "", 3 | chan).may(out, "", 3);
        if (kind == GROUP) p.badt(in, "channels_do_not_divide", [=](mli_tensor& t, Rng& q) {
            int d = ci / groups, n = (int)q.in(1, ci); if (n % d == 0 && n / d > 0 && co % (n / d) == 0) return false;
            t.shape[2] = (uint32_t)n; return true; });
        p.badt(in, "in_too_low", [=](mli_tensor& t, Rng& q) { int64_t need = (int64_t)(oh - 1) * sh + ekh - pt - pb; if (need < 2) return false; t.shape[0] = (uint32_t)(q.chance(60) ? need - 1 : q.in(1, need - 1)); return true; });
        p.badt(in, "in_too_narrow", [=](mli_tensor& t, Rng& q) { int64_t need = (int64_t)(ow - 1) * sw + ekw - pl - pr; if (need < 2) return false; t.shape[1] = (uint32_t)(q.chance(60) ? need - 1 : q.in(1, need - 1)); return true; });
#ifdef MON_CHK
        p.badt(out, "out_too_high", bad_dim_above(0, (ih + pt + pb - ekh) / sh + 1, esz(ity)));
        p.badt(out, "out_too_wide", bad_dim_above(1, (iw + pl + pr - ekw) / sw + 1, esz(ity)));
        p.badt(w, "kernel_too_high", bad_dim_above(0, (ih + pt + pb - 1 - (oh - 1) * sh) / dh + 1, esz(wty)));
        p.badt(w, "kernel_too_wide", bad_dim_above(1, (iw + pl + pr - 1 - (ow - 1) * sw) / dw + 1, esz(wty)));
#endif
        p.bad<mli_conv2d_cfg>("dilation_zero", cfg, [](mli_conv2d_cfg& g, Rng& q) { (q.chance(50) ? g.dilation_width : g.dilation_height) = 0; return true; });
        p.bad<mli_conv2d_cfg>("stride_too_large", cfg, [=](mli_conv2d_cfg& g, Rng& q) {
            bool x = q.chance(50); int o = x ? ow : oh, room = x ? iw + pl + pr - ekw : ih + pt + pb - ekh; if (o < 2) return false;
            int lo = room / (o - 1) + 1; if (lo > 255) return false; (x ? g.stride_width : g.stride_height) = (uint8_t)(q.chance(60) ? lo : q.in(lo, 255)); return true; });
        p.bad<mli_conv2d_cfg>("dilation_too_large", cfg, [=](mli_conv2d_cfg& g, Rng& q) {
            bool x = q.chance(50); int k = x ? kw : kh, room = x ? iw + pl + pr - 1 - (ow - 1) * sw : ih + pt + pb - 1 - (oh - 1) * sh; if (k < 2) return false;
            int lo = room / (k - 1) + 1; if (lo > 255) return false; (x ? g.dilation_width : g.dilation_height) = (uint8_t)(q.chance(60) ? lo : q.in(lo, 255)); return true; });
    }
    p.bad<mli_conv2d_cfg>("stride_zero", cfg, [](mli_conv2d_cfg& g, Rng& q) { (q.chance(50) ? g.stride_width : g.stride_height) = 0; return true; });
    p.bad<mli_conv2d_cfg>("padding_of_kernel_size", cfg, [=](mli_conv2d_cfg& g, Rng& q) {
        uint8_t* a[] = {&g.padding_left, &g.padding_right, &g.padding_top, &g.padding_bottom}; int k = (int)q.in(0, 3), m = k < 2 ? ekw : ekh; if (m > 255) return false;
        *a[k] = (uint8_t)(q.chance(60) ? m : q.in(m, 255)); return true; });
    if (si != 0) p.badt(w, "kernel_size", [=](mli_tensor& t, Rng& q) { int d = (int)q.in(0, 1); if (t.shape[d] < 2) return false; t.shape[d]--; return true; });
    c.nontrivial = mixed(exp);
    c.count(std::string("fn:") + sp.name);
    if (saturated) c.count("saturating_cases");
    if (tyi == 2 && maxerr > 2) c.fail("harness", "model_accuracy", "model off the ideal value by %f", maxerr);
    if (!p.run([&] { return sp.f(&in.t, &w.t, &b.t, cfg, &out.t); })) return;
    compare(c, sp.name, out, exp);
    // specialised and generic functions agree
    if (si != 0) {
        std::vector<int64_t> a = out.vals();
        Prot p2(c, specs[0].name); p2.check_repeat = p2.misuse = false;
        p2.in(in).in(w).in(b).out(out).raw(*cfgm);
        if (p2.run([&] { return specs[0].f(&in.t, &w.t, &b.t, cfg, &out.t); })) compare(c, specs[0].name, out, a, "generic_vs_special");
    }
}
MON_TEST(conv2d) { conv_case(c, CONV); }
MON_TEST(depthwise) { conv_case(c, DW); }
MON_TEST(group) { conv_case(c, GROUP); }
MON_TEST(transpose) { conv_case(c, TRANS); }

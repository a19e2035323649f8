// 2.0 pooling: max / average, fx8 / fx16 / sa8, generic and specialised sizes.
#include "t2.h"
using namespace t2;
typedef mli_status (*PoolFn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
struct Spec { PoolFn f; const char* name; int k; };
#define S(fn, k) {fn, #fn, k}
#define FAM(base, ty) {S(mli_krn_##base##_hwc_##ty, 0), S(mli_krn_##base##_hwc_##ty##_k2x2, 2), S(mli_krn_##base##_hwc_##ty##_k3x3, 3)}
static const std::vector<Spec> kTab[2][3] = {
    {FAM(maxpool, fx8), FAM(maxpool, fx16), FAM(maxpool, sa8)},
    {FAM(avepool, fx8), FAM(avepool, fx16), FAM(avepool, sa8)},
};
#ifdef AVEPOOL_16BIT_MUL
static const int kAveMulBits = 16;
#else
static const int kAveMulBits = 8;
#endif

// 1/n as a 15 bit multiplier and a shift
static void recip(int64_t n, int64_t& mul, int64_t& shift) {
    int l = 0; while (((int64_t)1 << l) < n) l++;
    shift = 14 + l; mul = ((int64_t)1 << shift) / n;
}
static void pool_case(Case& c, bool ave) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    const std::vector<Spec>& specs = kTab[ave][tyi];
    size_t si = r.chance(50) ? 0 : (size_t)r.in(0, 2);
    const Spec& sp = specs[si];
    int kh, kw;
    if (sp.k) kh = kw = sp.k;
    else if (r.chance(25)) kh = kw = (int)r.in(2, 3);
    else { kh = r.chance(85) ? (int)r.in(1, 6) : (int)r.in(1, 24); kw = r.chance(85) ? (int)r.in(1, 6) : (int)r.in(1, 24); }
    int sh = r.chance(50) ? 1 : (int)r.in(1, 5), sw = r.chance(50) ? 1 : (int)r.in(1, 5);
    auto pad = [&](int k) { return k == 1 || r.chance(35) ? 0 : (int)r.in(0, k - 1); };
    int pt = pad(kh), pb = pad(kh), pl = pad(kw), pr = pad(kw);
    int ih, iw;
    bool big = r.chance(8);
    ih = kh + (int)r.in(0, big ? 20 : 6); iw = kw + (int)r.in(0, big ? 20 : 6);
    // the kernel may be larger than the input as long as the padded input holds it
    if (r.chance(15)) { ih = (int)r.in(std::max(1, kh - pt - pb), kh + 1); }
    if (r.chance(15)) { iw = (int)r.in(std::max(1, kw - pl - pr), kw + 1); }
    int ci = r.chance(85) ? (int)r.in(1, 5) : (int)r.in(1, 36);
    if (mille(r, 35)) {      // seldom one extent or stride far beyond the usual ones
        int W = (int)r.in(0, 4);
        if (W == 0) { ci = wide(r); ih = std::min(ih, kh + 1); iw = std::min(iw, kw + 1); if (ih * iw > 16 && ci > 3000) ci = (int)r.in(100, 3000); }
        if (W == 1) { ih = kh + wide(r); ci = 1; iw = std::min(iw, kw + 1); }
        if (W == 2) { iw = kw + wide(r); ci = 1; ih = std::min(ih, kh + 1); }
        if (W == 3) { sh = (int)r.in(6, 255); ih = kh + (int)r.in(1, 3 * sh); ci = std::min(ci, 3); }
        if (W == 4) { sw = (int)r.in(6, 255); iw = kw + (int)r.in(1, 3 * sw); ci = std::min(ci, 3); }
    }
    int oh = (ih + pt + pb - kh) / sh + 1, ow = (iw + pl + pr - kw) / sw + 1;
    if (r.chance(10)) { oh = (int)r.in(1, oh); ow = (int)r.in(1, ow); }   // a smaller output is accepted by the argument checks
    Ten in, out;
    make(in, r, "in", ty, {ih, iw, ci}, r.chance(60) ? 1 : 0);
    make(out, r, "out", ty, {oh, ow, ci}, r.chance(60) ? 1 : 0);
    std::unique_ptr<Raw> cfgm(new Raw(sizeof(mli_pool_cfg)));
    mli_pool_cfg* cfg = (mli_pool_cfg*)cfgm->p;
    *cfg = mli_pool_cfg{(uint8_t)kw, (uint8_t)kh, (uint8_t)sw, (uint8_t)sh, (uint8_t)pl, (uint8_t)pr, (uint8_t)pt, (uint8_t)pb};
    c.d("%s in%s out%s k %dx%d stride %dx%d pad t%d b%d l%d r%d", sp.name, ss(in.shape).c_str(), ss(out.shape).c_str(), kh, kw, sh, sw, pt, pb, pl, pr);
    int64_t scale = 1, shift0 = 0, offset = 0;
    if (ty != SA8) {
        int fi = (int)r.in(0, bits(ty) - 1), fo = ave ? std::max(-2, std::min(bits(ty), fi + (int)r.in(-6, 6))) : (int)r.in(0, bits(ty) - 1);
        if (r.chance(40)) fo = fi;
        fx(in, fi); fx(out, fo); shift0 = fi - fo;
        c.d(" frac %d %d", fi, fo);
    } else {
        int64_t s1 = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff), s2 = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
        int f1 = (int)r.in(8, 20), f2;
        double want = r.in(-30, 30) / 10.0;   // log2 of the scale ratio
        f2 = (int)std::lround(f1 - std::log2((double)s1 / s2) + want);
        quant(in, s1, f1, r.chance(25) ? 0 : r.in(-128, 127));
        if (r.chance(30)) quant(out, s1, f1, in.zpv()); else quant(out, s2, f2, r.chance(25) ? 0 : r.in(-128, 127));
        int pre = rm::norm(in.scale(), 32) - rm::norm(out.scale(), 16);
        int64_t ratio = (in.scale() << pre) / out.scale();
        int m = rm::norm(ratio, 32), ns = 16 - m;
        scale = (int64_t)rm::cast(ratio, ns, 32, 16);
        shift0 = pre + in.sfrac() - out.sfrac() - ns;
        offset = (int64_t)rm::satw(out.zpv() - rm::cast(scale * in.zpv(), (int)shift0, 32, 16), 16);
        c.d(" sa in(%lld,%lld,%lld) out(%lld,%lld,%lld)", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv(), (long long)out.scale(), (long long)out.sfrac(), (long long)out.zpv());
    }
    fill(in, r);
    std::vector<int64_t> vi = in.vals(), exp(out.n());
    double maxerr = 0; bool over = false;
    for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) {
        int y0 = y * sh - pt, x0 = x * sw - pl;
        int ya = std::max(0, y0), yb = std::min(ih, y0 + kh), xa = std::max(0, x0), xb = std::min(iw, x0 + kw);
        int64_t n = (int64_t)(yb - ya) * (xb - xa);
        if (n <= 0 || yb <= ya || xb <= xa) { c.skipped = true; return; }
        for (int ch = 0; ch < ci; ch++) {
            int64_t mx = INT64_MIN, sum = 0, absum = 0;
            for (int a = ya; a < yb; a++) for (int b = xa; b < xb; b++) {
                int64_t v = vi[((int64_t)a * iw + b) * ci + ch]; mx = std::max(mx, v); sum += v; absum += std::llabs(v);
            }
            int64_t q;
            if (!ave) q = mx;
            else {
                int64_t mul, sft; recip(n, mul, sft);
                int64_t sh_ = shift0 + sft;
                int aw = ty == FX16 ? 64 : 32;
                int64_t acc = 0;
                if (ty == SA8) {
                    int64_t p = scale * mul; int m = rm::norm(p, 32), ns = 32 - kAveMulBits - m;
                    mul = (int64_t)rm::cast(p, ns, 32, kAveMulBits); sh_ -= ns;
                    acc = (int64_t)rm::shl(offset, (int)sh_, 32);
                    if (sh_ < 0 || acc != (offset << sh_)) over = true;
                }
                if (aw == 32 && absum * mul + std::llabs(acc) >= ((int64_t)1 << 31)) over = true;
                acc += sum * mul;
                q = (int64_t)rm::cast(acc, (int)sh_, aw, bits(ty));
                if (!over) {
                    double mean = (double)sum / n, ideal;
                    if (ty == SA8) ideal = (mean - in.zpv()) * in.real_scale() / out.real_scale() + out.zpv();
                    else ideal = mean * std::pow(2.0, -(double)shift0);
                    double tol = ty == SA8 ? 1.0 + 0.02 * (std::fabs(mean) + 128) * in.real_scale() / out.real_scale() : 1.0 + std::fabs(ideal) / 8192;
                    ideal = std::max<double>(tmin(ty), std::min<double>(tmax(ty), ideal));
                    maxerr = std::max(maxerr, std::fabs(ideal - q) - tol);
                    c.count("real_valued_checked");
                }
            }
            exp[((int64_t)y * ow + x) * ci + ch] = q;
        }
    }
    if (over) { c.skipped = true; return; }
    c.nontrivial = mixed(exp);
    c.count(std::string("fn:") + sp.name);
    if (maxerr > 0) c.fail("harness", "model_accuracy", "model off the ideal average by %f too much", maxerr);
    Prot p(c, sp.name);
    p.in(in).out(out).raw(*cfgm);
    out.may_change_struct = !ave;
    p.overlap(in, out).may(in, ave ? "" : "scale_not_positive zero_point_range", 3).may(out, "", 3);
    auto pads = [](mli_pool_cfg& g, int k) { uint8_t* a[] = {&g.padding_left, &g.padding_right, &g.padding_top, &g.padding_bottom}; return a[k]; };
    p.bad<mli_pool_cfg>("padding_of_kernel_size", cfg, [=](mli_pool_cfg& g, Rng& q) { int k = (int)q.in(0, 3), m = k < 2 ? kw : kh; if (m > 255) return false; *pads(g, k) = (uint8_t)(q.chance(60) ? m : q.in(m, 255)); return true; });
    p.bad<mli_pool_cfg>("stride_zero", cfg, [](mli_pool_cfg& g, Rng& q) { (q.chance(50) ? g.stride_width : g.stride_height) = 0; return true; });
    p.bad<mli_pool_cfg>("kernel_zero", cfg, [](mli_pool_cfg& g, Rng& q) { (q.chance(50) ? g.kernel_width : g.kernel_height) = 0; return true; });
    p.bad<mli_pool_cfg>("stride_too_large", cfg, [=](mli_pool_cfg& g, Rng& q) {
        bool x = q.chance(50); int o = x ? ow : oh, room = x ? iw + pl + pr - kw : ih + pt + pb - kh; if (o < 2) return false;
        int lo = room / (o - 1) + 1; if (lo > 255) return false; (x ? g.stride_width : g.stride_height) = (uint8_t)(q.chance(60) ? lo : q.in(lo, 255)); return true; });
    p.bad<mli_pool_cfg>("kernel_too_large", cfg, [=](mli_pool_cfg& g, Rng& q) {
        bool x = q.chance(50); int lo = (x ? iw + pl + pr - (ow - 1) * sw : ih + pt + pb - (oh - 1) * sh) + 1; if (lo > 255) return false; (x ? g.kernel_width : g.kernel_height) = (uint8_t)(q.chance(60) ? lo : q.in(lo, 255)); return true; });
    p.badt(in, "in_too_low", [=](mli_tensor& t, Rng& q) { int64_t need = (int64_t)(oh - 1) * sh + kh - pt - pb; if (need < 2) return false; t.shape[0] = (uint32_t)(q.chance(60) ? need - 1 : q.in(1, need - 1)); return true; });
    p.badt(in, "in_too_narrow", [=](mli_tensor& t, Rng& q) { int64_t need = (int64_t)(ow - 1) * sw + kw - pl - pr; if (need < 2) return false; t.shape[1] = (uint32_t)(q.chance(60) ? need - 1 : q.in(1, need - 1)); return true; });
#ifdef MON_CHK
    p.badt(out, "out_too_high", bad_dim_above(0, (ih + pt + pb - kh) / sh + 1, esz(ty)));
    p.badt(out, "out_too_wide", bad_dim_above(1, (iw + pl + pr - kw) / sw + 1, esz(ty)));
#endif
    if (si != 0) p.bad<mli_pool_cfg>("kernel_size", cfg, [](mli_pool_cfg& g, Rng& q) { auto& k = q.chance(50) ? g.kernel_width : g.kernel_height; if (k < 2) return false; k--; return true; });
    mli_tensor before = out.t;
    if (!p.run([&] { return sp.f(&in.t, cfg, &out.t); })) return;
    compare(c, sp.name, out, exp);
    if (!ave) {   // element parameters are copied from the input, nothing else changes
        before.el_params = in.t.el_params;
        if (memcmp(&before, &out.t, sizeof before)) c.fail("value", std::string(sp.name) + ":el_params", "output structure is not the input's parameters with everything else untouched");
    }
    if (si != 0) {
        std::vector<int64_t> a = out.vals();
        Prot p2(c, specs[0].name); p2.check_repeat = p2.misuse = false;
        p2.in(in).out(out).raw(*cfgm);
        if (p2.run([&] { return specs[0].f(&in.t, cfg, &out.t); })) compare(c, specs[0].name, out, a, "generic_vs_special");
    }
}
MON_TEST(maxpool) { pool_case(c, false); }
MON_TEST(avepool) { pool_case(c, true); }
// Windows so large that the 32 bit sum of products leaves its range (recorded finding F3):
// a window full of near-maximal 8 bit values must still average to that value.
MON_TEST(avepool_large) {
    Rng& r = c.r;
    int k = (int)r.in(40, 60); int v = (int)r.in(120, 127) * (r.chance(50) ? 1 : -1);
    bool sa = r.chance(50);
    Ten in, out; make(in, r, "in", sa ? SA8 : FX8, {k, k, 1}, 0); make(out, r, "out", sa ? SA8 : FX8, {1, 1, 1}, 0);
    if (sa) { quant(in, 0x4000, 14, 0); quant(out, 0x4000, 14, 0); } else { fx(in, 7); fx(out, 7); }
    for (int64_t i = 0; i < in.n(); i++) in.set(i, v);
    Raw cfgm(sizeof(mli_pool_cfg)); mli_pool_cfg* cfg = (mli_pool_cfg*)cfgm.p;
    *cfg = mli_pool_cfg{(uint8_t)k, (uint8_t)k, 1, 1, 0, 0, 0, 0};
    c.d("avepool %s window %dx%d of %d", sa ? "sa8" : "fx8", k, k, v);
    c.nontrivial = true; c.h(v); c.h(k); c.h(sa);
    Prot p(c, "avepool_large"); p.in(in).out(out).raw(cfgm);
    if (!p.run([&] { return sa ? mli_krn_avepool_hwc_sa8(&in.t, cfg, &out.t) : mli_krn_avepool_hwc_fx8(&in.t, cfg, &out.t); })) return;
    int64_t got = out.get(0);
    if (std::llabs(got - v) > 2) c.fail("value", "avepool_large:value", "average of %d is %lld", v, (long long)got);
}

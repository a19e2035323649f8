// 2.0 table driven activations: sigmoid, tanh, softmax, L2 normalisation.
#include "models.h"
using namespace t2;

MON_TEST(lut_tables) {
    int w = (int)c.r.in(0, 3);
    c.d("lut %s", kLut[w]);
    std::string site = std::string("mli_krn_") + kLut[w] + "_create_lut";
    Lut L(w);
    if (L.st != MLI_STATUS_OK) { c.fail("status", site + ":status", "status %d", (int)L.st); return; }
    if (L.l.type != MLI_EL_FX_16 || L.l.length * 2 != (int)L.mem.n || L.l.data.capacity != L.mem.n || L.l.data.mem.pi16 != (int16_t*)L.mem.p) { c.fail("value", site + ":struct", "bad look-up table structure"); return; }
    for (int i = 0; i < L.l.length; i++) {
        double x = (i - L.l.input_offset) * std::pow(2.0, -L.l.in_frac_bits);
        double v = std::min(32767., real_fn(w, x) * std::pow(2.0, L.l.out_frac_bits));
        c.h((uint64_t)L.at(i)); c.count("entries_checked");
        if (std::fabs(v - L.at(i)) > 0.51) { c.fail("value", site + ":entry", "entry %d is %lld, function value %f", i, (long long)L.at(i), v); return; }
    }
#ifdef MON_CHK
    {
        int need = Lut::size(w); Raw few((size_t)(c.r.chance(50) ? need - 1 : c.r.in(0, need - 1))); memset(few.p, 0x77, few.n);
        mli_lut l; memset(&l, 0x5a, sizeof l); l.data.capacity = (uint32_t)few.n; memset(&l.data.mem, 0, sizeof l.data.mem); l.data.mem.pi16 = (int16_t*)few.p;
        mli_status st = w == 0 ? mli_krn_sigm_create_lut(&l) : w == 1 ? mli_krn_tanh_create_lut(&l) : w == 2 ? mli_krn_softmax_create_lut(&l) : mli_krn_l2_normalize_create_lut(&l);
        c.count("misuse_calls"); c.count("misuse:lut_capacity");
        if (st == MLI_STATUS_OK) c.fail("value", site + "|lut_capacity:accepted", "memory of %zu bytes accepted for a table of %d", few.n, need);
        for (size_t i = 0; i < few.n; i++) if (few.p[i] != 0x77) { c.fail("memory", site + "|lut_capacity:written", "refused table was written"); break; }
    }
#endif
    // the last entries decide what everything beyond the table maps to
    c.nontrivial = true; c.h(c.r.next());
}

static bool check_out_params(Case& c, const std::string& site, const mli_tensor& t, Ty ty, int fxfrac, int zp, int sfrac) {
    if (ty != SA8) { if (t.el_params.fx.frac_bits != fxfrac) { c.fail("value", site + ":out_params", "frac_bits %d instead of %d", t.el_params.fx.frac_bits, fxfrac); return false; } }
    else {
        auto& q = t.el_params.sa;
        if (q.dim != -1 || q.type != MLI_EL_PARAM_SC16_ZP16 || q.scale.mem.i16 != 1 || q.zero_point.mem.i16 != zp || q.scale_frac_bits.mem.i8 != sfrac) { c.fail("value", site + ":out_params", "wrong output quantisation parameters"); return false; }
    }
    return true;
}
template <class T> static void axisbad(Prot& p, Raw& m, int rank) {
    p.bad<T>("axis", (T*)m.p, [=](T& g, Rng& q) { g.axis = (int)(q.chance(60) ? rank : q.in(rank, 100)); return true; });
}
static bool call(Case& c, Prot& p, Ten& in, Ten& out, bool place, const std::function<mli_status(const mli_tensor*, mli_tensor*)>& f) {
    out.may_change_struct = true; bool ok;
    if (place) {
        for (int i = 0; i < in.t.rank; i++) out.t.mem_stride[i] = in.t.mem_stride[i];
        out.off = in.off; out.live = in.live; out.mem = std::move(in.mem); out.t.data = in.t.data;
        p.inplace = true; p.out(out); mli_tensor saved = in.t;
        ok = p.run([&] { return f(&in.t, &out.t); });
        if (memcmp(&saved, &in.t, sizeof saved)) c.fail("memory", p.site + ":input_struct", "input structure modified");
        c.count("inplace");
    } else { p.in(in).out(out); ok = p.run([&] { return f(&in.t, &out.t); }); }
    return ok;
}
static void gen_io(Case& c, Ty ty, Ten& in, Ten& out, bool& place, Shape s) {
    Rng& r = c.r; int sm = r.chance(60) ? 1 : 0;
    make(in, r, "in", ty, s, sm); make(out, r, "out", ty, s, sm); place = r.chance(25);
    if (ty != SA8) { fx(in, (int)(r.chance(85) ? r.in(0, bits(ty) - 1) : r.in(-10, 45))); fx(out, (int)r.in(-3, 15)); }
    else {
        quant(in, r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff), r.chance(85) ? r.in(14, 24) : r.in(0, 40), r.chance(30) ? 0 : r.in(-128, 127));
        quant(out, r.in(1, 0x7fff), r.in(0, 20), r.in(-128, 127));
#ifndef MLI_DEBUG_MODE
        if (r.chance(30)) out.t.el_params.sa.dim = (int32_t)r.in(-4, 4);    // set by the kernel
#endif
    }
    fill(in, r);
    c.d(" %s place%d", ss(s).c_str(), place);
    if (ty == SA8) c.d(" sa %lld>>%lld zp%lld", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv()); else c.d(" frac %d", in.frac());
}
static void sig_case(Case& c, int w) {
    Rng& r = c.r; int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    std::string site = std::string("mli_krn_") + kLut[w] + "_" + tn(ty);
    c.d("%s", site.c_str());
    Ten in, out; bool place; gen_io(c, ty, in, out, place, rshape(r));
    Lut L(w); int64_t n = in.n(); std::vector<int64_t> exp(n); double worst = 0; int64_t wx = 0;
    int ofrac = ty == FX8 ? 7 : 15, ozp = w == 0 ? -128 : 0, osf = w == 0 ? 8 : 7;
    for (int64_t i = 0; i < n; i++) {
        int64_t x = in.get(i); double arg, tol;
        if (ty == SA8) {
            int f; int64_t a = sa_arg(L, x, in.zpv(), in.scale(), in.sfrac(), f);
            int64_t v = look(L, a, f);
            exp[i] = (int64_t)rm::satw(rm::rshr(v, 15 - osf, 32) + ozp, 8);
            arg = (x - in.zpv()) * in.real_scale();
            double real = std::min(127., real_fn(w, arg) * std::pow(2., osf) + ozp); tol = 0.8;
            if (std::fabs(real - exp[i]) > std::max(worst, tol)) { worst = std::fabs(real - exp[i]); wx = x; }
        } else {
            exp[i] = (int64_t)rm::cast(look(L, x, in.frac()), 16 - bits(ty), 16, bits(ty));
            arg = x * std::pow(2., -in.frac());
            double real = std::min((double)tmax(ty), real_fn(w, arg) * std::pow(2., ofrac)); tol = ty == FX8 ? 0.8 : 20;
            if (in.frac() < 0) tol += 3;
            if (std::fabs(real - exp[i]) > std::max(worst, tol)) { worst = std::fabs(real - exp[i]); wx = x; }
        }
    }
    if (worst > 0) c.fail("ideal", site + ":ideal", "look-up rule is %f off the function at input %lld", worst, (long long)wx);
    c.count("real_valued_checked", n);
    c.nontrivial = mixed(exp); c.count("fn:" + site);
    Prot p(c, site); p.raw(L.mem).raw(L.lm);
    if (!call(c, p, in, out, place, [&](const mli_tensor* a, mli_tensor* b) {
        if (w == 0) return tyi == 0 ? mli_krn_sigm_fx8(a, L.p(), b) : tyi == 1 ? mli_krn_sigm_fx16(a, L.p(), b) : mli_krn_sigm_sa8(a, L.p(), b);
        return tyi == 0 ? mli_krn_tanh_fx8(a, L.p(), b) : tyi == 1 ? mli_krn_tanh_fx16(a, L.p(), b) : mli_krn_tanh_sa8(a, L.p(), b); })) return;
    if (check_out_params(c, site, out.t, ty, ofrac, ozp, osf)) compare(c, site, out, exp);
}
MON_TEST(sigm) { sig_case(c, 0); }
MON_TEST(tanh) { sig_case(c, 1); }

// indices of every slice along axis (axis < 0: one slice)
static std::vector<std::vector<int64_t>> slices(const Shape& s, int axis) {
    int64_t n = prod(s); if (axis < 0) { std::vector<int64_t> a(n); for (int64_t i = 0; i < n; i++) a[i] = i; return {a}; }
    int64_t inner = 1; for (size_t i = axis + 1; i < s.size(); i++) inner *= s[i];
    int64_t outer = n / inner / s[axis]; std::vector<std::vector<int64_t>> o;
    for (int64_t a = 0; a < outer; a++) for (int64_t b = 0; b < inner; b++) { std::vector<int64_t> v; for (int k = 0; k < s[axis]; k++) v.push_back((a * s[axis] + k) * inner + b); o.push_back(v); }
    return o;
}
MON_TEST(softmax) {
    Rng& r = c.r; Ty ty = r.chance(50) ? FX16 : SA8;
    std::string site = std::string("mli_krn_softmax_") + tn(ty); c.d("%s", site.c_str());
    Ten in, out; bool place; Shape s; do s = rshape(r); while (prod(s) > 65536);   // accumulation capacity given in data_formats.rst
    gen_io(c, ty, in, out, place, s);
    int axis = r.chance(25) ? -(int)r.in(1, 3) : (int)r.in(0, (int)s.size() - 1); c.d(" axis %d", axis);
    Lut L(2); int64_t n = in.n(); std::vector<int64_t> exp(n); double worst = 0;
    for (auto& sl : slices(s, axis)) {
        int64_t mx = in.get(sl[0]); for (auto i : sl) mx = std::max(mx, in.get(i));
        std::vector<int64_t> e; int64_t sum = 0; double rsum = 0; std::vector<double> re;
        double sc = ty == SA8 ? in.real_scale() : std::pow(2., -in.frac());
        for (auto i : sl) {
            int64_t v; if (ty == SA8) { int f; int64_t a = sa_arg(L, in.get(i), mx, in.scale(), in.sfrac(), f); v = look(L, a, f); } else v = look(L, in.get(i) - mx, in.frac());
            e.push_back(v); sum += v; re.push_back(std::exp((in.get(i) - mx) * sc)); rsum += re.back();
        }
        int nrm = rm::norm(sum, 32); int64_t mnt = (int64_t)rm::cast(sum, 16 - nrm, 32, 16);
        int64_t rec = std::min<int64_t>(((int64_t)1 << 29) / mnt, 32767);
        int of = ty == SA8 ? 8 : 15; int sh = std::min(30 + 15 - nrm - of, 31);
        for (size_t k = 0; k < sl.size(); k++) {
            int64_t q; double real = re[k] / rsum * std::pow(2., of);
            if (ty == SA8) { q = (int64_t)rm::satw(rm::rshr(rec * e[k], sh, 32) - 128, 8); real = std::min(127., real - 128); }
            else { q = (int64_t)rm::cast(rec * e[k], sh, 32, 16); real = std::min(32767., real); }
            exp[sl[k]] = q; double tol = ty == SA8 ? 1.01 : 48;
            if (ty == SA8 ? true : in.frac() >= 0) worst = std::max(worst, std::fabs(real - q) - tol);
        }
    }
    if (worst > 0) c.fail("ideal", site + ":ideal", "rule is %f beyond the tolerance", worst);
    c.count("real_valued_checked", n); c.count(axis < 0 ? "whole" : axis == (int)s.size() - 1 ? "axis_inner" : "axis_outer");
    c.nontrivial = mixed(exp); c.count("fn:" + site);
    Raw cfgm(sizeof(mli_softmax_cfg)); ((mli_softmax_cfg*)cfgm.p)->axis = axis; const mli_softmax_cfg* cfg = (const mli_softmax_cfg*)cfgm.p;
    Prot p(c, site); p.raw(L.mem).raw(L.lm).raw(cfgm); axisbad<mli_softmax_cfg>(p, cfgm, (int)s.size());
    if (!call(c, p, in, out, place, [&](const mli_tensor* a, mli_tensor* b) { return ty == SA8 ? mli_krn_softmax_sa8(a, L.p(), cfg, b) : mli_krn_softmax_fx16(a, L.p(), cfg, b); })) return;
    if (check_out_params(c, site, out.t, ty, 15, -128, 8)) compare(c, site, out, exp);
}
MON_TEST(l2_normalize) {
    Rng& r = c.r; Ty ty = r.chance(50) ? FX16 : SA8;
    std::string site = std::string("mli_krn_l2_normalize_") + tn(ty); c.d("%s", site.c_str());
    Ten in, out; bool place; Shape s = rshape(r); gen_io(c, ty, in, out, place, s);
    int axis = r.chance(25) ? -(int)r.in(1, 3) : (int)r.in(0, (int)s.size() - 1); c.d(" axis %d", axis);
    Lut L(3); int64_t n = in.n(); std::vector<int64_t> exp(n); double worst = 0;
    for (auto& sl : slices(s, axis)) {
        int64_t zp = ty == SA8 ? in.zpv() : 0; i128 acc = 0; double rs = 0;
        for (auto i : sl) { int64_t v = in.get(i) - zp; acc += v * v; rs += (double)v * v; }
        int ns = 48 - rm::norm((int64_t)acc, 64); if (ns & 1) ns++;
        int64_t m = (int64_t)rm::cast(acc, ns, 64, 16);
        int64_t is = look(L, m, 8);
        int of = ty == SA8 ? 7 : 15; int sh = L.l.out_frac_bits + ((ns + 8) >> 1) - of;
        for (auto i : sl) {
            int64_t v = in.get(i) - zp; exp[i] = (int64_t)rm::cast(v * is, sh, 32, bits(ty));
            double real = rs > 0 ? v / std::sqrt(rs) * std::pow(2., of) : 0; real = std::max<double>(tmin(ty), std::min<double>(tmax(ty), real));
            worst = std::max(worst, std::fabs(real - exp[i]) - (ty == SA8 ? 0.8 : 24));
        }
    }
    if (worst > 0) c.fail("ideal", site + ":ideal", "rule is %f beyond the tolerance", worst);
    c.count("real_valued_checked", n); c.count(axis < 0 ? "whole" : axis == (int)s.size() - 1 ? "axis_inner" : "axis_outer");
    c.nontrivial = mixed(exp); c.count("fn:" + site);
    Raw cfgm(sizeof(mli_l2_normalize_cfg)); ((mli_l2_normalize_cfg*)cfgm.p)->axis = axis; const mli_l2_normalize_cfg* cfg = (const mli_l2_normalize_cfg*)cfgm.p;
    Ten eps; make_scalar(eps, r, "eps", ty); bool noeps = r.chance(50);
    Prot p(c, site); p.raw(L.mem).raw(L.lm).raw(cfgm); axisbad<mli_l2_normalize_cfg>(p, cfgm, (int)s.size());
    const mli_tensor* ep = noeps ? nullptr : &eps.t;
    if (!call(c, p, in, out, place, [&](const mli_tensor* a, mli_tensor* b) { return ty == SA8 ? mli_krn_l2_normalize_sa8(a, ep, L.p(), cfg, b) : mli_krn_l2_normalize_fx16(a, ep, L.p(), cfg, b); })) return;
    if (check_out_params(c, site, out.t, ty, 15, 0, 7)) compare(c, site, out, exp);
}

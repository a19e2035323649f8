// 2.0 ReLU, leaky ReLU and parametric ReLU.
#include "t2.h"
using namespace t2;

static void run_io(Case& c, Prot& p, Ten& in, Ten& out, bool place, const std::function<mli_status(const mli_tensor*, mli_tensor*)>& f, bool& ok) {
    if (place) {
        for (int i = 0; i < in.t.rank; i++) out.t.mem_stride[i] = in.t.mem_stride[i];
        out.off = in.off; out.live = in.live; out.mem = std::move(in.mem); out.t.data = in.t.data;
        p.inplace = true; p.out(out);
        mli_tensor saved = in.t;
        ok = p.run([&] { return f(&in.t, &out.t); });
        if (memcmp(&saved, &in.t, sizeof saved)) c.fail("memory", p.site + ":input_struct", "input structure modified");
        c.count("inplace");
    } else {
        p.in(in).out(out);
        ok = p.run([&] { return f(&in.t, &out.t); });
    }
}

MON_TEST(relu) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    std::string site = std::string("mli_krn_relu_") + tn(ty);
    Shape s = rshape(r); Ten in, out; int sm = r.chance(60) ? 1 : 0;
    make(in, r, "in", ty, s, sm); make(out, r, "out", ty, s, sm);
    bool place = r.chance(25);
    mli_relu_type rt = (mli_relu_type)r.in(MLI_RELU_NONE, MLI_RELU_6);
    Raw cfgm(sizeof(mli_relu_cfg)); mli_relu_cfg* cfg = (mli_relu_cfg*)cfgm.p; memset(cfg, 0, sizeof *cfg); cfg->type = rt;
    if (ty != SA8) { fx(in, (int)(r.chance(60) ? r.in(0, bits(ty) - 1) : r.in(-5, bits(ty) + 6))); fx(out, (int)r.in(-3, 9)); }
    else {
        quant(in, r.in(r.chance(70) ? 0x4000 : 1, 0x7fff), r.chance(60) ? r.in(8, 24) : r.chance(30) ? r.in(25, 31) : r.in(-3, 31), r.chance(30) ? 0 : r.in(-128, 127));
        quant(out, r.in(1, 0x7fff), r.in(0, 20), r.in(-128, 127));
    }
    c.d("%s %s type%d place%d", site.c_str(), ss(s).c_str(), (int)rt, place);
    if (ty == SA8) c.d(" sa %lld>>%lld zp%lld", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv()); else c.d(" frac %d", in.frac());
    fill(in, r);
    Lim l = ty == SA8 ? relu_limits(rt, SA8, in.zpv(), in.scale(), in.sfrac()) : relu_limits(rt, ty, 0, 1, in.frac());
    std::vector<int64_t> exp = in.vals();
    for (auto& v : exp) v = clampl(v, l);
    c.nontrivial = mixed(exp); c.count("fn:" + site); c.count("relu_type" + std::to_string((int)rt));
    mli_element_params ip = in.t.el_params;
    out.may_change_struct = true;
    mli_tensor ob = out.t;
    Prot p(c, site); p.raw(cfgm);
    bool ok; run_io(c, p, in, out, place, [&](const mli_tensor* i, mli_tensor* o) { return tyi == 0 ? mli_krn_relu_fx8(i, cfg, o) : tyi == 1 ? mli_krn_relu_fx16(i, cfg, o) : mli_krn_relu_sa8(i, cfg, o); }, ok);
    if (!ok) return;
    if (place) { ob.data = out.t.data; memcpy(ob.mem_stride, out.t.mem_stride, sizeof ob.mem_stride); }
    mli_tensor want = ob; want.el_params = ip;
    if (ty == SA8 ? memcmp(&want, &out.t, sizeof want) != 0 : (want.el_params = ob.el_params, want.el_params.fx.frac_bits = ip.fx.frac_bits, ob = out.t, ob.el_params.fx.frac_bits != ip.fx.frac_bits || memcmp(want.shape, out.t.shape, sizeof want.shape) || memcmp(want.mem_stride, out.t.mem_stride, sizeof want.mem_stride) || want.rank != out.t.rank || memcmp(&want.data, &out.t.data, sizeof want.data) || want.el_type != out.t.el_type))
        c.fail("value", site + ":out_struct", "output tensor description is not the input format on the given shape");
    compare(c, site, out, exp);
}

struct Req { int64_t scale, shift; bool sat; };
static Req identity(const Ten& in, const Ten& out) {
    int pre = rm::norm(in.scale(), 32) - rm::norm(out.scale(), 16);
    int64_t u = (in.scale() << pre) / out.scale();
    int ns = 16 - rm::norm(u, 32);
    int64_t sc = (int64_t)rm::cast(u, ns, 32, 16);
    int64_t sh = pre + in.sfrac() - out.sfrac() - ns;
    int64_t left = std::max<int64_t>(-sh, 0);
    int64_t s2 = (int64_t)rm::shl(sc, (int)left, 16);
    return {s2, std::max<int64_t>(sh, 0), left > 0 && (left > 14 || s2 != (sc << left))};
}
static Req alpha_req(const Ten& slope, int64_t v, Req id) {
    int64_t av = (v - slope.zpv()) * slope.scale();
    int ns = 16 - rm::norm(av, 32);
    int64_t a = (int64_t)rm::cast(av, ns, 32, 16);
    int64_t sh = id.shift + slope.sfrac() - ns;
    int64_t pr = id.scale * a;
    int ns2 = 16 - rm::norm(pr, 32);
    return {(int64_t)rm::cast(pr, ns2, 32, 16), sh - ns2, id.sat};
}

// axis == -9: leaky relu;  < 0: prelu with scalar; >= 0 prelu with a slope per position
static void slope_case(Case& c, bool prelu) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    std::string site = std::string(prelu ? "mli_krn_prelu_" : "mli_krn_leaky_relu_") + tn(ty);
    Shape s = rshape(r); Ten in, out, slope; int sm = r.chance(60) ? 1 : 0; int rank = (int)s.size();
    make(in, r, "in", ty, s, sm); make(out, r, "out", ty, s, sm);
    bool place = r.chance(25);
    int axis = !prelu ? -9 : r.chance(15) ? -(int)r.in(1, 3) : (int)r.in(0, rank - 1);
    if (axis < 0) { if (r.chance(50)) make_scalar(slope, r, "slope", ty); else make(slope, r, "slope", ty, Shape((size_t)r.in(1, 3), 1), 0); }
    else if (r.chance(50)) make(slope, r, "slope", ty, {s[axis]}, 0);
    else { Shape q(rank, 1); q[axis] = s[axis]; make(slope, r, "slope", ty, q, 0); }
    c.d("%s %s axis %d slope %s place%d", site.c_str(), ss(s).c_str(), axis, slope.t.rank ? ss(slope.shape).c_str() : "scalar", place);
    if (ty != SA8) {
        int f = (int)r.in(0, bits(ty) - 1); fx(in, f); fx(out, f);
        fx(slope, (int)(r.chance(80) ? r.in(0, bits(ty) - 1) : r.in(-6, 40)));
        c.d(" frac %d slope %d", f, slope.frac());
    } else {
        auto sc = [&]() { return r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff); };
        auto zp = [&]() { return r.chance(25) ? 0 : r.in(-128, 127); };
        int f = (int)r.in(8, 24);
        quant(in, sc(), f, zp());
        if (r.chance(25)) out.t.el_params = in.t.el_params; else quant(out, sc(), f + (r.chance(80) ? (int)r.in(-2, 4) : (int)r.in(-14, 20)), zp());
        quant(slope, sc(), r.chance(80) ? r.in(12, 24) : r.in(5, 40), r.chance(80) ? zp() : r.in(-16384, 16383));
        c.d(" sa (%lld>>%lld zp%lld) slope (%lld>>%lld zp%lld) -> (%lld>>%lld zp%lld)", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv(), (long long)slope.scale(), (long long)slope.sfrac(), (long long)slope.zpv(), (long long)out.scale(), (long long)out.sfrac(), (long long)out.zpv());
    }
    if (slope.t.rank == 0) set_scalar(slope, val(r, (int)r.in(0, 3), tmin(ty), tmax(ty))); else fill(slope, r);
    fill(in, r);
    // ---- model
    int64_t n = in.n(); std::vector<int64_t> exp(n);
    Req id{}; std::vector<Req> al;
    if (ty == SA8) { id = identity(in, out); for (int64_t k = 0; k < slope.n(); k++) al.push_back(alpha_req(slope, slope.get(k), id)); }
    int64_t inner = 1; for (int i = axis + 1; i < rank && axis >= 0; i++) inner *= s[i];
    double worst = 0; std::string wd;
    for (int64_t i = 0; i < n; i++) {
        int64_t k = axis < 0 ? 0 : (i / inner) % s[axis], x = in.get(i); double real;
        if (ty != SA8) {
            int64_t sl = slope.get(k); int sh = slope.frac();
            if (ty == FX16 && axis < 0) { int nn = rm::norm(sl, 16); sl <<= nn; sh += nn; }   // a scalar fx16 slope is normalised first
            int64_t neg = (int64_t)rm::cast((i128)std::min<int64_t>(0, x) * sl, std::min(sh, 31), 32, bits(ty));
            exp[i] = (int64_t)rm::satw(std::max<int64_t>(0, x) + neg, bits(ty));
            real = x >= 0 ? x : x * (slope.get(k) * std::pow(2.0, -slope.frac()));
            real = std::max<double>(tmin(ty), std::min<double>(tmax(ty), real));
            if (std::fabs(real - exp[i]) > worst && slope.frac() <= 31) worst = std::fabs(real - exp[i]);
            if (worst > 0.501) { wd = "x"; }
        } else {
            bool pos = x >= in.zpv(); Req q = pos ? id : al[k];
            int64_t o = (int64_t)rm::satw(rm::rshr((i128)(x - in.zpv()) * q.scale, (int)q.shift, 32), 32);
            exp[i] = (int64_t)rm::satw(rm::satw((i128)o + out.zpv(), 32), 8);
            real = (x - in.zpv()) * in.real_scale() / out.real_scale();
            double tol = 0.501 + std::fabs(real) / 4096;
            if (!pos) { real *= (slope.get(k) - slope.zpv()) * slope.real_scale(); tol += std::fabs(real) / 4096; }
            real += out.zpv();
            real = std::max(-128., std::min(127., real));
            if (!id.sat && std::fabs(real - exp[i]) > tol) { char b[200]; snprintf(b, sizeof b, "x %lld slope %lld exp %lld ideal %f", (long long)x, (long long)slope.get(k), (long long)exp[i], real); wd = b; worst = std::fabs(real - exp[i]); }
        }
    }
    if (!wd.empty()) c.fail("ideal", site + ":ideal", "library rule is %f off the represented function (%s)", worst, wd.c_str());
    c.count("real_valued_checked", n);
    c.nontrivial = mixed(exp); c.count("fn:" + site); if (axis >= 0) c.count(axis == rank - 1 ? "axis_inner" : "axis_outer");
    Raw cfgm(sizeof(mli_prelu_cfg)); ((mli_prelu_cfg*)cfgm.p)->axis = axis;
    Prot p(c, site); p.raw(cfgm).in(slope);
    p.may(slope, slope.n() == 1 ? "inner_stride lower_rank higher_rank shorter_dim zero_point_range" : "zero_point_range lower_rank higher_rank", slope.n() == 1 && !prelu ? 15 : 0);
    if (ty != SA8) p.badt(out, "out_frac", [](mli_tensor& t, Rng& q) { t.el_params.fx.frac_bits = (int8_t)(t.el_params.fx.frac_bits + (q.chance(50) ? 1 : -1)); return true; });
    if (prelu) p.bad<mli_prelu_cfg>("axis", (mli_prelu_cfg*)cfgm.p, [=](mli_prelu_cfg& g, Rng& q) { g.axis = (int)(q.chance(60) ? rank : q.in(rank, 100)); return true; });
    if (prelu && axis >= 0 && s[axis] > 1) p.bad<mli_prelu_cfg>("axis_size", (mli_prelu_cfg*)cfgm.p, [=](mli_prelu_cfg& g, Rng& q) { int k = (int)q.in(-1, rank - 1); if (k >= 0 && s[k] == s[axis]) return false; g.axis = k; return true; });
    const mli_prelu_cfg* cfg = (const mli_prelu_cfg*)cfgm.p;
    bool ok; run_io(c, p, in, out, place, [&](const mli_tensor* i, mli_tensor* o) {
        if (!prelu) return tyi == 0 ? mli_krn_leaky_relu_fx8(i, &slope.t, o) : tyi == 1 ? mli_krn_leaky_relu_fx16(i, &slope.t, o) : mli_krn_leaky_relu_sa8(i, &slope.t, o);
        return tyi == 0 ? mli_krn_prelu_fx8(i, &slope.t, cfg, o) : tyi == 1 ? mli_krn_prelu_fx16(i, &slope.t, cfg, o) : mli_krn_prelu_sa8(i, &slope.t, cfg, o); }, ok);
    if (ok) compare(c, site, out, exp);
}
MON_TEST(leaky_relu) { slope_case(c, false); }
MON_TEST(prelu) { slope_case(c, true); }

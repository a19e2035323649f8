// 2.0 element-wise add / sub / mul / min / max with scalar broadcast and in-place use.
#include "models.h"
using namespace t2;
typedef mli_status (*EltFn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
#define FAM(op) {mli_krn_eltwise_##op##_fx8, mli_krn_eltwise_##op##_fx16, mli_krn_eltwise_##op##_sa8}
static const EltFn kFn[5][3] = {FAM(add), FAM(sub), FAM(mul), FAM(min), FAM(max)};

static void elt_case(Case& c, Op op) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2); Ty ty = tyi == 0 ? FX8 : tyi == 1 ? FX16 : SA8;
    std::string site = std::string("mli_krn_eltwise_") + kOp[op] + "_" + tn(ty);
    bool minmax = op == MIN || op == MAX;
    Shape s = rshape(r);
    int smode = r.chance(55) ? 1 : 0;
    // 0: two tensors, 1: first is scalar, 2: second is scalar
    int bc = r.chance(55) ? 0 : (int)r.in(1, 2);
    int place = r.chance(25) ? (int)r.in(1, 2) : 0;      // output in the memory of an input
    if (place == bc) place = 0;
    Ten t1, t2_, out;
    Ten* io[2] = {&t1, &t2_};
    for (int k = 0; k < 2; k++) {
        const char* nm = k ? "in2" : "in1";
        if (bc == k + 1) { if (r.chance(60) || prod(s) == 1) make_scalar(*io[k], r, nm, ty); else make(*io[k], r, nm, ty, Shape((size_t)r.in(1, 3), 1), 0); }
        else make(*io[k], r, nm, ty, s, smode);
    }
    make(out, r, "out", ty, s, smode);
    c.d("%s %s bc%d place%d scalar ranks %d %d", site.c_str(), ss(s).c_str(), bc, place, (int)t1.t.rank, (int)t2_.t.rank);
    if (ty != SA8) {
        int f1 = (int)r.in(0, bits(ty) - 1), f2 = minmax || r.chance(30) ? f1 : (int)r.in(0, bits(ty) - 1), fo;
        if (r.chance(10)) { f1 = (int)r.in(-4, bits(ty) + 4); if (minmax) f2 = f1; }
        int nat = op == MUL ? f1 + f2 : std::max(f1, f2);
        fo = r.chance(30) ? f1 : r.chance(80) ? nat - (int)r.in(-3, bits(ty)) : nat - (int)r.in(-8, 40);
        fo = std::max(-40, std::min(60, fo));
        fx(t1, f1); fx(t2_, f2); fx(out, fo);
        c.d(" frac %d %d -> %d", f1, f2, fo);
    } else {
        auto sc = [&]() { return r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff); };
        auto zp = [&]() { return r.chance(25) ? 0 : r.in(-128, 127); };
        bool ext = mille(r, 30); int f = ext ? (int)r.in(-90, 110) : (int)r.in(6, 24);      // ext: scales of very different magnitude
        quant(t1, sc(), f, zp());
        quant(t2_, sc(), ext ? (int)r.in(-90, 110) : f + (r.chance(70) ? (int)r.in(-3, 3) : (int)r.in(-12, 12)), zp());
        if (minmax) t2_.t.el_params = t1.t.el_params;
        double want = op == MUL ? t1.real_scale() * t2_.real_scale() * (r.chance(50) ? 256 : 1) : std::max(t1.real_scale(), t2_.real_scale());
        int64_t so = sc();
        int fo = (int)std::lround(std::log2((double)so) - std::log2(want) + (r.chance(75) ? r.in(-30, 30) / 10.0 : r.in(-150, 150) / 10.0));
        if (ext && (fo < -100 || fo > 115 || r.chance(50))) fo = (int)r.in(-90, 110);
        if (fo < -100 || fo > 115) { c.skipped = true; return; }
        if (r.chance(20)) out.t.el_params = t1.t.el_params; else quant(out, so, fo, zp());
        c.d(" sa (%lld>>%lld zp%lld) (%lld>>%lld zp%lld) -> (%lld>>%lld zp%lld)", (long long)t1.scale(), (long long)t1.sfrac(), (long long)t1.zpv(), (long long)t2_.scale(), (long long)t2_.sfrac(), (long long)t2_.zpv(), (long long)out.scale(), (long long)out.sfrac(), (long long)out.zpv());
    }
    for (int k = 0; k < 2; k++) { if (io[k]->t.rank == 0) { set_scalar(*io[k], val(r, (int)r.in(0, 3), tmin(ty), tmax(ty))); } else fill(*io[k], r); }
    // ------------------------------------------------------------ model
    auto v1 = t1.vals(), v2 = t2_.vals();
    int64_t n = out.n(); std::vector<int64_t> exp(n);
    double maxerr = -1e9; bool bad = false;
    Elt model(op, ty, qp(t1), qp(t2_), qp(out));
    for (int64_t i = 0; i < n; i++) {
        int64_t a = v1[v1.size() == 1 ? 0 : i], b = v2[v2.size() == 1 ? 0 : i], q = model(a, b); double real, tol = 1.01;
        if (ty != SA8) {
            double ra_ = a * std::pow(2.0, -t1.frac()), rb_ = b * std::pow(2.0, -t2_.frac());
            real = op == MIN ? std::min(ra_, rb_) : op == MAX ? std::max(ra_, rb_) : op == MUL ? ra_ * rb_ : op == ADD ? ra_ + rb_ : ra_ - rb_;
            real *= std::pow(2.0, out.frac());
        } else {
            int64_t x = a - t1.zpv(), y = b - t2_.zpv();
            double rx = x * t1.real_scale() / out.real_scale(), ry = y * t2_.real_scale() / out.real_scale();
            if (minmax) real = op == MIN ? std::min(rx, ry) : std::max(rx, ry);
            else if (op == MUL) { real = x * t1.real_scale() * y * t2_.real_scale() / out.real_scale(); tol = 1.6; }
            else { real = op == ADD ? rx + ry : rx - ry; tol = 2.1; }
            tol += (std::fabs(rx) + std::fabs(ry)) / 8192;
            real += out.zpv();
        }
        real = std::max<double>(tmin(ty), std::min<double>(tmax(ty), real));
        bool usual = ty == SA8;
        if (!usual) { int B = bits(ty); usual = t1.frac() >= 0 && t1.frac() < B && t2_.frac() >= 0 && t2_.frac() < B && out.frac() >= 0 && out.frac() < B; }
        if (usual && std::fabs(real - q) > tol) { maxerr = std::max(maxerr, std::fabs(real - q)); if (!bad) c.d(" model: a %lld b %lld q %lld ideal %f", (long long)a, (long long)b, (long long)q, real); bad = true; }
        exp[i] = q;
    }
    c.count("real_valued_checked", n);
    if (bad) c.fail("ideal", site + ":ideal", "library rule is %f off the represented operation", maxerr);
    c.nontrivial = mixed(exp); c.count("fn:" + site); if (bc) c.count("broadcast"); if (place) c.count("inplace");
    Prot p(c, site);
    for (Ten* t : io) { int big = 0; for (int i = 0; i < t->t.rank; i++) big += t->t.shape[i] > 1; if (big < 2) p.may(*t, "shorter_dim"); }   // becomes a scalar
    EltFn f = kFn[op][tyi];
    if (place) {
        // the output tensor reuses the input's memory with the same strides
        Ten& src = *io[place - 1]; Ten& oth = *io[2 - place];
        for (int i = 0; i < src.t.rank; i++) out.t.mem_stride[i] = src.t.mem_stride[i];
        out.off = src.off; out.live = src.live; out.mem = std::move(src.mem); out.t.data = src.t.data;
        p.inplace = true; p.in(oth).out(out);
        mli_tensor saved = src.t;
        if (!p.run([&] { return place == 1 ? f(&src.t, &oth.t, &out.t) : f(&oth.t, &src.t, &out.t); })) return;
        if (memcmp(&saved, &src.t, sizeof saved)) c.fail("memory", site + ":input_struct", "input structure modified");
    } else {
        p.in(t1).in(t2_).out(out);
        for (int k = 0; k < 2; k++) if (io[k]->n() == 1) p.may(*io[k], "inner_stride lower_rank higher_rank longer_dim shorter_dim", 15);
        for (int k = 0; k < 2; k++) if (io[1 - k]->n() == 1) p.may(*io[k], "longer_dim shorter_dim");
        if (t1.n() > 1 && t2_.n() > 1) for (int k = 0; k < 2; k++) p.badt(*io[k], "shorter_dim2", [](mli_tensor& t, Rng& q) { int d = (int)q.in(0, (int)t.rank - 1); if (t.shape[d] < 3) return false; t.shape[d]--; return true; });
#ifdef MON_CHK
        if (minmax && ty == SA8) p.badt(t2_, "minmax_zero_point", [](mli_tensor& t, Rng& q) { auto& z = t.el_params.sa.zero_point.mem.i16; z = (int16_t)(z > 0 ? z - 1 : z + 1); return true; })
            .badt(t2_, "minmax_scale", [](mli_tensor& t, Rng& q) { auto& z = t.el_params.sa.scale.mem.i16; z = (int16_t)(z > 1 ? z - 1 : z + 1); return true; })
            .badt(t2_, "minmax_scale_frac", [](mli_tensor& t, Rng& q) { t.el_params.sa.scale_frac_bits.mem.i8++; return true; });
        if (minmax && ty != SA8) p.badt(t2_, "minmax_frac", [](mli_tensor& t, Rng& q) { t.el_params.fx.frac_bits++; return true; });
#endif
        if (!p.run([&] { return f(&t1.t, &t2_.t, &out.t); })) return;
    }
    compare(c, site, out, exp);
}
MON_TEST(elt_add) { elt_case(c, ADD); }
MON_TEST(elt_sub) { elt_case(c, SUB); }
MON_TEST(elt_mul) { elt_case(c, MUL); }
MON_TEST(elt_min) { elt_case(c, MIN); }
MON_TEST(elt_max) { elt_case(c, MAX); }

// 2.0 helpers: format conversion and tensor queries.
#ifdef MLI_DEBUG_MODE
#define MON_CHECKING_BUILD
#endif
#include "models.h"
#include "mli_helpers_api.h"
using namespace t2;

namespace {
bool isSa(Ty t) { return t == SA8 || t == SA32; }
// scale / shift / zero of index k, as the conversion formula uses them
struct Q { int64_t s, f, z; };
Q q_of(const Ten& t, int k) { if (t.ty == FP32) return {1, 0, 0}; if (!t.sa()) return {1, t.frac(), 0}; return {t.scale(t.t.el_params.sa.dim < 0 ? 0 : k), t.sfrac(t.t.el_params.sa.dim < 0 ? 0 : k), t.zpv(t.t.el_params.sa.dim < 0 ? 0 : k)}; }

struct Req { int64_t scale, shift; };
Req requant(Q a, Q b) {
    int pre = rm::norm(a.s, 32) - rm::norm(b.s, 16);
    int64_t u = (a.s << pre) / b.s; int ns = 16 - rm::norm(u, 32);
    return {(int64_t)rm::cast(u, ns, 32, 16), pre + a.f - b.f - ns};
}
int64_t conv1(Q a, Q b, Req r, int64_t v, Ty ot, bool wide) {
    using namespace rm;
    if (!wide) {
        i128 acc = satw(v - a.z, 16) * r.scale; int sh = (int)std::min<int64_t>(r.shift, 31);
        return (int64_t)satw(satw(rshr(acc, sh, 32) + b.z, 32), bits(ot));
    }
    i128 x = satw((i128)v - a.z, 32); int n = norm((int64_t)x, 32); x = shl(x, n, 32);
    int m = norm(r.scale, 32); i128 s = shl(r.scale, m, 32); i128 hi = (x * s) >> 32;
    int sh = (int)std::min<int64_t>(r.shift, 63) + n + m - 32;
    return (int64_t)satw(satw(rshr(hi, sh, 32) + b.z, 32), bits(ot));
}
void rquant(Ten& t, Rng& r, const Shape& s, int dim) {
    if (t.ty == FX8 || t.ty == FX16) { fx(t, r.chance(85) ? (int)r.in(0, bits(t.ty) - 1) : (int)r.in(-6, 20)); return; }
    if (t.ty == FP32) { memset(&t.t.el_params, 0, sizeof t.t.el_params); return; }
    int64_t zl = r.chance(80) ? 128 : 3000; auto f = [&] { return r.chance(85) ? r.in(5, 20) : r.in(-4, 40); };
    auto sc = [&] { return r.chance(20) ? (int64_t)1 << r.in(0, 14) : r.chance(70) ? r.in(1 << 12, 0x7fff) : r.in(1, 0x7fff); };
    int64_t z0 = t.ty == SA32 ? 0 : zl;
    if (dim < 0) { quant(t, sc(), f(), r.in(-z0, std::max<int64_t>(z0 - 1, 0))); return; }
    std::vector<int64_t> a, b, c; int64_t base = f();
    for (int i = 0; i < s[dim]; i++) { a.push_back(sc()); b.push_back(r.chance(80) ? base + r.in(-1, 1) : f()); c.push_back(r.in(-z0, std::max<int64_t>(z0 - 1, 0))); }
    quant_axis(t, dim, a, b, c);
}
}  // namespace

MON_TEST(convert) {
    Rng& r = c.r; Ty a = (Ty)r.in(0, 4), b = (Ty)r.in(0, 4);
    bool anyf = a == FP32 || b == FP32; bool safx = !anyf && r.chance(50);
    std::string site = std::string("mli_hlp_convert_tensor") + (safx ? "_safx" : "") + ":" + tn(a) + "_" + tn(b);
    Shape s = rshape(r); int rank = (int)s.size(), dim = (int)r.in(0, rank - 1);
    bool inplace = esz(a) == esz(b) && r.chance(25);
    Ten in, out; make(in, r, "in", a, s, r.chance(60) ? 1 : 0); make(out, r, "out", b, s, r.chance(60) ? 1 : 0);
    if (inplace) { in.mem.reset(); in.mem.reset(new Raw(out.mem->n)); in.off = out.off; in.live = out.live; memcpy(in.t.mem_stride, out.t.mem_stride, sizeof in.t.mem_stride); in.t.data = out.t.data; set_ptr(in.t.data, a, in.mem->p); set_ptr(out.t.data, b, out.mem->p); }
    int da = isSa(a) && r.chance(40) ? dim : -1, db = isSa(b) && r.chance(40) ? dim : -1;
    rquant(in, r, s, da); rquant(out, r, s, db);
    if (r.chance(20) && isSa(a) && a == b && da == db) { out.t.el_params = in.t.el_params; if (da >= 0) { std::vector<int64_t> x, y, z; for (int i = 0; i < s[da]; i++) { x.push_back(in.scale(i)); y.push_back(in.sfrac(i)); z.push_back(in.zpv(i)); } quant_axis(out, da, x, y, z); } }
    int qd = da >= 0 ? da : db;
    auto k_of = [&](int64_t i) { if (qd < 0) return 0; int64_t inner = 1; for (int d = qd + 1; d < rank; d++) inner *= s[d]; return (int)((i / inner) % s[qd]); };
    if (a == FP32) {
        int mode = (int)r.in(0, 3);
        for (int64_t i = 0; i < in.n(); i++) {
            Q q = q_of(out, k_of(i)); double u = q.s * std::pow(2., -(double)q.f);       // one output step
            double lim = b == SA32 || b == FP32 ? 2.0e9 : b == FX16 ? 40000 : 200, x;
            if (mode == 0) x = ((double)r.in(-1000000, 1000000) / 1e6) * lim; else if (mode == 1) x = (double)r.in(-200, 200) + (r.chance(50) ? .5 : .25 * r.in(0, 3)); else if (mode == 2) x = std::pow(2., (double)r.in(-10, 60)) * (r.chance(50) ? 1 : -1) * (1 + r.in(0, 1000) / 1000.); else x = (double)r.in(-(int64_t)lim, (int64_t)lim);
            if (r.chance(5)) x = 0;
            in.setf(i, (float)((x - (r.chance(50) ? q.z : 0)) * u));
        }
    } else {
        fill(in, r);
        if (r.chance(40)) for (int64_t i = 0; i < in.n(); i++) { int64_t z = q_of(in, k_of(i)).z; in.set(i, std::max(tmin(a), std::min(tmax(a), z + r.in(-40, 40)))); }
    }
    c.d("%s %s strides [%d %d %d %d] -> [%d %d %d %d] axis %d/%d inplace %d", site.c_str(), ss(s).c_str(), in.t.mem_stride[0], in.t.mem_stride[1], in.t.mem_stride[2], in.t.mem_stride[3], out.t.mem_stride[0], out.t.mem_stride[1], out.t.mem_stride[2], out.t.mem_stride[3], da, db, inplace);
    { Q x = q_of(in, 0), y = q_of(out, 0); c.d(" q %lld*2^-%lld z %lld -> %lld*2^-%lld z %lld", (long long)x.s, (long long)x.f, (long long)x.z, (long long)y.s, (long long)y.f, (long long)y.z); }
    c.count("pair:" + std::string(tn(a)) + "_" + tn(b)); if (inplace) c.count("inplace");
    if (qd >= 0) c.count(std::string("per_axis:") + (da >= 0 ? "in" : "") + (db >= 0 ? "out" : ""));
    Prot p(c, site); p.inplace = inplace; mli_tensor ti = in.t;
    bool axes = isSa(a) && isSa(b) && da >= 0 && db >= 0;
    p.misuse = !inplace; p.may(in, "scale_not_positive zero_point_range el_type becomes_per_axis becomes_per_tensor").may(out, "scale_not_positive zero_point_range el_type becomes_per_axis becomes_per_tensor");
    if (!axes) p.may(in, "other_axis").may(out, "other_axis");
#ifdef MON_CHK
    if (a == b) p.badt(out, "inplace_other_strides", [&](mli_tensor& t, Rng& q) {
        bool same = true; for (int i = 0; i < rank; i++) same &= t.mem_stride[i] == in.t.mem_stride[i];
        if (same) t.mem_stride[0] += (int)q.in(1, 9);
        t.data.mem.pi8 = (int8_t*)in.mem->p; t.data.capacity = (uint32_t)std::max(span_bytes(t, esz(a)), in.mem->n); return true; });
#endif
    if (inplace) { for (int64_t i = 0; i < in.n(); i++) memcpy(out.at(i), in.at(i), esz(a)); ti.data = in.t.data; set_ptr(ti.data, a, out.mem->p); p.out(out); }
    else p.in(in).out(out);
    if (!p.run([&] { const mli_tensor* pi = inplace ? &ti : &in.t; return safx ? mli_hlp_convert_tensor_safx(pi, &out.t) : mli_hlp_convert_tensor(pi, &out.t); })) return;
    if (!anyf) {
        std::vector<int64_t> exp(out.n());
        std::map<int, Req> cache;
        for (int64_t i = 0; i < out.n(); i++) {
            int k = k_of(i); Q x = q_of(in, k), y = q_of(out, k); auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, requant(x, y)).first;
            exp[i] = conv1(x, y, it->second, in.get(i), b, esz(a) == 4 || esz(b) == 4);
        }
        c.nontrivial = mixed(exp); compare(c, site, out, exp);
        return;
    }
    c.count("outputs_checked", out.n()); int64_t v0 = 0;
    for (int64_t i = 0; i < out.n(); i++) {
        Q q = q_of(b == FP32 ? in : out, k_of(i)); double u = q.s * std::pow(2., -(double)q.f);
        if (b == FP32) {
            double e = a == FP32 ? in.getf(i) : (double)rm::satw((i128)in.get(i) - q.z, 32) * u, g = out.getf(i);
            c.h((uint64_t)llrint(e * 1024)); if (e != 0) c.nontrivial = true;
            if (!(std::fabs(g - e) <= (a == FP32 ? 0 : std::fabs(e) * std::pow(2., -21)))) { c.fail("value", site + ":value", "[%lld]: got %.9g expected %.9g", (long long)i, g, e); return; }
        } else {
            double x = (double)in.getf(i) / u, e = x + q.z, lo = (double)tmin(b), hi = (double)tmax(b); int64_t g = out.get(i);
            double ec = std::max(lo, std::min(hi, e)), tol = .5 + std::fabs(x) * std::pow(2., -21) + 1e-6;
            if (std::fabs(x) > 2147483647.) { double xs = x > 0 ? 2147483647. : -2147483648.; ec = std::max(lo, std::min(hi, xs + q.z)); }      // the unshifted value is limited to 32 bits
            c.h((uint64_t)llrint(ec)); if (i == 0) v0 = g; else if (g != v0) c.nontrivial = true;
            bool exact = (q.s & (q.s - 1)) == 0 && std::fabs(x) < (1 << 20) && (float)(x * 4) == std::floor(x * 4);
            double ex = x < 0 ? -std::floor(-x + .5) : std::floor(x + .5); ex = std::max(lo, std::min(hi, ex + q.z));
            if (exact ? (double)g != ex : !(std::fabs(g - ec) <= tol)) { c.fail("value", site + ":value", "[%lld]: %.9g (step %.6g zero %lld) became %lld, expected %.4f", (long long)i, in.getf(i), u, (long long)q.z, (long long)g, exact ? ex : ec); return; }
            if (exact) c.count("exact_ties_checked");
        }
    }
}

MON_TEST(queries) {
    Rng& r = c.r; Ty ty = (Ty)r.in(0, 4); Shape s = rshape(r); int rank = (int)s.size();
    Ten t; make(t, r, "t", ty, s, (int)r.in(0, 2)); int dim = isSa(ty) && r.chance(50) ? (int)r.in(0, rank - 1) : -1; rquant(t, r, s, dim); fill(t, r);
    mli_tensor before = t.t; c.nontrivial = true;
    c.d("%s %s axis %d", tn(ty), ss(s).c_str(), dim); c.h(prod(s)); c.h(ty); c.h(dim);
    auto chk = [&](const char* fn, int64_t g, int64_t e) { c.count("calls"); c.count("outputs_checked"); c.h(e); c.count(std::string("fn:") + fn); if (g != e) c.fail("value", fn, "returned %lld, expected %lld", (long long)g, (long long)e); };
    for (int d = 0; d < rank; d++) { int64_t n = 1; for (int i = d; i < rank; i++) n *= s[i]; chk("mli_hlp_count_elem_num", mli_hlp_count_elem_num(&t.t, d), n); }
    chk("mli_hlp_tensor_element_size", mli_hlp_tensor_element_size(&t.t), esz(ty));
    int nk = dim < 0 ? 1 : s[dim];
    for (int k = 0; k < nk; k++) { Q q = q_of(t, k); chk("mli_hlp_tensor_scale", mli_hlp_tensor_scale(&t.t, k), q.s); chk("mli_hlp_tensor_scale_shift", mli_hlp_tensor_scale_shift(&t.t, k), q.f); chk("mli_hlp_tensor_zero_offset", mli_hlp_tensor_zero_offset(&t.t, k), q.z); }
    chk("mli_hlp_accu_guard_bits_sa8_sa8", mli_hlp_accu_guard_bits_sa8_sa8(), 16);
    chk("mli_hlp_accu_guard_bits_fx16_fx8", mli_hlp_accu_guard_bits_fx16_fx8(), 8);
    { int g = mli_hlp_accu_guard_bits_fx16_fx16(); c.count("calls"); if (g < 8 || g > 32) c.fail("value", "mli_hlp_accu_guard_bits_fx16_fx16", "%d guard bits", g); }
    {   // tensors over the same / another buffer
        Ten o; make(o, r, "o", r.chance(60) ? ty : (Ty)r.in(0, 4), s, 0); bool same = r.chance(50); mli_tensor x = o.t; if (same) { x.data = t.t.data; }
        if (r.chance(10)) x.rank = 0;
        bool e = x.el_type == t.t.el_type && x.rank != 0 && same;
        chk("mli_hlp_tensor_data_ptr_cmp", mli_hlp_tensor_data_ptr_cmp(&t.t, &x), e); chk("mli_hlp_tensor_data_ptr_cmp", mli_hlp_tensor_data_ptr_cmp(&x, &t.t), e);
    }
    if (memcmp(&before, &t.t, sizeof before)) c.fail("memory", "queries:struct", "tensor modified by a query");
    {
        mli_tensor x = t.t, e = t.t; for (int i = 0; i < rank; i++) x.mem_stride[i] = (int)r.in(0, 100); int st = 1; for (int i = rank - 1; i >= 0; i--) { e.mem_stride[i] = st; st *= s[i]; }
        mli_hlp_set_tensor_mem_strides(&x); c.count("calls"); c.count("outputs_checked");
        if (memcmp(&x, &e, sizeof x)) c.fail("value", "mli_hlp_set_tensor_mem_strides", "strides of a dense tensor expected, nothing else changed");
    }
}

// every element of the sub-tensor must be the element of the parent at the shifted coordinates, with the same real value
static void same_view(Case& c, const std::string& site, const Ten& in, const mli_tensor& o, const std::vector<int>& off, const std::vector<int>& kept, const Shape& os) {
    const uint8_t* base = (const uint8_t*)o.data.mem.pi8; int es = esz(in.ty); int64_t n = prod(os);
    if (base < in.mem->p || base > in.mem->p + in.mem->n) { c.fail("value", site + ":data", "data pointer outside the parent's buffer"); return; }
    if (base + o.data.capacity > in.mem->p + in.mem->n) { c.fail("memory", site + ":capacity", "capacity %u reaches beyond the parent's buffer", o.data.capacity); return; }
    auto& q = o.el_params.sa; bool axis = in.sa() && q.dim >= 0;
    if (axis) {
        if (q.dim >= (int)o.rank) { c.fail("value", site + ":dim", "quantised dimension %d of a rank %u tensor", q.dim, o.rank); return; }
        uint64_t k = o.shape[q.dim];
        auto inside = [&](const Raw& m, const void* p, uint64_t need, uint64_t cap) { return (uint8_t*)p >= m.p && (uint8_t*)p + need <= m.p + m.n && cap >= need && (uint8_t*)p + cap <= m.p + m.n; };
        if (!inside(*in.sc, q.scale.mem.pi16, k * 2, q.scale.capacity) || !inside(*in.zp, q.zero_point.mem.pi16, k * 2, q.zero_point.capacity) || !inside(*in.sf, q.scale_frac_bits.mem.pi8, k, q.scale_frac_bits.capacity)) { c.fail("memory", site + ":quant_arrays", "quantisation arrays (%u, %u, %u bytes) reach outside the parent's arrays", q.scale.capacity, q.zero_point.capacity, q.scale_frac_bits.capacity); return; }
    }
    for (int64_t i = 0; i < n; i++) {
        std::vector<int> co(os.size()), ci = off; int64_t x = i; size_t pos = 0;
        for (int d = (int)os.size() - 1; d >= 0; d--) { co[d] = (int)(x % os[d]); x /= os[d]; pos += (size_t)co[d] * o.mem_stride[d]; ci[kept[d]] += co[d]; }
        int64_t pi = in.idx(ci);
        if (base + pos * es != in.at(pi)) { c.fail("value", site + ":element", "element %lld of the sub-tensor is at byte %lld, the parent element is at %lld", (long long)i, (long long)(base + pos * es - in.mem->p), (long long)(in.at(pi) - in.mem->p)); return; }
        if (pos * es + es > o.data.capacity) { c.fail("memory", site + ":capacity", "capacity %u does not cover element %lld", o.data.capacity, (long long)i); return; }
        if (in.sa()) {
            int pd = in.t.el_params.sa.dim; Q e = q_of(in, pd < 0 ? 0 : ci[pd]); Q g = axis ? Q{q.scale.mem.pi16[co[q.dim]], q.scale_frac_bits.mem.pi8[co[q.dim]], q.zero_point.mem.pi16[co[q.dim]]} : Q{q.scale.mem.i16, q.scale_frac_bits.mem.i8, q.zero_point.mem.i16};
            if (g.s != e.s || g.f != e.f || g.z != e.z) { c.fail("value", site + ":quant", "element %lld has scale %lld*2^-%lld zero %lld, the parent element %lld*2^-%lld zero %lld", (long long)i, (long long)g.s, (long long)g.f, (long long)g.z, (long long)e.s, (long long)e.f, (long long)e.z); return; }
        }
    }
    if (!in.sa() && in.ty != FP32 && o.el_params.fx.frac_bits != in.frac()) c.fail("value", site + ":frac", "frac_bits not copied");
}
#ifdef MON_CHK
// misuse of the sub-tensor helpers: the configuration, or the input description
template <class G, class F> void refused(Case& c, const std::string& site, Ten& in, Raw& cm, G corrupt, int kinds, F call, Raw& out) {
    Rng q(c.seed ^ 0xBADC0DEull); q.next(); std::vector<uint8_t> cfg0(cm.p, cm.p + cm.n), out0(out.p, out.p + out.n);
    static const char* kAxis = " axis_above_rank axis_scale_capacity axis_zero_point_capacity axis_frac_capacity axis_scale_null axis_zero_point_null axis_frac_null ";
    static const char* kAny = " null_data rank_above_4 zero_dim negative_stride overlapping_strides small_capacity wrapping_size ";
    for (int n = 0, tries = 0; n < 4 && tries < 16; tries++) {
        mli_tensor t = in.t; const char* what = nullptr; std::string w;
        if (q.chance(50)) { what = corrupt((int)q.in(0, kinds - 1), q); if (what) w = what; }
        else for (auto& b : tensor_bads(in, 0, 0)) if ((strstr(kAny, (" " + b.name + " ").c_str()) || strstr(kAxis, (" " + b.name + " ").c_str())) && q.chance(25) && b.f(t, q)) { w = b.name; break; }
        if (w.empty()) { memcpy(cm.p, cfg0.data(), cm.n); continue; }
        n++; c.count("misuse_calls"); c.count("misuse:" + w); c.d(" [misuse %s]", w.c_str()); memcpy(out.p, out0.data(), out.n);
        mli_tensor sent = t; mli_status st = call(&t);
        if (st == MLI_STATUS_OK) c.fail("value", site + "|" + w + ":accepted", "misuse accepted: %s", w.c_str());
        else if (memcmp(&sent, &t, sizeof t) || memcmp(out.p, out0.data(), out.n)) c.fail("memory", site + "|" + w + ":written", "a refused call modified its operands");
        memcpy(cm.p, cfg0.data(), cm.n); g_tmp.clear();
    }
}
#endif
MON_TEST(subtensor) {
    Rng& r = c.r; Ty ty = (Ty)r.in(0, 3); Shape s = rshape(r); int rank = (int)s.size(); std::string site = "mli_hlp_create_subtensor";
    Ten in; make(in, r, "in", ty, s, (int)r.in(0, 2)); int dim = isSa(ty) && r.chance(60) ? (int)r.in(0, rank - 1) : -1; rquant(in, r, s, dim); fill(in, r);
    Raw cm(sizeof(mli_sub_tensor_cfg)); auto* cfg = (mli_sub_tensor_cfg*)cm.p; std::vector<int> off(rank), sz(rank); int ones = 0;
    for (int i = 0; i < rank; i++) { off[i] = r.chance(40) ? 0 : (int)r.in(0, s[i] - 1); sz[i] = r.chance(30) ? 1 : r.chance(40) ? s[i] - off[i] : (int)r.in(1, s[i] - off[i]); ones += sz[i] == 1; }
    for (int i = 0; i < MLI_MAX_RANK; i++) { cfg->offset[i] = i < rank ? (uint32_t)off[i] : (uint32_t)r.next(); cfg->size[i] = i < rank ? (uint32_t)sz[i] : (uint32_t)r.next(); }
    int drop = r.chance(40) ? 0 : (int)r.in(0, std::min(ones, rank - 1)); cfg->sub_tensor_rank = rank - drop;
    std::vector<int> kept; Shape os; int sk = drop; for (int i = 0; i < rank; i++) { if (sk && sz[i] == 1) { sk--; continue; } kept.push_back(i); os.push_back(sz[i]); }
    Raw om(sizeof(mli_tensor)); for (size_t i = 0; i < om.n; i++) om.p[i] = (uint8_t)r.next(); auto* o = (mli_tensor*)om.p;
    c.d("%s %s %s axis %d off %s size %s rank %d", site.c_str(), tn(ty), ss(s).c_str(), dim, ss(off).c_str(), ss(sz).c_str(), rank - drop); c.nontrivial = prod(os) > 1;
    c.h(prod(os)); for (int x : off) c.h(x); for (int x : sz) c.h(x); c.count("dropped:" + std::to_string(drop));
    const mli_tensor full = in.t;
#ifndef MON_CHECKING_BUILD  // (checking builds refuse zero strides)
    // strides of a dense layout may be left out (zero): they follow from the shape
    if (r.chance(40)) for (int i = 0; i < rank; i++) if (full.mem_stride[i] == (i + 1 < rank ? full.mem_stride[i + 1] * s[i + 1] : 1) && r.chance(70)) { in.t.mem_stride[i] = 0; c.count("strides_left_out"); }
#endif
    std::vector<uint8_t> keep(in.mem->p, in.mem->p + in.mem->n); mli_tensor before = in.t;
    mli_status st = mli_hlp_create_subtensor(&in.t, cfg, o); c.count("calls"); c.count("outputs_checked");
    if (st != MLI_STATUS_OK) { c.fail("status", site + ":status", "status %d", (int)st); return; }
    if (memcmp(&before, &in.t, sizeof before) || memcmp(keep.data(), in.mem->p, keep.size())) c.fail("memory", site + ":input", "input tensor modified");
    in.t = full;
    if (o->rank != (uint32_t)os.size() || o->el_type != mt(ty)) { c.fail("value", site + ":rank", "rank %u type %x", o->rank, (unsigned)o->el_type); return; }
    for (size_t i = 0; i < os.size(); i++) if (o->shape[i] != (uint32_t)os[i] || o->mem_stride[i] != in.t.mem_stride[kept[i]]) { c.fail("value", site + ":shape", "dimension %zu: shape %u stride %d", i, o->shape[i], o->mem_stride[i]); return; }
    size_t first = 0; for (int i = 0; i < rank; i++) first += (size_t)off[i] * in.t.mem_stride[i];
    if (o->data.capacity != in.t.data.capacity - first * esz(ty)) c.fail("value", site + ":capacity", "capacity %u, expected %zu", o->data.capacity, in.t.data.capacity - first * esz(ty));
    same_view(c, site, in, *o, off, kept, os);
#ifdef MON_CHK
    int must = 0; for (int i = 0; i < rank; i++) must += sz[i] != 1;
    refused(c, site, in, cm, [&](int k, Rng& q) -> const char* {
        int i = (int)q.in(0, rank - 1);
        if (k == 0) { cfg->offset[i] = (uint32_t)(s[i] + (q.chance(60) ? 0 : q.in(0, 0x7fffffff))); return "offset_beyond"; }
        if (k == 1) { cfg->size[i] = (uint32_t)(s[i] - off[i] + (q.chance(60) ? 1 : q.in(1, 0x7fffffff))); return "size_beyond"; }
        if (k == 2) { if (!off[i]) return nullptr; cfg->size[i] = (uint32_t)-off[i] + (uint32_t)q.in(0, std::min(s[i], off[i] - 1)); return "size_wraps"; }
        if (k == 3) { cfg->sub_tensor_rank = (uint32_t)(q.chance(60) ? rank + 1 : rank + q.in(1, 0x7fffffff)); return "rank_above_input"; }
        if (must < 2) return nullptr;
        cfg->sub_tensor_rank = (uint32_t)q.in(1, must - 1); return "rank_unreachable";
    }, 5, [&](mli_tensor* t) { auto st = mli_hlp_create_subtensor(t, cfg, o); return st; }, om);
#endif
}
MON_TEST(point_to) {
    Rng& r = c.r; Ty ty = (Ty)r.in(0, 4); Shape s = rshape(r); int rank = (int)s.size(); std::string site = "mli_hlp_point_to_subtensor";
    Ten in; make(in, r, "in", ty, s, 0); rquant(in, r, s, -1); fill(in, r);
    Raw cm(sizeof(mli_point_to_subtsr_cfg)); auto* cfg = (mli_point_to_subtsr_cfg*)cm.p; int cn = (int)r.in(1, rank); std::vector<int> off(rank, 0);
    for (int i = 0; i < MLI_MAX_RANK; i++) cfg->start_coord[i] = (uint32_t)r.next();
    for (int i = 0; i < cn; i++) cfg->start_coord[i] = off[i] = (int)r.in(0, s[i] - 1);
    cfg->coord_num = (uint8_t)cn; int first = (int)r.in(1, std::min(255, s[cn - 1] - off[cn - 1])); cfg->first_out_dim_size = (uint8_t)first;
    Shape os{first}; std::vector<int> kept{cn - 1}; for (int i = cn; i < rank; i++) { os.push_back(s[i]); kept.push_back(i); }
    mli_tensor o; memset(&o, 0x3c, sizeof o); int st = 1; for (int i = (int)os.size() - 1; i >= 0; i--) { o.mem_stride[i] = st; st *= os[i]; }
    c.d("%s %s %s coords %d off %s first %d", site.c_str(), tn(ty), ss(s).c_str(), cn, ss(off).c_str(), first); c.nontrivial = prod(os) > 1; c.h(prod(os)); for (int x : off) c.h(x); c.h(ty);
    mli_status ret = mli_hlp_point_to_subtensor(&in.t, cfg, &o); c.count("calls"); c.count("outputs_checked");
    if (ret != MLI_STATUS_OK) { c.fail("status", site + ":status", "status %d", (int)ret); return; }
    if (o.rank != (uint32_t)os.size() || o.el_type != mt(ty)) { c.fail("value", site + ":rank", "rank %u", o.rank); return; }
    for (size_t i = 0; i < os.size(); i++) if (o.shape[i] != (uint32_t)os[i]) { c.fail("value", site + ":shape", "dimension %zu: %u", i, o.shape[i]); return; }
    same_view(c, site, in, o, off, kept, os);
#ifdef MON_CHK
    Raw ob(sizeof o); memcpy(ob.p, &o, sizeof o);
    refused(c, site, in, cm, [&](int k, Rng& q) -> const char* {
        if (k == 0) { cfg->coord_num = (uint8_t)(q.chance(60) ? rank + 1 : q.in(rank + 1, 255)); return "coord_num_beyond"; }
        if (k == 1) { cfg->coord_num = 0; return "coord_num_zero"; }
        if (k == 2) { int i = (int)q.in(0, cn - 1); cfg->start_coord[i] = (uint32_t)(s[i] + (q.chance(60) ? 0 : q.in(0, 0x7fffffff))); return "start_beyond"; }
        int f = s[cn - 1] - off[cn - 1] + 1; if (f > 255) return nullptr;
        cfg->first_out_dim_size = (uint8_t)(q.chance(60) ? f : q.in(f, 255)); return "size_beyond";
    }, 4, [&](mli_tensor* t) { return mli_hlp_point_to_subtensor(t, cfg, (mli_tensor*)ob.p); }, ob);
#endif
}


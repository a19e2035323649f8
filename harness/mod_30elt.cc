// MLI 3.0 element-wise, rescale, clip, PReLU, reduction, pooling, permute, resize
// and move kernels - untiled and tiled, after relocation.
#include "t3.h"
#include "mli_api.h"
using namespace t3;
typedef m3::TensorIterator<m3::NoBuffer, 4, 4> It4;
typedef m3::IteratorCfg<4> Cfg4;
static const int32_t kOrd[5] = {0, 1, 2, 3, 4};

template <unsigned R> struct TileIt {   // harness' own walk over the tiles of a plain tiling
    int64_t dim[R], tile[R], n[R], idx[R];
    TileIt(const Arr& a, const uint32_t* t) { for (unsigned i = 0; i < R; i++) { dim[i] = i < a.shape.size() ? a.shape[i] : 1; tile[i] = t[i]; n[i] = (dim[i] + tile[i] - 1) / tile[i]; idx[i] = 0; } }
    void get(int32_t* o, uint32_t* s) const { for (unsigned i = 0; i < R; i++) { o[i] = (int32_t)(idx[i] * tile[i]); s[i] = (uint32_t)std::min(tile[i], dim[i] - o[i]); } }
    int total() const { int64_t k = 1; for (unsigned i = 0; i < R; i++) k *= n[i]; return (int)k; }
    void next() { for (unsigned i = 0; i < R; i++) { if (++idx[i] < n[i]) return; idx[i] = 0; } }
};
// tensors of a rank below the maximum: whole tensors only
static int low_rank(Rng& r, bool tiled) { return tiled || r.chance(75) ? 4 : (int)r.in(1, 3); }
static It4 iter4(const Arr& a, const uint32_t* ts) {
    uint32_t d[4], t[4]; int32_t q[4]; a.dims(d); a.strs(q); for (int i = 0; i < 4; i++) t[i] = ts[i];
    if (a.shape.size() == 4) return It4(nb<4>(a), t, kOrd);
    return It4(m3::Tensor<m3::NoBuffer, 4>(d, q, (uint32_t)a.shape.size()));
}
static Shape shape4(Rng& r, int m = 6) { Shape s(4); if (mille(r, 15)) { for (int& v : s) v = (int)r.in(1, 2); int cap = r.chance(70) ? 300 : r.chance(95) ? 3000 : 70000; if (cap > 3000) for (int& v : s) v = 1; s[r.in(0, 3)] = wide(r, cap); return s; } for (int i = 0; i < 4; i++) s[i] = r.chance(20) ? 1 : (int)r.in(1, m); return s; }
static void pick_tile(Rng& r, bool tiled, const Shape& s, uint32_t* t) { for (size_t i = 0; i < s.size(); i++) t[i] = tiled ? tile(r, s[i]) : s[i]; for (size_t i = s.size(); i < 4; i++) t[i] = 1; }
template <class S> static std::string su(const S* t, unsigned n) { std::string x = "["; for (unsigned i = 0; i < n; i++) x += (i ? "," : "") + std::to_string((int64_t)t[i]); return x + "]"; }
static bool same(Env& e, const char* what, const int32_t* o, const uint32_t* s, const int32_t* xo, const uint32_t* xs, unsigned n) {
    for (unsigned i = 0; i < n; i++) if (o[i] != xo[i] || s[i] != xs[i]) {
        e.fail("value", "tile_report", std::string(what) + " tile reported at " + su(o, n) + " size " + su(s, n) + " expected " + su(xo, n) + " size " + su(xs, n));
        return false;
    }
    return true;
}

// ---- element-wise --------------------------------------------------------------
struct EAdd { typedef m3r::Add K; static const char* n() { return "add30"; } template <class T> static auto cs(m3r::KernelsFactory& f, Env& e, const T& l, const T& r, const T& o) { return f.Add_CS(e.csmem(f.Add_CS_GetSize()), l, r, o); } static int64_t op(int64_t a, int64_t b) { return a + b; } static int oe(int es) { return es; } };
struct ESub { typedef m3r::Sub K; static const char* n() { return "sub30"; } template <class T> static auto cs(m3r::KernelsFactory& f, Env& e, const T& l, const T& r, const T& o) { return f.Sub_CS(e.csmem(f.Sub_CS_GetSize()), l, r, o); } static int64_t op(int64_t a, int64_t b) { return a - b; } static int oe(int es) { return es; } };
struct EMul { typedef m3r::Mul K; static const char* n() { return "mul30"; } template <class T> static auto cs(m3r::KernelsFactory& f, Env& e, const T& l, const T& r, const T& o) { return f.Mul_CS(e.csmem(f.Mul_CS_GetSize()), l, r, o); } static int64_t op(int64_t a, int64_t b) { return a * b; } static int oe(int) { return 4; } };
struct EMax { typedef m3r::Max K; static const char* n() { return "max30"; } template <class T> static auto cs(m3r::KernelsFactory& f, Env& e, const T& l, const T& r, const T& o) { return f.Max_CS(e.csmem(f.Max_CS_GetSize()), l, r, o); } static int64_t op(int64_t a, int64_t b) { return a > b ? a : b; } static int oe(int es) { return es; } };
struct EMin { typedef m3r::Min K; static const char* n() { return "min30"; } template <class T> static auto cs(m3r::KernelsFactory& f, Env& e, const T& l, const T& r, const T& o) { return f.Min_CS(e.csmem(f.Min_CS_GetSize()), l, r, o); } static int64_t op(int64_t a, int64_t b) { return a < b ? a : b; } static int oe(int es) { return es; } };

template <class E> static void elt(Case& c, Mode md) {
    Rng& r = c.r;
    int es = E::oe(1) == 4 ? (int)r.in(1, 2) : (r.chance(33) ? 4 : (int)r.in(1, 2)), oe = E::oe(es);
    Shape s = shape4(r), one(4, 1);
    int bc = r.chance(60) ? 0 : (int)r.in(1, 2);   // scalar operand: 1 left, 2 right
    Arr a, b, out;
    make(a, r, "left", es, bc == 1 ? one : s, (int)r.in(0, 1)); make(b, r, "right", es, bc == 2 ? one : s, (int)r.in(0, 1)); make(out, r, "output", oe, s, (int)r.in(0, 1));
    fill(a, r); fill(b, r);
    Vals exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) exp[i] = (int64_t)rm::satw(E::op(a.get(bc == 1 ? 0 : i), b.get(bc == 2 ? 0 : i)), oe * 8);
    uint32_t ts[4]; pick_tile(r, md.tiled, s, ts);
    bool old = !md.tiled && r.chance(20);          // tensors instead of plain buffers attached
    bool oldcs = !md.tiled && r.chance(20);        // constructor from tensors
    c.d("%s es %d shape %s scalar %d tile %s old %d", E::n(), es, ss(s).c_str(), bc, su(ts, 4).c_str(), oldcs);
    run(c, std::string(E::n()) + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 oi(nb<4>(out), ts, kOrd);
        It4 li = bc == 1 ? It4(nb<4>(a)) : It4(nb<4>(a), ts, kOrd), ri = bc == 2 ? It4(nb<4>(b)) : It4(nb<4>(b), ts, kOrd);
        auto* op = oldcs ? E::cs(f, e, nb<4>(a), nb<4>(b), nb<4>(out)) : E::cs(f, e, li, ri, oi);
        if (op->GetInputLeftBufferSize() != a.span() || op->GetInputRightBufferSize() != b.span() || op->GetOutputBufferSize() != out.span()) { e.fail("value", "buffer_size", "reported buffer sizes differ from the tensors' spans"); return false; }
        auto& ab = e.buf("left", a.mem.size(), es); auto& bb = e.buf("right", b.mem.size(), es); auto& ob = e.buf("out", out.mem.size(), oe);
        mli_status st;
        if (old) {
            uint32_t d[4]; int32_t q[4];
            m3::Tensor<m3::OffsetBuffer, 4> ta(e.ob(ab), a.dims(d), a.strs(q)), tb(e.ob(bb), b.dims(d), b.strs(q)), to(e.ob(ob), out.dims(d), out.strs(q));
            st = op->AttachBufferOffsets(ta, tb, to, e.none());
        } else st = op->AttachBufferOffsets(e.ob(ab), e.ob(bb), e.ob(ob), e.none());
        if (st != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (a.n() == 1 && !e.load_full(ab, a)) return false;    // scalars are taken over when the object is created
        if (b.n() == 1 && !e.load_full(bb, b)) return false;
        if (!e.start(op)) return false;
        auto* k = impl<typename E::K>(e); if (!k) return false;
        TileIt<4> w(out, ts);
        for (int t = w.total(); t > 0; t--, w.next()) {
            uint32_t ls[4], rs[4], os[4], xs[4]; int32_t lo_[4], ro[4], oo[4], xo[4];
            k->GetIOSizesAndOffsets(ls, rs, os, lo_, ro, oo);
            w.get(xo, xs);
            if (!same(e, "output", oo, os, xo, xs, 4)) return false;
            if (!e.load(ab, a, lo_, ls) || !e.load(bb, b, ro, rs) || !e.issue({&ob}) || !e.store(ob, o, cnt, oo, os) || !e.update()) return false;
        }
        return true;
    });
}
static void elt_any(Case& c, Mode md) {
    switch (c.r.in(0, 4)) { case 0: elt<EAdd>(c, md); break; case 1: elt<ESub>(c, md); break; case 2: elt<EMul>(c, md); break; case 3: elt<EMax>(c, md); break; default: elt<EMin>(c, md); }
}
MON_TEST(elt30) { elt_any(c, mode(c, false)); }
MON_TEST(elt30_tiled) { elt_any(c, mode(c, true)); }

// ---- Rescale / PReLU / Clip --------------------------------------------------------
static int64_t scaled(int64_t v, int64_t ib, int64_t sc, int sh, int64_t obias, int oe) {
    i128 x = rm::satw((i128)v - ib, 32) * sc;
    x = rm::rshr(x, std::max(-63, std::min(63, sh)), 64);
    return (int64_t)rm::satw(rm::satw(x + obias, 64), oe * 8);
}
static int pick_shift(Rng& r) { return r.chance(85) ? (int)r.in(0, 46) : (int)r.in(-128, 127); }
// zero points, scales: mostly meaningful, sometimes at the limits
static int64_t pick_bias(Rng& r, int es) { return r.chance(20) ? 0 : r.chance(20) ? r.pick(std::vector<int64_t>{lo(es), hi(es)}) : es == 4 ? (r.chance(50) ? r.in(-1000, 1000) : r.in(lo(4), hi(4))) : r.in(lo(es), hi(es)); }
static int64_t pick_scale(Rng& r) { return r.chance(15) ? r.pick(std::vector<int64_t>{(int64_t)-32768, (int64_t)32767, (int64_t)0, (int64_t)1, (int64_t)-1}) : r.in(-32768, 32767); }

static void rescale(Case& c, Mode md) {
    Rng& r = c.r;
    int ie = r.chance(60) ? 4 : 1, oe = r.chance(70) ? 1 : 4, rk = low_rank(r, md.tiled);
    Shape s = shape4(r); s.resize(rk);
    int axis = r.chance(35) ? -1 : (int)r.in(0, rk - 1), np = axis < 0 ? 1 : s[axis];
    Arr in, out; make(in, r, "input", ie, s, (int)r.in(0, 1)); out = in; out.name = "output"; out.es = oe; layout(out);
    if (ie == 4 && r.chance(50)) { int b = (int)r.in(4, 31); fill(in, r, -((int64_t)1 << b), ((int64_t)1 << b) - 1); } else fill(in, r);
    struct P { int64_t ib, ob; int sc, sh; }; std::vector<P> p(np);
    for (auto& q : p) { q.ib = pick_bias(r, ie); q.ob = pick_bias(r, oe); q.sc = (int)pick_scale(r); q.sh = pick_shift(r); }
    Vals exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) {
        int64_t q = i; int co[4]; for (int d = rk - 1; d >= 0; d--) { co[d] = (int)(q % s[d]); q /= s[d]; }
        const P& x = p[axis < 0 ? 0 : co[axis]];
        exp[i] = scaled(in.get(i), x.ib, x.sc, x.sh, x.ob, oe);
    }
    uint32_t ts[4]; pick_tile(r, md.tiled, s, ts);
    c.d("rescale %d->%d shape %s axis %d tile %s p0 %lld,%d,%d,%lld", ie, oe, ss(s).c_str(), axis, su(ts, 4).c_str(), (long long)p[0].ib, p[0].sc, p[0].sh, (long long)p[0].ob);
    run(c, std::string("rescale30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 oi = iter4(out, ts), ii = iter4(in, ts);
        uint32_t ps[1] = {(uint32_t)np}; m3::Tensor<m3::NoBuffer, 1> pt(ps);
        int32_t ord[4] = {-1, -1, -1, -1}, mask[4] = {1, 1, 1, 1}; if (axis >= 0) { ord[axis] = 0; mask[axis] = 0; }
        m3::TensorIterator<m3::NoBuffer, 1, 4> pi(pt); if (axis >= 0) pi = m3::TensorIterator<m3::NoBuffer, 1, 4>(pt, oi, ord, mask);
        auto* op = f.Rescale_CS(e.csmem(f.Rescale_CS_GetSize()), ii, m3::RescaleConfig(axis), pi, oi);
        if (op->GetInputBufferSize() != in.span() || op->GetOutputBufferSize() != out.span()) { e.fail("value", "buffer_size", "reported buffer sizes differ from the tensors' spans"); return false; }
        size_t bytes = (size_t)np * (ie + 2 + 1 + oe);
        if (op->GetEncodedParamsSize() < bytes) { e.fail("value", "params_size", "encoded params size too small"); return false; }
        HostBuf hib(np * ie, ie), hsc(np * 2, 2), hsh(np, 1), hob(np * oe, oe), enc(bytes, 1);
        for (int i = 0; i < np; i++) { Arr::wr(hib.raw.p + i * ie, ie, p[i].ib); Arr::wr(hsc.raw.p + i * 2, 2, p[i].sc); Arr::wr(hsh.raw.p + i, 1, p[i].sh); Arr::wr(hob.raw.p + i * oe, oe, p[i].ob); }
        m3::Buffer eb = enc.b();
        if (op->EncodeParams(m3::Tensor<m3::Buffer, 1>(hib.b(), ps), m3::Tensor<m3::Buffer, 1>(hsc.b(), ps), m3::Tensor<m3::Buffer, 1>(hsh.b(), ps), m3::Tensor<m3::Buffer, 1>(hob.b(), ps), eb) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeParams failed"); return false; }
        if (op->GetEncodedParamsSize() != bytes) { e.fail("value", "params_size", "encoded params size " + std::to_string(op->GetEncodedParamsSize()) + " expected " + std::to_string(bytes)); return false; }
        auto& ib = e.buf("in", in.mem.size(), ie); auto& ob = e.buf("out", out.mem.size(), oe); auto& pb = e.buf("params", bytes, 1, true);
        if (op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(pb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (axis < 0) e.raw(pb, enc.raw.p, bytes);
        if (!e.start(op)) return false;
        auto* k = impl<m3r::Rescale>(e); if (!k) return false;
        TileIt<4> w(out, ts);
        for (int t = w.total(); t > 0; t--, w.next()) {
            uint32_t xs[4]; int32_t xo[4]; w.get(xo, xs);
            uint32_t n, off[4]; k->GetIOSizesAndOffsets(n, off[0], off[1], off[2], off[3]);
            uint32_t want = axis < 0 ? 1 : xs[axis], first = axis < 0 ? 0 : xo[axis];
            if (n != want) { e.fail("value", "tile_report", "parameters in the tile: " + std::to_string(n) + " expected " + std::to_string(want)); return false; }
            size_t size[4] = {(size_t)ie, 2, 1, (size_t)oe}, src = 0;
            e.dirty(pb);
            for (int j = 0; j < 4; j++) {
                if (off[j] + n * size[j] > pb.n) { e.fail("value", "param_offset", "parameter section outside the buffer"); return false; }
                memcpy(pb.p + off[j], enc.raw.p + src + first * size[j], n * size[j]);
                src += np * size[j];
            }
            if (!e.load(ib, in, xo, xs) || !e.issue({&ob}) || !e.store(ob, o, cnt, xo, xs) || !e.update()) return false;
        }
        return true;
    });
}
MON_TEST(rescale30) { rescale(c, mode(c, false)); }
MON_TEST(rescale30_tiled) { rescale(c, mode(c, true)); }

static void prelu(Case& c, Mode md) {
    Rng& r = c.r;
    bool old = !md.tiled && r.chance(20);   // deprecated rank 4 form: per channel
    Shape s(5); for (int i = 0; i < 5; i++) s[i] = r.chance(20) ? 1 : (int)r.in(1, i == 4 ? 7 : 4);
    if (mille(r, 15)) { for (int& v : s) v = (int)r.in(1, 2); s[r.in(0, 4)] = wide(r, 3000); }
    if (old) s[3] = 1;
    int axis = old || r.chance(70) ? 4 : -1, C = s[4];
    Arr in, out; make(in, r, "input", 4, s, (int)r.in(0, old ? 0 : 1)); make(out, r, "output", 1, s, (int)r.in(0, old ? 0 : 1));
    if (r.chance(60)) { int b = (int)r.in(4, 31); fill(in, r, -((int64_t)1 << b), ((int64_t)1 << b) - 1); } else fill(in, r);
    struct P { int64_t v[6]; }; std::vector<P> p(C);   // bias, pos scale, neg scale, pos shift, neg shift, out bias
    for (auto& q : p) { q.v[0] = pick_bias(r, 4); q.v[1] = pick_scale(r); q.v[2] = pick_scale(r); q.v[3] = pick_shift(r); q.v[4] = pick_shift(r); q.v[5] = pick_bias(r, 1); }
    if (axis < 0) for (auto& q : p) q = p[0];
    if (r.chance(40)) for (int64_t i = 0; i < in.n(); i++) if (r.chance(50)) in.set(i, std::max(lo(4), std::min(hi(4), p[i % C].v[0] + r.in(-2, 2))));   // around the kink
    Vals exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) {
        const P& x = p[i % C]; bool pos = in.get(i) >= x.v[0];
        exp[i] = scaled(in.get(i), x.v[0], pos ? x.v[1] : x.v[2], (int)(pos ? x.v[3] : x.v[4]), x.v[5], 1);
    }
    uint32_t ts[5]; pick_tile(r, md.tiled, s, ts);
    c.d("prelu shape %s axis %d old %d tile %s", ss(s).c_str(), axis, old, su(ts, 5).c_str());
    run(c, std::string("prelu30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        typedef m3::TensorIterator<m3::NoBuffer, 5, 5> It5;
        const size_t size[6] = {4, 2, 2, 1, 1, 1}; size_t bytes = (size_t)C * 11;
        m3::Prelu_CS* op;
        if (old) {
            uint32_t d4[4] = {(uint32_t)s[0], (uint32_t)s[1], (uint32_t)s[2], (uint32_t)s[4]};
            m3::Tensor<m3::NoBuffer, 4> t4(d4); m3::TensorIterator<m3::NoBuffer, 4, 4> i4(t4), o4(t4);
            op = f.Prelu_CS(e.csmem(f.Prelu_CS_GetSize()), i4, m3::PreluOpConfig(axis), o4, 1);
        } else {
            It5 ii(nb<5>(in), ts, kOrd), oi(nb<5>(out), ts, kOrd);
            op = f.Prelu_CS(e.csmem(f.Prelu_CS_GetSize()), ii, m3::PreluOpConfig(axis), oi);
        }
        if (op->GetEncodedParamsSize() != bytes) { e.fail("value", "params_size", "encoded params size"); return false; }
        HostBuf h0(C * 4, 4), h1(C * 2, 2), h2(C * 2, 2), h3(C, 1), h4(C, 1), h5(C, 1), enc(bytes, 1);
        HostBuf* h[6] = {&h0, &h1, &h2, &h3, &h4, &h5};
        for (int i = 0; i < C; i++) for (int j = 0; j < 6; j++) Arr::wr(h[j]->raw.p + i * size[j], (int)size[j], p[i].v[j]);
        uint32_t ps[2] = {1, (uint32_t)C}; typedef m3::Tensor<m3::Buffer, 2> T2;
        T2 t0(h0.b(), ps), t1(h1.b(), ps), t2_(h2.b(), ps), t3_(h3.b(), ps), t4_(h4.b(), ps), t5(h5.b(), ps);
        m3::Buffer eb = enc.b();
        if (op->EncodeParams(t0, t1, t2_, t3_, t4_, t5, eb) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeParams failed"); return false; }
        auto& ib = e.buf("in", in.mem.size(), 4); auto& ob = e.buf("out", out.mem.size(), 1); auto& pb = e.buf("params", bytes, 1, true);
        if (op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(pb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (!e.start(op)) return false;
        auto* k = impl<m3r::Prelu>(e); if (!k) return false;
        TileIt<5> w(out, ts);
        for (int t = w.total(); t > 0; t--, w.next()) {
            uint32_t xs[5]; int32_t xo[5]; w.get(xo, xs);
            uint32_t n, off[6]; k->GetIOSizesAndOffsets(n, off[0], off[1], off[2], off[3], off[4], off[5]);
            if (n != xs[4]) { e.fail("value", "tile_report", "parameters in the tile: " + std::to_string(n) + " expected " + std::to_string(xs[4])); return false; }
            size_t src = 0; e.dirty(pb);
            for (int j = 0; j < 6; j++) {
                if (off[j] + n * size[j] > pb.n) { e.fail("value", "param_offset", "parameter section outside the buffer"); return false; }
                memcpy(pb.p + off[j], enc.raw.p + src + xo[4] * size[j], n * size[j]);
                src += C * size[j];
            }
            if (!e.load(ib, in, xo, xs) || !e.issue({&ob}) || !e.store(ob, o, cnt, xo, xs) || !e.update()) return false;
        }
        return true;
    });
}
MON_TEST(prelu30) { prelu(c, mode(c, false)); }
MON_TEST(prelu30_tiled) { prelu(c, mode(c, true)); }

static void clip(Case& c, Mode md) {
    Rng& r = c.r;
    Shape s = shape4(r); s.resize(low_rank(r, md.tiled)); Arr in, out; make(in, r, "input", 1, s, (int)r.in(0, 1)); out = in; out.name = "output";
    fill(in, r);
    int mn = (int)r.in(-128, 127), mx = (int)r.in(mn, 127); if (r.chance(10)) { mn = -128; mx = 127; }
    Vals exp(out.n()); for (int64_t i = 0; i < out.n(); i++) exp[i] = std::max<int64_t>(mn, std::min<int64_t>(mx, in.get(i)));
    uint32_t ts[4]; pick_tile(r, md.tiled, s, ts);
    bool inplace = r.chance(30), old = !md.tiled && r.chance(20);
    c.d("clip shape %s [%d,%d] tile %s inplace %d", ss(s).c_str(), mn, mx, su(ts, 4).c_str(), inplace);
    run(c, std::string("clip30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 ii = iter4(in, ts), oi = iter4(out, ts);
        uint32_t rk = (uint32_t)s.size(), d1[4], d2[4]; int32_t q1[4], q2[4];
        auto* op = old ? f.Clip_CS(e.csmem(f.Clip_CS_GetSize()), m3::Tensor<m3::NoBuffer, 4>(in.dims(d1), in.strs(q1), rk), m3::Tensor<m3::NoBuffer, 4>(out.dims(d2), out.strs(q2), rk)) : f.Clip_CS(e.csmem(f.Clip_CS_GetSize()), ii, oi);
        if (op->GetEncodedParamsSize() != 2 || op->GetInputBufferSize() != in.span() || op->GetOutputBufferSize() != out.span()) { e.fail("value", "buffer_size", "reported buffer sizes"); return false; }
        HostBuf h1(1, 1), h2(1, 1), en(2, 1); *h1.raw.p = (uint8_t)mn; *h2.raw.p = (uint8_t)mx; uint32_t ps[1] = {1};
        m3::Tensor<m3::Buffer, 1> t1(h1.b(), ps), t2_(h2.b(), ps); m3::Buffer eb = en.b();
        if (op->EncodeParams(t1, t2_, eb) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeParams failed"); return false; }
        auto& ib = e.buf("in", in.mem.size(), 1); Buf& ob = inplace ? ib : e.buf("out", out.mem.size(), 1); auto& pb = e.buf("params", 2, 1, true);
        e.inplace = inplace;
        mli_status st;
        if (old) {
            uint32_t d[4]; int32_t q[4];
            m3::Tensor<m3::OffsetBuffer, 4> ta(e.ob(ib), in.dims(d), in.strs(q), rk), to(e.ob(ob), out.dims(d), out.strs(q), rk);
            st = op->AttachBufferOffsets(ta, to, e.ob(pb), e.none());
        } else st = op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(pb), e.none());
        if (st != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (!e.start(op)) return false;
        if (!impl<m3r::Clip>(e)) return false;
        TileIt<4> w(out, ts);
        for (int t = w.total(); t > 0; t--, w.next()) {
            uint32_t xs[4]; int32_t xo[4]; w.get(xo, xs);
            e.raw(pb, en.raw.p, 2);
            if (!e.load(ib, in, xo, xs) || !e.issue({&ob}) || !e.store(ob, o, cnt, xo, xs) || !e.update()) return false;
        }
        return true;
    });
}
MON_TEST(clip30) { clip(c, mode(c, false)); }
MON_TEST(clip30_tiled) { clip(c, mode(c, true)); }

// ---- one input, one output, tiles reported by the kernel -----------------------------
template <class K, class CS> static bool go2(Env& e, CS* op, Buf& ib, Buf& ob, const Arr& in, Arr& o, std::vector<int>& cnt, const TileIt<4>& walk) {
    if (op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
    if (!e.start(op)) return false;
    auto* k = impl<K>(e); if (!k) return false;
    TileIt<4> w = walk;
    for (int t = w.total(); t > 0; t--, w.next()) {
        uint32_t is[4], os[4], xs[4]; int32_t io[4], oo[4], xo[4];
        k->GetIOSizesAndOffsets(is, os, io, oo);
        w.get(xo, xs);
        if (!same(e, "output", oo, os, xo, xs, (unsigned)o.shape.size())) return false;
        if (!e.load(ib, in, io, is) || !e.issue({&ob}) || !e.store(ob, o, cnt, oo, os) || !e.update()) return false;
    }
    return true;
}

// ---- reductions ------------------------------------------------------------------------
static void reduce(Case& c, Mode md, bool mx) {
    Rng& r = c.r;
    int es = r.chance(33) ? 4 : (int)r.in(1, 2), rk = low_rank(r, md.tiled), axis = (int)r.in(0, rk - 1);
    Shape s = shape4(r); s.resize(rk); Shape os = s; os[axis] = 1;
    Arr in, out; make(in, r, "input", es, s, (int)r.in(0, 1)); make(out, r, "output", es, os, (int)r.in(0, 1));
    if (mx) fill(in, r); else fill(in, r, -(hi(es) / s[axis]), hi(es) / s[axis]);
    Vals exp(out.n(), mx ? lo(es) : 0);
    for (int64_t i = 0; i < in.n(); i++) {
        int64_t q = i, k = 0; int co[4]; for (int d = rk - 1; d >= 0; d--) { co[d] = (int)(q % s[d]); q /= s[d]; }
        co[axis] = 0; for (int d = 0; d < rk; d++) k = k * os[d] + co[d];
        exp[k] = mx ? std::max(exp[k], in.get(i)) : exp[k] + in.get(i);
    }
    uint32_t ts[4], ti[4]; pick_tile(r, md.tiled, os, ts); for (int i = 0; i < 4; i++) ti[i] = ts[i]; ti[axis] = s[axis];
    c.d("reduce_%s es %d shape %s axis %d tile %s", mx ? "max" : "sum", es, ss(s).c_str(), axis, su(ts, 4).c_str());
    run(c, std::string(mx ? "reduce_max30" : "reduce_sum30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 ii = iter4(in, ti), oi = iter4(out, ts);
        auto& ib = e.buf("in", in.mem.size(), es); auto& ob = e.buf("out", out.mem.size(), es);
        TileIt<4> w(out, ts);
        if (mx) return go2<m3r::ReduceMax>(e, f.ReduceMax_CS(e.csmem(f.ReduceMax_CS_GetSize()), ii, m3::ReduceOpConfig(axis), oi), ib, ob, in, o, cnt, w);
        return go2<m3r::ReduceSum>(e, f.ReduceSum_CS(e.csmem(f.ReduceSum_CS_GetSize()), ii, m3::ReduceOpConfig(axis), oi), ib, ob, in, o, cnt, w);
    });
}
MON_TEST(reduce30) { bool mx = c.r.chance(50); reduce(c, mode(c, false), mx); }
MON_TEST(reduce30_tiled) { bool mx = c.r.chance(50); reduce(c, mode(c, true), mx); }

// ---- pooling ------------------------------------------------------------------------------
static void pool(Case& c, Mode md, bool mx) {
    Rng& r = c.r;
    Win h = window(r, 9, false), w = window(r, 9, false);
    int B = r.chance(60) ? 1 : (int)r.in(2, 3), C = (int)r.in(1, 6), es = mx && r.chance(50) ? 2 : 1, oe = mx ? es : 4;
    if (mille(r, 15)) C = wide(r, 3000);
    if ((int64_t)B * C * h.I * w.I > 12000 || (int64_t)B * C * h.O * w.O * h.k * w.k > 60000) B = C = 1;
    if ((int64_t)h.O * w.O * h.k * w.k > 100000 || h.I * w.I > 20000) { c.skipped = true; return; }
    if (mille(r, 8)) { h = bigwin(r, false); w = bigwin(r, false); B = 1; C = (int)r.in(1, 3); }
    Arr in, out; make(in, r, "input", es, {B, h.I, w.I, C}, (int)r.in(0, 1)); make(out, r, "output", oe, {B, h.O, w.O, C}, (int)r.in(0, 1));
    fill(in, r);
    if (r.chance(30)) fill(in, r, lo(es), -1);
    Vals exp(out.n());
    for (int b = 0; b < B; b++) for (int y = 0; y < h.O; y++) for (int x = 0; x < w.O; x++) for (int ch = 0; ch < C; ch++) {
        int64_t v = mx ? lo(es) : 0;
        for (int ky = 0; ky < h.k; ky++) for (int kx = 0; kx < w.k; kx++) {
            int iy = y * h.s - h.pb + ky, ix = x * w.s - w.pb + kx;
            if (iy < 0 || iy >= h.I || ix < 0 || ix >= w.I) continue;
            v = mx ? std::max(v, in.at({b, iy, ix, ch})) : v + in.at({b, iy, ix, ch});
        }
        exp[out.idx({b, y, x, ch})] = v;
    }
    uint32_t ts[4] = {(uint32_t)B, (uint32_t)h.O, (uint32_t)w.O, (uint32_t)C};
    if (md.tiled) { ts[0] = tile(r, B); ts[1] = win_tile(r, h.O, h.I, h.s, h.ek, h.pb); ts[2] = win_tile(r, w.O, w.I, w.s, w.ek, w.pb); ts[3] = tile(r, C); }
    c.d("%spool in %s es %d out %s k %d,%d s %d,%d pb %d,%d pe %d,%d tile %s", mx ? "max" : "sum", ss(in.shape).c_str(), es, ss(out.shape).c_str(), h.k, w.k, h.s, w.s, h.pb, w.pb, h.pe, w.pe, su(ts, 4).c_str());
    m3::PoolOpConfig cfg(h.k, w.k, h.s, w.s, h.pb, w.pb, h.pe, w.pe);
    uint32_t ek[4] = {1, (uint32_t)h.k, (uint32_t)w.k, 1}, st[4] = {1, (uint32_t)h.s, (uint32_t)w.s, 1}, pp[4] = {0, (uint32_t)h.pb, (uint32_t)w.pb, 0};
    bool old = !md.tiled && r.chance(20);
    run(c, std::string(mx ? "maxpool30" : "sumpool30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 oi(nb<4>(out), ts, kOrd), ii(nb<4>(in), oi, ek, st, pp);
        auto& ib = e.buf("in", in.mem.size(), es); auto& ob = e.buf("out", out.mem.size(), oe);
        TileIt<4> wk(out, ts);
        auto sizes = [&](auto* op) { if (op->GetInputBufferSize() != in.span() || op->GetOutputBufferSize() != out.span()) { e.fail("value", "buffer_size", "reported buffer sizes"); return false; } return true; };
        if (mx) { auto* op = old ? f.MaxPool2D_CS(e.csmem(f.MaxPool2D_CS_GetSize()), nb<4>(in), cfg, nb<4>(out)) : f.MaxPool2D_CS(e.csmem(f.MaxPool2D_CS_GetSize()), ii, cfg, oi); return sizes(op) && go2<m3r::MaxPool2D>(e, op, ib, ob, in, o, cnt, wk); }
        auto* op = old ? f.SumPool2D_CS(e.csmem(f.SumPool2D_CS_GetSize()), nb<4>(in), cfg, nb<4>(out)) : f.SumPool2D_CS(e.csmem(f.SumPool2D_CS_GetSize()), ii, cfg, oi);
        return sizes(op) && go2<m3r::SumPool2D>(e, op, ib, ob, in, o, cnt, wk);
    });
}
MON_TEST(pool30) { bool mx = c.r.chance(50); pool(c, mode(c, false), mx); }
MON_TEST(pool30_tiled) { bool mx = c.r.chance(50); pool(c, mode(c, true), mx); }

// ---- Permute -----------------------------------------------------------------------------------
static void permute(Case& c, Mode md) {
    Rng& r = c.r;
    int es = r.chance(33) ? 4 : (int)r.in(1, 2), rk = low_rank(r, md.tiled); Shape s = shape4(r), os(rk); s.resize(rk);
    int p[4] = {0, 1, 2, 3}; for (int i = rk - 1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]);
    for (int i = 0; i < rk; i++) os[i] = s[p[i]];
    Arr in, out; make(in, r, "input", es, s, (int)r.in(0, 1)); make(out, r, "output", es, os, (int)r.in(0, 1));
    fill(in, r);
    Vals exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) {
        int64_t q = i, k = 0; int co[4], ci[4]; for (int d = rk - 1; d >= 0; d--) { co[d] = (int)(q % os[d]); q /= os[d]; }
        for (int d = 0; d < rk; d++) ci[p[d]] = co[d];
        for (int d = 0; d < rk; d++) k = k * s[d] + ci[d];
        exp[i] = in.get(k);
    }
    uint32_t ts[4], ti[4]; pick_tile(r, md.tiled, os, ts);
    // both iterators visit their dimensions in order: tiled dimensions must keep their relative order
    int last = -1; for (int i = 0; i < 4; i++) { if (i < rk && (int)ts[i] < os[i]) { if (p[i] < last) ts[i] = os[i]; else last = p[i]; } ti[p[i]] = ts[i]; }
    c.d("permute es %d shape %s perm %d%d%d%d tile %s", es, ss(s).c_str(), p[0], p[1], p[2], p[3], su(ts, 4).c_str());
    run(c, std::string("permute30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 ii = iter4(in, ti), oi = iter4(out, ts);
        auto& ib = e.buf("in", in.mem.size(), es); auto& ob = e.buf("out", out.mem.size(), es);
        uint8_t pd8[4]; for (int i = 0; i < 4; i++) pd8[i] = (uint8_t)p[i];
        return go2<m3r::Permute>(e, f.Permute_CS(e.csmem(f.Permute_CS_GetSize()), ii, m3::PermuteOpConfig(pd8), oi), ib, ob, in, o, cnt, TileIt<4>(out, ts));
    });
}
MON_TEST(permute30) { permute(c, mode(c, false)); }
MON_TEST(permute30_tiled) { permute(c, mode(c, true)); }

// ---- MoveBroadcast --------------------------------------------------------------------------------
static void mbcast(Case& c, Mode md) {
    Rng& r = c.r;
    int es = r.chance(33) ? 4 : (int)r.in(1, 2); Shape os = shape4(r), s = os;
    for (int i = 0; i < 4; i++) if (r.chance(35)) s[i] = 1;
    Arr in, out; make(in, r, "src", es, s, (int)r.in(0, 2)); make(out, r, "dst", es, os, (int)r.in(0, 2));
    fill(in, r);
    Vals exp(out.n());
    for (int64_t i = 0; i < out.n(); i++) {
        int64_t q = i, k = 0; int co[4]; for (int d = 3; d >= 0; d--) { co[d] = (int)(q % os[d]); q /= os[d]; }
        for (int d = 0; d < 4; d++) k = k * s[d] + (s[d] == 1 ? 0 : co[d]);
        exp[i] = in.get(k);
    }
    uint32_t ts[4]; pick_tile(r, md.tiled, os, ts);
    c.d("move_broadcast es %d src %s dst %s tile %s", es, ss(s).c_str(), ss(os).c_str(), su(ts, 4).c_str());
    run(c, std::string("mbcast30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        It4 oi(nb<4>(out), ts, kOrd);
        int32_t ord[4] = {0, 1, 2, 3}, n[4], inc[4], li[4], sz[4], lz[4];
        for (int i = 0; i < 4; i++) {
            int t = ts[i]; n[i] = (os[i] + t - 1) / t; bool b = s[i] == 1;
            inc[i] = b ? 0 : t; li[i] = b ? 0 : t * (1 - n[i]); sz[i] = b ? 1 : t; lz[i] = b ? 1 : os[i] - t * (n[i] - 1);
        }
        It4 ii(nb<4>(in), Cfg4(ord, n, inc, inc, li, sz, sz, lz));
        auto& ib = e.buf("in", in.mem.size(), es); auto& ob = e.buf("out", out.mem.size(), es);
        return go2<m3r::MoveBroadcast>(e, f.MoveBroadcast_CS(e.csmem(f.MoveBroadcast_CS_GetSize()), ii, oi, m3::MoveDataDirection::kMoveDataDirectionInput), ib, ob, in, o, cnt, TileIt<4>(out, ts));
    });
}
MON_TEST(mbcast30) { mbcast(c, mode(c, false)); }
MON_TEST(mbcast30_tiled) { mbcast(c, mode(c, true)); }

// relocation workloads
RELOC_TEST(elt30, elt_any(c, mode(c, true)), elt_any(c, mode(c, false)))
RELOC_TEST(rescale30, rescale(c, mode(c, true)), rescale(c, mode(c, false)))
RELOC_TEST(prelu30, prelu(c, mode(c, true)), prelu(c, mode(c, false)))
RELOC_TEST(clip30, clip(c, mode(c, true)), clip(c, mode(c, false)))
RELOC_TEST(permute30, permute(c, mode(c, true)), permute(c, mode(c, false)))
RELOC_TEST(mbcast30, mbcast(c, mode(c, true)), mbcast(c, mode(c, false)))
RELOC_TEST(reduce30, bool mx = c.r.chance(50); reduce(c, mode(c, true), mx), bool mx = c.r.chance(50); reduce(c, mode(c, false), mx))
RELOC_TEST(pool30, bool mx = c.r.chance(50); pool(c, mode(c, true), mx), bool mx = c.r.chance(50); pool(c, mode(c, false), mx))

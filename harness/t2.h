// MLI 2.0 tensors for the monitors: exact-size heap regions, random strides,
// memory-confinement and determinism protocol around a library call.
#pragma once
#include "mon.h"
#include "refmath.h"
#include "mli_api.h"
#include "mli_types.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <stdexcept>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>

namespace t2 {
using mon::Case;
using mon::Rng;
typedef std::vector<int> Shape;

enum Ty { FX8, FX16, SA8, SA32, FP32 };
inline int esz(Ty t) { return t == FX8 || t == SA8 ? 1 : t == FX16 ? 2 : 4; }
inline int bits(Ty t) { return esz(t) * 8; }
inline mli_element_type mt(Ty t) {
    switch (t) { case FX8: return MLI_EL_FX_8; case FX16: return MLI_EL_FX_16; case SA8: return MLI_EL_SA_8;
                 case SA32: return MLI_EL_SA_32; default: return MLI_EL_FP_32; }
}
inline const char* tn(Ty t) { static const char* n[] = {"fx8", "fx16", "sa8", "sa32", "fp32"}; return n[t]; }
inline int64_t tmax(Ty t) { return ((int64_t)1 << (bits(t) - 1)) - 1; }
inline int64_t tmin(Ty t) { return -((int64_t)1 << (bits(t) - 1)); }
inline std::string ss(const Shape& s) { std::string o = "["; for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]); return o + "]"; }
inline int64_t prod(const Shape& s) { int64_t n = 1; for (int x : s) n *= x; return n; }

// raw heap block of exact size, bytes outside are red zone
struct Raw {
    uint8_t* p = nullptr; size_t n = 0;
    Raw() {}
    explicit Raw(size_t n_) : n(n_) { p = (uint8_t*)malloc(n ? n : 1); memset(p, 0x3C, n); }
    Raw(const Raw&) = delete; Raw& operator=(const Raw&) = delete;
    ~Raw() { free(p); }
};

// Concurrency monitor: in a sharing thread, the address of an output tensor is that of the thread's own clone.
typedef std::vector<std::pair<const void*, mli_tensor*>> Redirect;
inline thread_local Redirect* g_redirect = nullptr;
struct TT : mli_tensor {
    TT() {}
    TT& operator=(const mli_tensor& o) { mli_tensor::operator=(o); return *this; }
    mli_tensor* operator&() const {
        if (g_redirect) for (auto& p : *g_redirect) if (p.first == (const void*)this) return p.second;
        return const_cast<TT*>(this);
    }
};
// Calls seen by one thread, for the evidence of overlap.
struct Span { std::string site; int64_t t0, t1; };
inline thread_local std::vector<Span>* g_spans = nullptr;
inline thread_local int g_share = 0;       // issue every call also from this many threads at once
inline int64_t now_ns() { return std::chrono::steady_clock::now().time_since_epoch().count(); }
struct Overlap { uint64_t calls = 0, pairs = 0; std::set<std::string> kinds; };
inline void overlaps(const std::vector<std::vector<Span>>& all, Overlap& o) {
    for (size_t a = 0; a < all.size(); a++) {
        o.calls += all[a].size();
        for (size_t b = a + 1; b < all.size(); b++) for (auto& x : all[a]) for (auto& y : all[b])
            if (x.t0 < y.t1 && y.t0 < x.t1) { o.pairs++; o.kinds.insert(std::min(x.site, y.site) + "|" + std::max(x.site, y.site)); }
    }
}

struct Ten {
    TT t;
    Ty ty = FX8;
    Shape shape;
    std::unique_ptr<Raw> mem;
    std::unique_ptr<Raw> sc, zp, sf;     // per axis arrays
    std::vector<size_t> off;             // element offsets of the logical (row-major) values
    size_t base = 0;                     // element offset of first element in mem
    bool inout = false;                  // output whose previous content is an input (cell state)
    bool may_change_struct = false;      // kernel is documented to fill struct fields
    std::string name;
    std::vector<char> live;              // byte map of bytes that belong to elements

    Ten() { memset(&t, 0, sizeof t); }
    Ten(const Ten&) = delete; Ten& operator=(const Ten&) = delete;
    int64_t n() const { return (int64_t)off.size(); }
    bool sa() const { return ty == SA8 || ty == SA32; }

    uint8_t* at(int64_t i) const { return mem->p + (base + off[i]) * esz(ty); }
    int64_t get(int64_t i) const {
        uint8_t* p = at(i);
        switch (esz(ty)) { case 1: return *(int8_t*)p; case 2: { int16_t v; memcpy(&v, p, 2); return v; } default: { int32_t v; memcpy(&v, p, 4); return v; } }
    }
    void set(int64_t i, int64_t v) {
        uint8_t* p = at(i);
        switch (esz(ty)) { case 1: *(int8_t*)p = (int8_t)v; break; case 2: { int16_t x = (int16_t)v; memcpy(p, &x, 2); break; } default: { int32_t x = (int32_t)v; memcpy(p, &x, 4); } }
    }
    float getf(int64_t i) const { float v; memcpy(&v, at(i), 4); return v; }
    void setf(int64_t i, float v) { memcpy(at(i), &v, 4); }
    std::vector<int64_t> vals() const { std::vector<int64_t> v(n()); for (int64_t i = 0; i < n(); i++) v[i] = get(i); return v; }
    int64_t idx(const std::vector<int>& c) const { int64_t r = 0; for (size_t i = 0; i < shape.size(); i++) r = r * shape[i] + c[i]; return r; }

    // quantisation accessors (per tensor or per axis element)
    int64_t scale(int k = 0) const { return t.el_params.sa.dim < 0 ? t.el_params.sa.scale.mem.i16 : ((int16_t*)sc->p)[k]; }
    int64_t zpv(int k = 0) const { return t.el_params.sa.dim < 0 ? t.el_params.sa.zero_point.mem.i16 : ((int16_t*)zp->p)[k]; }
    int64_t sfrac(int k = 0) const { return t.el_params.sa.dim < 0 ? t.el_params.sa.scale_frac_bits.mem.i8 : ((int8_t*)sf->p)[k]; }
    double real_scale(int k = 0) const { return sa() ? (double)scale(k) * std::pow(2.0, -(double)sfrac(k)) : std::pow(2.0, -(double)t.el_params.fx.frac_bits); }
    int frac() const { return t.el_params.fx.frac_bits; }
};

inline void set_ptr(mli_data_container& d, Ty ty, void* p) {
    memset(&d.mem, 0, sizeof d.mem);
    switch (esz(ty)) { case 1: d.mem.pi8 = (int8_t*)p; break; case 2: d.mem.pi16 = (int16_t*)p; break; default: d.mem.pi32 = (int32_t*)p; }
    if (ty == FP32) d.mem.pf32 = (float*)p;
}

// a dimension beyond what 8 bits (mostly) or 16 bits (seldom) count
inline bool mille(Rng& r, int n) { return r.in(0, 999) < n; }
inline int wide(Rng& r, int64_t cap = 70000) {
    int64_t v = r.chance(70) ? r.in(100, 300) : r.chance(70) ? r.in(256, 3000) : r.chance(50) ? r.in(32700, 33200) : r.in(65500, 66000);
    return (int)std::max<int64_t>(1, std::min(v, cap));
}

// stride_mode: 0 contiguous, 1 gaps on outer dims (inner stride 1), 2 gaps everywhere
inline void make(Ten& x, Rng& r, const char* name, Ty ty, const Shape& shape, int stride_mode) {
    x.name = name; x.ty = ty; x.shape = shape;
    int rank = (int)shape.size();
    x.t.rank = rank; x.t.el_type = mt(ty);
    int st = 1;
    for (int i = rank - 1; i >= 0; i--) {
        if (stride_mode == 2 || (stride_mode == 1 && i < rank - 1)) {
            if (r.chance(60)) st += (int)r.in(1, 5);
            if (mille(r, 4)) {       // seldom a gap far beyond the data
                int64_t rest = 1; for (int j = 0; j <= i; j++) rest *= shape[j];
                int gap = (int)r.in(100, 70000); if ((int64_t)(st + gap) * rest <= 300000) st += gap;
            }
        }
        x.t.mem_stride[i] = st; x.t.shape[i] = shape[i];
        st *= shape[i];
    }
    // unused entries hold junk: only `rank` of them are meaningful
    for (int i = rank; i < MLI_MAX_RANK; i++) { x.t.mem_stride[i] = (int)r.in(0, 7); x.t.shape[i] = (uint32_t)r.in(0, 7); }
    int64_t n = prod(shape); x.off.resize(n); size_t mx = 0;
    for (int64_t i = 0; i < n; i++) {
        int64_t q = i; size_t o = 0;
        for (int d = rank - 1; d >= 0; d--) { o += (size_t)(q % shape[d]) * x.t.mem_stride[d]; q /= shape[d]; }
        x.off[i] = o; mx = std::max(mx, o);
    }
    size_t elems = mx + 1;
    x.base = 0;
    x.mem.reset(new Raw(elems * esz(ty)));
    x.live.assign(x.mem->n, 0);
    for (int64_t i = 0; i < n; i++) for (int b = 0; b < esz(ty); b++) x.live[x.off[i] * esz(ty) + b] = 1;
    x.t.data.capacity = (uint32_t)x.mem->n;
    set_ptr(x.t.data, ty, x.mem->p);
    if (x.sa()) { x.t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; x.t.el_params.sa.dim = -1; }
}
// rank 0: the value itself sits in the data field
inline void make_scalar(Ten& x, Rng& r, const char* name, Ty ty) {
    make(x, r, name, ty, {1}, 0);
    x.t.rank = 0; x.t.data.capacity = (uint32_t)(r.chance(50) ? 0 : r.in(0, 4)); x.t.shape[0] = (uint32_t)r.in(0, 9);
    memset(&x.t.data.mem, 0, sizeof x.t.data.mem);
}
inline void set_scalar(Ten& x, int64_t v) {
    x.set(0, v);
    memset(&x.t.data.mem, 0, sizeof x.t.data.mem);
    switch (esz(x.ty)) { case 1: x.t.data.mem.i8 = (int8_t)v; break; case 2: x.t.data.mem.i16 = (int16_t)v; break; default: x.t.data.mem.i32 = (int32_t)v; }
}
inline Shape rshape(Rng& r, int maxrank = 4, int small = 6, int big = 40, int64_t lim = 4000) {
    for (;;) {
        int rank = (int)r.in(1, maxrank); Shape s;
        for (int i = 0; i < rank; i++) s.push_back(r.chance(20) ? 1 : r.chance(85) ? (int)r.in(1, small) : (int)r.in(1, big));
        if (mille(r, 12)) s[r.in(0, rank - 1)] = wide(r, 20 * lim);
        if (prod(s) <= lim) return s;
        if (prod(s) <= 20 * lim && r.chance(10)) { int big_ones = 0; for (int v : s) big_ones += v >= 100; if (big_ones == 1) return s; }
    }
}
inline void quant(Ten& x, int64_t scale, int64_t frac, int64_t zp) {
    auto& q = x.t.el_params.sa;
    memset(&q, 0, sizeof q);
    q.type = MLI_EL_PARAM_SC16_ZP16; q.dim = -1;
    q.scale.mem.i16 = (int16_t)scale; q.zero_point.mem.i16 = (int16_t)zp; q.scale_frac_bits.mem.i8 = (int8_t)frac;
}
inline void quant_axis(Ten& x, int dim, const std::vector<int64_t>& scale, const std::vector<int64_t>& frac, const std::vector<int64_t>& zp) {
    auto& q = x.t.el_params.sa;
    memset(&q, 0, sizeof q);
    q.type = MLI_EL_PARAM_SC16_ZP16; q.dim = dim;
    size_t n = scale.size();
    x.sc.reset(new Raw(n * 2)); x.zp.reset(new Raw(n * 2)); x.sf.reset(new Raw(n));
    for (size_t i = 0; i < n; i++) { ((int16_t*)x.sc->p)[i] = (int16_t)scale[i]; ((int16_t*)x.zp->p)[i] = (int16_t)zp[i]; ((int8_t*)x.sf->p)[i] = (int8_t)frac[i]; }
    q.scale.capacity = (uint32_t)(n * 2); q.zero_point.capacity = (uint32_t)(n * 2); q.scale_frac_bits.capacity = (uint32_t)n;
    q.scale.mem.pi16 = (int16_t*)x.sc->p; q.zero_point.mem.pi16 = (int16_t*)x.zp->p; q.scale_frac_bits.mem.pi8 = (int8_t*)x.sf->p;
}
inline void fx(Ten& x, int frac) { memset(&x.t.el_params, 0, sizeof x.t.el_params); x.t.el_params.fx.frac_bits = (int8_t)frac; }

// fill with values of |v| <= lim
inline int64_t val(Rng& r, int mode, int64_t lo, int64_t hi) {
    switch (mode) {
        case 0: return r.in(lo, hi);
        case 1: { int k = (int)r.in(0, 5); return k == 0 ? lo : k == 1 ? hi : k == 2 ? std::min(lo + 1, hi) : k == 3 ? std::max<int64_t>(lo, std::min<int64_t>(hi, 0)) : r.in(lo, hi); }
        case 2: return std::max(lo, std::min(hi, r.in(-3, 3)));
        case 3: return r.chance(80) ? std::max<int64_t>(lo, std::min<int64_t>(hi, 0)) : r.in(lo, hi);
        case 4: return r.chance(50) ? lo : hi;
        default: return hi;
    }
}
inline void fill(Ten& x, Rng& r, int64_t lo, int64_t hi) {
    int mode = (int)r.in(0, 9); if (mode >= 5) mode = 0; if (mode == 4 && r.chance(50)) mode = 1;
    for (int64_t i = 0; i < x.n(); i++) x.set(i, val(r, mode, lo, hi));
}
inline void fill(Ten& x, Rng& r) { fill(x, r, tmin(x.ty), tmax(x.ty)); }

// ------------------------------------------------------------------ protocol
#ifdef MON_CHK
#include "t2chk.h"
#endif
struct Prot {
    Case& c;
    std::string site;
    std::vector<Ten*> ins, outs;
    std::vector<Raw*> ro;                                  // read-only raw blocks (luts, cfg..)
    bool check_repeat = true;
    bool inplace = false;                                  // an input aliases an output
    bool misuse = true;                                    // corrupted variants of this call are tried
    bool soft = false;                                     // a refused call may already have filled the output description
    bool noshare = false;                                  // the call has private state that cannot be cloned
    Prot(Case& c_, const std::string& s) : c(c_), site(s) {}
    Prot& in(Ten& t) { ins.push_back(&t); return *this; }
    Prot& out(Ten& t) { outs.push_back(&t); return *this; }
    Prot& raw(Raw& t) { ro.push_back(&t); return *this; }

    // Misuse of a configuration (or, second form, of an operand) that the call must refuse.
    template <class T> Prot& bad(const char* name, T* cfg, std::function<bool(T&, Rng&)> f) {
#ifdef MON_CHK
        auto keep = std::make_shared<T>();
        bads.emplace_back(name, -1, nullptr, [=](Rng& r) { memcpy(keep.get(), cfg, sizeof(T)); return f(*cfg, r); }, [=] { memcpy(cfg, keep.get(), sizeof(T)); });
#endif
        return *this;
    }
    Prot& badt(Ten& t, const char* name, std::function<bool(mli_tensor&, Rng&)> f) {
#ifdef MON_CHK
        badts.push_back({&t, Bad(name, 0, f)});
#endif
        return *this;
    }
    // Corruptions of an operand the documentation lets the function accept, and dimensions whose size is free.
    Prot& may(Ten& t, const char* list, unsigned free_dims = 0) {
#ifdef MON_CHK
        accepts[&t] += std::string(" ") + list + " "; free[&t] |= free_dims;
#endif
        return *this;
    }
    Prot& overlap(Ten& a, Ten& b) {                        // operands that must not share memory
#ifdef MON_CHK
        laps.push_back({&a, &b});
#endif
        return *this;
    }
#ifdef MON_CHK
    std::vector<Raw*> keep;                                // blocks a refused call may have filled, restored after the probe
    std::vector<Bad> bads; std::vector<std::pair<Ten*, Bad>> badts; std::vector<std::pair<Ten*, Ten*>> laps;
    std::map<Ten*, std::string> accepts; std::map<Ten*, unsigned> free;
    void probe(const std::function<mli_status()>& f, const std::vector<mli_tensor>& init_struct) {
        Rng r(c.seed ^ 0xBADC0DE5EEDull); r.next();
        static const bool discover = getenv("MON_DISCOVER") != nullptr;
        std::vector<Ten*> ops = ins; ops.insert(ops.end(), outs.begin(), outs.end());
        auto index = [&](Ten* t) { for (size_t i = 0; i < ops.size(); i++) if (ops[i] == t) return (int)i; return -1; };
        std::vector<Bad> v = bads;
        static const char* kFree = " scale_not_positive zero_point_range axis_above_rank axis_scale_capacity axis_zero_point_capacity axis_frac_capacity axis_scale_null axis_zero_point_null axis_frac_null becomes_per_axis becomes_per_tensor other_axis ";
        for (size_t i = 0; i < ops.size(); i++) {
            std::string ok = accepts[ops[i]]; if (ops[i]->may_change_struct) ok += kFree;
            for (auto& b : tensor_bads(*ops[i], (int)i, free[ops[i]])) if (ok.find(" " + b.name + " ") == std::string::npos) v.push_back(b);
        }
        for (auto& b : badts) if (index(b.first) >= 0) { v.push_back(b.second); v.back().op = index(b.first); }
        for (auto& l : laps) if (index(l.first) >= 0 && index(l.second) >= 0) {
            Bad b("overlap_" + l.second->name, index(l.first), nullptr); b.op2 = index(l.second); int ea = esz(l.first->ty), eb = esz(l.second->ty);
            b.f2 = [=](mli_tensor& x, mli_tensor& y, Rng& q) {
                int64_t na = (int64_t)span_bytes(x, ea), nb = (int64_t)span_bytes(y, eb), u = std::max(ea, eb);
                auto* m = new Raw(na + nb + 16); g_tmp.emplace_back(m);
                int64_t oa = q.chance(50) ? 0 : nb / u * u, ob = oa == 0 ? q.in(0, (na - ea) / u) * u : q.in((oa - nb + eb + u - 1) / u, oa / u) * u;
                if (ob < 0 || ob >= oa + na || ob + nb <= oa) return false;
                memcpy(m->p + oa, x.data.mem.pi8, na); x.data.mem.pi8 = (int8_t*)m->p + oa; x.data.capacity = (uint32_t)na; y.data.mem.pi8 = (int8_t*)m->p + ob; y.data.capacity = (uint32_t)nb;
                return true; };
            v.push_back(b);
        }
        std::set<Ty> tys; for (Ten* o : ops) if ((accepts[o] + " ").find(" el_type ") == std::string::npos) tys.insert(o->ty);
        for (Ty ty : tys) { Bad b("types_together", 0, nullptr); for (b.op = 0; ops[b.op]->ty != ty; b.op++); b.group = ty; b.together = true; v.push_back(b); }
        std::vector<mli_tensor> done; for (Ten* o : outs) done.push_back(o->t);
        for (size_t k = 0; k < outs.size(); k++) outs[k]->t = init_struct[k];
        std::vector<std::vector<uint8_t>> mem; for (Ten* o : ops) mem.push_back(std::vector<uint8_t>(o->mem->p, o->mem->p + o->mem->n));
        std::vector<std::vector<uint8_t>> kept; for (Raw* k : keep) kept.push_back(std::vector<uint8_t>(k->p, k->p + k->n));
        int want = discover ? (int)v.size() : 6;
        for (int k = 0, tries = 0; k < want && tries < (discover ? want : 30) && !v.empty(); tries++) {
            Bad& b = v[discover ? tries : r.in(0, (int)v.size() - 1)];
            std::string who = b.op < 0 ? "cfg" : ops[b.op]->name;
            mli_tensor copy, copy2; Redirect rd;
            if (b.op >= 0) { copy = ops[b.op]->t; rd.push_back({(const void*)std::addressof(ops[b.op]->t), &copy}); }
            if (b.op2 >= 0) { copy2 = ops[b.op2]->t; rd.push_back({(const void*)std::addressof(ops[b.op2]->t), &copy2}); }
            std::vector<mli_tensor> grp(ops.size());
            if (b.together) {        // every operand of one type is given another one: each pair still agrees
                static const mli_element_type ts[] = {MLI_EL_FX_4, MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};
                mli_element_type n = ts[r.in(0, 5)]; if (n == ops[b.op]->t.el_type) { g_tmp.clear(); continue; }
                for (size_t i = 0; i < ops.size(); i++) if (ops[i]->ty == b.group) {
                    if ((int)i == b.op) { copy.el_type = n; continue; }
                    grp[i] = ops[i]->t; grp[i].el_type = n; rd.push_back({(const void*)std::addressof(ops[i]->t), &grp[i]});
                }
            }
            bool app = b.together ? true : b.op2 >= 0 ? b.f2(copy, copy2, r) : b.op >= 0 ? b.f(copy, r) : b.g(r);
            if (!app) { if (b.op < 0) b.undo(); g_tmp.clear(); continue; }
            k++;
            std::string id = site + "|" + who + "|" + b.name;
            if (discover && fork()) { int st; wait(&st); c.count(std::string(WIFEXITED(st) ? WEXITSTATUS(st) == 0 ? "P refused " : WEXITSTATUS(st) == 7 ? "P ACCEPTED " : WEXITSTATUS(st) == 8 ? "P WRITES " : "P CRASH " : "P CRASH ") + id); if (b.op < 0) b.undo(); g_tmp.clear(); continue; }
            mli_tensor sent = copy, sent2 = copy2; std::vector<std::vector<uint8_t>> tmp; for (auto& t : g_tmp) tmp.push_back(std::vector<uint8_t>(t->p, t->p + t->n));
            std::vector<mli_tensor> os; for (Ten* o : ops) os.push_back(o->t);
            c.d(" [misuse %s %s]", who.c_str(), b.name.c_str());
            g_redirect = rd.empty() ? nullptr : &rd; mli_status st = f(); g_redirect = nullptr;
            bool wrote = !soft && ((b.op >= 0 && memcmp(&sent, &copy, sizeof sent)) || (b.op2 >= 0 && memcmp(&sent2, &copy2, sizeof sent2)));
            for (size_t i = 0; i < ops.size(); i++) wrote |= memcmp(mem[i].data(), ops[i]->mem->p, mem[i].size()) || (!soft && memcmp(&os[i], std::addressof(ops[i]->t), sizeof(mli_tensor)));
            for (size_t i = 0; i < tmp.size(); i++) wrote |= memcmp(tmp[i].data(), g_tmp[i]->p, tmp[i].size()) != 0;
            if (discover) _exit(st == MLI_STATUS_OK ? 7 : wrote ? 8 : 0);
            if (b.op < 0) b.undo();
            g_tmp.clear();
            c.count("misuse_calls"); c.count("misuse:" + b.name);
            if (st == MLI_STATUS_OK) c.fail("value", id + ":accepted", "misuse accepted: %s of %s", b.name.c_str(), who.c_str());
            else if (wrote) c.fail("memory", id + ":written", "an operand was modified by a call refused for %s of %s", b.name.c_str(), who.c_str());
            for (size_t i = 0; i < ops.size(); i++) { ops[i]->t = os[i]; if (st == MLI_STATUS_OK || wrote) memcpy(ops[i]->mem->p, mem[i].data(), mem[i].size()); }
        }
        for (size_t k = 0; k < outs.size(); k++) outs[k]->t = done[k];
        for (size_t k = 0; k < keep.size(); k++) memcpy(keep[k]->p, kept[k].data(), kept[k].size());
    }
#endif
    // Runs the call twice over different garbage; false when something was wrong
    bool run(const std::function<mli_status()>& f, const std::function<void()>& before = nullptr) {
        std::vector<std::vector<int64_t>> first;
        std::vector<mli_tensor> first_struct;
        std::vector<std::vector<uint8_t>> init_out;
        for (Ten* o : outs) init_out.push_back(std::vector<uint8_t>(o->mem->p, o->mem->p + o->mem->n));
        std::vector<mli_tensor> init_struct;
        for (Ten* o : outs) init_struct.push_back(o->t);
        bool ok = true;
        int passes = check_repeat ? 2 : 1;
        for (int pass = 0; pass < passes; pass++) {
            if (before) before();
            auto garbage = [&](size_t i) -> uint8_t { return (uint8_t)((i * 2654435761u >> 13) ^ (pass ? 0xC3 : 0x1D)); };
            for (Ten* i : ins) for (size_t b = 0; b < i->mem->n; b++) if (!i->live[b]) i->mem->p[b] = garbage(b);
            for (size_t k = 0; k < outs.size(); k++) {
                Ten* o = outs[k];
                o->t = init_struct[k];
                for (size_t b = 0; b < o->mem->n; b++) {
                    if ((inplace || o->inout) && o->live[b]) o->mem->p[b] = init_out[k][b];
                    else o->mem->p[b] = garbage(b + 7 * k);
                }
            }
            struct Snap { std::vector<uint8_t> b; mli_tensor t; std::vector<uint8_t> q[3]; };
            auto snap = [](Ten* t) {
                Snap s; s.b.assign(t->mem->p, t->mem->p + t->mem->n); s.t = t->t;
                Raw* r[3] = {t->sc.get(), t->zp.get(), t->sf.get()};
                for (int i = 0; i < 3; i++) if (r[i]) s.q[i].assign(r[i]->p, r[i]->p + r[i]->n);
                return s;
            };
            std::vector<Snap> si, so; std::vector<std::vector<uint8_t>> sr;
            for (Ten* i : ins) si.push_back(snap(i));
            for (Ten* o : outs) so.push_back(snap(o));
            for (Raw* q : ro) sr.push_back(std::vector<uint8_t>(q->p, q->p + q->n));
            int64_t t0 = g_spans ? now_ns() : 0;
            mli_status st = f();
            if (g_spans) g_spans->push_back({site, t0, now_ns()});
            c.count("calls");
            if (st != MLI_STATUS_OK) {
                c.fail("status", site + ":status", "valid call returned status %d", (int)st);
                return false;
            }
            auto cmpq = [&](Ten* t, Snap& s, const char* what) {
                Raw* r[3] = {t->sc.get(), t->zp.get(), t->sf.get()};
                for (int i = 0; i < 3; i++) if (r[i] && memcmp(r[i]->p, s.q[i].data(), r[i]->n)) {
                    c.fail("memory", site + ":quant_arrays", "%s tensor %s: quantisation array %d modified", what, t->name.c_str(), i); ok = false;
                }
            };
            for (size_t k = 0; k < ins.size(); k++) {
                Ten* t = ins[k];
                c.count("guarded_bytes", t->mem->n);
                if (memcmp(t->mem->p, si[k].b.data(), t->mem->n)) { c.fail("memory", site + ":input_modified", "input tensor %s data modified", t->name.c_str()); ok = false; }
                if (memcmp(&t->t, &si[k].t, sizeof(mli_tensor))) { c.fail("memory", site + ":input_struct", "input tensor %s structure modified", t->name.c_str()); ok = false; }
                cmpq(t, si[k], "input");
            }
            for (size_t k = 0; k < outs.size(); k++) {
                Ten* t = outs[k]; size_t bad = 0, firstb = 0;
                for (size_t b = 0; b < t->mem->n; b++) if (!t->live[b]) { c.count("gap_bytes"); if (t->mem->p[b] != so[k].b[b]) { if (!bad) firstb = b; bad++; } }
                if (bad) { c.fail("memory", site + ":output_gap", "output %s: %zu bytes between elements written (first at byte %zu)", t->name.c_str(), bad, firstb); ok = false; }
                if (!t->may_change_struct && memcmp(&t->t, &so[k].t, sizeof(mli_tensor))) { c.fail("memory", site + ":output_struct", "output tensor %s structure modified", t->name.c_str()); ok = false; }
                cmpq(t, so[k], "output");
            }
            for (size_t k = 0; k < ro.size(); k++) if (memcmp(ro[k]->p, sr[k].data(), sr[k].size())) { c.fail("memory", site + ":raw", "read-only block modified"); ok = false; }
            if (pass == 0) { for (Ten* o : outs) { first.push_back(o->vals()); first_struct.push_back(o->t); } }
            else for (size_t k = 0; k < outs.size(); k++) {
                for (int64_t i = 0; i < outs[k]->n(); i++) if (outs[k]->get(i) != first[k][i]) {
                    c.fail("repeat", site + ":repeat", "output %s[%lld] depends on stale memory or previous calls: %lld then %lld", outs[k]->name.c_str(), (long long)i, (long long)first[k][i], (long long)outs[k]->get(i));
                    ok = false; break;
                }
                if (memcmp(&outs[k]->t, &first_struct[k], sizeof(mli_tensor))) { c.fail("repeat", site + ":repeat_struct", "output struct %s differs between runs", outs[k]->name.c_str()); ok = false; }
            }
        }
#ifdef MON_CHK
        if (ok && !inplace && misuse) probe(f, init_struct);
#endif
        if (ok && g_share > 1 && !inplace && !noshare) ok = share(f, init_out, init_struct, first, first_struct);
        return ok;
    }

    // The same call from several threads at once: inputs, tables and configuration shared, every
    // thread with its own outputs.  Each must reproduce the serial result.
    bool share(const std::function<mli_status()>& f, const std::vector<std::vector<uint8_t>>& init_out, const std::vector<mli_tensor>& init_struct,
               const std::vector<std::vector<int64_t>>& first, const std::vector<mli_tensor>& first_struct) {
        int n = g_share; bool ok = true;
        struct Th { std::vector<std::unique_ptr<Raw>> mem; std::vector<mli_tensor> st; Redirect rd; mli_status res = MLI_STATUS_OK; std::vector<Span> sp; int delay = 0; };
        std::vector<Th> th(n); std::atomic<int> ready{0};
        for (int i = 0; i < n; i++) {
            Th& t = th[i]; t.st = init_struct; t.delay = (int)c.r.in(0, 3) * (int)c.r.in(0, 400);
            for (size_t k = 0; k < outs.size(); k++) {
                t.mem.emplace_back(new Raw(outs[k]->mem->n)); memcpy(t.mem[k]->p, init_out[k].data(), init_out[k].size());
                set_ptr(t.st[k].data, outs[k]->ty, t.mem[k]->p); t.rd.push_back({(const void*)std::addressof(outs[k]->t), &t.st[k]});
            }
        }
        std::vector<std::thread> run;
        for (int i = 0; i < n; i++) run.emplace_back([&, i] {
            Th& t = th[i]; g_redirect = &t.rd; ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) {}
            for (volatile int d = 0; d < t.delay; d = d + 1) {}
            int64_t t0 = now_ns(); t.res = f(); t.sp.push_back({site, t0, now_ns()}); g_redirect = nullptr; });
        for (auto& t : run) t.join();
        Overlap o; std::vector<std::vector<Span>> sp; for (auto& t : th) sp.push_back(t.sp); overlaps(sp, o);
        c.count("shared_calls", o.calls); c.count("overlapping_pairs", o.pairs); if (o.pairs) c.count("fn_overlapped_with_itself:" + site);
        for (int i = 0; i < n && ok; i++) {
            if (th[i].res != MLI_STATUS_OK) { c.fail("value", site + ":conc_status", "status %d in one of %d concurrent calls", (int)th[i].res, n); return false; }
            for (size_t k = 0; k < outs.size() && ok; k++) {
                Ten& x = *outs[k]; std::unique_ptr<Raw> keep(new Raw(x.mem->n)); memcpy(keep->p, x.mem->p, x.mem->n); memcpy(x.mem->p, th[i].mem[k]->p, x.mem->n);
                for (int64_t e = 0; e < x.n(); e++) if (x.get(e) != first[k][e]) { c.fail("value", site + ":conc_value", "%s[%lld] is %lld in thread %d of %d concurrent calls, %lld serially", x.name.c_str(), (long long)e, (long long)x.get(e), i, n, (long long)first[k][e]); ok = false; break; }
                memcpy(x.mem->p, keep->p, x.mem->n);
                mli_tensor a = th[i].st[k], b = first_struct[k];
                if (b.data.mem.pi8 == (int8_t*)x.mem->p) set_ptr(b.data, x.ty, th[i].mem[k]->p);
                if (memcmp(&a, &b, sizeof a)) { c.fail("value", site + ":conc_struct", "structure of %s differs between concurrent and serial call", x.name.c_str()); ok = false; }
                c.count("conc_outputs_checked", x.n());
            }
        }
        return ok;
    }
};

inline void compare(Case& c, const std::string& site, Ten& out, const std::vector<int64_t>& exp, const char* what = "value") {
    c.count("outputs_checked", exp.size());
    if ((int64_t)exp.size() != out.n()) { c.fail("harness", site + ":model_size", "model size %zu vs %lld", exp.size(), (long long)out.n()); return; }
    for (int64_t i = 0; i < out.n(); i++) {
        c.h((uint64_t)exp[i]);
        if (out.get(i) != exp[i]) {
            c.fail("value", site + ":" + what, "%s[%lld]: got %lld expected %lld", out.name.c_str(), (long long)i, (long long)out.get(i), (long long)exp[i]);
            return;
        }
    }
}
inline bool mixed(const std::vector<int64_t>& v) { for (size_t i = 1; i < v.size(); i++) if (v[i] != v[0]) return true; return false; }

// misuses common to the functions with weights and bias
inline void weights_misuse(Prot& p, Ten& in, Ten& w, Ten& b, Ten* out) {
#ifdef MON_CHK
    if (in.ty == SA8) { p.badt(w, "weights_zero_point", bad_zero_point()).badt(b, "bias_zero_point", bad_zero_point()).badt(b, "bias_scale", bad_bias_scale()); }
    else { p.badt(b, "bias_frac", bad_frac_above(in.frac() + w.frac())); if (out) p.badt(*out, "out_frac", bad_frac_above(in.frac() + w.frac())); }
#endif
}
// ------------------------------------------------- quantised post-processing
// limits of the fused ReLU, in output units
struct Lim { int64_t lo, hi; };
inline Lim relu_limits(mli_relu_type type, Ty oty, int64_t zero, int64_t scale, int64_t shift /*frac bits*/) {
    int64_t mn = tmin(oty), mx = tmax(oty); Lim l{mn, mx};
    if (oty == SA8) { mn = -128; mx = 127; l = {mn, mx}; }
    auto q = [&](int64_t k) -> int64_t {       // k in real units -> quantised distance from zero
        if (shift >= 0) return shift < 28 ? ((int64_t)k << shift) / scale : (k == 1 && shift < 30 ? ((int64_t)1 << shift) / scale : mx);
        return k == 6 ? (shift > -3 ? (k >> -shift) / scale : 0) : 0;
    };
    switch (type) {
        case MLI_RELU_NONE: break;
        case MLI_RELU_GEN: l.lo = std::max(zero, mn); break;
        case MLI_RELU_6: l.lo = std::max(zero, mn); l.hi = std::min(q(6) + zero, mx); break;
        case MLI_RELU_1: l.lo = std::max(-q(1) + zero, mn); l.hi = std::min(q(1) + zero, mx); break;
        default: break;
    }
    return l;
}
inline int64_t clampl(int64_t v, Lim l) { return std::min(std::max(v, l.lo), l.hi); }

struct SaMul { int64_t in_to_out_mul; int64_t in_to_out_shift; };
// scale_in / scale_out represented as 16 bit multiplier and shift
inline SaMul sa_in_out(int64_t s_in, int64_t f_in, int64_t s_out, int64_t f_out) {
    int n = rm::norm(s_in, 32);
    int64_t u = (s_in << n) / s_out;
    int m = rm::norm(u, 32);
    int64_t ratio = (int64_t)rm::cast(u, 16 - m, 32, 16);
    return {ratio, f_in + n - f_out - (16 - m)};
}
// accumulator (32 bit) -> SA8 output
inline int64_t sa_result(int64_t acc, SaMul im, int64_t w_scale, int64_t w_frac, int64_t out_zp, Lim l) {
    using namespace rm;
    int64_t mul = im.in_to_out_mul * w_scale, sh = im.in_to_out_shift + w_frac;
    int64_t preshift = 0; int64_t a = acc;
    if (!kFullAccu) {
        int n = norm(mul, 32);
        mul <<= n; sh += n;
        mul = (int64_t)rshr(mul, 16, 32); sh -= 16;
        preshift = std::min<int64_t>(std::max<int64_t>(sh - 21, 0), 8);
        a = (int64_t)rshr(a, (int)preshift, 32);
        a = (int64_t)(shl(a, 16, 32) >> 16);
    }
    int64_t sc = a * mul;
    int64_t s = std::min<int64_t>(sh - preshift, 63);
    int64_t v = (int64_t)cast(sc, (int)s, 64, 16);
    v = (int64_t)satw((i128)v + out_zp, 16);
    v = (int64_t)satw(v, 8);
    return clampl(v, l);
}
inline int64_t sa_bias(int64_t b) {
    if (kFullAccu) return b;
    int n = rm::norm(b, 32); int s = std::max(16 - n, 0);
    return (int64_t)rm::shl(b >> s, s, 32);
}
}  // namespace t2

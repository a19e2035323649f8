// MLI 3.0: drives a kernel through compile-time object -> private data blob ->
// run-time object -> tile loop, every buffer an exact-size guarded block.
#pragma once
#include "t2.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mli_debug.h"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_runtime_api.hpp"
#include "mli_helpers_api.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define T3_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define T3_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define T3_POISON(p, n) ((void)0)
#define T3_UNPOISON(p, n) ((void)0)
#endif

namespace m3 = snps_arc::metaware::mli;
namespace m3r = snps_arc::metaware::mli::ref;

namespace t3 {
using mon::Case;
using mon::Rng;
using t2::Shape;
using t2::Raw;
using t2::ss;
using t2::prod;
typedef std::vector<int64_t> Vals;

// host-side strided tensor
using t2::mille; using t2::wide;
struct Arr {
    std::string name; Shape shape; std::vector<int> stride; int es = 1;
    std::vector<uint8_t> mem; std::vector<size_t> off;
    int64_t n() const { return (int64_t)off.size(); }
    size_t span() const { size_t s = 0; for (size_t d = 0; d < shape.size(); d++) s += (size_t)(shape[d] - 1) * stride[d]; return s + 1; }
    static int64_t rd(const uint8_t* p, int es) { switch (es) { case 1: return *(int8_t*)p; case 2: { int16_t v; memcpy(&v, p, 2); return v; } default: { int32_t v; memcpy(&v, p, 4); return v; } } }
    static void wr(uint8_t* p, int es, int64_t v) { switch (es) { case 1: *(int8_t*)p = (int8_t)v; break; case 2: { int16_t x = (int16_t)v; memcpy(p, &x, 2); break; } default: { int32_t x = (int32_t)v; memcpy(p, &x, 4); } } }
    int64_t get(int64_t i) const { return rd(&mem[off[i] * es], es); }
    void set(int64_t i, int64_t v) { wr(&mem[off[i] * es], es, v); }
    Vals vals() const { Vals v(n()); for (int64_t i = 0; i < n(); i++) v[i] = get(i); return v; }
    int64_t idx(std::initializer_list<int> c) const { int64_t r = 0; size_t i = 0; for (int x : c) r = r * shape[i++] + x; return r; }
    int64_t at(std::initializer_list<int> c) const { return get(idx(c)); }
    uint32_t* dims(uint32_t* b) const { for (size_t i = 0; i < shape.size(); i++) b[i] = (uint32_t)shape[i]; return b; }
    int32_t* strs(int32_t* b) const { for (size_t i = 0; i < shape.size(); i++) b[i] = stride[i]; return b; }
};
inline void layout(Arr& a) {
    int64_t n = prod(a.shape); a.off.resize(n);
    for (int64_t i = 0; i < n; i++) {
        int64_t q = i; size_t o = 0;
        for (int d = (int)a.shape.size() - 1; d >= 0; d--) { o += (size_t)(q % a.shape[d]) * a.stride[d]; q /= a.shape[d]; }
        a.off[i] = o;
    }
    a.mem.assign(a.span() * a.es, 0x77);
}
// gaps: 0 contiguous, 1 gaps with inner stride 1, 2 gaps everywhere
inline void make(Arr& a, Rng& r, const char* name, int es, const Shape& shape, int gaps) {
    a.name = name; a.es = es; a.shape = shape; int rank = (int)shape.size(); a.stride.assign(rank, 0);
    int st = 1;
    for (int i = rank - 1; i >= 0; i--) {
        if ((gaps == 2 || (gaps == 1 && i < rank - 1)) && r.chance(50)) st += (int)r.in(1, 4);
        if (gaps && (gaps == 2 || i < rank - 1) && mille(r, 4)) {       // seldom a gap far beyond the data
            int64_t rest = 1; for (int j = 0; j <= i; j++) rest *= shape[j];
            int g = (int)r.in(100, 70000); if ((int64_t)(st + g) * rest <= (mille(r, 400) ? 200000 : 8000)) st += g;
        }
        a.stride[i] = st; st *= shape[i];
    }
    layout(a);
}
inline int64_t lo(int es) { return -((int64_t)1 << (es * 8 - 1)); }
inline int64_t hi(int es) { return ((int64_t)1 << (es * 8 - 1)) - 1; }
inline void fill(Arr& a, Rng& r, int64_t l, int64_t h) {
    int mode = (int)r.in(0, 9); if (mode >= 5) mode = 0; if (mode == 4 && r.chance(50)) mode = 1;
    for (int64_t i = 0; i < a.n(); i++) a.set(i, t2::val(r, mode, l, h));
}
inline void fill(Arr& a, Rng& r) { fill(a, r, lo(a.es), hi(a.es)); }

template <unsigned R> inline m3::Tensor<m3::NoBuffer, R> nb(const Arr& a) { uint32_t s[R]; int32_t st[R]; a.dims(s); a.strs(st); return m3::Tensor<m3::NoBuffer, R>(s, st); }
template <unsigned R, unsigned IR> inline m3::TensorIterator<m3::NoBuffer, R, IR> it(const Arr& a) { return m3::TensorIterator<m3::NoBuffer, R, IR>(nb<R>(a)); }

// read-only private copy of host data as a compile-time Buffer
struct HostBuf {
    Raw raw; int es;
    HostBuf(size_t bytes, int es_) : raw(bytes), es(es_) {}
    explicit HostBuf(const Arr& a) : raw(a.mem.size()), es(a.es) { memcpy(raw.p, a.mem.data(), a.mem.size()); }
    m3::Buffer b() const { return m3::Buffer(raw.p, (uint32_t)raw.n, (uint32_t)es); }
};
template <unsigned R> inline m3::Tensor<m3::Buffer, R> bt(const HostBuf& h, const Arr& a) { uint32_t s[R]; int32_t st[R]; a.dims(s); a.strs(st); return m3::Tensor<m3::Buffer, R>(h.b(), s, st); }

struct Buf { std::string name; uint8_t* p = nullptr; size_t n = 0; int es = 1; uint32_t offset = 0; int idx = 0; std::unique_ptr<Raw> own; std::vector<uint8_t> before; size_t used = 0; };

struct Env {
    Case& c; std::string site; int pass; bool reloc;      // reloc: several buffers in shared regions, blob and instance moved
    std::map<std::string, size_t>& need;                  // exact bytes needed per buffer, learnt in pass 0
    Rng pr;                                               // placement randomness, differs per pass
    std::vector<std::unique_ptr<Buf>> bufs;
    std::vector<std::unique_ptr<Raw>> regions; std::vector<size_t> regfill;
    std::vector<uint64_t> bases;
    std::map<uint8_t*, uint8_t*> shadow; std::vector<std::unique_ptr<Raw>> shadows;   // where the twin finds each buffer
    std::unique_ptr<Raw> cs, inst, inst2; m3::ExecutionInterface *ex = nullptr, *twin = nullptr;
    struct Tile { std::vector<std::vector<uint8_t>> before, after; };
    std::vector<Tile> rec;                                // what every Issue saw and left, for a second round
    bool bad = false;
    size_t tiles_run = 0;
    Env(Case& c_, const std::string& s, int p, bool rl, std::map<std::string, size_t>& nd, uint64_t seed)
        : c(c_), site(s), pass(p), reloc(rl), need(nd), pr(seed * 7919 + p * 104729 + 3) {}
    ~Env() { for (auto& r : regions) T3_UNPOISON(r->p, r->n); for (auto& r : shadows) T3_UNPOISON(r->p, r->n); }
    Env(const Env&) = delete;
    uint8_t junk(size_t i) const { return (uint8_t)((i * 2654435761u >> 13) ^ (pass ? 0xC3 : 0x1D)); }

    // memory for the compile-time object
    void* csmem(uint32_t bytes) { cs.reset(new Raw(bytes)); for (size_t i = 0; i < cs->n; i++) cs->p[i] = junk(i); return cs->p; }

    Buf& buf(const std::string& name, size_t bytes, int es, bool exact_full = false) {
        if (pass == 1 && !exact_full && need.count(name) && need[name] > 0) bytes = need[name];
        std::unique_ptr<Buf> b(new Buf); b->name = name; b->n = bytes; b->es = es;
        if (reloc && bytes < 20000 && pr.chance(70)) {
            // shared region; the space between buffers is poisoned
            if (regions.empty() || pr.chance(25)) {
                regions.emplace_back(new Raw(65536)); regfill.push_back(8 * (size_t)pr.in(0, 9));
                T3_POISON(regions.back()->p, 65536); bases.push_back((uint64_t)regions.back()->p);
                regbase.push_back((int)bases.size() - 1);
            }
            size_t k = regions.size() - 1; size_t o = (regfill[k] + 8 * (size_t)pr.in(2, 12) + 7) & ~(size_t)7;
            if (o + bytes + 64 < 65536) {
                b->p = regions[k]->p + o; b->offset = (uint32_t)o; b->idx = regbase[k]; regfill[k] = o + bytes;
                T3_UNPOISON(b->p, bytes);
            }
        }
        if (!b->p) {
            b->own.reset(new Raw(bytes)); b->p = b->own->p;
            // any offset and any memory index is legal: far offsets and unused memories in between
            b->offset = (uint32_t)(pr.chance(30) ? 4 * pr.in(0, 1000000000) : 4 * pr.in(0, 1000));
            if (pr.chance(5)) for (int k = (int)pr.in(1, 40); k > 0; k--) bases.push_back(0xBAD00000BAD00000ull);
            b->idx = (int)bases.size();
            bases.push_back((uint64_t)b->p - b->offset);
        }
        for (size_t i = 0; i < bytes; i++) b->p[i] = junk(i + 3);
        bufs.push_back(std::move(b));
        return *bufs.back();
    }
    std::vector<int> regbase;
    m3::OffsetBuffer ob(const Buf& b) { return m3::OffsetBuffer(b.offset, (uint32_t)b.idx, (uint32_t)b.n, (uint32_t)b.es); }
    m3::OffsetBuffer none() { return m3::OffsetBuffer(0, 0, 0, 1); }

    void fail(const char* kind, const char* what, const std::string& msg) { bad = true; c.fail(kind, site + ":" + what, "%s (pass %d)", msg.c_str(), pass); }

    // private data -> run-time object
    bool start(m3::CompilerGenericInterface* op) {
        if (!op) { fail("status", "cs_null", "no compile-time object"); return false; }
        uint32_t psz = op->GetKernelPrivateDataSize(), rsz = op->GetRuntimeObjectSize();
        std::unique_ptr<Raw> blob(new Raw(psz));
        for (size_t i = 0; i < psz; i++) blob->p[i] = junk(i + 11);
        mli_status st = op->GetKernelPrivateData(blob->p);
        if (st != MLI_STATUS_OK) { fail("status", "private_data", "GetKernelPrivateData status " + std::to_string((int)st)); return false; }
        // the compile-time object and the first copy of the blob go away
        std::unique_ptr<Raw> blob2(new Raw(psz)); memcpy(blob2->p, blob->p, psz);
        memset(blob->p, 0xEE, psz); blob.reset();
        if (cs) { memset(cs->p, 0xEE, cs->n); cs.reset(); }
        inst.reset(new Raw(rsz)); for (size_t i = 0; i < rsz; i++) inst->p[i] = junk(i + 17);
        std::vector<uint8_t> keep(blob2->p, blob2->p + psz);
        std::vector<uint64_t> b2 = bases;
        if (reloc) {
            // an instance buffer that is too small must be refused and left alone
            std::vector<uint8_t> ik(inst->p, inst->p + rsz);
            Raw small(rsz - 1);
            m3::ExecutionInterface* e = m3::ExecutionInterface::Create(small.p, rsz - 1, blob2->p, psz, b2.data(), (int)b2.size());
            if (e) { fail("value", "small_instance", "Create accepted an instance buffer smaller than GetRuntimeObjectSize"); return false; }
            c.count("too_small_instance_refused");
        }
        ex = m3::ExecutionInterface::Create(inst->p, rsz, blob2->p, psz, b2.data(), (int)b2.size());
        if (!ex) { fail("status", "create_null", "Create returned null"); return false; }
        if (memcmp(blob2->p, keep.data(), psz)) fail("memory", "blob_modified", "private data blob modified by Create");
        if (b2 != bases) fail("memory", "bases_modified", "membases modified by Create");
        if (reloc) {
            // a second instance from the same blob, with every memory at another base address
            std::vector<uint64_t> b3 = b2; std::map<int, Raw*> reg;
            for (auto& b : bufs) {
                if (b->own) {
                    shadows.emplace_back(new Raw(b->n)); shadow[b->p] = shadows.back()->p;
                    b3[b->idx] = (uint64_t)shadows.back()->p - b->offset;
                } else {
                    if (!reg.count(b->idx)) {
                        shadows.emplace_back(new Raw(65536)); reg[b->idx] = shadows.back().get();
                        T3_POISON(shadows.back()->p, 65536); b3[b->idx] = (uint64_t)shadows.back()->p;
                    }
                    shadow[b->p] = reg[b->idx]->p + b->offset; T3_UNPOISON(shadow[b->p], b->n);
                }
                memcpy(shadow[b->p], b->p, b->n);
            }
            std::vector<uint64_t> b3k = b3;
            inst2.reset(new Raw(rsz)); for (size_t i = 0; i < rsz; i++) inst2->p[i] = junk(i + 23);
            twin = m3::ExecutionInterface::Create(inst2->p, rsz, blob2->p, psz, b3.data(), (int)b3.size());
            if (!twin) { fail("status", "create_null", "Create of a second instance returned null"); return false; }
            if (memcmp(blob2->p, keep.data(), psz)) fail("memory", "blob_modified", "private data blob modified by Create");
            if (b3 != b3k) fail("memory", "bases_modified", "membases modified by Create");
            std::fill(b3.begin(), b3.end(), 0xBEEF0000BEEF0000ull);
            c.count("twin_instances");
            if (!c.local && pr.chance(4) && !refuses(blob2->p, psz, rsz, b2)) return false;
        }
        memset(blob2->p, 0xDD, psz); blob2.reset();
        std::fill(b2.begin(), b2.end(), 0xDEAD0000DEAD0000ull);
        c.count("instances");
        return true;
    }

    // Blobs that belong to no kernel or whose size is not the announced one are refused:
    // by an assertion in debug builds; release builds only know the kernel identifier.
    bool refuses(const uint8_t* blob, uint32_t psz, uint32_t rsz, std::vector<uint64_t>& b) {
        struct Bad { uint32_t size; uint32_t id; const char* what; };
        uint32_t id; memcpy(&id, blob, 4);
        std::vector<Bad> bad{{psz, 0, "invalid kernel identifier"}, {psz, 0x7f, "unknown kernel identifier"}};
#if !defined(DBG_MODE_FULL) || MLI_DEBUG_MODE != DBG_MODE_FULL
        const bool dies = false;
#else
        const bool dies = true;
        bad.push_back({psz - 4, id, "truncated private data"}); bad.push_back({psz + 4, id, "private data longer than announced"});
#endif
        for (auto& x : bad) {
            Raw bl(x.size); memcpy(bl.p, blob, std::min(psz, x.size)); memcpy(bl.p, &x.id, 4); Raw in(rsz);
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { fail("harness", "fork", "fork failed"); return false; }
            if (!pid) {
                int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); signal(SIGABRT, SIG_DFL); alarm(20);
                auto* e = m3::ExecutionInterface::Create(in.p, rsz, bl.p, x.size, b.data(), (int)b.size());
                _exit(e ? 7 : 0);
            }
            int st = 0; waitpid(pid, &st, 0);
            bool refused = dies ? WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT : WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!refused) { fail("value", "bad_blob", std::string(x.what) + " not refused (wait status " + std::to_string(st) + ")"); return false; }
            c.count("bad_blobs_refused");
        }
        return true;
    }
    void dirty(Buf& b) { for (size_t i = 0; i < b.n; i++) b.p[i] = junk(i * 3 + 5 + tiles_run); }
    void raw(Buf& b, const void* src, size_t n) {
        if (n > b.n) { fail("harness", "raw", "raw copy too large for " + b.name); return; }
        need[b.name] = std::max(need[b.name], n);
        memcpy(b.p, src, n);
    }
    // byte ranges of a tile inside its buffer (full tensor strides, start of buffer)
    template <class O, class S, class F> bool each(const Arr& a, const O* offs, const S* sizes, F f, const Shape* view = nullptr) {
        int rank = (int)a.shape.size();
        for (int d = 0; d < rank; d++) {
            int64_t o = (int64_t)offs[d], s = (int64_t)sizes[d];
            if (s <= 0 || o < 0 || o + s > a.shape[d]) {
                fail("value", "tile_bounds", a.name + ": reported tile dim " + std::to_string(d) + " offset " + std::to_string(o) + " size " + std::to_string(s) + " outside the tensor dim " + std::to_string(a.shape[d]));
                return false;
            }
        }
        std::vector<int64_t> i(rank, 0);
        for (;;) {
            size_t full = 0, tile = 0, lin = 0;
            for (int d = 0; d < rank; d++) { full += (size_t)((int64_t)offs[d] + i[d]) * a.stride[d]; tile += (size_t)i[d] * a.stride[d]; lin = lin * a.shape[d] + (size_t)((int64_t)offs[d] + i[d]); }
            f(full * a.es, tile * a.es, lin);
            int d = rank - 1;
            while (d >= 0 && ++i[d] == (int64_t)sizes[d]) { i[d] = 0; d--; }
            if (d < 0) break;
        }
        return true;
    }
    template <class O, class S> size_t extent(const Arr& a, const O* offs, const S* sizes) { size_t s = 0; for (size_t d = 0; d < a.shape.size(); d++) s += (size_t)((int64_t)sizes[d] - 1) * a.stride[d]; return (s + 1) * a.es; }
    template <class O, class S> bool load(Buf& b, const Arr& a, const O* offs, const S* sizes) {
        dirty(b);
        bool fits = true;
        bool ok = each(a, offs, sizes, [&](size_t full, size_t tile, size_t) { if (tile + a.es <= b.n) memcpy(b.p + tile, &a.mem[full], a.es); else fits = false; });
        if (!ok) return false;
        need[b.name] = std::max(need[b.name], extent(a, offs, sizes));
        if (!fits) { fail("value", "tile_extent", b.name + ": reported tile does not fit the planned buffer"); return false; }
        return true;
    }
    bool load_full(Buf& b, const Arr& a) { std::vector<int64_t> o(a.shape.size(), 0); return load(b, a, o.data(), a.shape.data()); }

    bool issue(std::initializer_list<Buf*> outs) {
        for (auto& b : bufs) b->before.assign(b->p, b->p + b->n);
        for (Buf* o : outs) { bool alias = false; for (auto& b : bufs) if (b.get() != o && b->p == o->p) alias = true; if (!alias && !inplace) { dirty(*o); o->before.assign(o->p, o->p + o->n); } }
        bool conc = twin && t2::g_share > 1;
        if (conc) {
            // both instances at once, each in a thread of its own
            for (auto& b : bufs) memcpy(shadow[b->p], b->before.data(), b->n);
            mli_status st[2] = {MLI_STATUS_OK, MLI_STATUS_OK}; std::vector<std::vector<t2::Span>> sp(2); std::atomic<int> ready{0}; m3::ExecutionInterface* x[2] = {ex, twin};
            std::vector<std::thread> th;
            for (int i = 0; i < 2; i++) th.emplace_back([&, i] {
                ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) {}
                int64_t t0 = t2::now_ns(); st[i] = x[i]->Prefetch(); if (st[i] == MLI_STATUS_OK) st[i] = x[i]->Issue(); sp[i].push_back({site, t0, t2::now_ns()}); });
            for (auto& t : th) t.join();
            t2::Overlap o; t2::overlaps(sp, o); c.count("shared_calls", o.calls); c.count("overlapping_pairs", o.pairs); if (o.pairs) c.count("fn_overlapped_with_itself:" + site);
            for (auto s : st) if (s != MLI_STATUS_OK) { fail("status", "issue", "status of a concurrent Issue " + std::to_string((int)s)); return false; }
        } else if (!go(ex)) return false;
        c.count("issues"); tiles_run++;
        Tile t; for (auto& b : bufs) { t.before.push_back(b->before); t.after.emplace_back(b->p, b->p + b->n); }
        if (twin) {
            if (!conc) {
                for (auto& b : bufs) memcpy(shadow[b->p], b->before.data(), b->n);
                if (!go(twin)) return false;
            }
            for (size_t i = 0; i < bufs.size(); i++) {
                if (memcmp(shadow[bufs[i]->p], t.after[i].data(), bufs[i]->n)) { fail("repeat", "twin", "two instances of the same private data at other base addresses differ in buffer " + bufs[i]->name + " in tile " + std::to_string(tiles_run)); return false; }
                if (memcmp(bufs[i]->p, t.after[i].data(), bufs[i]->n)) { fail("memory", "twin_crosstalk", "the relocated instance wrote into the other's buffer " + bufs[i]->name); return false; }
            }
            c.count("twin_issues");
        }
        rec.push_back(std::move(t));
        bool ok = true;
        for (auto& b : bufs) {
            bool isout = false; for (Buf* o : outs) if (o == b.get()) isout = true;
            c.count("guarded_bytes", b->n);
            if (!isout && memcmp(b->p, b->before.data(), b->n)) { fail("memory", "input_modified", "buffer " + b->name + " modified by Issue"); ok = false; }
        }
        return ok;
    }
    bool go(m3::ExecutionInterface* x) {
        int64_t t0 = t2::g_spans ? t2::now_ns() : 0;
        mli_status st = x->Prefetch();
        if (st != MLI_STATUS_OK) { fail("status", "prefetch", "Prefetch status " + std::to_string((int)st)); return false; }
        st = x->Issue();
        if (st != MLI_STATUS_OK) { fail("status", "issue", "Issue status " + std::to_string((int)st)); return false; }
        if (t2::g_spans) t2::g_spans->push_back({site, t0, t2::now_ns()});
        return true;
    }
    // The iterators are back at the first tile: a second round over the same data gives the same bytes.
    void second_round() {
        for (size_t k = 0; k < rec.size() && !bad; k++) {
            for (size_t i = 0; i < bufs.size(); i++) memcpy(bufs[i]->p, rec[k].before[i].data(), bufs[i]->n);
            if (!go(ex)) return;
            c.count("second_round_issues");
            for (size_t i = 0; i < bufs.size(); i++) if (memcmp(bufs[i]->p, rec[k].after[i].data(), bufs[i]->n)) { fail("repeat", "second_round", "second round of the same instance differs in buffer " + bufs[i]->name + " in tile " + std::to_string(k + 1) + " of " + std::to_string(rec.size())); return; }
            if (ex->Update() != MLI_STATUS_OK) { fail("status", "update", "Update failed in the second round"); return; }
        }
    }
    bool inplace = false, multi = false;   // multi: tiles may overlap
    template <class O, class S> bool store(Buf& b, Arr& a, std::vector<int>& cnt, const O* offs, const S* sizes) {
        if (cnt.empty()) cnt.assign(a.n(), 0);
        std::vector<char> live(b.n, 0); bool fits = true;
        bool ok = each(a, offs, sizes, [&](size_t full, size_t tile, size_t lin) {
            if (tile + a.es > b.n) { fits = false; return; }
            memcpy(&a.mem[full], b.p + tile, a.es); cnt[lin]++;
            for (int k = 0; k < a.es; k++) live[tile + k] = 1;
        });
        if (!ok) return false;
        need[b.name] = std::max(need[b.name], extent(a, offs, sizes));
        if (!fits) { fail("value", "tile_extent", b.name + ": reported tile does not fit the planned buffer"); return false; }
        for (size_t i = 0; i < b.n; i++) if (!live[i]) { c.count("gap_bytes"); if (b.p[i] != b.before[i]) { fail("memory", "output_gap", b.name + ": byte " + std::to_string(i) + " outside the tile's elements written"); return false; } }
        return true;
    }
    bool store_full(Buf& b, Arr& a, std::vector<int>& cnt) { std::vector<int64_t> o(a.shape.size(), 0); return store(b, a, cnt, o.data(), a.shape.data()); }
    bool update() {
        mli_status st = ex->Update();
        if (st == MLI_STATUS_OK && twin) st = twin->Update();
        if (st != MLI_STATUS_OK) { fail("status", "update", "Update status " + std::to_string((int)st)); return false; }
        return true;
    }
};

// Runs body(env, out) twice: first with generous buffers, then with the exact sizes
// learnt, other placement and other stale contents; compares against `exp`.
inline void run(Case& c, const std::string& site, bool reloc, Arr& out, const Vals& exp,
                const std::function<bool(Env&, Arr&, std::vector<int>&)>& body) {
    std::map<std::string, size_t> need; Vals first; bool overlap = false;
    for (int pass = 0; pass < 2; pass++) {
        Env e(c, site, pass, reloc, need, c.seed);
        Arr o = out; for (size_t i = 0; i < o.mem.size(); i++) o.mem[i] = e.junk(i + 29);
        std::vector<int> cnt;
        if (!body(e, o, cnt) || e.bad) { if (!e.bad && !c.skipped) c.fail("harness", site + ":body", "body gave up without a report"); return; }
        if (pass == 1) { e.second_round(); if (e.bad) return; }
        if (cnt.empty()) cnt.assign(o.n(), 0);
        for (int64_t i = 0; i < o.n(); i++) if (e.multi ? cnt[i] < 1 : cnt[i] != 1) {
            c.fail("value", site + ":coverage", "output element %lld produced %d times in %zu tiles (pass %d)", (long long)i, cnt[i], e.tiles_run, pass);
            return;
        }
        for (int64_t i = 0; i < o.n(); i++) {
            if (pass == 0) c.h((uint64_t)exp[i]);
            if (o.get(i) != exp[i] && cnt[i] > 1) {
                if (!overlap) c.fail("value", site + ":overlap_value", "output[%lld], covered by %d tiles: got %lld expected %lld (%zu tiles)", (long long)i, cnt[i], (long long)o.get(i), (long long)exp[i], e.tiles_run);
                overlap = true;
            } else if (o.get(i) != exp[i]) {
                if (pass == 1 && first[i] == exp[i]) c.fail("repeat", site + ":repeat", "output[%lld] %lld then %lld after relocation", (long long)i, (long long)first[i], (long long)o.get(i));
                else c.fail("value", site + ":value", "output[%lld]: got %lld expected %lld (pass %d, %zu tiles)", (long long)i, (long long)o.get(i), (long long)exp[i], pass, e.tiles_run);
                return;
            }
        }
        c.count("outputs_checked", exp.size());
        if (e.tiles_run > 1) c.count("multi_tile_runs");
        first = o.vals();
    }
    if (t2::mixed(exp)) c.nontrivial = true;
}
// pick a tile size for a dimension

inline int tile(Rng& r, int dim) { return dim == 1 || r.chance(25) ? dim : (int)r.in(dim > 60 ? dim / 6 : dim > 20 ? 3 : 1, dim); }
// Split an output dimension into tiles of T so that a windowed kernel can be
// tiled: only the first tile may need leading padding and only the last one
// (or its neighbour) trailing padding, and every tile touches real input.
inline int win_tile(Rng& r, int O, int I, int s, int ek, int pb) {
    int T = tile(r, O), n = (O + T - 1) / T;
    if (n == 1) return O;
    if (T * s < pb || (T - 1) * s + ek - pb < 1) return O;
    for (int t = 0; t < n; t++) {
        int b = t * T;
        if (b * s - pb >= I) return O;
    }
    return T;
}
struct Win { int k, s, d, pb, pe, I, O, ek; };
inline Win window(Rng& r, int maxi, bool dilate = true) {
    Win w;
    for (bool got = false;; got = true) {
        w.k = (int)r.in(1, 5); w.s = (int)r.in(1, 3); w.d = r.chance(70) || !dilate ? 1 : (int)r.in(2, 3); w.ek = (w.k - 1) * w.d + 1;
        w.I = (int)r.in(1, maxi);
        if (mille(r, 25)) { w.k = (int)r.in(1, 14); w.s = (int)r.in(1, 10); w.d = r.chance(50) || !dilate ? 1 : (int)r.in(2, 7); w.ek = (w.k - 1) * w.d + 1; w.I = (int)r.in(1, 40); }
        if (!got && mille(r, 12)) { w.I = wide(r, mille(r, 100) ? 1500 : 400); w.k = (int)r.in(1, 3); w.ek = (w.k - 1) * w.d + 1; }
        w.pb = r.chance(40) ? 0 : (int)r.in(0, w.ek - 1); w.pe = r.chance(40) ? 0 : (int)r.in(0, w.ek - 1);
        if (w.I + w.pb + w.pe < w.ek) continue;
        w.O = (w.I + w.pb + w.pe - w.ek) / w.s + 1;
        if ((w.O - 1) * w.s - w.pb >= w.I) continue;   // last window starts beyond the input
        if (w.O * w.s < w.pb) continue;             // documented limit of the 3.0 iterators (asserted)
        return w;
    }
}
// a large kernel of which most may lie in the padding
inline Win bigwin(Rng& r, bool dilate = true) {
    Win w;
    for (;;) {
        w.k = (int)r.in(8, 16); w.s = (int)r.in(1, 12); w.d = r.chance(80) || !dilate ? 1 : 2; w.ek = (w.k - 1) * w.d + 1; w.I = (int)r.in(1, 24);
        w.pb = r.chance(20) ? 0 : (int)r.in(0, w.ek - 1); w.pe = r.chance(20) ? 0 : (int)r.in(0, w.ek - 1);
        if (w.I + w.pb + w.pe < w.ek) continue;
        w.O = (w.I + w.pb + w.pe - w.ek) / w.s + 1;
        if ((w.O - 1) * w.s - w.pb >= w.I || w.O * w.s < w.pb || w.O > 6) continue;
        return w;
    }
}
template <class K> K* impl(Env& e) { K* k = dynamic_cast<K*>(e.ex); if (!k) e.fail("value", "type", "Create returned another kernel"); return k; }

struct Mode { bool tiled, reloc; };
inline thread_local bool g_reloc = false;     // every case in relocation mode
inline Mode mode(Case& c, bool tiled) { bool r = c.r.chance(tiled ? 50 : 25); return Mode{tiled, r || g_reloc}; }
struct Reloc { Reloc() { g_reloc = true; } ~Reloc() { g_reloc = false; } };
// the same workload with relocation in every case, whole or tiled
#define RELOC_TEST(name, expr_tiled, expr_whole) MON_TEST(name##_reloc) { Reloc rl; if (c.r.chance(50)) { expr_tiled; } else { expr_whole; } }
}  // namespace t3

// MLI 3.0 Move (data movement through iterators) and ResizeBilinear.
#include "t3.h"
#include "mli_api.h"
using namespace t3;
typedef m3::TensorIterator<m3::NoBuffer, 5, 5> It5;
typedef m3::IteratorCfg<5> Cfg5;
typedef m3::Tensor<m3::NoBuffer, 5> T5;

// One side of a move: the whole tensor in memory, or just room for one tile.
struct Side { bool tiles; Arr a; };   // a: whole tensor

// Tiling of the whole, walked by the harness itself in iteration order.
struct Walk {
    int ord[5]; int64_t n[5], inc[5], size[5], dim[5], idx[5];   // per iteration dimension
    void get(int64_t* o, int64_t* s) const { for (int i = 0; i < 5; i++) { int d = ord[i]; o[d] = idx[i] * inc[i]; s[d] = std::min(size[i], dim[i] - o[d]); } }
    int total() const { int64_t k = 1; for (int i = 0; i < 5; i++) k *= n[i]; return (int)k; }
    void next() { for (int i = 0; i < 5; i++) { if (++idx[i] < n[i]) return; idx[i] = 0; } }
};
static std::string s5(const int64_t* p) { std::string x; for (int i = 0; i < 5; i++) x += (i ? "," : "") + std::to_string(p[i]); return x; }

static void move_case(Case& c, Mode md, bool order) {
    Rng& r = c.r;
    int es = r.chance(33) ? 4 : (int)r.in(1, 2), rank = (int)r.in(1, 5);
    Shape s(5, 1); for (int i = 0; i < rank; i++) s[i] = r.chance(20) ? 1 : (int)r.in(1, 5);
    if (mille(r, 12)) { for (int& v : s) v = std::min(v, 2); int cap = r.chance(95) ? 3000 : 70000; if (cap > 3000) for (int& v : s) v = 1; s[r.in(0, rank - 1)] = wide(r, cap); }
    if (r.chance(30)) { Shape t = s; for (int i = 0; i < 5; i++) s[i] = t[4 - i]; }
    Arr src, dst; make(src, r, "src", es, s, (int)r.in(0, 2)); make(dst, r, "dst", es, s, (int)r.in(0, 2));
    fill(src, r);
    bool st = md.tiled && r.chance(25), dt = md.tiled && !st && r.chance(35);   // one tile in memory instead of the whole tensor
    // configuration styles: 0 untiled, 1 computed by the library from the tile size, 2 explicit with positive last
    // increment (the increments add up to the dimension), 3 explicit with the last increment going back to 0, 4 overlapping tiles
    int style = !md.tiled ? 0 : (int)r.in(1, 4);
    Walk w; for (int i = 0; i < 5; i++) w.ord[i] = i;
    if (order) for (int i = 4; i > 0; i--) std::swap(w.ord[i], w.ord[r.in(0, i)]);
    int32_t n[5], finc[5], inc[5], linc[5], fs[5], sz[5], ls[5], ord[5]; uint32_t ts[5];
    for (int i = 0; i < 5; i++) {
        int d = w.ord[i], dim = s[d], t = md.tiled ? tile(r, dim) : dim, step = t;
        if (style == 4 && t < dim && t > 1) step = (int)r.in(1, t);
        int cnt = (dim + step - 1) / step;
        if (style == 4) while (cnt > 1 && (cnt - 2) * step + t >= dim) cnt--;     // last tile is the first to reach the end
        ord[i] = d; n[i] = cnt; finc[i] = inc[i] = step; fs[i] = sz[i] = t; ls[i] = std::min(t, dim - step * (cnt - 1)); ts[d] = t;
        linc[i] = style == 2 ? dim - step * (cnt - 1) : -step * (cnt - 1);
        if (style == 2 && r.chance(50)) ls[i] = t;        // the end of the tensor cuts the last tile
        if (cnt == 1 && style != 2) finc[i] = inc[i] = 0;
        w.n[i] = cnt; w.inc[i] = step; w.size[i] = t; w.dim[i] = dim; w.idx[i] = 0;
    }
    int64_t nom[5]; for (int d = 0; d < 5; d++) nom[d] = ts[d];
    int form = (int)r.in(0, 2); bool attach_t = r.chance(30);
    c.d("move form %d attach %d es %d shape %s style %d order %d%d%d%d%d tile %s src %s dst %s", form, attach_t, es, ss(s).c_str(), style, w.ord[0], w.ord[1], w.ord[2], w.ord[3], w.ord[4], s5(nom).c_str(), st ? "tile" : "whole", dt ? "tile" : "whole");
    Vals exp = src.vals();
    std::string site = std::string("move30") + (md.tiled ? "_tiled" : "") + (order ? "_order" : "");
    run(c, site, md.reloc, dst, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        e.multi = style == 4; e.inplace = true;
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        T5 tsrc = nb<5>(src), tdst = nb<5>(dst);
        auto mk = [&](const T5& t, bool tiles) -> It5 {
            if (style == 0 && !order) return It5(t);
            if (style == 1 && !tiles) { int32_t od[5]; for (int i = 0; i < 5; i++) od[i] = w.ord[i]; return It5(t, ts, od); }
            return It5(t, Cfg5(ord, n, finc, inc, linc, fs, sz, ls, tiles ? (uint32_t)1 + (uint32_t)(c.seed & 1) : 0));
        };
        It5 si = mk(tsrc, st), di = mk(tdst, dt);
        void* cm = e.csmem(f.Move_CS_GetSize());
        const auto dir = m3::MoveDataDirection::kMoveDataDirectionInput;
        m3::Move_CS* op = form == 0 && style == 0 && !order ? f.Move_CS(cm, tsrc, tdst, dir)
                        : form == 1 ? f.Move_CS(cm, tsrc, si.get_config(), tdst, di.get_config(), dir) : f.Move_CS(cm, si, di, dir);
        // tile buffers: contiguous in the nominal tile size
        Arr tb; tb.es = es; tb.shape.assign(5, 0); tb.stride.assign(5, 0); { int q = 1; for (int d = 4; d >= 0; d--) { tb.shape[d] = (int)nom[d]; tb.stride[d] = q; q *= (int)nom[d]; } } layout(tb);
        auto& sb = e.buf("src", (st ? tb : src).mem.size(), es); auto& db = e.buf("dst", (dt ? tb : dst).mem.size(), es, true);
        mli_status status;
        if (attach_t) {
            uint32_t d5[5]; int32_t q5[5];
            m3::Tensor<m3::OffsetBuffer, 5> a(e.ob(sb), src.dims(d5), src.strs(q5)), b(e.ob(db), dst.dims(d5), dst.strs(q5));
            status = op->AttachBufferOffsets(a, b);
        } else status = op->AttachBufferOffsets(e.ob(sb), e.ob(db), e.none());
        if (status != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (!e.start(op)) return false;
        if (!impl<m3r::Move>(e)) return false;
        if (!st && !e.load_full(sb, src)) return false;
        if (cnt.empty()) cnt.assign(o.n(), 0);
        Walk k = w;
        for (int t = k.total(); t > 0; t--, k.next()) {
            int64_t off[5], size[5]; k.get(off, size);
            auto each = [&](auto f2) {   // (linear index, byte offset in the whole source, destination, tile buffer)
                int64_t i[5] = {0, 0, 0, 0, 0};
                for (;;) {
                    size_t lin = 0, a = 0, b = 0, q = 0;
                    for (int d = 0; d < 5; d++) { lin = lin * s[d] + off[d] + i[d]; a += (off[d] + i[d]) * src.stride[d]; b += (off[d] + i[d]) * dst.stride[d]; q += i[d] * tb.stride[d]; }
                    f2(lin, a * es, b * es, q * es);
                    int d = 4; while (d >= 0 && ++i[d] == size[d]) { i[d] = 0; d--; }
                    if (d < 0) return;
                }
            };
            if (st) { e.dirty(sb); bool fit = true; each([&](size_t, size_t a, size_t, size_t q) { if (q + es <= sb.n) memcpy(sb.p + q, &src.mem[a], es); else fit = false; e.need[sb.name] = std::max(e.need[sb.name], q + es); }); if (!fit) { e.fail("harness", "tile", "tile does not fit"); return false; } }
            e.dirty(db);
            if (!e.issue({&db})) return false;
            std::vector<char> live(db.n, 0);
            each([&](size_t lin, size_t, size_t b, size_t q) { size_t p = dt ? q : b; memcpy(&o.mem[b], db.p + p, es); cnt[lin]++; for (int j = 0; j < es; j++) live[p + j] = 1; });
            for (size_t i = 0; i < db.n; i++) if (!live[i]) { c.count("gap_bytes"); if (db.p[i] != db.before[i]) { e.fail("value", "outside_tile", "byte " + std::to_string(i) + " outside the tile at " + s5(off) + " written"); return false; } }
            if (!e.update()) return false;
        }
        return true;
    });
}
MON_TEST(move30) { move_case(c, mode(c, false), false); }
MON_TEST(move30_tiled) { move_case(c, mode(c, true), false); }

// ---- ResizeBilinear (stand-alone entry) ------------------------------------------
MON_TEST(resize30) {
    Rng& r = c.r;
    Shape s(4), os(4); for (int i = 0; i < 4; i++) { s[i] = r.chance(20) ? 1 : (int)r.in(1, 7); os[i] = i == 1 || i == 2 ? (int)r.in(1, 9) : s[i]; }
    if (mille(r, 15)) { int i = (int)r.in(0, 3); for (int j = 0; j < 4; j++) if (j != i) { s[j] = std::min(s[j], 2); os[j] = std::min(os[j], 2); if (j == 0 || j == 3) os[j] = s[j]; } s[i] = wide(r, 3000); os[i] = i == 1 || i == 2 ? (int)r.in(1, 400) : s[i]; }
    int shift = (int)r.in(1, 11); int16_t st[2], of[2];
    for (int k = 0; k < 2; k++) {
        int64_t hi_ = ((int64_t)16 << shift) - 1, lo_ = shift >= 4 ? (1 << (shift - 4)) + 1 : 1;
        // mostly the usual scalings that walk over the input, sometimes the limits
        int64_t a = r.chance(70) ? ((int64_t)s[1 + k] << shift) / os[1 + k] : r.in(lo_, hi_), b = r.chance(50) ? (a - (1 << shift)) / 2 : r.in(-hi_, hi_);
        if (r.chance(30)) b = 0;
        if (r.chance(5)) a = r.chance(50) ? lo_ : hi_;
        if (r.chance(5)) b = r.chance(50) ? -hi_ : hi_;
        a = std::max(lo_, std::min<int64_t>(a, std::min<int64_t>(hi_, 32767))); b = std::max(-hi_, std::min(b, hi_)); b = std::max<int64_t>(-32767, std::min<int64_t>(b, 32767));
        st[k] = (int16_t)a; of[k] = (int16_t)b;
    }
    Arr in, out; make(in, r, "input", 1, s, (int)r.in(0, 2)); make(out, r, "output", 4, os, (int)r.in(0, 2));
    fill(in, r);
    c.d("resize in %s out %s stride %d,%d offset %d,%d shift %d", ss(s).c_str(), ss(os).c_str(), st[0], st[1], of[0], of[1], shift);
    Vals exp(out.n()); const int64_t one = (int64_t)1 << shift;
    for (int64_t i = 0; i < out.n(); i++) {
        int64_t q = i; int co[4]; for (int d = 3; d >= 0; d--) { co[d] = (int)(q % os[d]); q /= os[d]; }
        int64_t p0[2], p1[2], fr[2];
        for (int k = 0; k < 2; k++) {
            int64_t v = (int64_t)co[1 + k] * st[k] + of[k], fl = v >= 0 ? v / one : -((-v + one - 1) / one);
            fr[k] = v - fl * one; int64_t m = s[1 + k] - 1;
            p0[k] = std::min(std::max<int64_t>(fl, 0), m); p1[k] = std::min(std::max<int64_t>(fl + 1, 0), m);
        }
        auto V = [&](int64_t y, int64_t x) { return in.at({co[0], (int)y, (int)x, co[3]}); };
        exp[i] = V(p0[0], p0[1]) * (one - fr[0]) * (one - fr[1]) + V(p0[0], p1[1]) * (one - fr[0]) * fr[1] + V(p1[0], p0[1]) * fr[0] * (one - fr[1]) + V(p1[0], p1[1]) * fr[0] * fr[1];
    }
    for (int pass = 0; pass < 2; pass++) {
        Raw ib(in.mem.size()), ob(out.mem.size());
        memcpy(ib.p, in.mem.data(), ib.n); for (size_t i = 0; i < ob.n; i++) ob.p[i] = (uint8_t)(i * 37 + pass * 91);
        std::vector<uint8_t> before(ob.p, ob.p + ob.n);
        mli_tensor ti, to; memset(&ti, pass ? 0xA5 : 0x5A, sizeof ti); memset(&to, pass ? 0x5A : 0xA5, sizeof to);
        ti.data.mem.pi8 = (int8_t*)ib.p; ti.data.capacity = (uint32_t)ib.n; to.data.mem.pi32 = (int32_t*)ob.p; to.data.capacity = (uint32_t)ob.n;
        ti.rank = to.rank = 4; ti.el_type = MLI_EL_SA_8; to.el_type = MLI_EL_SA_32;
        for (int d = 0; d < 4; d++) { ti.shape[d] = s[d]; ti.mem_stride[d] = in.stride[d]; to.shape[d] = os[d]; to.mem_stride[d] = out.stride[d]; }
        ti.el_params.sa.dim = to.el_params.sa.dim = -1;
        m3::ResizeOpConfig cfg(st, of, (int8_t)shift);
        m3r::run_mli_resize_bilinear_standalone(&ti, cfg, &to);
        c.count("issues");
        if (memcmp(ib.p, in.mem.data(), ib.n)) { c.fail("memory", "resize30:input_modified", "input changed"); return; }
        std::vector<char> live(ob.n, 0);
        for (int64_t i = 0; i < out.n(); i++) {
            if (pass == 0) c.h((uint64_t)exp[i]);
            int64_t v = Arr::rd(ob.p + out.off[i] * 4, 4); for (int k = 0; k < 4; k++) live[out.off[i] * 4 + k] = 1;
            if (v != exp[i]) { c.fail("value", "resize30:value", "output[%lld]: got %lld expected %lld", (long long)i, (long long)v, (long long)exp[i]); return; }
        }
        for (size_t i = 0; i < ob.n; i++) if (!live[i] && ob.p[i] != before[i]) { c.fail("memory", "resize30:output_gap", "byte %zu between output elements written", i); return; }
        c.count("outputs_checked", exp.size());
    }
    if (t2::mixed(exp)) c.nontrivial = true;
}

// relocation workloads
RELOC_TEST(move30, move_case(c, mode(c, true), false), move_case(c, mode(c, false), false))
// the kernel that does nothing
MON_TEST(nop30_reloc) {
    Reloc rl; Rng& r = c.r; int n = (int)r.in(1, 5), nb = (int)r.in(0, 3); c.d("nop bufs %d issues %d", nb, n); c.h(c.seed); c.nontrivial = true;
    std::map<std::string, size_t> need;
    for (int pass = 0; pass < 2; pass++) {
        Env e(c, "nop30", pass, true, need, c.seed);
        for (int i = 0; i < nb; i++) e.buf("b" + std::to_string(i), (size_t)r.in(1, 300), 1);
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        auto* op = f.Nop_CS(e.csmem(f.Nop_CS_GetSize()));
        if (!e.start(op)) return;
        for (int i = 0; i < n; i++) if (!e.issue({}) || !e.update()) return;
    }
    c.count("outputs_checked");
}

// MLI 3.0 tensors, iterator configurations and iterators: which elements of the
// full tensor every step of an iteration addresses, against independent arithmetic.
#include "t3.h"
using namespace t3;
typedef std::vector<int64_t> V;

static std::string vs(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }

// a tile: position and size in each dimension
struct Box { V pos, size; };
struct Step { std::vector<int> idx; Box b; };

// nested iteration, order[0] innermost (fastest)
static std::vector<Step> walk(const std::vector<int>& order, const std::vector<std::vector<std::pair<int64_t, int64_t>>>& per) {
    size_t R = order.size(); std::vector<int> i(R, 0); std::vector<Step> out;
    for (;;) {
        Step s; s.idx = i; s.b.pos.assign(R, 0); s.b.size.assign(R, 0);
        for (size_t k = 0; k < R; k++) { s.b.pos[order[k]] = per[k][i[k]].first; s.b.size[order[k]] = per[k][i[k]].second; }
        out.push_back(s);
        size_t k = 0; while (k < R && ++i[k] == (int)per[k].size()) i[k++] = 0;
        if (k == R) return out;
    }
}

template <unsigned R> struct Full {
    Arr a; Raw raw; m3::Buffer buf; m3::Tensor<m3::Buffer, R> t; V lin;     // lin: value stored at each logical index
    static Arr mk(Rng& r, const Shape& s) { Arr a; make(a, r, "t", 4, s, (int)r.in(0, 2)); return a; }
    Full(Rng& r, const Shape& s) : a(mk(r, s)), raw(a.mem.size()) {
        for (int64_t i = 0; i < a.n(); i++) a.set(i, 1000 + i);
        memcpy(raw.p, a.mem.data(), a.mem.size());
        buf = m3::Buffer(raw.p, (uint32_t)raw.n, 4);
        uint32_t d[R]; int32_t st[R]; a.dims(d); a.strs(st); t = m3::Tensor<m3::Buffer, R>(buf, d, st);
    }
};
static int64_t lin_of(const Shape& s, const V& p) { int64_t r = 0; for (size_t i = 0; i < s.size(); i++) r = r * s[i] + p[i]; return r; }
static bool step(V& i, const V& n) { for (int d = (int)n.size() - 1; d >= 0; d--) { if (++i[d] < n[d]) return true; i[d] = 0; } return false; }

// a (sub)tensor shows exactly the elements of the box
template <unsigned R> static bool shows(Case& c, const std::string& site, Full<R>& f, m3::Tensor<m3::Buffer, R> t, const Box& b, std::vector<int>* cnt, size_t at) {
    for (unsigned d = 0; d < R; d++) if (t.get_dim(d) != (uint32_t)b.size[d]) { c.fail("value", site + ":size", "step %zu: tile dimension %u is %u, expected %lld (at %s size %s)", at, d, t.get_dim(d), (long long)b.size[d], vs(b.pos).c_str(), vs(b.size).c_str()); return false; }
    V i(R, 0);
    do {
        uint32_t p[R]; V q(R); for (unsigned d = 0; d < R; d++) { p[d] = (uint32_t)i[d]; q[d] = b.pos[d] + i[d]; }
        uint32_t o = t.get_offset(p); size_t byte = ((size_t)o + t.get_offs()) * 4;
        if (byte + 4 > f.raw.n) { c.fail("memory", site + ":outside", "step %zu: tile element %s addresses byte %zu of %zu", at, vs(i).c_str(), byte, f.raw.n); return false; }
        int32_t v = t.template read<int32_t>(o); int64_t l = lin_of(f.a.shape, q);
        if (v != 1000 + l) { c.fail("value", site + ":element", "step %zu: tile at %s element %s shows %d, expected %lld", at, vs(b.pos).c_str(), vs(i).c_str(), v, (long long)(1000 + l)); return false; }
        if (cnt) (*cnt)[l]++;
        c.count("elements_checked");
    } while (step(i, b.size));
    return true;
}

// drive an iterator through `rounds` rounds
template <unsigned R> static bool drive(Case& c, const std::string& site, Full<R>& f, m3::TensorIterator<m3::Buffer, R, R>& it, const std::vector<Step>& st, int rounds, bool partition) {
    if (it.GetTotalCount() != st.size()) { c.fail("value", site + ":count", "GetTotalCount %u, expected %zu", it.GetTotalCount(), st.size()); return false; }
    std::map<uint32_t, V> shapes;
    for (int round = 0; round < rounds; round++) {
        std::vector<int> cnt(f.a.n(), 0);
        for (size_t k = 0; k < st.size(); k++) {
            int32_t idx[R]; it.get_tile_idx(idx);
            for (unsigned d = 0; d < R; d++) {
                if (idx[d] != st[k].idx[d]) { c.fail("value", site + ":index", "round %d step %zu: tile index %d of iteration dimension %u, expected %d", round, k, idx[d], d, st[k].idx[d]); return false; }
                bool first = st[k].idx[d] == 0, last = st[k].idx[d] == it.get_config().get_count(d) - 1;
                if (it.is_first_tile(d) != first || it.is_last_tile(d) != last) { c.fail("value", site + ":first_last", "round %d step %zu dimension %u: is_first_tile %d is_last_tile %d", round, k, d, it.is_first_tile(d), it.is_last_tile(d)); return false; }
            }
            if (!shows<R>(c, site, f, it.GetSubTensor(), st[k].b, &cnt, k)) return false;
            uint32_t u = it.get_update_idx();
            auto p = shapes.find(u); if (p == shapes.end()) shapes[u] = st[k].b.size;
            else if (p->second != st[k].b.size) { c.fail("value", site + ":update_idx", "get_update_idx %u stands for tile sizes %s and %s", u, vs(p->second).c_str(), vs(st[k].b.size).c_str()); return false; }
            bool done = it.Next();
            if (done != (k + 1 == st.size())) { c.fail("value", site + ":done", "round %d: Next returned %d at step %zu of %zu", round, (int)done, k + 1, st.size()); return false; }
            c.count("steps");
        }
        if (partition) for (size_t i = 0; i < cnt.size(); i++) if (cnt[i] != 1) { c.fail("value", site + ":coverage", "element %zu covered %d times", i, cnt[i]); return false; }
    }
    // the tile kinds are numbered densely, one number per combination of sizes
    std::set<V> kinds; for (auto& x : shapes) kinds.insert(x.second);
    if (!shapes.empty() && (shapes.rbegin()->first + 1 != shapes.size() || kinds.size() != shapes.size())) {
        c.fail("value", site + ":update_idx", "get_update_idx numbers %zu kinds of tiles up to %u, %zu combinations of sizes", shapes.size(), shapes.rbegin()->first, kinds.size()); return false; }
    return true;
}
template <unsigned R> static void shape_tiles(Rng& r, Shape& s, uint32_t* ts, std::vector<int>& order, int maxd) {
    s.resize(R); for (auto& x : s) x = (int)r.in(1, maxd);
    if (mille(r, 10)) { for (auto& x : s) x = (int)r.in(1, 2); s[r.in(0, (int)R - 1)] = wide(r, mille(r, 100) ? 1500 : 400); }
    for (unsigned d = 0; d < R; d++) ts[d] = (uint32_t)tile(r, s[d]);
    order.resize(R); for (unsigned d = 0; d < R; d++) order[d] = d;
    if (r.chance(60)) for (unsigned d = R; d > 1; d--) std::swap(order[d - 1], order[r.in(0, d - 1)]);
}
static std::vector<std::pair<int64_t, int64_t>> cut(int64_t n, int64_t t, int64_t skew) {
    std::vector<std::pair<int64_t, int64_t>> v; int64_t p = 0, z = t - skew;
    while (p < n) { z = std::min(z, n - p); v.push_back({p, z}); p += z; z = t; }
    return v;
}

// the increments reported for external stepping lead to the same tiles
template <unsigned R> static void external(Case& c, const std::string& site, Full<R>& f, m3::TensorIterator<m3::Buffer, R, R> a, m3::TensorIterator<m3::Buffer, R, R> b, const std::vector<Step>& st) {
    int64_t off = 0; V pos(R, 0);
    for (int round = 0; round < 2; round++) for (size_t k = 0; k < st.size(); k++) {
        int64_t want = 0; for (unsigned d = 0; d < R; d++) want += st[k].b.pos[d] * f.a.stride[d];
        if (off != want) { c.fail("value", site + ":offset_inc", "round %d step %zu: increments lead to offset %lld, the tile is at %lld", round, k, (long long)off, (long long)want); return; }
        if (pos != st[k].b.pos) { c.fail("value", site + ":pos_inc", "round %d step %zu: increments lead to position %s, the tile is at %s", round, k, vs(pos).c_str(), vs(st[k].b.pos).c_str()); return; }
        int32_t oi = 0x5a5a, pi[R]; for (auto& x : pi) x = 0x5a5a;
        bool d1 = a.Next(oi), d2 = b.Next(pi), last = k + 1 == st.size();
        if (d1 != last || d2 != last) { c.fail("value", site + ":ext_done", "external Next returned %d/%d at step %zu of %zu", d1, d2, k + 1, st.size()); return; }
        off += oi; for (unsigned d = 0; d < R; d++) pos[d] += pi[d];
        c.count("external_steps");
    }
}

template <unsigned R> static void order_r(Case& c) {
    Rng& r = c.r; Shape s; uint32_t ts[R]; std::vector<int> order; shape_tiles<R>(r, s, ts, order, R <= 3 ? 9 : 5);
    Full<R> f(r, s); int32_t ord[R]; for (unsigned d = 0; d < R; d++) ord[d] = order[d];
    uint32_t skew = 0; if (r.chance(30) && ts[order[0]] > 1) skew = (uint32_t)r.in(1, ts[order[0]] - 1);
    std::string site = c.test;
    c.d("%s rank %u shape %s strides %s tile", site.c_str(), R, ss(s).c_str(), ss(f.a.stride).c_str()); for (unsigned d = 0; d < R; d++) c.d(" %u", ts[d]);
    c.d(" order %s skew %u", ss(order).c_str(), skew);
    std::vector<std::vector<std::pair<int64_t, int64_t>>> per;
    for (unsigned k = 0; k < R; k++) per.push_back(cut(s[order[k]], ts[order[k]], k ? 0 : skew));
    std::vector<Step> st = walk(order, per);
    c.nontrivial = st.size() > 1; for (auto& x : st) { for (auto v : x.b.pos) c.h(v); for (auto v : x.b.size) c.h(v); }
    m3::IteratorCfg<R> cfg(f.t, ts, ord, skew);
    m3::TensorIterator<m3::Buffer, R, R> it = skew || r.chance(50) ? m3::TensorIterator<m3::Buffer, R, R>(f.t, cfg) : m3::TensorIterator<m3::Buffer, R, R>(f.t, ts, ord);
    external<R>(c, site, f, it, it, st);
    if (!drive<R>(c, site, f, it, st, 2, true)) return;
    // Reset in the middle starts over
    int n = (int)r.in(0, (int)st.size()); for (int k = 0; k < n; k++) it.Next();
    it.Reset(); if (!drive<R>(c, site + "_reset", f, it, st, 1, true)) return;
    bool identity = true; for (unsigned d = 0; d < R; d++) identity &= order[d] == (int)d;
    if (identity) {
        // the offset kept by the iterator is that of the tile
        for (size_t k = 0; k < 2 * st.size(); k++) {
            const Box& b = st[k % st.size()].b; int64_t want = 0; for (unsigned d = 0; d < R; d++) want += b.pos[d] * f.a.stride[d];
            if (it.get_offset() != want) { c.fail("value", site + ":offset", "step %zu: get_offset %d, the tile is at %lld", k, it.get_offset(), (long long)want); return; }
            int32_t p[R]; it.get_pos(p); for (unsigned d = 0; d < R; d++) if (p[d] != b.pos[d]) { c.fail("value", site + ":pos", "step %zu: get_pos(%u) %d, the tile is at %lld", k, d, p[d], (long long)b.pos[d]); return; }
            int32_t v = it.template read<int32_t>(); int64_t l = lin_of(s, b.pos);
            if (v != 1000 + l) { c.fail("value", site + ":read", "step %zu: read %d, expected %lld", k, v, (long long)(1000 + l)); return; }
            it.Next(); c.count("offsets_checked");
        }
    }
    // transposed iteration: same steps, dimensions renamed
    std::vector<int> no(R); for (unsigned d = 0; d < R; d++) no[d] = d; for (unsigned d = R; d > 1; d--) std::swap(no[d - 1], no[r.in(0, d - 1)]);
    c.d(" transpose %s", ss(no).c_str());
    uint32_t nu[R]; for (unsigned d = 0; d < R; d++) nu[d] = no[d];
    auto tr = it.transpose(nu);
    for (size_t k = 0; k < st.size(); k++) {
        auto t = tr.GetSubTensor(); const Box& b = st[k].b; uint32_t z[R]; memset(z, 0, sizeof z); int64_t l = lin_of(s, b.pos);
        for (unsigned d = 0; d < R; d++) if (t.get_dim(d) != (uint32_t)b.size[no[d]]) { c.fail("value", site + ":transpose_size", "step %zu: transposed tile dimension %u is %u, expected %lld", k, d, t.get_dim(d), (long long)b.size[no[d]]); return; }
        size_t byte = (size_t)t.get_offs() * 4; if (byte + 4 > f.raw.n) { c.fail("memory", site + ":transpose_outside", "step %zu", k); return; }
        int32_t v = t.template read<int32_t>(0); if (v != 1000 + l) { c.fail("value", site + ":transpose_element", "step %zu: first element %d, expected %lld", k, v, (long long)(1000 + l)); return; }
        tr.Next(); c.count("transposed_steps");
    }
}
MON_TEST(iter_order) { switch (c.r.in(1, 5)) { case 1: return order_r<1>(c); case 2: return order_r<2>(c); case 3: return order_r<3>(c); case 4: return order_r<4>(c); default: return order_r<5>(c); } }

// input tiles of a windowed kernel derived from its output tiling
template <unsigned R> static void window_r(Case& c) {
    Rng& r = c.r; Shape so(R), si(R); uint32_t ek[R], str[R], pp[R], ts[R]; std::string site = c.test;
    std::vector<std::vector<std::pair<int64_t, int64_t>>> po, pi; int32_t ord[R]; std::vector<int> order(R); for (unsigned d = 0; d < R; d++) ord[d] = order[d] = d;
    if (r.chance(40)) for (unsigned d = R; d > 1; d--) { int k = (int)r.in(0, d - 1); std::swap(order[d - 1], order[k]); std::swap(ord[d - 1], ord[k]); }
    c.d("%s rank %u order %s", site.c_str(), R, ss(order).c_str());
    std::vector<Win> w(R);
    for (unsigned d = 0; d < R; d++) for (;;) {
        w[d] = window(r, R <= 3 ? 14 : 7); int64_t pr = w[d].I; for (unsigned q = 0; q < d; q++) pr *= w[q].I;
        if (pr <= (R <= 3 ? 3000 : 9000) || w[d].I == 1) break;
    }
    for (unsigned d = 0; d < R; d++) { if (r.chance(30)) { w[d].k = w[d].ek = w[d].s = w[d].d = 1; w[d].pb = w[d].pe = 0; w[d].O = w[d].I; }
        so[d] = w[d].O; si[d] = w[d].I; ek[d] = w[d].ek; str[d] = w[d].s; pp[d] = w[d].pb;
        ts[d] = (uint32_t)win_tile(r, w[d].O, w[d].I, w[d].s, w[d].ek, w[d].pb);
        c.d(" {in %d out %d k %d s %d pad %d tile %u}", si[d], so[d], w[d].ek, w[d].s, w[d].pb, ts[d]);
    }
    Full<R> fi(r, si), fo(r, so);
    for (unsigned k = 0; k < R; k++) po.push_back(cut(so[order[k]], ts[order[k]], 0));
    std::vector<Step> st = walk(order, po);
    m3::TensorIterator<m3::Buffer, R, R> oit(fo.t, ts, ord);
    m3::TensorIterator<m3::Buffer, R, R> iit(fi.t, oit, ek, str, pp);
    c.nontrivial = st.size() > 1; for (auto& x : st) { for (auto v : x.b.pos) c.h(v); } for (unsigned d = 0; d < R; d++) { c.h(ek[d]); c.h(str[d]); c.h(pp[d]); }
    if (iit.GetTotalCount() != st.size()) { c.fail("value", site + ":count", "%u input tiles for %zu output tiles", iit.GetTotalCount(), st.size()); return; }
    std::vector<int> cnt(fi.a.n(), 0);
    for (int round = 0; round < 2; round++) for (size_t k = 0; k < st.size(); k++) {
        auto t = iit.GetSubTensor(); Box b; b.pos.resize(R); b.size.resize(R);
        for (unsigned d = 0; d < R; d++) {
            int64_t f0 = st[k].b.pos[d] * str[d] - pp[d], f1 = (st[k].b.pos[d] + st[k].b.size[d] - 1) * str[d] - pp[d] + ek[d];   // receptive field
            int64_t lo = std::max<int64_t>(0, f0), hi = std::min<int64_t>(si[d], f1);
            b.pos[d] = lo; b.size[d] = t.get_dim(d);
            if ((int64_t)t.get_dim(d) < hi - lo || lo + (int64_t)t.get_dim(d) > si[d]) { c.fail("value", site + ":size", "round %d step %zu dimension %u: tile of %u elements at %lld, needed up to %lld of %d", round, k, d, t.get_dim(d), (long long)lo, (long long)hi, si[d]); return; }
            // nothing superfluous unless it is the rest of the tensor
            if ((int64_t)t.get_dim(d) > hi - lo && lo + (int64_t)t.get_dim(d) != si[d]) { c.fail("value", site + ":superfluous", "round %d step %zu dimension %u: tile of %u elements at %lld, needed up to %lld of %d", round, k, d, t.get_dim(d), (long long)lo, (long long)hi, si[d]); return; }
        }
        if (!shows<R>(c, site, fi, t, b, nullptr, k)) return;
        bool done = iit.Next(); if (done != (k + 1 == st.size())) { c.fail("value", site + ":done", "Next returned %d at step %zu of %zu", (int)done, k + 1, st.size()); return; }
        c.count("window_steps");
    }
}
MON_TEST(iter_window) { switch (c.r.in(1, 4)) { case 1: return window_r<1>(c); case 2: return window_r<2>(c); case 3: return window_r<3>(c); default: return window_r<5>(c); } }

// configurations derived from others
template <unsigned R> static void cfg_r(Case& c) {
    Rng& r = c.r; std::string site = c.test; std::vector<Win> w(R); Shape so(R), si(R); uint32_t ek[R], str[R], pp[R], ts[R]; int32_t ord[R];
    c.d("%s rank %u", site.c_str(), R);
    for (unsigned d = 0; d < R; d++) {
        w[d] = window(r, 8); so[d] = w[d].O; si[d] = w[d].I; ek[d] = w[d].ek; str[d] = w[d].s; pp[d] = w[d].pb; ord[d] = d;
        ts[d] = (uint32_t)win_tile(r, w[d].O, w[d].I, w[d].s, w[d].ek, w[d].pb);
        c.d(" {in %d out %d k %d s %d pad %d tile %u}", si[d], so[d], w[d].ek, w[d].s, w[d].pb, ts[d]);
    }
    Full<R> fi(r, si), fo(r, so); m3::IteratorCfg<R> oc(fo.t, ts, ord); m3::IteratorCfg<R> ic(oc, fi.t, ek, str, pp);
    const m3::IteratorCfg<R>& src = r.chance(50) ? ic : oc; bool in = &src == &ic; Full<R>& f = in ? fi : fo;
    for (unsigned d = 0; d < R; d++) { c.h(src.get_count(d)); c.h(src.get_first_inc(d)); c.h(src.get_inc(d)); c.h(src.get_size(d)); }
    c.nontrivial = true;
    // dropping an axis keeps the others' tiling
    uint32_t ax = (uint32_t)r.in(0, R - 1); m3::IteratorCfg<R - 1> dc(src, ax); c.d(" %s drop %u", in ? "input" : "output", ax);
    for (unsigned d = 0, j = 0; d < R; d++) {
        if (d == ax) continue;
        if (dc.get_count(j) != src.get_count(d) || dc.get_first_inc(j) != src.get_first_inc(d) || dc.get_inc(j) != src.get_inc(d) || dc.get_last_inc(j) != src.get_last_inc(d) ||
            dc.get_first_size(j) != src.get_first_size(d) || dc.get_size(j) != src.get_size(d) || dc.get_last_size(j) != src.get_last_size(d) || dc.get_order(j) != (int)j) {
            c.fail("value", site + ":drop", "axis %u dropped: dimension %u has count %d increments %d %d %d sizes %u %u %u, was %d, %d %d %d, %u %u %u", ax, d, dc.get_count(j), dc.get_first_inc(j), dc.get_inc(j), dc.get_last_inc(j), dc.get_first_size(j), dc.get_size(j), dc.get_last_size(j),
                   src.get_count(d), src.get_first_inc(d), src.get_inc(d), src.get_last_inc(d), src.get_first_size(d), src.get_size(d), src.get_last_size(d)); return;
        }
        j++;
    }
    c.count("dropped");
    // removing the overlap of neighbouring tiles makes them adjacent
    // (each tile has to bring elements of its own)
    if (src.get_count(0) > 1 && (int)src.get_size(0) >= src.get_inc(0) && (int)src.get_last_size(0) > (int)src.get_size(0) - src.get_inc(0)) {
        m3::IteratorCfg<R> rc = src; rc.RemoveOverlapAdjacentTiles();
        int64_t p = 0, end0 = 0; bool ok = true; int n = rc.get_count(0);
        bool beyond = false; int64_t full_end = 0, q = 0; for (int k = 0; k < n; k++) { int64_t z = k == n - 1 ? src.get_last_size(0) : k ? src.get_size(0) : src.get_first_size(0); if (q + z > f.a.shape[0]) beyond = true; full_end = std::max(full_end, std::min<int64_t>(q + z, f.a.shape[0])); q += k ? src.get_inc(0) : src.get_first_inc(0); }
        for (int k = 0; k < n; k++) {
            int64_t z = k == n - 1 ? (int32_t)rc.get_last_size(0) : k ? rc.get_size(0) : rc.get_first_size(0);
            if (p != end0) ok = false;
            if (!beyond && p + z > f.a.shape[0]) ok = false;
            z = std::min(z, f.a.shape[0] - p); end0 = p + z; p += k ? rc.get_inc(0) : rc.get_first_inc(0);
        }
        if (full_end != end0) ok = false;
        if (!ok) { c.fail("value", site + ":overlap", "tiles without overlap: count %d increments %d %d %d sizes %u %u %u do not join up to %lld", n, rc.get_first_inc(0), rc.get_inc(0), rc.get_last_inc(0), rc.get_first_size(0), rc.get_size(0), rc.get_last_size(0), (long long)full_end); return; }
        c.count("overlap_removed");
    }
    // buffers for a few tiles only: every tile keeps its size and fits, consecutive tiles of a cyclic buffer do not collide
    for (int cyc = 0; cyc < 2; cyc++) {
        uint32_t nt = (uint32_t)r.in(1, 4), al[R]; V tile(R, 0); for (auto& x : al) x = r.chance(60) ? 1 : (uint32_t)r.in(1, 8);
        if (cyc && (int)src.get_size(0) < src.get_inc(0)) continue;
        m3::TensorIterator<m3::Buffer, R, R> it(f.t, src), sh = it; uint32_t got = sh.ShrinkBuffer(nt, cyc, al);
        int64_t rest = 1;
        for (unsigned d = 0; d < R; d++) {
            int n = src.get_count(d); int64_t z = src.get_last_size(d); if (n > 1) z = std::max<int64_t>(z, src.get_first_size(d)); if (n > 2) z = std::max<int64_t>(z, src.get_size(d));
            tile[d] = (z + al[d] - 1) / al[d] * al[d]; if (d) rest *= tile[d];
        }
        if (!cyc && got != rest * tile[0] * nt) { c.fail("value", site + ":shrink", "room for %u tiles of %s: %u elements", nt, vs(tile).c_str(), got); return; }
        if (cyc) {
            int64_t q = 0, span = 0; std::vector<int64_t> b, e; int n = src.get_count(0);
            for (int k = 0; k < n; k++) { b.push_back(q); e.push_back(q + (k == n - 1 ? src.get_last_size(0) : k ? src.get_size(0) : src.get_first_size(0))); q += k ? src.get_inc(0) : src.get_first_inc(0); }
            for (int k = 0; k < n; k++) span = std::max(span, e[std::min<int>(n - 1, k + (int)nt - 1)] - b[k]);
            if (got < rest * span) { c.fail("value", site + ":cyclic", "room for %u consecutive tiles spanning %lld elements: %u elements in rows of %lld", nt, (long long)span, got, (long long)rest); return; }
        }
        int64_t st = 1; for (unsigned d = R; d-- > 0;) { if (sh.get_mem_stride(d) != (uint32_t)st) { c.fail("value", site + ":shrink_stride", "stride of dimension %u is %u, expected %lld", d, sh.get_mem_stride(d), (long long)st); return; } st *= tile[d]; }
        for (uint32_t k = 0, n = it.GetTotalCount(); k < n; k++) {
            auto x = it.GetSubTensor(), y = sh.GetSubTensor(); bool middle = false; for (unsigned d = 0; d < R; d++) { int32_t ix[R]; it.get_tile_idx(ix); middle |= ix[d] > 0 && ix[d] < src.get_count(d) - 1; }
            for (unsigned d = 0; d < R; d++) {
                if (y.get_dim(d) < x.get_dim(d) || (!middle && y.get_dim(d) != x.get_dim(d))) { c.fail("value", site + ":shrink_size", "step %u dimension %u: tile of %u elements, was %u", k, d, y.get_dim(d), x.get_dim(d)); return; }
                if (!(cyc && d == 0) && sh.GetPos(d) != 0) { c.fail("value", site + ":shrink_pos", "step %u: position %d in dimension %u", k, sh.GetPos(d), d); return; }
                if (cyc && d == 0 && sh.GetPos(0) != it.GetPos(0)) { c.fail("value", site + ":shrink_pos", "step %u: position %d in the cyclic dimension, was %d", k, sh.GetPos(0), it.GetPos(0)); return; }
            }
            it.Next(); sh.Next();
        }
        c.count("shrunk");
    }
}
MON_TEST(iter_cfg) { switch (c.r.in(2, 5)) { case 2: return cfg_r<2>(c); case 3: return cfg_r<3>(c); case 4: return cfg_r<4>(c); default: return cfg_r<5>(c); } }

// tensor views
template <unsigned R> static void view_r(Case& c) {
    Rng& r = c.r; Shape s(R); for (auto& x : s) x = (int)r.in(1, R <= 3 ? 8 : 5); std::string site = c.test; Full<R> f(r, s);
    c.d("%s rank %u shape %s strides %s", site.c_str(), R, ss(s).c_str(), ss(f.a.stride).c_str()); c.nontrivial = f.a.n() > 1;
    // slice, then slice of the slice
    Box b; b.pos.resize(R); b.size.resize(R); uint32_t p[R], z[R];
    for (unsigned d = 0; d < R; d++) { p[d] = (uint32_t)r.in(0, s[d] - 1); z[d] = (uint32_t)r.in(1, s[d] - p[d]); b.pos[d] = p[d]; b.size[d] = z[d]; c.h(p[d]); c.h(z[d]); }
    auto t1 = f.t.slice(p, z); c.d(" slice %s %s", vs(b.pos).c_str(), vs(b.size).c_str());
    if (!shows<R>(c, site + ":slice", f, t1, b, nullptr, 0)) return;
    if (t1.get_total_elem_num() != (uint32_t)prod(Shape(b.size.begin(), b.size.end()))) { c.fail("value", site + ":total", "get_total_elem_num %u", t1.get_total_elem_num()); return; }
    Box b2 = b; for (unsigned d = 0; d < R; d++) { p[d] = (uint32_t)r.in(0, b.size[d] - 1); z[d] = (uint32_t)r.in(1, b.size[d] - p[d]); b2.pos[d] += p[d]; b2.size[d] = z[d]; }
    auto t2_ = r.chance(50) ? t1.slice(p, z) : t1.slice(t1.get_offset(p), z);
    if (!shows<R>(c, site + ":slice2", f, t2_, b2, nullptr, 1)) return;
    { Box b3; b3.pos.assign(R, 0); b3.size.resize(R); for (unsigned d = 0; d < R; d++) { z[d] = (uint32_t)r.in(1, s[d]); b3.size[d] = z[d]; } if (!shows<R>(c, site + ":slice3", f, f.t.slice(z), b3, nullptr, 2)) return; }
    // a view of higher capacity, another element order
    m3::Tensor<m3::Buffer, R + 1> wide(t2_); for (unsigned d = 0; d < R; d++) if (wide.get_dim(d) != t2_.get_dim(d) || wide.get_mem_stride(d) != t2_.get_mem_stride(d)) { c.fail("value", site + ":widen", "dimension %u", d); return; }
    if (wide.get_offs() != t2_.get_offs() || wide.get_rank() != R || wide.get_dim(R) != 0) { c.fail("value", site + ":widen", "offset %u rank %u", wide.get_offs(), wide.get_rank()); return; }
    std::vector<int> no(R); for (unsigned d = 0; d < R; d++) no[d] = d; for (unsigned d = R; d > 1; d--) std::swap(no[d - 1], no[r.in(0, d - 1)]);
    uint32_t nu[R]; for (unsigned d = 0; d < R; d++) nu[d] = no[d];
    auto tr = t1.transpose(nu); c.d(" transpose %s", ss(no).c_str());
    { V i(R, 0), n(R); for (unsigned d = 0; d < R; d++) n[d] = tr.get_dim(d);
      for (unsigned d = 0; d < R; d++) if (n[d] != b.size[no[d]]) { c.fail("value", site + ":transpose", "dimension %u is %lld", d, (long long)n[d]); return; }
      do { uint32_t q[R]; V g(R); for (unsigned d = 0; d < R; d++) { q[d] = (uint32_t)i[d]; g[no[d]] = b.pos[no[d]] + i[d]; }
           int32_t v = tr.template read<int32_t>(tr.get_offset(q)); if (v != 1000 + lin_of(s, g)) { c.fail("value", site + ":transpose", "element %s is %d", vs(i).c_str(), v); return; } c.count("elements_checked"); } while (step(i, n)); }
    // split an axis and join it again
    uint32_t ax = (uint32_t)r.in(0, R - 1); std::vector<uint32_t> ch; for (uint32_t k = 1; k <= (uint32_t)b.size[ax]; k++) if (b.size[ax] % k == 0) ch.push_back(k);
    uint32_t chunks = r.pick(ch); bool left = r.chance(50); auto sp = t1.split(ax, chunks, left); c.d(" split %u by %u %s", ax, chunks, left ? "left" : "right");
    { int64_t part = b.size[ax] / chunks; V n(R + 1), i(R + 1, 0); for (unsigned d = 0; d < R + 1; d++) n[d] = sp.get_dim(d);
      if (n[ax] != (left ? (int64_t)chunks : part) || n[ax + 1] != (left ? part : (int64_t)chunks) || sp.get_rank() != R + 1) { c.fail("value", site + ":split", "axis %u became %lld,%lld", ax, (long long)n[ax], (long long)n[ax + 1]); return; }
      do { uint32_t q[R + 1]; V g(R); for (unsigned d = 0; d < R + 1; d++) q[d] = (uint32_t)i[d];
           for (unsigned d = 0; d < R; d++) { int64_t x = d < ax ? i[d] : d > ax ? i[d + 1] : left ? i[d] * part + i[d + 1] : i[d] + i[d + 1] * part; g[d] = b.pos[d] + x; }
           int32_t v = sp.template read<int32_t>(sp.get_offset(q)); if (v != 1000 + lin_of(s, g)) { c.fail("value", site + ":split", "element %s is %d", vs(i).c_str(), v); return; } c.count("elements_checked"); } while (step(i, n));
      {
          auto j = sp.combine(ax, !left);     // !left: strides grow to the right
          if (j.get_rank() != R || j.get_offs() != t1.get_offs()) { c.fail("value", site + ":combine", "rank %u offset %u", j.get_rank(), j.get_offs()); return; }
          for (unsigned d = 0; d < R; d++) if (j.get_dim(d) != t1.get_dim(d) || j.get_mem_stride(d) != t1.get_mem_stride(d)) { c.fail("value", site + ":combine", "dimension %u: %u stride %d", d, j.get_dim(d), j.get_mem_stride(d)); return; }
      } }
    // writes through a view land on its elements only
    Raw keep(f.raw.n); memcpy(keep.p, f.raw.p, f.raw.n);
    { V i(R, 0); std::set<int64_t> w; do { uint32_t q[R]; V g(R); for (unsigned d = 0; d < R; d++) { q[d] = (uint32_t)i[d]; g[d] = b.pos[d] + i[d]; } int64_t l = lin_of(s, g); t1.template write<int32_t>(t1.get_offset(q), (int32_t)(-1 - l)); w.insert((int64_t)f.a.off[l]); Arr::wr(keep.p + f.a.off[l] * 4, 4, -1 - l); } while (step(i, b.size)); }
    if (memcmp(keep.p, f.raw.p, f.raw.n)) { c.fail("memory", site + ":write", "writes through a slice landed elsewhere"); return; }
    // elements spanned by a view, from the tensor, from shape and strides, from the shape alone
    { uint32_t dd[R]; int32_t ss_[R]; int64_t span = 1; for (unsigned d = 0; d < R; d++) { dd[d] = (uint32_t)b.size[d]; ss_[d] = f.a.stride[d]; span += (b.size[d] - 1) * f.a.stride[d]; }
      if (m3::service::GetBufferSize(t1) != span || m3::service::GetBufferSize((int)R, dd, ss_) != span) { c.fail("value", site + ":span", "%u, %u elements spanned instead of %lld", m3::service::GetBufferSize(t1), m3::service::GetBufferSize((int)R, dd, ss_), (long long)span); return; }
      int64_t all = 1; for (auto v : b.size) all *= v;
      if (m3::service::GetBufferSize((int)R, dd) != all) { c.fail("value", site + ":span", "%u elements in a dense tensor of %lld", m3::service::GetBufferSize((int)R, dd), (long long)all); return; } }
    c.count("views");
}
MON_TEST(tensor_views) { switch (c.r.in(1, 5)) { case 1: return view_r<1>(c); case 2: return view_r<2>(c); case 3: return view_r<3>(c); case 4: return view_r<4>(c); default: return view_r<5>(c); } }

// tensors and iterators of unlinked (offset) buffers, before and after the bases are known
typedef m3::OffsetBuffer OB; typedef m3::InternalBuffer IB;
template <unsigned R> static void gran_r(Case& c) {
    Rng& r = c.r; std::string site = c.test; bool rev = R > 1 && r.chance(40);
    const unsigned es = 1u << r.in(0, 2), k = 1u << r.in(0, 4), ns = es * k;
    const unsigned in = rev ? 0 : R - 1;                  // the contiguous dimension
    Shape s(R); uint32_t ts[R], d[R]; int32_t st[R], ord[R];
    for (unsigned i = 0; i < R; i++) { s[i] = i == in ? (int)r.in(1, 5 * k) : (int)r.in(1, 6); d[i] = s[i]; ts[i] = i == in ? (uint32_t)(k * r.in(1, 3)) : (uint32_t)r.in(1, s[i]); if (ts[i] > d[i]) ts[i] = d[i]; ord[i] = i; }
    if (r.chance(50)) for (unsigned i = R; i > 1; i--) std::swap(ord[i - 1], ord[r.in(0, i - 1)]);
    int64_t span = (int64_t)((s[in] + k - 1) / k) * k + k * r.in(0, 1);
    if (rev) { st[0] = 1; for (unsigned i = 1; i < R; i++) { st[i] = (int32_t)span; span *= s[i] + (i + 1 < R ? r.in(0, 1) : 0); } }
    else { st[R - 1] = 1; for (int i = (int)R - 2; i >= 0; i--) { st[i] = (int32_t)span; span *= s[i] + (i ? r.in(0, 1) : 0); } }
    c.d("%s rank %u shape %s strides", site.c_str(), R, ss(s).c_str()); for (auto x : st) c.d(" %d", x);
    c.d(" tile"); for (auto x : ts) c.d(" %u", x); c.d(" order"); for (auto x : ord) c.d(" %d", x); c.d(" element %u bytes -> %u%s", es, ns, rev ? " reversed" : "");
    for (unsigned i = 0; i < R; i++) { c.h(s[i]); c.h(ts[i]); } c.h(es); c.h(k);
    const uint32_t off0 = (uint32_t)(ns * r.in(0, 8)), bytes = (uint32_t)(span * es), mem = (uint32_t)r.in(0, 3);
    m3::Tensor<OB, R> t(OB(off0, mem, bytes, es), d, st); const uint32_t toff = (uint32_t)(k * (r.chance(60) ? 0 : r.in(1, 4))); t.set_offs(toff); c.d(" offset %u", toff);
    m3::TensorIterator<OB, R, R> a(t, ts, ord), b(a); b.ConvertGran((int)ns, rev);
    if (b.get_elem_size() != ns || b.get_tensor().get_buf().get_size() != bytes / k || b.get_tensor().get_buf().get_offset() != off0 || b.get_tensor().get_buf().get_mem_idx() != mem) { c.fail("value", site + ":buffer", "element %u buffer size %u offset %u", b.get_elem_size(), b.get_tensor().get_buf().get_size(), b.get_tensor().get_buf().get_offset()); return; }
    if (a.GetTotalCount() != b.GetTotalCount()) { c.fail("value", site + ":count", "%u tiles became %u", a.GetTotalCount(), b.GetTotalCount()); return; }
    c.nontrivial = k > 1 && a.GetTotalCount() > 1;
    const uint32_t n = a.GetTotalCount(); auto ea = a, eb = b; int64_t pa = 0, pb = 0;
    for (uint32_t i = 0; i < 2 * n; i++) {
        auto x = a.GetSubTensor(), y = b.GetSubTensor();
        for (unsigned q = 0; q < R; q++) { uint32_t want = q == in ? (x.get_dim(q) + k - 1) / k : x.get_dim(q); if (y.get_dim(q) != want) { c.fail("value", site + ":size", "step %u dimension %u: %u of the new elements hold %u of the old ones", i, q, y.get_dim(q), x.get_dim(q)); return; } }
        // every new element begins at the byte of its first old element
        V p(R, 0), m(R); for (unsigned q = 0; q < R; q++) m[q] = y.get_dim(q);
        do { uint32_t u[R], v[R]; for (unsigned q = 0; q < R; q++) { v[q] = (uint32_t)p[q]; u[q] = q == in ? v[q] * k : v[q]; }
             int64_t bx = ((int64_t)x.get_offs() + x.get_offset(u)) * es, by = ((int64_t)y.get_offs() + y.get_offset(v)) * ns;
             if (bx != by) { c.fail("value", site + ":byte", "step %u element %s: byte %lld, was byte %lld", i, vs(p).c_str(), (long long)by, (long long)bx); return; } c.count("elements_checked"); } while (step(p, m));
        if (pa * es != pb * ns) { c.fail("value", site + ":offset_inc", "step %u: increments lead to byte %lld, were byte %lld", i, (long long)(pb * ns), (long long)(pa * es)); return; }
        int32_t ia, ib; ea.Next(ia); eb.Next(ib); pa += ia; pb += ib;
        bool da = a.Next(), db = b.Next(); if (da != db) { c.fail("value", site + ":done", "Next %d and %d at step %u", da, db, i); return; }
        c.count("steps");
    }
    bool identity = true; for (unsigned i = 0; i < R; i++) identity &= ord[i] == (int)i;
    if (identity) for (uint32_t i = 0; i < 2 * n; i++) { if ((int64_t)a.get_offset() * es != (int64_t)b.get_offset() * ns) { c.fail("value", site + ":offset", "step %u: offset %d, was %d", i, b.get_offset(), a.get_offset()); return; } a.Next(); b.Next(); }
}
MON_TEST(iter_gran) { switch (c.r.in(1, 5)) { case 1: return gran_r<1>(c); case 2: return gran_r<2>(c); case 3: return gran_r<3>(c); case 4: return gran_r<4>(c); default: return gran_r<5>(c); } }

template <unsigned R> static void link_r(Case& c) {
    Rng& r = c.r; std::string site = c.test; const int NM = (int)r.in(1, 4);
    // memories and a tensor of 32 bit elements placed in one of them
    std::vector<std::unique_ptr<Raw>> mem; uint64_t bases[4] = {1, 2, 3, 4};
    Shape s; uint32_t ts[R]; std::vector<int> order; shape_tiles<R>(r, s, ts, order, R <= 3 ? 7 : 4); int32_t ord[R]; for (unsigned d = 0; d < R; d++) ord[d] = order[d];
    Arr a; make(a, r, "t", 4, s, (int)r.in(0, 2)); const uint32_t bytes = (uint32_t)a.mem.size(), pad = (uint32_t)(4 * r.in(0, 6)), mi = (uint32_t)r.in(0, NM - 1);
    for (int m = 0; m < NM; m++) { mem.emplace_back(new Raw(pad + bytes + 32)); memset(mem[m]->p, 0x77, mem[m]->n); bases[m] = (uint64_t)(uintptr_t)mem[m]->p; }
    for (int64_t i = 0; i < a.n(); i++) a.set(i, 1000 + i);
    memcpy(mem[mi]->p + pad, a.mem.data(), bytes);
    uint32_t d[R]; int32_t st[R]; a.dims(d); a.strs(st);
    c.d("%s rank %u shape %s strides %s memory %u of %d offset %u", site.c_str(), R, ss(s).c_str(), ss(a.stride).c_str(), mi, NM, pad); for (unsigned q = 0; q < R; q++) { c.h(s[q]); c.h(ts[q]); } c.h(pad); c.h(mi);
    c.nontrivial = a.n() > 1;
    // a buffer inside a larger one
    const uint32_t lead = (uint32_t)r.in(0, pad); OB whole(pad - lead, mi, bytes + lead, 4), part(whole, lead);
    if (part.get_offset() != pad || part.get_size() != bytes || part.get_mem_idx() != mi || part.get_elem_size() != 4) { c.fail("value", site + ":inner", "buffer %u bytes into (%u, %u): offset %u size %u memory %u element %u", lead, pad - lead, bytes + lead, part.get_offset(), part.get_size(), part.get_mem_idx(), part.get_elem_size()); return; }
    { OB o = part; o.set_elem_size(1); o.set_size(bytes / 2); if (o.get_elem_size() != 1 || o.get_size() != bytes / 2 || o.get_offset() != pad || o.get_mem_idx() != mi) { c.fail("value", site + ":setters", "element %u size %u", o.get_elem_size(), o.get_size()); return; } }
    // linked: reads and writes go to base + offset
    IB lb(part, bases, NM);
    if (lb.get_size() != bytes || lb.get_elem_size() != 4 || (uint8_t*)lb.template get_ptr<int32_t>() != mem[mi]->p + pad) { c.fail("value", site + ":link", "size %u element %u", lb.get_size(), lb.get_elem_size()); return; }
    m3::TensorIterator<OB, R, R> ui(m3::Tensor<OB, R>(part, d, st), ts, ord); m3::TensorIterator<IB, R, R> li(ui, bases, NM);
    m3::Tensor<IB, R> lt(m3::Tensor<OB, R>(part, d, st), bases, NM);
    m3::TensorIterator<m3::NoBuffer, R, R> ni(m3::Tensor<m3::NoBuffer, R>(d, st), ts, ord); m3::TensorIterator<IB, R, R> fi(ni); fi.set_buf(lb);
    std::vector<std::vector<std::pair<int64_t, int64_t>>> per; for (unsigned q = 0; q < R; q++) per.push_back(cut(s[order[q]], ts[order[q]], 0));
    auto steps = walk(order, per); std::vector<int32_t> wrote(a.n());
    for (size_t i = 0; i < 2 * steps.size(); i++) {
        const Box& b = steps[i % steps.size()].b; bool second = i >= steps.size();
        auto x = li.GetSubTensor(), y = fi.GetSubTensor(); V p(R, 0);
        for (unsigned q = 0; q < R; q++) if (x.get_dim(q) != (uint32_t)b.size[q] || y.get_dim(q) != (uint32_t)b.size[q]) { c.fail("value", site + ":size", "step %zu dimension %u: %u and %u, expected %lld", i, q, x.get_dim(q), y.get_dim(q), (long long)b.size[q]); return; }
        do { uint32_t u[R], g[R]; V gl(R); for (unsigned q = 0; q < R; q++) { u[q] = (uint32_t)p[q]; gl[q] = b.pos[q] + p[q]; g[q] = (uint32_t)gl[q]; }
             int64_t l = lin_of(s, gl); int32_t want = second ? (int32_t)(-5 - l) : (int32_t)(1000 + l);
             uint32_t o = x.get_offset(u), o2 = y.get_offset(u), og = lt.get_offset(g);
             if ((o + x.get_offs()) * 4ull + 4 > bytes || (o2 + y.get_offs()) * 4ull + 4 > bytes || og * 4ull + 4 > bytes) { c.fail("memory", site + ":outside", "step %zu element %s", i, vs(p).c_str()); return; }
             int32_t v = x.template read<int32_t>(o), v2 = y.template read<int32_t>(o2), v3 = lt.template read<int32_t>(og);
             if (v != want || v2 != want || v3 != want) { c.fail("value", site + ":element", "step %zu element %s reads %d, %d and %d, expected %d", i, vs(p).c_str(), v, v2, v3, want); return; }
             if (!second) { (r.chance(50) ? x : y).template write<int32_t>(o, (int32_t)(-5 - l)); }
             c.count("elements_checked"); } while (step(p, b.size));
        bool d1 = li.Next(), d2 = fi.Next(); bool last = (i + 1) % steps.size() == 0; if (d1 != last || d2 != last) { c.fail("value", site + ":done", "step %zu: %d %d", i, d1, d2); return; }
        c.count("steps");
    }
    // nothing else was touched
    for (int64_t i = 0; i < a.n(); i++) a.set(i, -5 - i);
    for (int m = 0; m < NM; m++) for (size_t i = 0; i < mem[m]->n; i++) {
        uint8_t want = 0x77; if (m == (int)mi && i >= pad && i < pad + bytes) want = a.mem[i - pad];
        if (mem[m]->p[i] != want) { c.fail("memory", site + ":stray", "byte %zu of memory %d is %u, expected %u", i, m, mem[m]->p[i], want); return; }
    }
    // moving a buffer by elements
    { uint32_t e = (uint32_t)r.in(0, 5); OB o = part; IB q = lb; m3::Buffer w(mem[mi]->p + pad, bytes, 4); o.inc(e); q.inc(e); w.inc(e);
      if (o.get_offset() != pad + 4 * e || (uint8_t*)q.template get_ptr<int32_t>() != mem[mi]->p + pad + 4 * e || (uint8_t*)w.template get_ptr<int32_t>() != mem[mi]->p + pad + 4 * e) { c.fail("value", site + ":inc", "%u elements further: offset %u", e, o.get_offset()); return; } }
    // objects of any size at any byte
    { struct Obj { char c[11]; } ob, back; for (auto& x : ob.c) x = (char)r.in(-128, 127); m3::Buffer w(mem[mi]->p, (uint32_t)mem[mi]->n, 1); uint32_t at = (uint32_t)r.in(0, (int64_t)mem[mi]->n - 11);
      std::vector<uint8_t> keep(mem[mi]->p, mem[mi]->p + mem[mi]->n); w.write_obj(at, ob); memcpy(&back, mem[mi]->p + at, 11); memcpy(keep.data() + at, &ob, 11);
      if (memcmp(&ob, &back, 11) || memcmp(keep.data(), mem[mi]->p, keep.size())) { c.fail("memory", site + ":write_obj", "object written at byte %u", at); return; } }
    // an iteration under way goes on where it was
    { m3::TensorIterator<OB, R, R> u2(m3::Tensor<OB, R>(part, d, st), ts, ord); m3::TensorIterator<m3::NoBuffer, R, R> n2(m3::Tensor<m3::NoBuffer, R>(d, st), ts, ord); int k = (int)r.in(0, (int64_t)steps.size());
      for (int i = 0; i < k; i++) { u2.Next(); n2.Next(); }
      m3::TensorIterator<IB, R, R> l2(u2, bases, NM), f2(n2);
      for (size_t i = 0; i <= steps.size(); i++) {
          auto w = u2.GetSubTensor(); auto x = l2.GetSubTensor(); auto y = f2.GetSubTensor();
          bool ok = w.get_offs() == x.get_offs() && w.get_offs() == y.get_offs() && u2.get_update_idx() == l2.get_update_idx() && u2.get_update_idx() == f2.get_update_idx();
          for (unsigned q = 0; q < R; q++) ok &= w.get_dim(q) == x.get_dim(q) && w.get_dim(q) == y.get_dim(q) && w.get_mem_stride(q) == x.get_mem_stride(q) && w.get_mem_stride(q) == y.get_mem_stride(q);
          if (!ok) { c.fail("value", site + ":under_way", "linked after %d steps: %zu steps later the tile is at %u and %u, expected %u", k, i, x.get_offs(), y.get_offs(), w.get_offs()); return; }
          bool a1 = u2.Next(), a2 = l2.Next(), a3 = f2.Next(); if (a1 != a2 || a1 != a3) { c.fail("value", site + ":under_way", "linked after %d steps: Next returned %d, %d, %d", k, a1, a2, a3); return; }
      } }
    c.count("linked");
}
MON_TEST(iter_link) { switch (c.r.in(1, 5)) { case 1: return link_r<1>(c); case 2: return link_r<2>(c); case 3: return link_r<3>(c); case 4: return link_r<4>(c); default: return link_r<5>(c); } }

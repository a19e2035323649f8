// MLI 3.0 multiply-accumulate kernels: Conv2d, DepthwiseConv2d, TransposeConv2D,
// FullyConnected, MatMul - untiled and tiled, after relocation.
#include "t3.h"
using namespace t3;

// encode weights and zero points through the compile-time object
template <class Op, unsigned WR>
static bool encode_w(Env& e, Op* op, Arr& w, const std::vector<int8_t>& wzp, Arr& wenc, std::vector<int8_t>& zenc, bool apart = false) {
    HostBuf hw(w), hz(wzp.size(), 1); memcpy(hz.raw.p, wzp.data(), wzp.size());
    uint32_t zs[1] = {(uint32_t)wzp.size()};
    m3::Tensor<m3::Buffer, 1> zt(hz.b(), zs);
    if (apart) {    // the older calls that encode the weights and the zero points apart
        if (op->GetEncodedWeightsSize() != w.mem.size() || op->GetEncodedWtsZeroPtsSize() != wzp.size()) { e.fail("value", "encoded_size", "encoded sizes differ from the tensors'"); return false; }
        HostBuf ew(w.mem.size(), 1), ez(wzp.size(), 1); memset(ew.raw.p, 0x3C, ew.raw.n); memset(ez.raw.p, 0x3C, ez.raw.n);
        m3::Buffer b1 = ew.b(), b2 = ez.b(); auto wt = bt<WR>(hw, w);
        if (op->EncodeWeights(wt, b1, m3::compression_mode_t::Uncompressed) != MLI_STATUS_OK || op->EncodeWtsZeroPts(zt, b2) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeWeights or EncodeWtsZeroPts failed"); return false; }
        wenc = w; memcpy(wenc.mem.data(), ew.raw.p, w.mem.size()); zenc.assign((int8_t*)ez.raw.p, (int8_t*)ez.raw.p + wzp.size());
        // zero points that are neither one value nor one per channel
        for (uint32_t k : {(uint32_t)wzp.size() + 1, (uint32_t)wzp.size() - 1}) if (k > 1) {
            uint32_t ks[1] = {k}; HostBuf kz(k, 1), ke(k, 1); memset(kz.raw.p, 1, k); m3::Tensor<m3::Buffer, 1> kt(kz.b(), ks); m3::Buffer kb = ke.b();
            if (op->EncodeWtsZeroPts(kt, kb) != MLI_STATUS_SHAPE_MISMATCH) { e.fail("status", "encode_mismatch", std::to_string(k) + " zero points for " + std::to_string(wzp.size()) + " channels accepted"); return false; }
            e.c.count("wrong_zero_point_count_refused");
        }
        e.c.count("legacy_encodings");
        // the mismatch leaves the recorded quantisation axis alone
        return true;
    }
    m3::TensorIterator<m3::Buffer, WR, 5> wi(bt<WR>(hw, w));
    m3::TensorIterator<m3::Buffer, 1, 5> zi(zt);
    unsigned want = op->GetEncodedWeightsSize() + op->GetEncodedWtsZeroPtsSize();
    if (want != w.mem.size() + wzp.size()) { e.fail("value", "encoded_size", "encoded weights+zero points size " + std::to_string(want) + " for " + std::to_string(w.mem.size() + wzp.size()) + " bytes"); return false; }
    HostBuf enc(want, 1); memset(enc.raw.p, 0x3C, want); m3::Buffer eb = enc.b();
    if (op->EncodeWeightsAndZeroPts(wi, zi, eb) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeWeightsAndZeroPts failed"); return false; }
    wenc = w; memcpy(wenc.mem.data(), enc.raw.p, w.mem.size());
    zenc.assign((int8_t*)enc.raw.p + w.mem.size(), (int8_t*)enc.raw.p + want);
    return true;
}
template <class Op> static bool encode_izp(Env& e, Op* op, int8_t zp, int8_t& out, bool old = false) {
    HostBuf h(1, 1); *(int8_t*)h.raw.p = zp; uint32_t s[1] = {1};
    m3::Tensor<m3::Buffer, 1> t(h.b(), s); m3::TensorIterator<m3::Buffer, 1, 5> zi(t);
    HostBuf d(op->GetEncodedInpZeroPtsSize(), 1); memset(d.raw.p, 0x5A, d.raw.n); m3::Buffer b = d.b();
    if (d.raw.n != 1) { e.fail("value", "izp_size", "encoded input zero point size is not 1"); return false; }
    if ((old ? op->EncodeInpZeroPts(t, b) : op->EncodeInpZeroPts(zi, b)) != MLI_STATUS_OK) { e.fail("status", "encode_izp", "EncodeInpZeroPts failed"); return false; }
    out = *(int8_t*)d.raw.p; return true;
}


// a rank 5 tensor with one group seen as the older rank 4 one
static m3::Tensor<m3::NoBuffer, 4> nb4(const Arr& a) {
    uint32_t s[4]; int32_t t[4]; const int d[4] = {0, 1, 2, 4};
    for (int i = 0; i < 4; i++) { s[i] = a.shape[d[i]]; t[i] = a.stride[d[i]]; }
    return m3::Tensor<m3::NoBuffer, 4>(s, t);
}

// ---- Conv2d / DepthwiseConv2d ------------------------------------------------
static void conv_like(Case& c, bool dw, Mode md) {
    Rng& r = c.r;
    Win h = window(r, 9), w = window(r, 9);
    int ci = (int)r.in(1, 6), co = dw ? ci : (int)r.in(1, 7), B = dw && r.chance(40) ? (int)r.in(2, 4) : 1;
    if (mille(r, 20)) { (dw || r.chance(50) ? ci : co) = wide(r, 3000); if (dw) co = ci; else if (ci > 100) co = (int)r.in(1, 2); else ci = (int)r.in(1, 2); }
    if ((int64_t)B * h.O * w.O * h.k * w.k * co * (dw ? 1 : ci) > 100000 || (int64_t)B * h.I * w.I * ci > 12000 || (int64_t)B * h.O * w.O * co > 8000) { ci = (int)r.in(1, 2); co = dw ? ci : (int)r.in(1, 2); B = 1; }
    if ((int64_t)h.O * w.O * h.k * w.k > 50000 || (int64_t)h.I * w.I > 6000) { h = window(r, 5); w = window(r, 5); if (h.I * w.I > 6000) { c.skipped = true; return; } }
    if (mille(r, 10)) { h = bigwin(r); w = bigwin(r); ci = (int)r.in(1, 3); co = dw ? ci : (int)r.in(1, 3); B = 1; }
    Arr in, wt, out;
    make(in, r, "input", 1, {B, h.I, w.I, 1, ci}, (int)r.in(0, 1));
    if (dw) make(wt, r, "weights", 1, {h.k, w.k, co}, (int)r.in(0, 1));
    else make(wt, r, "weights", 1, {1, h.k, w.k, ci, co}, (int)r.in(0, 1));
    make(out, r, "output", 4, {B, h.O, w.O, 1, co}, (int)r.in(0, 1));
    fill(in, r); fill(wt, r);
    int8_t izp = (int8_t)(r.chance(30) ? 0 : r.in(-128, 127));
    int8_t wz = dw && r.chance(60) ? (int8_t)r.in(-128, 127) : 0;
    std::vector<int8_t> wzp(co, wz);
    Vals exp(out.n());
    for (int b = 0; b < B; b++) for (int y = 0; y < h.O; y++) for (int x = 0; x < w.O; x++) for (int o = 0; o < co; o++) {
        int64_t s = 0;
        for (int ky = 0; ky < h.k; ky++) for (int kx = 0; kx < w.k; kx++) {
            int iy = y * h.s - h.pb + ky * h.d, ix = x * w.s - w.pb + kx * w.d;
            bool pad = iy < 0 || iy >= h.I || ix < 0 || ix >= w.I;
            if (dw) s += (int64_t)(pad ? izp : in.at({b, iy, ix, 0, o})) * (wt.at({ky, kx, o}) - wz);
            else for (int i = 0; i < ci; i++) s += (int64_t)(pad ? izp : in.at({b, iy, ix, 0, i})) * (wt.at({0, ky, kx, i, o}) - wz);
        }
        exp[out.idx({b, y, x, 0, o})] = s;
    }
    uint32_t ts[5] = {(uint32_t)B, (uint32_t)h.O, (uint32_t)w.O, 1, (uint32_t)co};
    if (md.tiled) { ts[1] = win_tile(r, h.O, h.I, h.s, h.ek, h.pb); ts[2] = win_tile(r, w.O, w.I, w.s, w.ek, w.pb); ts[4] = tile(r, co); ts[0] = tile(r, B); }
    // 0 current calls, 1 constructor without input zero points, 2 constructor from rank 4 tensors
    int api = r.chance(60) ? 0 : md.tiled ? 1 : (int)r.in(1, 2); bool oldenc = r.chance(25), oldatt = !md.tiled && r.chance(25);
    c.d("%s in %s w %s out %s k %d,%d s %d,%d d %d,%d pb %d,%d pe %d,%d izp %d wzp %d tile %u,%u,%u api %d,%d,%d", dw ? "depthwise" : "conv2d", ss(in.shape).c_str(), ss(wt.shape).c_str(), ss(out.shape).c_str(), h.k, w.k, h.s, w.s, h.d, w.d, h.pb, w.pb, h.pe, w.pe, izp, wz, ts[1], ts[2], ts[4], api, oldenc, oldatt);
    m3::Conv2DConfig cc(h.s, w.s, h.pb, w.pb, h.pe, w.pe, h.d, w.d, 1);
    m3::DwConv2DConfig dc(h.s, w.s, h.pb, w.pb, h.pe, w.pe, h.d, w.d);
    uint32_t es[5] = {1, (uint32_t)h.ek, (uint32_t)w.ek, 1, (uint32_t)ci}, st[5] = {1, (uint32_t)h.s, (uint32_t)w.s, 1, 0}, pp[5] = {0, (uint32_t)h.pb, (uint32_t)w.pb, 0, 0};
    if (dw) { es[4] = 1; st[4] = 1; }
    std::string site = std::string(dw ? "dwconv30" : "conv2d30") + (md.tiled ? "_tiled" : "");
    run(c, site, md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        int32_t order[5] = {0, 1, 2, 3, 4};
        m3::TensorIterator<m3::NoBuffer, 5, 5> oi(nb<5>(out), ts, order);
        m3::TensorIterator<m3::NoBuffer, 5, 5> ii(nb<5>(in), oi, es, st, pp);
        const int32_t zmask[5] = {1, 1, 1, 1, 0}, word[5] = {-1, 0, 1, -1, 2}, zord[5] = {-1, -1, -1, -1, 0};
        uint32_t zs[1] = {(uint32_t)co}, one[1] = {1};
        m3::Tensor<m3::NoBuffer, 1> zt(zs), izt(one);
        m3::TensorIterator<m3::NoBuffer, 1, 5> zi(zt, oi, zord, zmask), izi(izt);
        auto& ib = e.buf("in", in.mem.size(), 1); auto& wb = e.buf("w", wt.mem.size(), 1); auto& ob = e.buf("out", out.mem.size(), 4);
        auto& zb = e.buf("wzp", std::min<size_t>(ts[4], co), 1, true); auto& izb = e.buf("izp", 1, 1);
        Arr wenc; std::vector<int8_t> zenc; int8_t ienc = 0;
        int n = oi.GetTotalCount();
        auto go = [&](auto* op, auto wr, auto* kk) -> bool {
            constexpr unsigned WR = decltype(wr)::value; using K = std::remove_pointer_t<decltype(kk)>;
            if (!encode_w<std::remove_pointer_t<decltype(op)>, WR>(e, op, wt, wzp, wenc, zenc, oldenc) || !encode_izp(e, op, izp, ienc, oldenc)) return false;
            mli_status at;
            if (oldatt) {
                m3::Tensor<m3::OffsetBuffer, 4> ti(e.ob(ib), nb4(in)), to(e.ob(ob), nb4(out)); m3::OffsetBuffer w1 = e.ob(wb), i1 = e.ob(izb), z1 = e.ob(zb), c1 = e.none();
                at = op->AttachBufferOffsets(ti, to, w1, i1, z1, c1); c.count("legacy_attach");
            } else at = op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(wb), e.ob(izb), e.ob(zb), e.none());
            if (at != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
            if (!e.start(op)) return false;
            K* k = impl<K>(e); if (!k) return false;
            for (int t = 0; t < n; t++) {
                uint32_t is[5], os[5], ws[5]; int32_t io[5], oo[5], wo[5];
                k->GetIOSizesAndOffsets(is, os, ws, io, oo, wo);
                int32_t coff = dw ? wo[2] : wo[4]; uint32_t csz = dw ? ws[2] : ws[4];
                if (!e.load(ib, in, io, is) || !e.load(wb, wenc, wo, ws)) return false;
                e.raw(zb, zenc.data() + coff, csz); e.raw(izb, &ienc, 1);
                if (!e.issue({&ob})) return false;
                if (!e.store(ob, o, cnt, oo, os) || !e.update()) return false;
            }
            return true;
        };
        if (dw) {
            m3::TensorIterator<m3::NoBuffer, 3, 5> wi(nb<3>(wt), oi, word, zmask);
            void* m = e.csmem(f.DepthwiseConv2d_CS_GetSize());
            return go(api == 2 ? f.DepthwiseConv2d_CS(m, nb4(in), nb<3>(wt), dc, nb4(out)) : api ? f.DepthwiseConv2d_CS(m, ii, wi, zi, dc, oi) : f.DepthwiseConv2d_CS(m, ii, izi, wi, zi, dc, oi), std::integral_constant<unsigned, 3>(), (m3r::DepthwiseConv2d*)nullptr);
        }
        m3::TensorIterator<m3::NoBuffer, 5, 5> wi(nb<5>(wt), oi, nullptr, zmask);
        void* m = e.csmem(f.Conv2d_CS_GetSize());
        return go(api == 2 ? f.Conv2d_CS(m, nb4(in), nb<5>(wt), cc, nb4(out)) : api ? f.Conv2d_CS(m, ii, wi, zi, cc, oi) : f.Conv2d_CS(m, ii, izi, wi, zi, cc, oi), std::integral_constant<unsigned, 5>(), (m3r::Conv2d*)nullptr);
    });
}

// ---- TransposeConv2D ---------------------------------------------------------
static void tconv(Case& c, Mode md) {
    Rng& r = c.r;
    int k[2], s[2], I[2], O[2], pb[2], pe[2];
    for (int d = 0; d < 2; d++) for (;;) {
        int big = mille(r, 25) ? 1 : mille(r, 12) ? 2 : 0;
        s[d] = (int)r.in(1, big == 1 ? 8 : 3); k[d] = (int)r.in(s[d], big == 1 ? 14 : 5); I[d] = big == 2 ? wide(r, 300) : (int)r.in(1, big ? 10 : 7);
        pb[d] = r.chance(40) ? 0 : (int)r.in(0, k[d] - 1); pe[d] = r.chance(40) ? 0 : (int)r.in(0, k[d] - 1);
        O[d] = (I[d] - 1) * s[d] + k[d] - pb[d] - pe[d];
        if (O[d] < 1 || (!big && O[d] > 16) || I[d] * s[d] < pb[d]) continue;
        break;
    }
    if (I[0] * I[1] > 3000) { int d = I[0] < I[1]; I[!d] = std::min(I[!d], 7); pb[!d] = pe[!d] = 0; O[!d] = (I[!d] - 1) * s[!d] + k[!d]; }
    int ci = (int)r.in(1, 5), co = (int)r.in(1, 6);
    if (mille(r, 15)) { if (r.chance(50)) { ci = wide(r, 3000); co = (int)r.in(1, 2); } else { co = wide(r, 3000); ci = 1; } }
    if ((int64_t)I[0] * I[1] * k[0] * k[1] * ci * co > 40000) ci = co = 1;
    int tsz[2] = {I[0], I[1]}, toc = co;
    if (md.tiled) { toc = tile(r, co); for (int d = 0; d < 2; d++) if (I[d] >= k[d] && r.chance(70)) tsz[d] = (int)r.in(std::max(k[d], I[d] > 60 ? I[d] / 6 : 1), I[d]); }
    Arr in, wt, out;
    make(in, r, "input", 1, {1, I[0], I[1], 1, ci}, (int)r.in(0, 1));
    make(wt, r, "weights", 1, {1, k[0], k[1], ci, co}, (int)r.in(0, 1));
    make(out, r, "output", 4, {1, O[0], O[1], 1, co}, (int)r.in(0, 1));
    fill(in, r); fill(wt, r);
    int8_t izp = (int8_t)(r.chance(30) ? 0 : r.in(-128, 127));
    std::vector<int8_t> wzp(co, 0);
    Vals exp(out.n());
    for (int o = 0; o < co; o++) {
        int64_t base = 0;
        for (int y = 0; y < k[0]; y++) for (int x = 0; x < k[1]; x++) for (int i = 0; i < ci; i++) base += (int64_t)izp * wt.at({0, y, x, i, o});
        for (int y = 0; y < O[0]; y++) for (int x = 0; x < O[1]; x++) exp[out.idx({0, y, x, 0, o})] = base;
    }
    for (int y = 0; y < I[0]; y++) for (int x = 0; x < I[1]; x++) for (int ky = 0; ky < k[0]; ky++) for (int kx = 0; kx < k[1]; kx++) {
        int oy = y * s[0] - pb[0] + ky, ox = x * s[1] - pb[1] + kx;
        if (oy < 0 || ox < 0 || oy >= O[0] || ox >= O[1]) continue;
        for (int o = 0; o < co; o++) for (int i = 0; i < ci; i++) exp[out.idx({0, oy, ox, 0, o})] += (int64_t)(in.at({0, y, x, 0, i}) - izp) * wt.at({0, ky, kx, i, o});
    }
    bool oldcs = r.chance(30), oldenc = r.chance(25);
    c.d("transpose in %s w %s out %s k %d,%d s %d,%d pb %d,%d pe %d,%d izp %d in tile %d,%d oc tile %d", ss(in.shape).c_str(), ss(wt.shape).c_str(), ss(out.shape).c_str(), k[0], k[1], s[0], s[1], pb[0], pb[1], pe[0], pe[1], izp, tsz[0], tsz[1], toc);
    m3::TransposeConv2DConfig cfg(s[0], s[1], pb[0], pb[1], pe[0], pe[1]);
    std::string site = std::string("tconv30") + (md.tiled ? "_tiled" : "");
    run(c, site, md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        int32_t order[5] = {0, 1, 2, 3, 4};
        uint32_t its[5] = {1, (uint32_t)tsz[0], (uint32_t)tsz[1], 1, (uint32_t)ci}, es[5] = {1, (uint32_t)k[0], (uint32_t)k[1], 1, (uint32_t)co}, st[5] = {1, (uint32_t)s[0], (uint32_t)s[1], 1, 1}, pp[5] = {0, (uint32_t)pb[0], (uint32_t)pb[1], 0, 0};
        e.multi = true; auto its4 = m3::GetDeconvTensorIterators(nb<5>(in), its, nb<5>(out), toc, nb<5>(wt), es, st, pp, order);
        auto ii = std::get<0>(its4); auto wi = std::get<1>(its4); auto zi = std::get<2>(its4); auto oi = std::get<3>(its4);
        uint32_t one[1] = {1}; m3::Tensor<m3::NoBuffer, 1> izt(one); m3::TensorIterator<m3::NoBuffer, 1, 5> izi(izt);
        auto& ib = e.buf("in", in.mem.size(), 1); auto& wb = e.buf("w", wt.mem.size(), 1); auto& ob = e.buf("out", out.mem.size(), 4);
        auto& zb = e.buf("wzp", std::min(toc, co), 1, true); auto& izb = e.buf("izp", 1, 1);
        Arr wenc; std::vector<int8_t> zenc; int8_t ienc = 0;
        int n = ii.GetTotalCount();
        void* m = e.csmem(f.TransposeConv2D_CS_GetSize());
        auto* op = oldcs ? f.TransposeConv2D_CS(m, ii, wi, zi, cfg, oi) : f.TransposeConv2D_CS(m, ii, izi, wi, zi, cfg, oi);
        if (!encode_w<std::remove_pointer_t<decltype(op)>, 5>(e, op, wt, wzp, wenc, zenc, oldenc) || !encode_izp(e, op, izp, ienc, oldenc)) return false;
        if (op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(wb), e.ob(izb), e.ob(zb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (!e.start(op)) return false;
        auto* kk = impl<m3r::TransposeConv2D>(e); if (!kk) return false;
        for (int t = 0; t < n; t++) {
            uint32_t is[5], os[5], ws[5]; int32_t io[5], oo[5], wo[5];
            kk->GetIOSizesAndOffsets(is, os, ws, io, oo, wo);
            if (!e.load(ib, in, io, is) || !e.load(wb, wenc, wo, ws)) return false;
            e.raw(zb, zenc.data() + wo[4], ws[4]); e.raw(izb, &ienc, 1);
            if (!e.issue({&ob}) || !e.store(ob, o, cnt, oo, os) || !e.update()) return false;
        }
        return true;
    });
}
static void conv_any(Case& c, bool tiled) { conv_like(c, c.r.chance(50), mode(c, tiled)); }
MON_TEST(conv30) { conv_any(c, false); }
MON_TEST(conv30_tiled) { conv_any(c, true); }
MON_TEST(tconv30) { tconv(c, mode(c, false)); }
MON_TEST(tconv30_tiled) { tconv(c, mode(c, true)); }

// ---- FullyConnected ------------------------------------------------------------
static int gf(Case& c) { return c.r.chance(50) ? 0 : 1; }
// kind 0: combined weights+zero points buffer, zero points 0; 1: same with non-zero
// zero points (separate test); 2: separate int16 zero points buffer (older flow)
static void fc(Case& c, bool reloc, int kind) {
    Rng& r = c.r;
    int ic = (int)r.in(1, 40), oc = (int)r.in(1, 24);
    if (mille(r, 15)) { if (r.chance(50)) { ic = wide(r); oc = (int)r.in(1, 3); } else { oc = wide(r); ic = (int)r.in(1, 3); } }
    if (kind != 2 && (ic & 1) && (oc & 1)) oc++;
    bool perch = r.chance(50) && oc > 1; int nz = perch ? oc : 1;
    Arr in, wt, out;
    make(in, r, "input", 1, {1, ic}, gf(c));
    make(wt, r, "weights", 1, {ic, oc}, gf(c));
    if (kind != 2 && (wt.mem.size() & 1)) make(wt, r, "weights", 1, {ic, oc}, 0);   // the int16 zero points follow the weights
    make(out, r, "output", 4, {1, oc}, gf(c));
    fill(in, r); fill(wt, r);
    int8_t z = kind == 0 ? 0 : (int8_t)r.in(-128, 127);
    if (kind == 1 && z == 0) z = 5;
    Vals exp(oc);
    for (int o = 0; o < oc; o++) for (int i = 0; i < ic; i++) exp[o] += in.at({0, i}) * (wt.at({i, o}) - z);
    bool oldcs = r.chance(30);
    c.d("fc30 kind %d in %s w %s zp %d x%d", kind, ss(in.shape).c_str(), ss(wt.shape).c_str(), z, nz);
    run(c, kind == 1 ? "fc30_wzp" : "fc30", reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        uint32_t zs[1] = {(uint32_t)nz}; m3::Tensor<m3::NoBuffer, 1> zt(zs);
        m3::FullyConnectedConfig cfg;
        void* m = e.csmem(f.FullyConnected_CS_GetSize());
        auto* op = oldcs ? f.FullyConnected_CS(m, nb<2>(in), nb<2>(wt), zt, nb<2>(out)) : f.FullyConnected_CS(m, it<2, m3::kFullyConnectedIterRank>(in), it<2, m3::kFullyConnectedIterRank>(wt), m3::TensorIterator<m3::NoBuffer, 1, m3::kFullyConnectedIterRank>(zt), cfg, it<2, m3::kFullyConnectedIterRank>(out));
        if (op->GetInputBufferSize() != in.span() || op->GetWeightsBufferSize() != wt.span() || op->GetOutputBufferSize() != out.span() || op->GetEncodedWtsZeroPtsSize() != (unsigned)nz) { e.fail("value", "buffer_size", "reported buffer sizes differ from the tensors' spans"); return false; }
        auto& ib = e.buf("in", in.mem.size(), 1, true); auto& ob = e.buf("out", out.mem.size(), 4, true);
        HostBuf hw(wt), hz(kind == 2 ? nz * 2 : nz, 1); memset(hz.raw.p, z, nz); m3::Tensor<m3::Buffer, 1> zbt(hz.b(), zs);
        Buf* wb; Buf* zb = nullptr;
        if (kind == 2) {
            wb = &e.buf("w", wt.mem.size(), 1, true); zb = &e.buf("zp", nz * 2, 2, true);
            HostBuf ew(wt.mem.size(), 1), ez(nz * 2, 2); m3::Buffer b1 = ew.b(), b2 = ez.b();
            if (op->EncodeWeights(bt<2>(hw, wt), b1) != MLI_STATUS_OK || op->EncodeWtsZeroPts(zbt, b2) != MLI_STATUS_OK) { e.fail("status", "encode", "Encode failed"); return false; }
            e.raw(*wb, ew.raw.p, ew.raw.n); e.raw(*zb, ez.raw.p, ez.raw.n);
            uint32_t d[2]; int32_t s[2];
            m3::Tensor<m3::OffsetBuffer, 2> ti(e.ob(ib), in.dims(d), in.strs(s)); m3::Tensor<m3::OffsetBuffer, 2> to(e.ob(ob), out.dims(d), out.strs(s));
            if (op->AttachBufferOffsets(ti, to, e.ob(*wb), e.ob(*zb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        } else {
            wb = &e.buf("w", wt.mem.size() + nz * 2, 1, true);
            HostBuf enc(wt.mem.size() + nz, 1); m3::Buffer b = enc.b();
            m3::TensorIterator<m3::Buffer, 2, m3::kFullyConnectedIterRank> wi(bt<2>(hw, wt)); m3::TensorIterator<m3::Buffer, 1, m3::kFullyConnectedIterRank> zi(zbt);
            if (op->EncodeWeightsAndZeroPts(wi, zi, b) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeWeightsAndZeroPts failed"); return false; }
            std::vector<uint8_t> w(enc.raw.p, enc.raw.p + enc.raw.n); w.resize(wt.mem.size() + nz * 2, 0);
            e.raw(*wb, w.data(), w.size());
            if (op->AttachBufferOffsets(e.ob(ib), e.ob(ob), e.ob(*wb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        }
        if (!e.start(op) || !impl<m3r::FullyConnected>(e)) return false;
        return e.load_full(ib, in) && e.issue({&ob}) && e.store_full(ob, o, cnt) && e.update();
    });
}

// ---- MatMul ----------------------------------------------------------------------
static void matmul(Case& c, Mode md) {
    Rng& r = c.r;
    int h = (int)r.in(1, 10), k = (int)r.in(1, 24), w = (int)r.in(1, 10);
    if (mille(r, 15)) { int W = (int)r.in(0, 2); if (W == 0) { k = wide(r, 60000); h = (int)r.in(1, 2); w = (int)r.in(1, 2); } if (W == 1) { h = wide(r, 4000); w = (int)r.in(1, 3); k = (int)r.in(1, 3); } if (W == 2) { w = wide(r, 4000); h = (int)r.in(1, 3); k = (int)r.in(1, 3); } }
    int th = md.tiled ? tile(r, h) : h, tw = md.tiled ? tile(r, w) : w;
    Arr a, b, out;
    make(a, r, "left", 1, {h, k}, (int)r.in(0, 2)); make(b, r, "right", 1, {k, w}, (int)r.in(0, 2)); make(out, r, "output", 4, {h, w}, (int)r.in(0, 2));
    fill(a, r); fill(b, r);
    int8_t za = r.chance(30) ? 0 : (int8_t)r.in(-128, 127), zb = r.chance(30) ? 0 : (int8_t)r.in(-128, 127);
    Vals exp(out.n());
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int i = 0; i < k; i++) exp[out.idx({y, x})] += (a.at({y, i}) - za) * (b.at({i, x}) - zb);
    c.d("matmul %dx%dx%d zp %d %d tile %d %d", h, k, w, za, zb, th, tw);
    run(c, std::string("matmul30") + (md.tiled ? "_tiled" : ""), md.reloc, out, exp, [&](Env& e, Arr& o, std::vector<int>& cnt) -> bool {
        m3::PlatformDescription pd; m3r::KernelsFactory f(pd);
        typedef m3::TensorIterator<m3::NoBuffer, 2, m3::kMatMulIterRank> It; typedef m3::IteratorCfg<m3::kMatMulIterRank> Cfg;
        uint32_t ts[2] = {(uint32_t)th, (uint32_t)tw}; int32_t ord[2] = {0, 1};
        It oi(nb<2>(out), ts, ord), li = it<2, m3::kMatMulIterRank>(a), ri = it<2, m3::kMatMulIterRank>(b);
        if (md.tiled) {
            int32_t n[2] = {(h + th - 1) / th, (w + tw - 1) / tw};
            int32_t li1[2] = {th, 0}, li2[2] = {th * (1 - n[0]), 0}, lf[2] = {n[0] > 1 ? th : h, k}, ll[2] = {h - th * (n[0] - 1), k};
            int32_t ri1[2] = {0, tw}, ri2[2] = {0, tw * (1 - n[1])}, rf[2] = {k, n[1] > 1 ? tw : w}, rl[2] = {k, w - tw * (n[1] - 1)};
            li = It(nb<2>(a), Cfg(ord, n, li1, li1, li2, lf, lf, ll)); ri = It(nb<2>(b), Cfg(ord, n, ri1, ri1, ri2, rf, rf, rl));
        }
        auto& ab = e.buf("left", a.mem.size(), 1); auto& bb = e.buf("right", b.mem.size(), 1); auto& ob = e.buf("out", out.mem.size(), 4); auto& pb = e.buf("params", 2, 1, true);
        auto* op = f.MatMul_CS(e.csmem(f.MatMul_CS_GetSize()), li, ri, oi);
        if (op->GetEncodedParamsSize() != 2) { e.fail("value", "params_size", "encoded params size is not 2"); return false; }
        HostBuf h1(1, 1), h2(1, 1), en(2, 1); *h1.raw.p = (uint8_t)za; *h2.raw.p = (uint8_t)zb; m3::Buffer eb = en.b();
        if (op->EncodeParams(h1.b(), h2.b(), eb) != MLI_STATUS_OK) { e.fail("status", "encode", "EncodeParams failed"); return false; }
        if (op->AttachBufferOffsets(e.ob(ab), e.ob(bb), e.ob(ob), e.ob(pb), e.none()) != MLI_STATUS_OK) { e.fail("status", "attach", "AttachBufferOffsets failed"); return false; }
        if (!e.start(op)) return false;
        auto* kk = impl<m3r::MatMul>(e); if (!kk) return false;
        int n = (int)oi.GetTotalCount();
        for (int t = 0; t < n; t++) {
            uint32_t ls[2], rs[2], os[2]; int32_t lo_[2], ro[2], oo[2];
            kk->GetIOSizesAndOffsets(ls, rs, os, lo_, ro, oo);
            e.raw(pb, en.raw.p, 2);
            if (!e.load(ab, a, lo_, ls) || !e.load(bb, b, ro, rs) || !e.issue({&ob}) || !e.store(ob, o, cnt, oo, os) || !e.update()) return false;
        }
        return true;
    });
}
MON_TEST(fc30) { fc(c, c.r.chance(40), c.r.chance(50) ? 0 : 2); }
MON_TEST(fc30_wzp) { fc(c, c.r.chance(40), 1); }
MON_TEST(matmul30) { matmul(c, mode(c, false)); }
MON_TEST(matmul30_tiled) { matmul(c, mode(c, true)); }

// relocation workloads
RELOC_TEST(conv30, conv_any(c, true), conv_any(c, false))
RELOC_TEST(tconv30, tconv(c, mode(c, false)), tconv(c, mode(c, false)))
RELOC_TEST(fc30, fc(c, true, 0), fc(c, true, 2))
RELOC_TEST(matmul30, matmul(c, mode(c, true)), matmul(c, mode(c, false)))

// Executable models shared by several monitors: table look-up activations,
// element-wise arithmetic and the dense step of the recurrent cells.
#pragma once
#include "t2.h"

namespace t2 {
struct Lut {
    Raw mem; mli_lut l; Raw lm;
    explicit Lut(int which) : mem((size_t)size(which)), lm(sizeof(mli_lut)) {
        memset(&l, 0x5a, sizeof l);
        l.data.capacity = (uint32_t)mem.n; memset(&l.data.mem, 0, sizeof l.data.mem); l.data.mem.pi16 = (int16_t*)mem.p;
        st = which == 0 ? mli_krn_sigm_create_lut(&l) : which == 1 ? mli_krn_tanh_create_lut(&l) : which == 2 ? mli_krn_softmax_create_lut(&l) : mli_krn_l2_normalize_create_lut(&l);
        memcpy(lm.p, &l, sizeof l);
    }
    static int size(int w) { return w == 0 ? mli_krn_sigm_get_lut_size() : w == 1 ? mli_krn_tanh_get_lut_size() : w == 2 ? mli_krn_softmax_get_lut_size() : mli_krn_l2_normalize_get_lut_size(); }
    mli_status st;
    const mli_lut* p() const { return (const mli_lut*)lm.p; }
    int64_t at(int64_t i) const { return ((int16_t*)mem.p)[i]; }
};
inline double real_fn(int w, double x) { return w == 0 ? 1 / (1 + std::exp(-x)) : w == 1 ? std::tanh(x) : w == 2 ? std::exp(x) : 1 / std::sqrt(x); }
static const char* const kLut [[maybe_unused]][] = {"sigm", "tanh", "softmax", "l2_normalize"};

// the look-up rule: argument x with f fractional bits -> table value (16 bit), linear interpolation when the argument is finer than the table
inline int64_t look(const Lut& L, int64_t x, int f) {
    int fi = L.l.in_frac_bits, d = f - fi; int64_t off = L.l.input_offset, len = L.l.length;
    if (d > 0) {
        int pre = std::min(std::max(d - 15, 0), 15), s = std::min(d, 15);
        int64_t a = (int64_t)rm::sra(x, pre, 32), idx = (a >> s) + off;
        idx = std::max<int64_t>(0, std::min(idx, len - 2));
        int64_t fr = a & (((int64_t)1 << s) - 1);
        int64_t r = L.at(idx), df = r - L.at(idx + 1);
        return r - (int64_t)rm::cast(df * fr, s, 32, 16);
    }
    int64_t idx = (int64_t)rm::satw(rm::shl(x, -d, 32) + off, 32);
    return L.at(std::max<int64_t>(0, std::min(idx, len - 1)));
}
inline int64_t sa_arg(const Lut& L, int64_t x, int64_t zp, int64_t scale, int64_t sfrac, int& f) {
    f = 8 + L.l.in_frac_bits;
    return (int64_t)rm::rshr((x - zp) * scale, (int)sfrac - f, 32);
}


// quantisation of one value stream
struct QP { Ty ty; int64_t frac; int64_t scale, sf, zp; };
inline QP qp(const Ten& t) { return t.sa() ? QP{t.ty, 0, t.scale(), t.sfrac(), t.zpv()} : QP{t.ty, t.frac(), 0, 0, 0}; }
inline QP qfx(Ty ty, int frac) { return {ty, frac, 0, 0, 0}; }
inline QP qsa(int64_t scale, int64_t sf, int64_t zp) { return {SA8, 0, scale, sf, zp}; }
inline double qreal(const QP& q, int64_t v) { return q.ty == SA8 ? (v - q.zp) * q.scale * std::pow(2., -(double)q.sf) : v * std::pow(2., -(double)q.frac); }

// sigmoid (0) / tanh (1) of one value; qact() is the format of the result
inline QP qact(int w, Ty ty) { return ty == SA8 ? qsa(1, w == 0 ? 8 : 7, w == 0 ? -128 : 0) : qfx(ty, ty == FX8 ? 7 : 15); }
inline int64_t act1(const Lut& L, int w, const QP& q, int64_t x) {
    if (q.ty == SA8) {
        int f; int64_t a = sa_arg(L, x, q.zp, q.scale, q.sf, f);
        return (int64_t)rm::satw(rm::rshr(look(L, a, f), w == 0 ? 7 : 8, 32) + (w == 0 ? -128 : 0), 8);
    }
    return (int64_t)rm::cast(look(L, x, (int)q.frac), 16 - bits(q.ty), 16, bits(q.ty));
}

enum Op { ADD, SUB, MUL, MIN, MAX };
static const char* const kOp [[maybe_unused]][] = {"add", "sub", "mul", "min", "max"};
struct R { int64_t scale; int64_t shift; };
// scale_in / scale_out as a 16 bit multiplier with a right shift, limited to [-31, maxsh]
inline R ratio(int64_t si, int64_t fi, int64_t so, int64_t fo, int maxsh, i128 pre = 0) {
    i128 v = pre ? pre : (i128)si; int n = rm::norm((int64_t)v, 32);
    int64_t u = (int64_t)(v << n) / so;
    int64_t sh = fi - fo + n;
    int ns = 16 - rm::norm(u, 32);
    int64_t sc = (int64_t)rm::cast(u, ns, 32, 16); sh -= ns;
    int64_t lim = std::max<int64_t>(sh - maxsh, 0) + std::min<int64_t>(31 + sh, 0);
    sc = (int64_t)rm::rshr(sc, (int)lim, 16); sh -= lim;
    return {sc, sh};
}
struct Elt {
    Op op; Ty ty; QP p1, p2, po; R ra{}, rb{};
    Elt(Op o, Ty t, QP a, QP b, QP c) : op(o), ty(t), p1(a), p2(b), po(c) {
        if (ty != SA8) return;
        if (op == MIN || op == MAX) ra = rb = ratio(p1.scale, p1.sf, po.scale, po.sf, 23);
        else if (op == MUL) ra = ratio(0, p1.sf + p2.sf, po.scale, po.sf, 31, (i128)p1.scale * p2.scale);
        else { ra = ratio(p1.scale, p1.sf, po.scale, po.sf, 23); rb = ratio(p2.scale, p2.sf, po.scale, po.sf, 23); }
    }
    int64_t operator()(int64_t a, int64_t b) const {
        bool minmax = op == MIN || op == MAX;
        if (ty != SA8) {
            int f1 = (int)p1.frac, f2 = (int)p2.frac, fo = (int)po.frac, B = bits(ty);
            if (minmax) return (int64_t)rm::cast(op == MIN ? std::min(a, b) : std::max(a, b), std::min(f1 - fo, B - 1), B, B);
            if (op == MUL) return (int64_t)rm::cast((i128)a * b, std::min(f1 + f2 - fo, 2 * B - 1), 64, B);
            int m = std::max(f1, f2);
            i128 x = rm::shl(a, m - f1, 32), y = rm::shl(b, m - f2, 32);
            i128 acc = rm::satw(op == ADD ? x + y : x - y, 32);
            return (int64_t)rm::cast(acc, std::min(m - fo, 2 * B - 1), 64, B);
        }
        int64_t x = a - p1.zp, y = b - p2.zp, o16;
        if (minmax) {
            int64_t sx = x * ra.scale, sy = y * rb.scale;
            o16 = (int64_t)rm::cast(op == MIN ? std::min(sx, sy) : std::max(sx, sy), (int)ra.shift, 32, 16);
        } else if (op == MUL) {
            int64_t acc = x * y;
            int pre = (int)std::min<int64_t>(std::max<int64_t>(ra.shift - 21, 0), 3);
            int64_t a16 = (int64_t)rm::cast(acc, pre, 32, 16);
            o16 = (int64_t)rm::cast(a16 * ra.scale, (int)ra.shift - pre, 32, 16);
        } else {
            i128 sx = rm::rshr((i128)x * ra.scale, (int)ra.shift, 32), sy = rm::rshr((i128)y * rb.scale, (int)rb.shift, 32);
            o16 = (int64_t)rm::cast(rm::satw(op == ADD ? sx + sy : sx - sy, 32), 0, 64, 16);
        }
        return (int64_t)rm::satw(rm::satw((i128)o16 + po.zp, 16), 8);
    }
};

// dense step: sum over inputs k of (x_k - zp_k) * w_k, bias added to the first product, each product brought to the output format
struct DenseIn { std::vector<int64_t> x; QP q; std::vector<int64_t> w; int64_t wfrac, wscale, wsf; };   // w: [i * m + o]
struct DenseAcc { bool over = false; double err = 0; };
inline std::vector<int64_t> dense(const std::vector<DenseIn>& in, const std::vector<int64_t>& b, int64_t bfrac, const QP& o, int accw, DenseAcc& info) {
    bool sa8 = o.ty == SA8; int m = (int)b.size(); std::vector<int64_t> res(m);
    for (int j = 0; j < m; j++) {
        int64_t tot = 0; double real = 0; i128 mag = 0;
        for (size_t k = 0; k < in.size(); k++) {
            const DenseIn& d = in[k]; int64_t acc = 0, ab = 0, zp = sa8 ? d.q.zp : 0;
            for (size_t i = 0; i < d.x.size(); i++) { int64_t w = d.w[i * m + j]; acc += (d.x[i] - zp) * w; ab += std::llabs(d.x[i] * w) + std::llabs(zp * w); }
            int64_t bi = 0;
            if (k == 0) bi = sa8 ? sa_bias(b[j]) : (int64_t)rm::shl(b[j], (int)(d.q.frac + d.wfrac - bfrac), accw);
            ab += std::llabs(bi); if (ab >= ((int64_t)1 << (accw == 64 ? 38 : 30))) info.over = true;
            acc = (int64_t)rm::satw((i128)acc + bi, accw);
            int64_t ir;
            if (!sa8) { ir = (int64_t)rm::rshr(acc, (int)std::min<int64_t>(39, d.q.frac + d.wfrac - o.frac), accw); real += acc * std::pow(2., (double)(o.frac - d.q.frac - d.wfrac)); }
            else {
                SaMul im = sa_in_out(d.q.scale, d.q.sf, o.scale, o.sf);
                int64_t mul = im.in_to_out_mul * d.wscale, sh = im.in_to_out_shift + d.wsf;
                if (!kFullAccu) { int z = rm::norm(mul, 32); mul <<= z; sh += z; }
                ir = (int64_t)rm::cast((i128)acc * mul, (int)std::min<int64_t>(sh, 63), 64, 32);
                real += (double)acc * d.q.scale / o.scale * d.wscale * std::pow(2., (double)(o.sf - d.q.sf - d.wsf));
            }
            mag += ir < 0 ? -(i128)ir : ir;
            tot = (int64_t)rm::satw((i128)tot + ir, accw);
        }
        res[j] = sa8 ? (int64_t)rm::satw(rm::satw(rm::satw(tot, 16) + o.zp, 16), 8) : (int64_t)rm::satw(tot, 16);
        double lo = sa8 ? -128 : -32768, hi = sa8 ? 127 : 32767, ideal = std::max(lo, std::min(hi, real + o.zp));
        info.err = std::max(info.err, std::fabs(ideal - res[j]) - (0.6 + 0.5 * in.size() + (double)mag * 1e-3));
    }
    return res;
}
}  // namespace t2

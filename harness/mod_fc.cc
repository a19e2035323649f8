// 2.0 fully connected and RNN dense against the wide-integer affine model.
#include "t2.h"
#include "mli_config.h"
using namespace t2;

// N split into a random shape of random rank
static Shape split(Rng& r, int n) {
    Shape s;
    while ((int)s.size() < 3 && r.chance(55)) {
        std::vector<int> div; for (int d = 1; d <= n; d++) if (n % d == 0) div.push_back(d);
        int d = r.pick(div); s.push_back(d); n /= d;
    }
    s.push_back(n);
    return s;
}
struct FxQ { int fi, fw, fb, fo; };
static FxQ fxq(Rng& r, int tyi) {
    FxQ q;
    q.fi = (int)r.in(0, 15); q.fw = (int)r.in(0, tyi == 0 ? 15 : 7);
    if (r.chance(10)) q.fi = (int)r.in(-3, 18);
    int top = q.fi + q.fw; if (top < 0) { q.fi = 0; top = q.fw; }
    q.fo = r.chance(50) ? std::min(top, (int)r.in(std::max(0, top - 16), top)) : (int)r.in(std::max(0, top - 24), top);
    q.fb = r.chance(70) ? std::max(0, top - (int)r.in(0, tyi == 0 ? 14 : 10)) : (int)r.in(std::min(0, top), top);
    return q;
}
static void fx_fill(Rng& r, Ten& in, Ten& w, int64_t taps, int tyi) {
    int64_t il = 32767, wl = tmax(w.ty), full = wl;
    int64_t lim = tyi == 1 ? ((int64_t)1 << 31) - 1 : ((int64_t)1 << 38);
    while (il * (wl + 1) * taps > lim) { if (il > wl) il /= 2; else wl /= 2; }
    if (r.chance(30)) { il = std::max<int64_t>(1, il >> r.in(0, 10)); wl = std::max<int64_t>(1, wl >> r.in(0, 5)); }
    if (il == 32767) fill(in, r); else fill(in, r, -il, il);
    if (wl == full) fill(w, r); else fill(w, r, -wl, wl);
}
static int rdim(Rng& r, int small, int big) { return r.chance(85) ? (int)r.in(1, small) : (int)r.in(1, big); }

MON_TEST(fully_connected) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 3);     // fx16, fx16_fx8, sa8, sa8 with external bias adjustment
    static const char* names[] = {"mli_krn_fully_connected_fx16", "mli_krn_fully_connected_fx16_fx8_fx8", "mli_krn_fully_connected_sa8_sa8_sa32", "mli_krn_fully_connected_sa8_sa8_sa32_ext_bias"};
    bool sa8 = tyi >= 2;
    int n = rdim(r, 24, 300), m = rdim(r, 12, 80);
    if (mille(r, 15)) { if (r.chance(50)) n = wide(r, 30000), m = (int)r.in(1, 2); else m = wide(r), n = (int)r.in(1, 2); }
    Ty ity = sa8 ? SA8 : FX16, wty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA8, bty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA32;
    Ten in, w, b, out;
    make(in, r, "in", ity, split(r, n), 0);
    make(w, r, "weights", wty, {n, m}, r.chance(50) ? 1 : 0);
    make(b, r, "bias", bty, {m}, 0);
    make(out, r, "out", ity, {m}, 0);
    std::unique_ptr<Raw> cfgm(new Raw(sizeof(mli_fully_connected_cfg)));
    auto* cfg = (mli_fully_connected_cfg*)cfgm->p;
    cfg->relu.type = (mli_relu_type)r.in(0, 3);
    c.d("%s in%s w[%d,%d] wstride %d relu %d", names[tyi], ss(in.shape).c_str(), n, m, (int)w.t.mem_stride[0], (int)cfg->relu.type);
    FxQ q{}; SaMul im{}; int64_t izp = 0;
    if (!sa8) {
        q = fxq(r, tyi);
        fx(in, q.fi); fx(w, q.fw); fx(b, q.fb); fx(out, q.fo);
        c.d(" frac in%d w%d b%d o%d", q.fi, q.fw, q.fb, q.fo);
        fx_fill(r, in, w, n, tyi); fill(b, r);
    } else {
        int64_t si_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff), so_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
        bool ext = mille(r, 25);       // scales of very different magnitude
        int fi_ = ext ? (int)r.in(-25, 60) : (int)r.in(8, 24), fo_ = ext ? (int)r.in(-25, 60) : (int)r.in(8, 24);
        quant(in, si_, fi_, r.chance(25) ? 0 : r.in(-128, 127));
        quant(out, so_, fo_, r.chance(25) ? 0 : r.in(-128, 127));
        izp = tyi == 3 ? 0 : in.zpv();
        bool axis = r.chance(60); int nk = axis ? m : 1;
        std::vector<int64_t> ws(nk), wf(nk), wz(nk, 0), bs(nk), bf(nk);
        double ratio = (double)si_ / so_ * std::pow(2.0, fo_ - fi_);
        for (int k = 0; k < nk; k++) {
            ws[k] = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
            int tgt = ext ? (int)r.in(-12, 50) : r.chance(70) ? (int)r.in(2, 13) : (int)r.in(-2, 24);
            wf[k] = std::max(ext ? -40 : 0, std::min(ext ? 90 : 60, (int)std::lround(std::log2(ratio * ws[k])) + tgt));
            int64_t p = si_ * ws[k]; int s = 0; while (rm::rshr(p, s, 40) > 32767) s++;
            bs[k] = (int64_t)rm::rshr(p, s, 40); bf[k] = fi_ + wf[k] - s; if (bf[k] > 127) { c.skipped = true; return; }
        }
        if (axis) { quant_axis(w, 1, ws, wf, wz); quant_axis(b, 0, bs, bf, wz); }
        else { quant(w, ws[0], wf[0], 0); quant(b, bs[0], bf[0], 0); }
        c.d(" sa in(%lld,%lld,%lld) out(%lld,%lld,%lld) w0(%lld,%lld) axis%d", (long long)in.scale(), (long long)in.sfrac(), (long long)in.zpv(), (long long)out.scale(), (long long)out.sfrac(), (long long)out.zpv(), (long long)w.scale(), (long long)w.sfrac(), axis);
        fill(in, r); fill(w, r);
        int64_t bl = r.chance(30) ? ((int64_t)1 << 30) : r.chance(50) ? (int64_t)n * 4000 : 2000;
        fill(b, r, -bl, bl);
        im = sa_in_out(in.scale(), in.sfrac(), out.scale(), out.sfrac());
    }
    Lim lim = !sa8 ? relu_limits(cfg->relu.type, FX16, 0, 1, q.fo) : relu_limits(cfg->relu.type, SA8, out.zpv(), out.scale(), out.sfrac());
    auto vi = in.vals(), vw = w.vals(), vb = b.vals();
    std::vector<int64_t> exp(m);
    int accw = tyi == 0 ? 64 : 32; bool over = false;
    for (int o = 0; o < m; o++) {
        int64_t acc = 0, ab = 0;
        for (int i = 0; i < n; i++) { int64_t p = vi[i] * vw[(int64_t)i * m + o]; acc += p - izp * vw[(int64_t)i * m + o]; ab += std::llabs(p) + std::llabs(izp * 128); }
        if (ab >= ((int64_t)1 << (tyi == 0 ? 39 : 31))) over = true;
        if (!sa8) {
            acc = (int64_t)rm::satw((i128)acc + rm::shl(vb[o], q.fi + q.fw - q.fb, accw), accw);
            exp[o] = clampl((int64_t)rm::cast(acc, q.fi + q.fw - q.fo, accw, 16), lim);
        } else {
            int k = w.t.el_params.sa.dim < 0 ? 0 : o;
            int64_t a2 = (int64_t)rm::satw((i128)acc + sa_bias(vb[o]), 32);
            exp[o] = sa_result(a2, im, w.scale(k), w.sfrac(k), out.zpv(), lim);
        }
    }
    if (over) { c.skipped = true; return; }
    c.nontrivial = mixed(exp); c.count(std::string("fn:") + names[tyi]);
    Prot p(c, names[tyi]);
    p.in(in).in(w).in(b).out(out).raw(*cfgm);
    p.overlap(in, out).may(in, "lower_rank higher_rank"); weights_misuse(p, in, w, b, &out);
    if (!p.run([&] {
            switch (tyi) {
                case 0: return mli_krn_fully_connected_fx16(&in.t, &w.t, &b.t, cfg, &out.t);
                case 1: return mli_krn_fully_connected_fx16_fx8_fx8(&in.t, &w.t, &b.t, cfg, &out.t);
                case 2: return mli_krn_fully_connected_sa8_sa8_sa32(&in.t, &w.t, &b.t, cfg, &out.t);
                default: return mli_krn_fully_connected_sa8_sa8_sa32_ext_bias(&in.t, &w.t, &b.t, cfg, &out.t);
            }
        })) return;
    compare(c, names[tyi], out, exp);
    // With the bias folded with the zero points beforehand, ext_bias equals the plain function
    if (tyi == 2 && r.chance(50)) {
        Ten b2; make(b2, r, "bias2", SA32, {m}, 0); b2.t.el_params = b.t.el_params;
        bool exact = true;
        for (int o = 0; o < m; o++) {
            int64_t s = 0; for (int i = 0; i < n; i++) s += vw[(int64_t)i * m + o];
            int64_t v = vb[o] - izp * s;
            if (v != (int64_t)(int32_t)v || (sa_bias(v) != v) || sa_bias(vb[o]) != vb[o]) exact = false;
            b2.set(o, v);
        }
        if (exact) {
            c.count("ext_bias_equivalence");
            Prot p2(c, names[3]); p2.in(in).in(w).in(b2).out(out).raw(*cfgm); p2.check_repeat = p2.misuse = false;
            if (p2.run([&] { return mli_krn_fully_connected_sa8_sa8_sa32_ext_bias(&in.t, &w.t, &b2.t, cfg, &out.t); })) compare(c, names[3], out, exp, "ext_bias_vs_plain");
        }
    }
}

MON_TEST(rnn_dense) {
    Rng& r = c.r;
    int tyi = (int)r.in(0, 2);
    static const char* names[] = {"mli_krn_rnn_dense_fx16", "mli_krn_rnn_dense_fx16_fx8_fx8", "mli_krn_rnn_dense_sa8_sa8_sa32"};
    bool sa8 = tyi == 2;
    int ni = (int)r.in(1, MLI_RNN_MAX_INPUT), m = rdim(r, 12, 60); bool mwide = mille(r, 10); if (mwide) m = wide(r, 3000);
    Ty ity = sa8 ? SA8 : FX16, wty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA8, bty = tyi == 0 ? FX16 : tyi == 1 ? FX8 : SA32;
    Ten in[MLI_RNN_MAX_INPUT], w[MLI_RNN_MAX_INPUT], b, out;
    int n[MLI_RNN_MAX_INPUT]; int64_t taps = 0;
    c.d("%s inputs", names[tyi]);
    for (int k = 0; k < ni; k++) {
        n[k] = rdim(r, 16, 120); if (mwide && r.chance(50)) n[k] = (int)r.in(1, 2); else if (!mwide && mille(r, 10)) n[k] = wide(r, 4000); taps += n[k];
        make(in[k], r, ("in" + std::to_string(k)).c_str(), ity, split(r, n[k]), 0);
        make(w[k], r, ("w" + std::to_string(k)).c_str(), wty, {n[k], m}, r.chance(50) ? 1 : 0);
        c.d(" %d", n[k]);
    }
    make(b, r, "bias", bty, {m}, 0); make(out, r, "out", ity, {m}, 0);
    std::unique_ptr<Raw> cfgm(new Raw(sizeof(mli_rnn_dense_cfg)));
    auto* cfg = (mli_rnn_dense_cfg*)cfgm->p; cfg->inputs_num = (uint8_t)ni;
    FxQ q[MLI_RNN_MAX_INPUT]; SaMul im[MLI_RNN_MAX_INPUT];
    c.d(" out %d", m);
    if (!sa8) {
        q[0] = fxq(r, tyi);
        for (int k = 1; k < ni; k++) {      // one common output format, no finer than any product
            q[k].fi = (int)r.in(0, 15); q[k].fw = (int)r.in(0, tyi == 0 ? 15 : 7);
            if (q[k].fi + q[k].fw < q[0].fo) q[0].fo = q[k].fi + q[k].fw;
        }
        for (int k = 0; k < ni; k++) { fx(in[k], q[k].fi); fx(w[k], q[k].fw); fx_fill(r, in[k], w[k], n[k] * ni, tyi); c.d(" [%d %d]", q[k].fi, q[k].fw); }
        fx(b, q[0].fb); fx(out, q[0].fo); fill(b, r);
        c.d(" b%d o%d", q[0].fb, q[0].fo);
    } else {
        int64_t so_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff); int fo_ = (int)r.in(8, 24);
        quant(out, so_, fo_, r.chance(25) ? 0 : r.in(-128, 127));
        for (int k = 0; k < ni; k++) {
            int64_t si_ = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff); int fi_ = (int)r.in(8, 24);
            quant(in[k], si_, fi_, r.chance(25) ? 0 : r.in(-128, 127));
            double ratio = (double)si_ / so_ * std::pow(2.0, fo_ - fi_);
            int64_t ws = r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff);
            int tgt = r.chance(70) ? (int)r.in(2, 13) : (int)r.in(-2, 24);
            int wf = std::max(0, std::min(60, (int)std::lround(std::log2(ratio * ws)) + tgt));
            quant(w[k], ws, wf, 0);
            if (k == 0) {
                int64_t p = si_ * ws; int s = 0; while (rm::rshr(p, s, 40) > 32767) s++;
                quant(b, (int64_t)rm::rshr(p, s, 40), fi_ + wf - s, 0);
            }
            fill(in[k], r); fill(w[k], r);
            im[k] = sa_in_out(si_, fi_, so_, fo_);
            c.d(" [%lld>>%d zp %lld w %lld>>%d]", (long long)si_, fi_, (long long)in[k].zpv(), (long long)ws, wf);
        }
        c.d(" out %lld>>%d zp %lld", (long long)so_, fo_, (long long)out.zpv());
        int64_t bl = r.chance(30) ? ((int64_t)1 << 30) : r.chance(50) ? (int64_t)n[0] * 4000 : 2000;
        fill(b, r, -bl, bl);
    }
    auto vb = b.vals();
    std::vector<std::vector<int64_t>> vi, vw;
    for (int k = 0; k < ni; k++) { vi.push_back(in[k].vals()); vw.push_back(w[k].vals()); }
    std::vector<int64_t> exp(m); bool over = false; int accw = tyi == 0 ? 64 : 32; double maxerr = 0;
    for (int o = 0; o < m; o++) {
        int64_t tot = 0; double real = 0, mag = 0;     // mag: sum of the terms' magnitudes (they may cancel)
        for (int k = 0; k < ni; k++) {
            int64_t izp = sa8 ? in[k].zpv() : 0, acc = 0, ab = 0;
            for (int i = 0; i < n[k]; i++) { int64_t wv = vw[k][(int64_t)i * m + o]; acc += (vi[k][i] - izp) * wv; ab += std::llabs(vi[k][i] * wv) + std::llabs(izp * 128); }
            if (ab >= ((int64_t)1 << (tyi == 0 ? 38 : 30))) over = true;
            // the accumulator starts with the bias: their sum has to fit as well
            if (k == 0 && (i128)ab + std::llabs((int64_t)(sa8 ? (i128)sa_bias(vb[o]) : rm::shl(vb[o], q[0].fi + q[0].fw - q[0].fb, accw))) >= ((i128)1 << (tyi == 0 ? 62 : 31)) - 1) over = true;
            if (k == 0) acc = (int64_t)rm::satw((i128)acc + (sa8 ? (i128)sa_bias(vb[o]) : rm::shl(vb[o], q[0].fi + q[0].fw - q[0].fb, accw)), accw);
            int64_t ir;
            if (!sa8) ir = (int64_t)rm::rshr(acc, std::min(39, q[k].fi + q[k].fw - q[0].fo), accw);
            else {
                int64_t mul = im[k].in_to_out_mul * w[k].scale(), sh = im[k].in_to_out_shift + w[k].sfrac();
                if (!kFullAccu) { int z = rm::norm(mul, 32); mul <<= z; sh += z; }
                ir = (int64_t)rm::cast((i128)acc * mul, (int)std::min<int64_t>(sh, 63), 64, 32);
                double term = (double)acc * in[k].real_scale() * w[k].real_scale() / out.real_scale(); real += term; mag += std::fabs(term);
            }
            tot = (int64_t)rm::satw((i128)tot + ir, accw);
        }
        if (!sa8) exp[o] = (int64_t)rm::satw(tot, 16);
        else {
            exp[o] = (int64_t)rm::satw(rm::satw(rm::satw(tot, 16) + out.zpv(), 16), 8);
            double ideal = std::max(-128.0, std::min(127.0, real + out.zpv()));
            double tol = 0.6 + 0.5 * ni + mag * 1e-3;
            maxerr = std::max(maxerr, std::fabs(ideal - exp[o]) - tol);
        }
    }
    if (over) { c.skipped = true; return; }
    if (maxerr > 0) c.fail("harness", "model_accuracy", "model off the ideal sum by %f too much", maxerr);
    c.nontrivial = mixed(exp); c.count(std::string("fn:") + names[tyi]); c.count("inputs:" + std::to_string(ni));
    Prot p(c, names[tyi]);
    for (int k = 0; k < ni; k++) { p.in(in[k]).in(w[k]).overlap(in[k], out).may(in[k], "lower_rank higher_rank"); }
    p.in(b).out(out).raw(*cfgm); weights_misuse(p, in[0], w[0], b, nullptr);
#ifdef MON_CHK
    for (int k = 0; k < ni; k++) if (!in[0].sa()) p.badt(out, "out_frac", bad_frac_above(in[k].frac() + w[k].frac())); else if (k) p.badt(w[k], "weights_zero_point", bad_zero_point());
#endif
    p.bad<mli_rnn_dense_cfg>("inputs_num", cfg, [](mli_rnn_dense_cfg& g, Rng& q) { g.inputs_num = (int)(q.chance(60) ? MLI_RNN_MAX_INPUT + 1 : q.in(-100, 0)); return true; });
    if (!p.run([&] {
            std::vector<const mli_tensor*> pi, pw; for (int k = 0; k < ni; k++) { pi.push_back(&in[k].t); pw.push_back(&w[k].t); }
            switch (tyi) {
                case 0: return mli_krn_rnn_dense_fx16(pi.data(), pw.data(), &b.t, cfg, &out.t);
                case 1: return mli_krn_rnn_dense_fx16_fx8_fx8(pi.data(), pw.data(), &b.t, cfg, &out.t);
                default: return mli_krn_rnn_dense_sa8_sa8_sa32(pi.data(), pw.data(), &b.t, cfg, &out.t);
            }
        })) return;
    compare(c, names[tyi], out, exp);
}

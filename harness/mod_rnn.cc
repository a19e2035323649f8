// 2.0 recurrent cells: LSTM and GRU over whole sequences.
#include "models.h"
using namespace t2;

struct Cell {
    bool gru; int tyi; bool sa8; int N, M, seq; Ty io, wt, bt; int G;
    Ten in, prev, win, wout, bias, cell, out, scr;
    mli_rnn_direction dir; mli_rnn_results res; mli_rnn_out_activation act;
    int accw;
};
static std::vector<int64_t> row(const std::vector<int64_t>& v, int i, int n) { return {v.begin() + (int64_t)i * n, v.begin() + (int64_t)(i + 1) * n}; }
static double rexp(double x) { return 1 / (1 + std::exp(-x)); }

static void rnn_case(Case& c, bool gru) {
    Rng& r = c.r; Cell k; k.gru = gru; k.tyi = (int)r.in(0, 2); k.sa8 = k.tyi == 2; k.G = gru ? 3 : 4;
    static const char* suf[] = {"fx16", "fx16_fx8_fx8", "sa8_sa8_sa32"};
    std::string site = std::string(gru ? "mli_krn_gru_cell_" : "mli_krn_lstm_cell_") + suf[k.tyi];
    auto dim = [&] { return r.chance(15) ? 1 : r.chance(85) ? (int)r.in(1, 9) : (int)r.in(1, 40); };
    k.N = dim(); k.M = dim(); k.seq = r.chance(30) ? 1 : (int)r.in(2, 7);
    if (mille(r, 10)) { int W = (int)r.in(0, 2); if (W == 0) { k.seq = (int)r.in(8, 300); k.N = std::min(k.N, 4); k.M = std::min(k.M, 4); } if (W == 1) { k.N = (int)r.in(41, 600); k.M = std::min(k.M, 4); } if (W == 2) { k.M = (int)r.in(41, 140); k.seq = 1; } }
    k.io = k.sa8 ? SA8 : FX16; k.wt = k.tyi == 0 ? FX16 : k.tyi == 1 ? FX8 : SA8; k.bt = k.tyi == 0 ? FX16 : k.tyi == 1 ? FX8 : SA32;
    k.dir = r.chance(50) ? RNN_DIR_FORWARD : RNN_DIR_BACKWARD; k.res = r.chance(50) ? RNN_OUT_ALL : RNN_OUT_LAST;
    k.act = gru ? (mli_rnn_out_activation)r.in(RNN_ACT_NONE, RNN_ACT_SIGM) : (mli_rnn_out_activation)r.in(RNN_ACT_NONE, RNN_ACT_SIGM);
    k.accw = k.tyi == 0 ? 64 : 32;
    const int N = k.N, M = k.M, G = k.G; const int rows = k.res == RNN_OUT_ALL ? k.seq : 1;
    bool share = r.chance(30);
    make(k.in, r, "in", k.io, {k.seq, N}, 0); make(k.prev, r, "prev_out", k.io, {M}, 0);
    make(k.win, r, "weights_in", k.wt, {G, N, M}, 1); make(k.wout, r, "weights_out", k.wt, {G, M, M}, 1);
    make(k.bias, r, "bias", k.bt, {G, M}, 1); make(k.cell, r, "cell", k.io, {M}, 0);
    make(k.out, r, "out", k.io, {rows, M}, 0); make(k.scr, r, "scratch", k.io, {G * M}, 0);
    c.d("%s seq %d N %d M %d dir %d res %d act %d share %d", site.c_str(), k.seq, N, M, (int)k.dir, (int)k.res, (int)k.act, share);
    // quantisation
    std::vector<int64_t> ws_i(G), wf_i(G), ws_o(G), wf_o(G), bs(G), bf(G), z(G, 0); bool peraxis = false;
    double n = N + M;
    if (!k.sa8) {
        int fi = r.chance(80) ? (int)r.in(9, 15) : (int)r.in(0, 15), fp = r.chance(50) ? fi : (int)r.in(6, 15);
        int wm = k.tyi == 0 ? 15 : 7; int fw = r.chance(75) ? (int)r.in(wm - 4, wm) : (int)r.in(0, wm), fwo = r.chance(50) ? fw : (int)r.in(wm - 5, wm);
        int fo = r.chance(40) ? fp : (int)r.in(6, 15), fc = (int)r.in(8, 15);
        int fb = (int)r.in(std::max(0, std::min(fi + fw, wm) - 4), std::min(fi + fw, wm));
        fx(k.in, fi); fx(k.prev, fp); fx(k.win, fw); fx(k.wout, fwo); fx(k.bias, fb); fx(k.cell, fc); fx(k.out, fo); fx(k.scr, 0);
        c.d(" frac in %d prev %d w %d %d b %d cell %d out %d", fi, fp, fw, fwo, fb, fc, fo);
        auto wl = [&](int f, int fwv) {
            double lim = 6 / std::sqrt(n) / std::pow(2., 15 - f) * std::pow(2., fwv) * std::pow(2., r.in(-20, 20) / 10.);
            return (int64_t)std::max(1., std::min<double>(tmax(k.wt), lim));
        };
        int64_t a = wl(fi, fw), b = wl(std::min(fp, fo), fwo), bl = (int64_t)std::min<double>(tmax(k.bt), std::max(1., 4. * std::pow(2., fb)));
        if (r.chance(5)) { a = b = tmax(k.wt); bl = tmax(k.bt); }
        fill(k.win, r, -a, a); fill(k.wout, r, -b, b); fill(k.bias, r, -bl, bl);
    } else {
        auto sc = [&]() { return r.chance(80) ? r.in(0x4000, 0x7fff) : r.in(1, 0x7fff); };
        auto zp = [&]() { return r.chance(25) ? 0 : r.in(-128, 127); };
        auto q = [&](Ten& t, double rng) { int64_t s = sc(); int f = (int)std::lround(std::log2(s * 127 / rng) + r.in(-10, 10) / 10.); f = std::max(0, f); quant(t, s, f, zp()); };
        q(k.in, r.chance(80) ? 4 : 64); q(k.prev, 1.5); q(k.out, 1.5); q(k.cell, r.chance(70) ? 4 : 1); if (r.chance(40)) k.prev.t.el_params = k.out.t.el_params;
        quant(k.scr, 1, 0, 0);
        peraxis = r.chance(50);
        for (int g = 0; g < G; g++) {
            if (g && !peraxis) { ws_i[g] = ws_i[0]; wf_i[g] = wf_i[0]; ws_o[g] = ws_o[0]; wf_o[g] = wf_o[0]; bs[g] = bs[0]; bf[g] = bf[0]; continue; }
            auto w = [&](Ten& x, int64_t& s, int64_t& f) {
                s = sc(); double want = 4 / (std::sqrt(n) * 64 * 64 * x.real_scale()) * std::pow(2., r.in(-25, 25) / 10.);
                f = std::max<int64_t>(0, std::min<int64_t>(60, std::lround(std::log2(s / want))));
            };
            w(k.in, ws_i[g], wf_i[g]); w(k.out, ws_o[g], wf_o[g]);
            int64_t p = k.in.scale() * ws_i[g]; int s = 0; while (rm::rshr(p, s, 40) > 32767) s++;
            bs[g] = (int64_t)rm::rshr(p, s, 40); bf[g] = k.in.sfrac() + wf_i[g] - s;
        }
        if (peraxis) { quant_axis(k.win, 0, ws_i, wf_i, z); quant_axis(k.wout, 0, ws_o, wf_o, z); quant_axis(k.bias, 0, bs, bf, z); }
        else { quant(k.win, ws_i[0], wf_i[0], 0); quant(k.wout, ws_o[0], wf_o[0], 0); quant(k.bias, bs[0], bf[0], 0); }
        c.d(" sa in %lld>>%lld zp%lld prev %lld>>%lld zp%lld out %lld>>%lld zp%lld cell %lld>>%lld zp%lld axis %d", (long long)k.in.scale(), (long long)k.in.sfrac(), (long long)k.in.zpv(),
            (long long)k.prev.scale(), (long long)k.prev.sfrac(), (long long)k.prev.zpv(), (long long)k.out.scale(), (long long)k.out.sfrac(), (long long)k.out.zpv(),
            (long long)k.cell.scale(), (long long)k.cell.sfrac(), (long long)k.cell.zpv(), peraxis);
        fill(k.win, r); fill(k.wout, r);
        int64_t bl = r.chance(10) ? ((int64_t)1 << 28) : 30000; fill(k.bias, r, -bl, bl);
    }
    fill(k.in, r); fill(k.prev, r); fill(k.cell, r);
    // ------------------------------------------------------------- model
    Lut Lt(1), Ls(0); Ty io = k.io; QP qi = qp(k.in), qc = qp(k.cell), qo = qp(k.out), qh = qp(k.prev), ir;
    if (k.sa8) ir = gru ? qsa(21, 9, 0) : qsa(1, 4, 0); else ir = qfx(FX16, std::min(std::min(gru ? 11 : 10, k.in.frac() + k.win.frac()), k.wout.frac() + std::min(k.prev.frac(), k.out.frac())));
    auto vin = k.in.vals(), hid = k.prev.vals(), cel = k.cell.vals(), vb = k.bias.vals(), vwi = k.win.vals(), vwo = k.wout.vals();
    std::vector<int64_t> exp; DenseAcc info; double tolirr = 0; (void)tolirr;
    auto gate = [&](const std::vector<int64_t>& x, const std::vector<int64_t>& h, const QP& hq, int g) {
        std::vector<DenseIn> d(2);
        d[0].x = x; d[0].q = qi; d[0].w = row(vwi, g, N * M); d[1].x = h; d[1].q = hq; d[1].w = row(vwo, g, M * M);
        d[0].wfrac = k.sa8 ? 0 : k.win.frac(); d[1].wfrac = k.sa8 ? 0 : k.wout.frac(); d[0].wscale = ws_i[g]; d[0].wsf = wf_i[g]; d[1].wscale = ws_o[g]; d[1].wsf = wf_o[g];
        return dense(d, row(vb, g, M), k.sa8 ? 0 : k.bias.frac(), ir, k.accw, info);
    };
    auto act = [&](int w, const QP& q, std::vector<int64_t> v) { for (auto& x : v) x = act1(w ? Lt : Ls, w, q, x); return v; };
    auto elt = [&](Op op, const QP& a, const std::vector<int64_t>& x, const QP& b, const std::vector<int64_t>& y, const QP& o) { Elt e(op, io, a, b, o); std::vector<int64_t> v(M); for (int i = 0; i < M; i++) v[i] = e(x[x.size() == 1 ? 0 : i], y[i]); return v; };
    QP qs = qact(0, io), qt = qact(1, io); std::vector<int64_t> one(1, tmax(io)); QP q1 = k.sa8 ? qsa(1, 8, -128) : qfx(FX16, 15);
    // real valued reference of the first step
    std::vector<double> real(M); double rtol = 0; bool rok = true;
    {
        int t = k.dir == RNN_DIR_FORWARD ? 0 : k.seq - 1;
        auto lim = [&](const QP& q, double v) { return std::max(qreal(q, tmin(io)), std::min(qreal(q, tmax(io)), v)); };
        std::vector<double> h(M), cc(M);
        for (int i = 0; i < M; i++) { h[i] = qreal(qh, hid[i]); cc[i] = qreal(qc, cel[i]); }
        auto g = [&](int gi, const std::vector<double>& hh, int o) {
            double s = 0; double sw = k.sa8 ? ws_i[gi] * std::pow(2., -(double)wf_i[gi]) : std::pow(2., -(double)k.win.frac()), so = k.sa8 ? ws_o[gi] * std::pow(2., -(double)wf_o[gi]) : std::pow(2., -(double)k.wout.frac());
            double sb = k.sa8 ? k.in.real_scale() * sw : std::pow(2., -(double)k.bias.frac());
            for (int i = 0; i < N; i++) s += qreal(qi, vin[t * N + i]) * vwi[(gi * N + i) * M + o] * sw;
            for (int i = 0; i < M; i++) s += hh[i] * vwo[(gi * M + i) * M + o] * so;
            return lim(ir, s + vb[gi * M + o] * sb);
        };
        double e_ir = (k.sa8 ? 3 * ir.scale * std::pow(2., -(double)ir.sf) : 3 * std::pow(2., -(double)ir.frac)) * 0.5, e_s = k.sa8 ? 0.006 : 0.001, step_o = k.sa8 ? qo.scale * std::pow(2., -(double)qo.sf) : std::pow(2., -(double)qo.frac), step_c = k.sa8 ? qc.scale * std::pow(2., -(double)qc.sf) : std::pow(2., -(double)qc.frac);
        double step_h = k.sa8 ? qh.scale * std::pow(2., -(double)qh.sf) : std::pow(2., -(double)qh.frac);
        if (!gru) {
            for (int o = 0; o < M; o++) {
                double i_ = rexp(g(0, h, o)), g_ = std::tanh(g(1, h, o)), f_ = rexp(g(2, h, o)), o_ = rexp(g(3, h, o));
                double cn = lim(qc, lim(qc, cc[o] * f_) + i_ * g_), a = k.act == RNN_ACT_NONE ? cn : k.act == RNN_ACT_TANH ? std::tanh(cn) : rexp(cn);
                double ce = (std::fabs(cc[o]) * (e_ir / 4 + e_s) + 2 * (e_ir + e_s) + 3 * step_c) * 1.02;
                real[o] = lim(qo, a * o_); rtol = std::max(rtol, ce + e_s + std::fabs(a) * (e_ir / 4 + e_s) + 2 * step_o);
            }
        } else {
            std::vector<double> hr(M); double hm = 0, wm = 0;
            for (int o = 0; o < M; o++) { hr[o] = lim(qh, h[o] * rexp(g(1, h, o))); hm = std::max(hm, std::fabs(h[o])); }
            double so = k.sa8 ? ws_o[2] * std::pow(2., -(double)wf_o[2]) : std::pow(2., -(double)k.wout.frac());
            for (int o = 0; o < M; o++) { double s = 0; for (int i = 0; i < M; i++) s += std::abs(vwo[(2 * M + i) * M + o]) * so; wm = std::max(wm, s); }
            double eh = hm * (e_ir / 4 + e_s) + 1.5 * step_h, en = std::min(2., e_ir + wm * eh) + e_s;
            for (int o = 0; o < M; o++) {
                double u = rexp(g(0, h, o)), nn = std::tanh(g(2, hr, o));
                real[o] = lim(qo, lim(qo, (1 - u) * nn) + lim(qh, u * h[o]));
                rtol = std::max(rtol, en + (1 + hm) * (e_ir / 4 + 2 * e_s) + 2 * step_h + 3 * step_o);
            }
        }
    }
    for (int s = 0; s < k.seq; s++) {
        int t = k.dir == RNN_DIR_FORWARD ? s : k.seq - 1 - s;
        auto x = row(vin, t, N); std::vector<int64_t> res;
        if (!gru) {
            auto i_ = act(0, ir, gate(x, hid, qh, 0)), g_ = act(1, ir, gate(x, hid, qh, 1)), f_ = act(0, ir, gate(x, hid, qh, 2)), o_ = act(0, ir, gate(x, hid, qh, 3));
            cel = elt(MUL, qc, cel, qs, f_, qc);
            g_ = elt(MUL, qt, g_, qs, i_, qt);
            cel = elt(ADD, qc, cel, qt, g_, qc);
            if (k.act == RNN_ACT_NONE) res = elt(MUL, qc, cel, qs, o_, qo);
            else { int w = k.act == RNN_ACT_TANH; res = elt(MUL, w ? qt : qs, act(w, qc, cel), qs, o_, qo); }
        } else {
            auto u = act(0, ir, gate(x, hid, qh, 0)), rs = act(0, ir, gate(x, hid, qh, 1));
            auto hr = elt(MUL, qs, rs, qh, hid, qh), co = elt(MUL, qh, hid, qs, u, qh);
            u = elt(SUB, q1, one, qs, u, qs);
            auto nw = act(1, ir, gate(x, hr, qh, 2));
            res = elt(ADD, qo, elt(MUL, qt, nw, qs, u, qo), qh, co, qo);
        }
        if (s == 0) for (int i = 0; i < M; i++) if (std::fabs(qreal(qo, res[i]) - real[i]) > rtol) { rok = false; c.d(" [%d] fixed %f real %f tol %f", i, qreal(qo, res[i]), real[i], rtol); break; }
        hid = res; qh = qo;
        if (k.res == RNN_OUT_ALL) exp.insert(exp.end(), res.begin(), res.end());
    }
    if (k.res == RNN_OUT_LAST) exp = hid;
    if (info.over) { c.skipped = true; return; }
    if (info.err > 0) c.fail("harness", "model_accuracy", "dense model off the ideal sum by %f too much", info.err);
    if (!rok) c.fail("ideal", site + ":ideal", "the first step differs from the real valued cell equations by more than %f", rtol);
    c.count("real_valued_checked", M);
    c.nontrivial = mixed(exp); c.count("fn:" + site); c.count(k.dir == RNN_DIR_FORWARD ? "forward" : "backward"); c.count(k.res == RNN_OUT_ALL ? "out_all" : "out_last");
    c.count("timesteps", k.seq); if (share) c.count("prev_out_shared"); if (k.sa8) c.count(peraxis ? "per_gate_scales" : "per_tensor_scales");
    // -------------------------------------------------------------- run
    std::vector<uint8_t> cell0(k.cell.mem->p, k.cell.mem->p + k.cell.mem->n); auto prev0 = k.prev.vals();
    Raw cfgm(sizeof(mli_rnn_cell_cfg)); auto* cfg = (mli_rnn_cell_cfg*)cfgm.p; memset(cfgm.p, 0, cfgm.n);
    cfg->direction = k.dir; cfg->results = k.res; cfg->act = k.act; cfg->scratch_data = k.scr.t.data;
    k.scr.off.clear(); k.cell.inout = true; k.out.may_change_struct = true;
    if (share) { // prev_out lives in the first row of the output
        for (int i = 0; i < M; i++) k.out.set(i, k.prev.get(i));
        set_ptr(k.prev.t.data, io, k.out.mem->p); k.out.inout = true;
    }
    // the output's initial shape is free
    { int tot = rows * M; int form = (int)r.in(0, 3); auto& t = k.out.t;
      if (form == 1) { t.rank = 1; t.shape[0] = tot; t.mem_stride[0] = 1; }
      if (form == 2) { t.rank = 3; t.shape[0] = 1; t.shape[1] = M; t.shape[2] = rows; t.mem_stride[0] = tot; t.mem_stride[1] = rows; t.mem_stride[2] = 1; }
      if (form == 3) { t.rank = 1; t.shape[0] = 1; t.mem_stride[0] = 1; }
#ifndef MLI_DEBUG_MODE
      // rank, shape and strides are set by the kernel: without checks whatever is there must not matter
      if (r.chance(30)) { t.rank = (uint32_t)r.in(0, 4); for (int i = 0; i < MLI_MAX_RANK; i++) { t.shape[i] = (uint32_t)r.in(0, 9); t.mem_stride[i] = (int32_t)r.in(-3, 50); } }
#endif
    }
    Prot p(c, site); p.raw(Lt.mem).raw(Lt.lm).raw(Ls.mem).raw(Ls.lm).raw(cfgm).in(k.in).in(k.win).in(k.wout).in(k.bias);
    if (!share) p.in(k.prev);
    p.out(k.out).out(k.scr); if (!gru) p.out(k.cell);
    mli_tensor sp = k.prev.t, so = k.out.t;
    weights_misuse(p, k.in, k.win, k.bias, nullptr);
#ifdef MON_CHK
    if (k.sa8) p.badt(k.wout, "weights_zero_point", bad_zero_point());
#endif
    p.may(k.in, "", 1).may(k.out, "shorter_dim lower_rank higher_rank longer_dim").may(k.scr, "rank_above_4 zero_dim zero_stride negative_stride overlapping_strides wrapping_size el_type scale_not_positive zero_point_range becomes_per_axis shorter_dim longer_dim inner_stride lower_rank higher_rank");
    p.overlap(k.in, k.scr);
    p.badt(k.out, "out_capacity", [=](mli_tensor& t, Rng& q) { int64_t n = (int64_t)rows * M * esz(io); t.data.capacity = (uint32_t)(q.chance(60) ? n - 1 : q.in(0, n - 1)); return true; });
    for (Lut* l : {&Lt, &Ls}) p.bad<mli_lut>("lut_capacity", const_cast<mli_lut*>(l->p()), [](mli_lut& g, Rng& q) { g.data.capacity = (uint32_t)(q.chance(60) ? g.data.capacity - 1 : q.in(0, g.data.capacity - 1)); return true; });
    p.noshare = share;
    bool ok = p.run([&] {
        mli_status st;
        mli_rnn_cell_cfg own, *cfg = (mli_rnn_cell_cfg*)cfgm.p;
        if (g_redirect) { own = *cfg; own.scratch_data = (&k.scr.t)->data; cfg = &own; }
#define A3 &k.in.t, &k.prev.t, &k.win.t, &k.wout.t, &k.bias.t, Lt.p(), Ls.p(), cfg
        if (gru) st = k.tyi == 0 ? mli_krn_gru_cell_fx16(A3, &k.out.t) : k.tyi == 1 ? mli_krn_gru_cell_fx16_fx8_fx8(A3, &k.out.t) : mli_krn_gru_cell_sa8_sa8_sa32(A3, &k.out.t);
        else st = k.tyi == 0 ? mli_krn_lstm_cell_fx16(A3, &k.cell.t, &k.out.t) : k.tyi == 1 ? mli_krn_lstm_cell_fx16_fx8_fx8(A3, &k.cell.t, &k.out.t) : mli_krn_lstm_cell_sa8_sa8_sa32(A3, &k.cell.t, &k.out.t);
        return st; });
    if (!ok) return;
    if (memcmp(&sp, &k.prev.t, sizeof sp)) c.fail("memory", site + ":input_struct", "prev_out structure modified");
    const mli_tensor& t = k.out.t;
    if (t.rank != 2 || (int)t.shape[0] != rows || (int)t.shape[1] != M || t.mem_stride[0] != M || t.mem_stride[1] != 1) { c.fail("value", site + ":out_shape", "output is not (%d, %d)", rows, M); return; }
    if (memcmp(&t.el_params, &so.el_params, sizeof t.el_params) || memcmp(&t.data, &so.data, sizeof t.data) || t.el_type != so.el_type) { c.fail("value", site + ":out_params", "output parameters changed"); return; }
    compare(c, site, k.out, exp);
    if (!gru) compare(c, site, k.cell, cel, "cell");
    // the same sequence split over two calls with carried state
    if (k.seq < 2 || !(k.sa8 || k.prev.frac() == k.out.frac())) return;
    int cut = (int)r.in(1, k.seq - 1), first = k.dir == RNN_DIR_FORWARD ? 0 : k.seq - cut;
    Ten o2, c2; make(o2, r, "out2", io, {M}, 0); make(c2, r, "cell2", io, {M}, 0); o2.t.el_params = k.out.t.el_params; c2.t.el_params = k.cell.t.el_params;
    memcpy(c2.mem->p, cell0.data(), cell0.size());
    Raw cfg2m(sizeof(mli_rnn_cell_cfg)); memcpy(cfg2m.p, cfgm.p, cfgm.n); auto* cfg2 = (mli_rnn_cell_cfg*)cfg2m.p; cfg2->results = RNN_OUT_LAST;
    for (int i = 0; i < M; i++) o2.set(i, prev0[i]);
    for (int part = 0; part < 2; part++) {
        int t0 = part == 0 ? first : k.dir == RNN_DIR_FORWARD ? cut : 0, len = part == 0 ? cut : k.seq - cut;
        mli_tensor ti = k.in.t, th = k.prev.t, to = o2.t; ti.shape[0] = len; set_ptr(ti.data, io, k.in.mem->p + (int64_t)t0 * N * esz(io)); ti.data.capacity = len * N * esz(io);
        std::vector<uint8_t> h(o2.mem->p, o2.mem->p + o2.mem->n); Raw hm(h.size()); memcpy(hm.p, h.data(), h.size()); set_ptr(th.data, io, hm.p); th.data.capacity = (uint32_t)hm.n;
        if (part) th.el_params = o2.t.el_params;
#define A4 &ti, &th, &k.win.t, &k.wout.t, &k.bias.t, Lt.p(), Ls.p(), cfg2
        mli_status st;
        if (gru) st = k.tyi == 0 ? mli_krn_gru_cell_fx16(A4, &to) : k.tyi == 1 ? mli_krn_gru_cell_fx16_fx8_fx8(A4, &to) : mli_krn_gru_cell_sa8_sa8_sa32(A4, &to);
        else st = k.tyi == 0 ? mli_krn_lstm_cell_fx16(A4, &c2.t, &to) : k.tyi == 1 ? mli_krn_lstm_cell_fx16_fx8_fx8(A4, &c2.t, &to) : mli_krn_lstm_cell_sa8_sa8_sa32(A4, &c2.t, &to);
        if (st != MLI_STATUS_OK) { c.fail("status", site + ":status", "split call returned %d", (int)st); return; }
    }
    c.count("split_sequences"); compare(c, site, o2, hid, "split");
    if (!gru) compare(c, site, c2, cel, "split_cell");
}
MON_TEST(lstm) { rnn_case(c, false); }
MON_TEST(gru) { rnn_case(c, true); }

// Streaming components: Filter, Framer, Decimator, DecimatorB, Resampler, DownBeat.
#include "comp.h"
#include <stdexcept>
#include <algorithm>
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/tempotracking/DownBeat.h"
using namespace sim;
typedef std::vector<double> VD;

namespace {
static i64 blocklen(Rng &r, int size) {
    if (size > 2 && r.chance(500)) { static const i64 b[] = { 256, 512, 1024, 1024, 2048, 4096, 4097, 999 }; return b[r.below(8)]; }
    switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 1 + (i64)r.below(5); case 3: return 18 + (i64)r.below(6); case 4: return 39 + (i64)r.below(5); default: return (i64)r.below(size ? 150 : 50); }
}
// =============================================================== Filter (C10)
struct FilterComp : Comp {
    FilterComp() : Comp("filter") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 ord; switch (r.below(6)) { case 0: ord = 0; break; case 1: ord = 1; break; case 2: ord = 2 + (i64)r.below(3); break; case 3: ord = 18 + (i64)r.below(6); break; default: ord = (i64)r.below(size > 2 ? 300 : size ? 60 : 30); }
        ops.push_back(mkop(c, "new", { ord, (i64)r.below(3) ? 1 : 0, (i64)(r.next() >> 40), (i64)r.below(4) }));
        int n = many(r, 2 + (int)r.below(size ? 16 : 8));
        for (int i = 0; i < n; i++) {
            if (interrupt(r, 130)) ops.push_back(mkop(c, "reset"));
            else if (r.chance(40)) ops.push_back(mkop(c, "bad", { 1 + (i64)r.below(5), (i64)r.below(6) }));
            else ops.push_back(mkop(c, "block", { blocklen(r, size), (i64)r.below(10), (i64)(r.next() >> 44) }));
        }
    }
    void run(Ctx &c) {
        Filter *f = 0; VD a, b, in, out; bool iir = false; i64 pos = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !f) {
                int sz = (int)clampi(o.arg(0), 0, 400) + 1; iir = o.arg(1) != 0; u64 s = (u64)o.arg(2);
                Filter::Parameters p;
                for (int i = 0; i < sz; i++) p.b.push_back(Sig::noise(s, i));
                if (iir) {
                    p.a.push_back(1.0); double tot = 0; VD t;
                    for (int i = 1; i < sz; i++) { double v = Sig::noise(s + 1, i); if (o.arg(3) == 1 && i + 3 < sz) v = 0; t.push_back(v); tot += fabs(v); }
                    for (size_t i = 0; i < t.size(); i++) p.a.push_back(tot > 0 ? t[i] / tot * 0.9 : 0);
                }
                a = p.a; b = p.b;
                { SUT(c); f = new Filter(p); }
                int ord; { SUT(c); ord = f->getOrder(); }
                if (c.model && ord != sz - 1) fail(c.prop, "order", "getOrder() is %d for %d coefficients", ord, sz);
            }
            if (o.name == "bad") {
                Filter::Parameters p; int nb = (int)clampi(o.arg(0), 1, 20), na = (int)clampi(o.arg(1), 0, 20);
                bool expect = true; if (na == 0) { p.b.clear(); } else { p.b.assign(nb, 1.0); p.a.assign(na, 0.5); if (na == nb) p.a.push_back(0.1); }
                bool threw = false, other = false;
                { SUT(c); try { Filter g(p); } catch (std::logic_error &) { threw = true; } catch (...) { other = true; } }
                if (c.model && (!threw || other) && expect) fail(c.prop, "not-refused", "construction with %zu a and %zu b coefficients did not throw std::logic_error", p.a.size(), p.b.size());
                PROBE(bad_coeffs_rejected); c.digi(threw);
            }
            if (!f) continue;
            if (o.name == "reset") { PROBE(reset_mid_stream); { SUT(c); f->reset(); } in.clear(); out.clear(); }
            else if (o.name == "block") {
                size_t n = (size_t)clampi(o.arg(0), 0, 5000); Buf<double> x(n), y(n); if (n == 0) PROBE(empty_block); if (n == 1) PROBE(single_sample_block);
                fill_sig(x, n, Sig(o.arg(1), o.arg(2)), pos); pos += (i64)n; y.fill(-1234.5);
                Buf<double> keep(n); memcpy(keep.p, x.p, n * sizeof(double));
                { SUT(c); f->process(x, y, (int)n); }
                if (c.model) {
                    if (memcmp(keep.p, x.p, n * sizeof(double))) fail(c.prop, "input-changed", "process() modified its input");
                    for (size_t i = 0; i < n; i++) {
                        in.push_back(x[i]); double v = 0; i64 t = (i64)in.size() - 1;
                        for (i64 k = 0; k < (i64)b.size() && k <= t; k++) v += b[k] * in[t - k];
                        double w = 0; for (i64 k = 1; k < (i64)a.size() && k <= t; k++) w += a[k] * out[t - k];
                        out.push_back(v - w);
                        if (!close_to(y[i], out.back(), 1e-9 * (1 + fabs(out.back())))) fail(c.prop, "wrong-output", "order %d %s filter, sample %lld since construction or reset: got %.12g, expected %.12g", (int)b.size() - 1, iir ? "IIR" : "FIR", (long long)t, y[i], out.back());
                    }
                }
                c.dig(y.p, n);
            }
            step_done();
        }
        if (f) { SUT(c); delete f; }
    }
};
static FilterComp filter_; static RegComp rfilter(&filter_);

// =============================================================== Framer (C14)
struct FramerComp : Comp {
    FramerComp() : Comp("framer") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        ops.push_back(mkop(c, "new"));
        int n = many(r, 2 + (int)r.below(size ? 20 : 10)); if (size > 2 && n > 40) n = 40;
        for (int i = 0; i < n; i++) {
            u64 x = i == 0 ? 0 : i == 1 ? 15 : r.below(100);
            if (size > 2 && x < 10) { i64 f = real_size(r); ops.push_back(mkop(c, "configure", { f, r.chance(500) ? f / 2 : 1 + (i64)r.below((u64)(2 * f)) })); continue; }
            if (size > 2 && x < 25 && r.chance(700)) { ops.push_back(mkop(c, "source", { (i64)r.below(40000), (i64)r.below(10), (i64)(r.next() >> 44), 1 })); continue; }
            if (x < 10) { i64 f = 1 + (i64)r.below(r.chance(300) ? 4 : 40), h = r.chance(300) ? f : 1 + (i64)r.below(r.chance(200) ? 90 : 40); ops.push_back(mkop(c, "configure", { f, h })); if (i || r.chance(500)) {} }
            else if (x < 25) { i64 len; switch (r.below(5)) { case 0: len = 0; break; case 1: len = (i64)r.below(4); break; case 2: len = 40 * (i64)r.below(5); break; default: len = (i64)r.below(300); } ops.push_back(mkop(c, "source", { len, (i64)r.below(10), (i64)(r.next() >> 44), 1 })); }
            else if (x < 33) ops.push_back(mkop(c, "resetc"));
            else if (x < 45) ops.push_back(mkop(c, "all", { (i64)r.below(3) }));
            else ops.push_back(mkop(c, "get", { 1 + (i64)r.below(6) }));
        }
    }
    void run(Ctx &c) {
        Framer *f = 0; int fl = 0, hop = 0; Buf<double> *src = 0; i64 k = 0; bool have = false;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !f) { SUT(c); f = new Framer; }
            if (!f) continue;
            if (o.name == "configure") { fl = (int)clampi(o.arg(0), 1, 2000); hop = (int)clampi(o.arg(1), 1, 2000); { SUT(c); f->configure(fl, hop); } k = 0; if (hop > fl) PROBE(framer_hop_gt_frame);
                if (have) { SUT(c); f->setSource(*src, (i64)src->n); } } // frame count depends on the hop: the source is set again
            else if (o.name == "source" && fl) {
                Buf<double> *s2 = new Buf<double>((size_t)clampi(o.arg(0), 0, 100000)); fill_sig(*s2, s2->n, Sig(o.arg(1), o.arg(2)), 0);
                { SUT(c); f->setSource(*s2, (i64)s2->n); f->resetCounters(); }
                delete src; src = s2; k = 0; have = true;
            } else if (o.name == "resetc") { SUT(c); f->resetCounters(); k = 0; }
            else if ((o.name == "get" || o.name == "all") && have) {
                i64 mx; { SUT(c); mx = f->getMaxNoFrames(); }
                i64 want = ((i64)src->n + hop - 1) / hop;
                if (c.model && mx != want) fail(c.prop, "frame-count", "getMaxNoFrames() is %lld for %zu samples and hop %d, expected %lld", (long long)mx, src->n, hop, (long long)want);
                c.digi(mx);
                i64 n = o.name == "get" ? clampi(o.arg(0), 0, 50) : clampi(want - k, 0, 400) + clampi(o.arg(0), 0, 5);
                for (i64 j = 0; j < n; j++) {
                    Buf<double> d((size_t)fl); d.fill(-77.25);
                    { SUT(c); f->getFrame(d); }
                    if (k * hop > (i64)src->n) PROBE(framer_past_end);
                    if (k * hop + fl == (i64)src->n) PROBE(framer_exact_end);
                    if (c.model) for (int i = 0; i < fl; i++) { i64 p = k * hop + i; double w = p < (i64)src->n ? (*src)[(size_t)p] : 0.0; if (d[i] != w) fail(c.prop, "wrong-frame", "frame %lld (length %d, hop %d, source %zu samples), value %d: got %g, expected %g", (long long)k, fl, hop, src->n, i, d[i], w); }
                    c.dig(d.p, fl); k++;
                }
            }
            step_done();
        }
        if (f) { SUT(c); delete f; }
        delete src;
    }
};
static FramerComp framer_; static RegComp rframer(&framer_);

// =============================================================== Decimator (C12)
static void dec_oracle(const VD &in, int factor, VD &out) { // whole history as one block on a fresh object
    NoPreempt np; out.clear(); if (in.empty()) return;
    Decimator d((int)in.size(), factor); VD y(in.size() / factor + 1); d.process(in.data(), y.data()); y.resize(in.size() / factor); out = y;
}
struct DecimatorComp : Comp {
    DecimatorComp() : Comp("decimator") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 f = 1 << r.below(4), m; switch (r.below(4)) { case 0: m = 1; break; case 1: m = 2; break; default: m = 1 + (i64)r.below(size ? 60 : 20); } if (size > 2) m = real_size(r);
        ops.push_back(mkop(c, "new", { f, m }));
        int n = many(r, 2 + (int)r.below(size ? 14 : 7), size > 2 ? 2 : 8); i64 t = (i64)r.below(10), s = (i64)(r.next() >> 44);
        for (int i = 0; i < n; i++) {
            if (interrupt(r, 150)) ops.push_back(mkop(c, "reset"));
            else { if (r.chance(200)) { t = (i64)r.below(10); s = (i64)(r.next() >> 44); } ops.push_back(mkop(c, "block", { (i64)r.below(4), t, s, 1 + (i64)r.below(r.chance(200) ? 20 : 3) })); }
        }
        if (r.chance(150)) ops.push_back(mkop(c, "response", { (i64)r.below(2000) }));
    }
    void run(Ctx &c) {
        Decimator *d = 0; int f = 1; size_t n = 1; VD hist, got; std::vector<char> isf; i64 pos = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !d) { f = 1 << clampi((i64)__builtin_ctzll((u64)(o.arg(0) ? o.arg(0) : 1)), 0, 3); n = (size_t)f * clampi(o.arg(1), 1, 2000); { SUT(c); d = new Decimator((int)n, f); if (d->getFactor() != f) fail(c.prop, "factor", "getFactor() is %d for factor %d", d->getFactor(), f); } }
            if (!d) continue;
            if (o.name == "reset") { PROBE(reset_mid_stream); check(c, hist, got, isf, f); { SUT(c); d->resetFilter(); } hist.clear(); got.clear(); isf.clear(); }
            else if (o.name == "block") for (i64 rep = 0; rep < clampi(o.arg(3), 1, 40); rep++) {
                Sig s(o.arg(1), o.arg(2)); i64 mode = (i64)((u64)o.arg(0) % 4);
                if (mode == 1 || mode == 3) { // float
                    PROBE(float_entry); Buf<float> x(n), y(n / f); bool inplace = mode == 3;
                    for (size_t i = 0; i < n; i++) { x[i] = (float)s.at(pos++); hist.push_back(x[i]); }
                    { SUT(c); d->process((const float *)x.p, inplace ? x.p : y.p); } if (inplace) { PROBE(in_place); memcpy(y.p, x.p, n / f * sizeof(float)); }
                    for (size_t i = 0; i < n / f; i++) { got.push_back(y[i]); isf.push_back(1); }
                } else {
                    Buf<double> x(n), y(n / f); for (size_t i = 0; i < n; i++) { x[i] = s.at(pos++); hist.push_back(x[i]); }
                    if (mode == 2) { PROBE(in_place); { SUT(c); d->process((const double *)x.p, x.p); } memcpy(y.p, x.p, n / f * sizeof(double)); }
                    else { SUT(c); d->process((const double *)x.p, y.p); }
                    for (size_t i = 0; i < n / f; i++) { got.push_back(y[i]); isf.push_back(0); }
                }
            } else if (o.name == "response" && c.model) response(c, f, o.arg(0));
            if (got.size()) c.dig(got.data() + got.size() - n / f, n / f);
            step_done();
        }
        check(c, hist, got, isf, f);
        if (d) { SUT(c); delete d; }
    }
    static void check(Ctx &c, const VD &hist, const VD &got, const std::vector<char> &isf, int f) {
        if (!c.model) return; NoPreempt np;
        VD w; if (f == 1) w = hist; else dec_oracle(hist, f, w);
        for (size_t i = 0; i < got.size(); i++) {
            double tol = isf[i] ? 3e-7 * (fabs(w[i]) + 1e-6) : f == 1 ? 0 : 1e-10 * (1 + fabs(w[i]));
            if (!close_to(got[i], w[i], tol)) fail(c.prop, "wrong-output", "Decimator factor %d, output %zu since construction or reset (%s entry): got %.12g, expected %.12g", f, i, isf[i] ? "float" : "double", got[i], w[i]);
        }
    }
    static void response(Ctx &c, int f, i64 k) { // low-pass: gain in the pass band and in the bands that alias, exact per frequency from a quadrature pair
        NoPreempt np; if (f == 1) return; const int N = 600 * f; VD x(N), y[2];
        bool stop = k & 1; double u = (double)((u64)k / 2 % 1000) / 999.0, nf = stop ? 0.55 + u * (0.5 * f - 0.55) : 0.4 * u; // relative to the new rate
        for (int q = 0; q < 2; q++) { for (int i = 0; i < N; i++) x[i] = cos(2 * M_PI * nf / f * i - q * M_PI / 2); Decimator d(N, f); y[q].resize(N); d.process(x.data(), y[q].data()); }
        for (int i = N / f / 2; i < N / f; i++) { double g = sqrt(y[0][i] * y[0][i] + y[1][i] * y[1][i]); if (nf == 0) g = fabs(y[0][i]);
            if (stop ? g > 0.11 : fabs(g - 1) > 0.03) fail(c.prop, "not-lowpass", "Decimator factor %d: gain %.4g at %.3f of the new sampling rate", f, g, nf); }
    }
};
static DecimatorComp dec_; static RegComp rdec(&dec_);

static void decb_oracle(const VD &in, int factor, VD &out) { // Butterworth order 6 at half band, repeatedly
    static const double b[7] = { 0.029588223638661, 0.177529341831965, 0.443823354579912, 0.591764472773216, 0.443823354579912, 0.177529341831965, 0.029588223638661 };
    static const double a[7] = { 1, 0, 0.777695961855673, 0, 0.114199425062434, 0, 0.001750925956183 };
    out = in;
    for (int f = factor; f > 1; f /= 2) {
        VD y(out.size()); for (size_t i = 0; i < out.size(); i++) { double v = 0; for (size_t k = 0; k < 7 && k <= i; k++) v += b[k] * out[i - k]; for (size_t k = 1; k < 7 && k <= i; k++) v -= a[k] * y[i - k]; y[i] = v; }
        VD z; for (size_t i = 0; i < y.size(); i += 2) z.push_back(y[i]); out = z;
    }
}
struct DecimatorBComp : Comp {
    DecimatorBComp() : Comp("decimatorb") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 f = 2 << r.below(5), m = r.chance(300) ? 1 : 1 + (i64)r.below(size ? 30 : 8); if (size > 2) m = 1 + (i64)r.below(200);
        ops.push_back(mkop(c, "new", { f, m }));
        int n = many(r, 2 + (int)r.below(size ? 14 : 7), size > 2 ? 2 : 8); i64 t = (i64)r.below(10), s = (i64)(r.next() >> 44);
        for (int i = 0; i < n; i++) { if (r.chance(200)) { t = (i64)r.below(10); s = (i64)(r.next() >> 44); } ops.push_back(mkop(c, "block", { (i64)r.below(2), t, s, 1 + (i64)r.below(3) })); }
    }
    void run(Ctx &c) {
        DecimatorB *d = 0; int f = 2; size_t n = 2; VD hist, got; std::vector<char> isf; i64 pos = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !d) { f = 1 << clampi((i64)__builtin_ctzll((u64)(o.arg(0) ? o.arg(0) : 2)), 1, 6); n = (size_t)f * clampi(o.arg(1), 1, 500); { SUT(c); d = new DecimatorB((int)n, f); } }
            if (!d) continue;
            if (o.name == "block") for (i64 rep = 0; rep < clampi(o.arg(3), 1, 20); rep++) {
                Sig s(o.arg(1), o.arg(2));
                if (o.arg(0) & 1) { PROBE(float_entry); Buf<float> x(n), y(n / f); for (size_t i = 0; i < n; i++) { x[i] = (float)s.at(pos++); hist.push_back(x[i]); } { SUT(c); d->process((const float *)x.p, y.p); } for (size_t i = 0; i < n / f; i++) { got.push_back(y[i]); isf.push_back(1); } }
                else { Buf<double> x(n), y(n / f); for (size_t i = 0; i < n; i++) { x[i] = s.at(pos++); hist.push_back(x[i]); } { SUT(c); d->process((const double *)x.p, y.p); } for (size_t i = 0; i < n / f; i++) { got.push_back(y[i]); isf.push_back(0); } }
                c.dig(got.data() + got.size() - n / f, n / f);
            }
            step_done();
        }
        if (c.model && d) { NoPreempt np; VD w; decb_oracle(hist, f, w);
            for (size_t i = 0; i < got.size(); i++) { double tol = isf[i] ? 3e-7 * (fabs(w[i]) + 1e-6) : 1e-9 * (1 + fabs(w[i])); if (!close_to(got[i], w[i], tol)) fail(c.prop, "wrong-output", "DecimatorB factor %d, output %zu (%s entry): got %.12g, expected %.12g", f, i, isf[i] ? "float" : "double", got[i], w[i]); } }
        if (d) { SUT(c); delete d; }
    }
};
static DecimatorBComp decb_; static RegComp rdecb(&decb_);

// =============================================================== Resampler (C11)
struct ResamplerComp : Comp {
    ResamplerComp() : Comp("resampler") {}
    static void rates(Rng &r, int size, i64 &s, i64 &t) {
        static const int rs[][2] = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 1 }, { 1, 3 }, { 3, 2 }, { 2, 3 }, { 4, 3 }, { 5, 7 }, { 8, 5 }, { 12, 1 }, { 1, 12 }, { 7, 2 }, { 16000, 8000 }, { 6000, 15000 }, { 32000, 48000 }, { 48000, 32000 }, { 9, 20 } };
        static const int big[][2] = { { 44100, 48000 }, { 48000, 44100 }, { 8000, 44100 }, { 44100, 8000 }, { 11025, 16000 }, { 22050, 8000 } };
        if (size && r.chance(size > 2 ? 600 : 60)) { int k = (int)r.below(6); s = big[k][0]; t = big[k][1]; } else if (r.chance(200)) { s = 1 + (i64)r.below(20); t = 1 + (i64)r.below(20); } else { int k = (int)r.below(18); s = rs[k][0]; t = rs[k][1]; }
    }
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 s, t; rates(r, size, s, t);
        i64 snr = 100, bw = 200; i64 custom = r.chance(400); if (custom) { snr = 40 + (i64)r.below(80); bw = 200 + (i64)r.below(2000); }
        ops.push_back(mkop(c, "new", { s, t, custom, snr, bw, (i64)r.below(10), (i64)(r.next() >> 44) }));
        int n = many(r, 2 + (int)r.below(size ? 14 : 7), size > 1 ? 2 : 6); bool tiny = r.chance(150);
        for (int i = 0; i < n; i++) {
            i64 len; switch (r.below(7)) { case 0: len = 0; break; case 1: len = 1; break; case 2: len = 1 + (i64)r.below(8); break; case 3: len = size ? (i64)r.below(1500) : (i64)r.below(300); break; default: len = (i64)r.below(120); }
            if (size > 2 && r.chance(400)) len = 1 + (i64)r.below(6000);
            if (tiny) len = (i64)r.below(3);
            ops.push_back(mkop(c, "block", { len, (i64)r.below(2), 1 + (tiny ? (i64)r.below(40) : (i64)r.below(3)) }));
        }
        if (r.chance(150)) ops.push_back(mkop(c, "tone", { s, t, (i64)r.below(1000), (i64)r.below(2) }));
        if (r.chance(150)) ops.push_back(mkop(c, "oneshot", { s, t, r.chance(200) ? (i64)r.below(4) : (i64)r.below(size ? 600 : 200), (i64)r.below(10), (i64)(r.next() >> 44) }));
    }
    static i64 ceildiv(i64 n, i64 t, i64 s) { return (n * t + s - 1) / s; }
    static void rate_args(const Op &o, int &s, int &t) { s = (int)clampi(o.arg(0), 1, 200000); t = (int)clampi(o.arg(1), 1, 200000); if (s > 64 * t) s = 64 * t; if (t > 64 * s) t = 64 * s; }
    void run(Ctx &c) {
        Resampler *r = 0; int s = 1, t = 1; double snr = 100, bw = 0.02; bool custom = false; VD in, out; Sig sg; i64 pos = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !r) {
                rate_args(o, s, t); custom = o.arg(2) != 0; snr = (double)clampi(o.arg(3), 30, 120); bw = clampi(o.arg(4), 200, 5000) / 10000.0; sg = Sig(o.arg(5), o.arg(6));
                SUT(c); if (custom) r = new Resampler(s, t, snr, bw); else r = new Resampler(s, t);
            }
            if (o.name == "block" && r) for (i64 rep = 0; rep < clampi(o.arg(2), 1, 60); rep++) {
                size_t n = (size_t)clampi(o.arg(0), 0, 20000); if (!n) PROBE(empty_block); if (n == 1) PROBE(single_sample_block);
                Buf<double> x(n); fill_sig(x, n, sg, pos); pos += (i64)n;
                i64 mx = ceildiv((i64)n, t, s);
                VD got;
                if (o.arg(1) & 1) { { SUT(c); got = r->process((const double *)x.p, (int)n); } }
                else { Buf<double> y((size_t)mx); y.fill(-5.5); int k; { SUT(c); k = r->process(x, y, (int)n); } if (c.model && (k < 0 || k > mx)) fail(c.prop, "too-many", "process() of %zu samples (%d to %d) returned %d samples, at most %lld allowed", n, s, t, k, (long long)mx); got.assign(y.p, y.p + std::max(0, k)); for (i64 i = k; c.model && i < mx; i++) if (y[i] != -5.5) fail(c.prop, "wrote-past-end", "process() wrote beyond the %d samples it returned", k); }
                if (c.model && (i64)got.size() > mx) fail(c.prop, "too-many", "process() of %zu samples (%d to %d) returned %zu samples, at most %lld allowed", n, s, t, got.size(), (long long)mx);
                in.insert(in.end(), x.p, x.p + n); out.insert(out.end(), got.begin(), got.end());
                if (c.model && ((double)out.size() < (double)in.size() * t / s - 1 - 1e-9)) fail(c.prop, "too-few", "after %zu input samples (%d to %d) only %zu output samples have been returned", in.size(), s, t, out.size());
                c.digv(got);
            }
            if (o.name == "tone") tone(c, o);
            if (o.name == "oneshot") oneshot(c, o);
            step_done();
        }
        if (r && c.model && in.size()) {
            NoPreempt np;
            Resampler *w = custom ? new Resampler(s, t, snr, bw) : new Resampler(s, t);
            // oracle: the same input in one block on a fresh object, zero-padded so that everything comes out
            VD pad(in); pad.resize(in.size() + (size_t)(2 + s / t) * 4, 0.0); VD e = w->process(pad.data(), (int)pad.size());
            if (w->getLatency() != r->getLatency()) fail(c.prop, "latency-changed", "getLatency() is %d, on a fresh object %d", r->getLatency(), w->getLatency());
            if (e.size() < out.size()) fail(c.prop, "wrong-output", "more output than the undivided input gives");
            for (size_t i = 0; i < out.size(); i++) if (!close_to(out[i], e[i], 1e-9 * (1 + fabs(e[i])))) fail(c.prop, "wrong-output", "resampling %d to %d in blocks: output %zu is %.12g, undivided input gives %.12g", s, t, i, out[i], e[i]);
            delete w;
        }
        if (r) { SUT(c); delete r; }
    }
    static void tone(Ctx &c, const Op &o) {
        int s, t; rate_args(o, s, t); if (!c.model) return;
        NoPreempt np; Resampler r(s, t); int lat = r.getLatency(); double lo = std::min(s, t), k = clampi(o.arg(2), 0, 1000) / 1000.0;
        bool stop = (o.arg(3) & 1) && t < s; double f = stop ? std::min(0.5 * s, (0.5 * t * 1.05 + k * 0.4 * (s - t))) : 0.42 * lo * k; // Hz
        i64 n = (i64)((2 * lat + 60.0) * s / t) + 50; if (n > 60000) return;
        VD x(n); for (i64 i = 0; i < n; i++) x[i] = cos(2 * M_PI * f * i / s);
        VD y; for (i64 i = 0; i < n;) { i64 b = std::min(n - i, (i64)(17 + (i % 61))); VD z = r.process(&x[i], (int)b); y.insert(y.end(), z.begin(), z.end()); i += b; }
        for (size_t i = 2 * (size_t)lat + 2; i < y.size(); i++) {
            double w = stop ? 0.0 : cos(2 * M_PI * f * ((double)i - lat) / t);
            if (fabs(y[i] - w) > 2e-3) fail(c.prop, stop ? "alias" : "tone", "%g Hz tone resampled %d to %d (latency %d): output %zu is %.6g, expected %.6g", f, s, t, lat, i, y[i], w);
        }
    }
    static void oneshot(Ctx &c, const Op &o) {
        int s, t; rate_args(o, s, t); size_t n = (size_t)clampi(o.arg(2), 0, 5000); Buf<double> x(n); fill_sig(x, n, Sig(o.arg(3), o.arg(4)), 0);
        VD y; { SUT(c); y = Resampler::resample(s, t, x, (int)n); } PROBE(one_shot_resample); c.digv(y);
        if (!c.model) return; NoPreempt np;
        i64 want = ceildiv((i64)n, t, s);
        if ((i64)y.size() != want) fail(c.prop, "one-shot-length", "resample(%d, %d) of %zu samples returned %zu, expected %lld", s, t, n, y.size(), (long long)want);
        Resampler r(s, t); int lat = r.getLatency(); VD in(x.p, x.p + n); in.resize(n + (size_t)((lat + 4.0) * s / t) + 8, 0.0); VD e = r.process(in.data(), (int)in.size());
        for (size_t i = 0; i < y.size(); i++) { if (i + lat >= e.size()) break; if (!close_to(y[i], e[i + lat], 1e-9 * (1 + fabs(y[i])))) fail(c.prop, "one-shot", "resample(%d, %d) of %zu samples: output %zu is %.12g, latency-compensated streaming gives %.12g", s, t, n, i, y[i], e[i + lat]); }
    }
};
static ResamplerComp res_; static RegComp rres(&res_);

// =============================================================== DownBeat (C13)
struct DownBeatComp : Comp {
    DownBeatComp() : Comp("downbeat") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 lf = (i64)r.below(7), inc = 1 + (i64)r.below(size ? 8 : 3); i64 rate = 300 + (i64)r.below(size ? 9000 : 3000); if (size > 2) { inc = 8; rate = r.chance(500) ? 44100 : 48000; }
        ops.push_back(mkop(c, "new", { lf, inc, rate }));
        int n = many(r, 2 + (int)r.below(size ? 14 : 8), size ? 1 : 5);
        for (int i = 0; i < n; i++) {
            u64 x = r.below(100);
            if (x < 40) ops.push_back(mkop(c, "push", { r.chance(300) ? 10 + (i64)r.below(60) : 1 + (i64)r.below(9), (i64)r.below(10), (i64)(r.next() >> 44) }));
            else if (x < 52) ops.push_back(mkop(c, "audio"));
            else if (x < 60) { if (!long_run || r.chance(50)) ops.push_back(mkop(c, "resetbuf")); }
            else if (x < 70) ops.push_back(mkop(c, "bpb", { r.chance(100) ? 0 : 1 + (i64)r.below(9) }));
            else ops.push_back(mkop(c, "find", { (i64)r.below(r.chance(200) ? 4 : size > 2 ? 50 : 24), (i64)r.below(10), (i64)(r.next() >> 44), (i64)r.below(2), 1 + (i64)r.below(12), (i64)r.below(size > 2 ? 12000 : size ? 2500 : 700) }));
        }
        ops.push_back(mkop(c, "audio"));
    }
    struct M { int factor, f1, f2; size_t inc; };
    static void chain(const M &m, const std::vector<float> &in, std::vector<float> &out) { // oracle: undivided history on fresh decimators
        NoPreempt np; out = in; if (m.factor == 1 || in.empty()) return;
        std::vector<float> a(in.size() / m.f1); { Decimator d((int)in.size(), m.f1); d.process((const float *)in.data(), a.data()); }
        if (m.f2 > 1) { std::vector<float> b(a.size() / m.f2); Decimator d((int)a.size(), m.f2); d.process((const float *)a.data(), b.data()); a = b; }
        out = a;
    }
    static void beats_of(const Op &o, double perbeat, VD &beats) { Rng r((u64)o.arg(2) + 5); double p = (double)(r.below(5)); size_t n = (size_t)clampi(o.arg(0), 0, 60); for (size_t i = 0; i < n; i++) { beats.push_back(p); p += perbeat * (0.8 + 0.4 * r.unit()); } }
    void run(Ctx &c) {
        DownBeat *d = 0; M m; m.factor = 1; m.f1 = m.f2 = 1; m.inc = 1; float rate = 1000; i64 pos = 0; int bpb = 0;
        std::vector<float> hist, hist2; size_t cut = 0; // hist: since construction; hist2: since last reset
        int okc = 3; // bit 0: filter memory continues through resetAudioBuffer, bit 1: restarts
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !d) {
                m.factor = 1 << clampi(o.arg(0), 0, 6); m.inc = (size_t)m.factor * clampi(o.arg(1), 1, 64); rate = (float)clampi(o.arg(2), 100, 100000);
                m.f1 = std::min(m.factor, 8); m.f2 = m.factor / m.f1;
                if (rate / m.factor > 4000) rate = 4000.f * m.factor;
                { SUT(c); d = new DownBeat(rate, (size_t)m.factor, m.inc); }
            }
            if (!d) continue;
            if (o.name == "push") for (i64 k = 0; k < clampi(o.arg(0), 0, 200); k++) {
                Buf<float> x(m.inc); Sig s(o.arg(1), o.arg(2)); for (size_t i = 0; i < m.inc; i++) x[i] = (float)s.at(pos++);
                size_t before; { SUT(c); d->getBufferedAudio(before); }
                { SUT(c); d->pushAudioBlock(x); }
                hist.insert(hist.end(), x.p, x.p + m.inc); hist2.insert(hist2.end(), x.p, x.p + m.inc);
                size_t after; { SUT(c); d->getBufferedAudio(after); }
                if (c.model && after != before + m.inc / m.factor) fail(c.prop, "buffer-length", "buffered length went from %zu to %zu after pushing a block of %zu at factor %d", before, after, m.inc, m.factor);
                if (after * sizeof(float) > 16 * m.inc * sizeof(float)) PROBE(downbeat_buffer_grew);
            }
            else if (o.name == "audio") {
                size_t len; const float *a; { SUT(c); a = d->getBufferedAudio(len); }
                std::vector<float> keep(a, a + len);
                if (c.model) { NoPreempt np;
                    if (len != hist2.size() / m.factor) fail(c.prop, "buffer-length", "%zu samples buffered, %zu expected", len, hist2.size() / m.factor);
                    std::vector<float> w1, w2; chain(m, hist, w1); chain(m, hist2, w2);
                    for (size_t i = 0; i < len; i++) {
                        double e1 = w1[cut + i], e2 = w2[i]; double tol = m.factor == 1 ? 0 : 2e-6 * (fabs(e1) + fabs(e2) + 1e-3);
                        if (!close_to(a[i], e1, tol)) okc &= ~1; if (!close_to(a[i], e2, tol)) okc &= ~2;
                        if (!okc) fail(c.prop, "wrong-audio", "buffered sample %zu (factor %d) is %.9g, expected %.9g", i, m.factor, (double)a[i], e1);
                    } }
                for (size_t i = 0; i < len; i++) c.dig(keep[i]);
            }
            else if (o.name == "resetbuf") { PROBE(reset_mid_stream); cut = hist.size() / m.factor; hist2.clear(); { SUT(c); d->resetAudioBuffer(); } size_t len; { SUT(c); d->getBufferedAudio(len); } if (c.model && len) fail(c.prop, "buffer-length", "%zu samples buffered after resetAudioBuffer", len); }
            else if (o.name == "bpb") { bpb = (int)clampi(o.arg(0), 0, 30); SUT(c); d->setBeatsPerBar(bpb); }
            else if (o.name == "find") {
                VD beats; beats_of(o, (double)clampi(o.arg(4), 1, 100), beats);
                const float *a; size_t len; Buf<float> own((size_t)clampi(o.arg(5), 0, 20000)); { Sig s(o.arg(1), o.arg(2)); for (size_t i = 0; i < own.n; i++) own[i] = (float)s.at((i64)i); }
                if (o.arg(3) & 1) { SUT(c); a = d->getBufferedAudio(len); } else { a = own; len = own.n; }
                std::vector<int> db, db2; VD sd, sd2;
                { SUT(c); d->findDownBeats(a, len, beats, db); d->getBeatSD(sd); }
                if (c.model) { NoPreempt np;
                    DownBeat g(rate, (size_t)m.factor, m.inc); if (bpb) g.setBeatsPerBar(bpb); g.findDownBeats(a, len, beats, db2); g.getBeatSD(sd2);
                    if (db != db2) fail(c.prop, "history", "findDownBeats on a used object gives %zu downbeats starting %d, a fresh one %zu starting %d", db.size(), db.empty() ? -1 : db[0], db2.size(), db2.empty() ? -1 : db2[0]);
                    if (sd.size() != sd2.size()) fail(c.prop, "history", "getBeatSD has %zu values on a used object, %zu on a fresh one", sd.size(), sd2.size());
                    for (size_t i = 0; i < sd.size(); i++) if (dbits(sd[i]) != dbits(sd2[i]) && !close_to(sd[i], sd2[i], 1e-12)) fail(c.prop, "history", "getBeatSD value %zu is %g on a used object, %g on a fresh one", i, sd[i], sd2[i]);
                    int bar = bpb ? bpb : 4;
                    for (size_t i = 0; i < db.size(); i++) { if (db[i] < 0 || db[i] >= (int)beats.size()) fail(c.prop, "downbeat-range", "downbeat %d of %zu beats", db[i], beats.size()); if (i && db[i] != db[i - 1] + bar) fail(c.prop, "downbeat-spacing", "downbeats %d and %d with %d beats per bar", db[i - 1], db[i], bar); }
                    if (len) { if (!db.empty() && db[0] >= bar) fail(c.prop, "downbeat-range", "first downbeat %d with %d beats per bar", db[0], bar);
                        if (!db.empty() && db.back() + bar < (int)beats.size()) fail(c.prop, "downbeat-spacing", "downbeats stop at %d of %zu beats", db.back(), beats.size());
                        if (beats.size() >= 2 && sd.size() + 2 != beats.size()) fail(c.prop, "sd-length", "%zu spectral difference values for %zu beats", sd.size(), beats.size()); }
                    if (!db.empty()) PROBE(downbeat_found);
                }
                for (size_t i = 0; i < db.size(); i++) c.digi(db[i]); c.digv(sd);
            }
            step_done();
        }
        if (d) { SUT(c); delete d; }
    }
};
static DownBeatComp db_; static RegComp rdb(&db_);
}

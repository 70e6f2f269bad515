// The generic per-call analyser component, PhaseVocoder (C15) and DetectionFunction (C16).
#include "comp.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/onsets/DetectionFunction.h"
using namespace sim;
typedef std::vector<double> VD;

namespace sim {
// ops: new <slot> cfg...   call <slot> <sigtype> <sigseed> <scale> <poison> <offset> extra...   del <slot>
const double scales[] = { 1, 1, 1e6, 1e-6, 1e3, 0.01 };
void AnaComp::gen(Rng &r, std::vector<Op> &ops, int client, int size) {
    std::vector<i64> cf[2]; bool have[2] = { false, false };
    int n = many(r, 2 + (int)r.below((u64)calls(size)), size ? 3 : 6); if (size > 2 && n > 12) n = 12;
    for (int i = 0; i < n; i++) {
        int s = r.chance(250) ? 1 : 0;
        if (!have[s] || interrupt(r, 30)) {
            std::vector<i64> c = (s && have[0] && r.chance(300)) ? cf[0] : config(r, size);
            cf[s] = c; have[s] = true; std::vector<i64> a; a.push_back(s); a.insert(a.end(), c.begin(), c.end());
            ops.push_back(mkop(client, "new", a));
        }
        std::vector<i64> a = { s, (i64)r.below(10), (i64)(r.next() >> 44), (i64)r.below(6), poison_ok() && r.chance(60) ? 1 + (i64)r.below(1000) : 0, (i64)r.below(500) };
        std::vector<i64> e = call(r, cf[s], size); a.insert(a.end(), e.begin(), e.end());
        ops.push_back(mkop(client, "call", a));
        if (interrupt(r, 20)) { ops.push_back(mkop(client, "del", { s })); have[s] = false; }
    }
}
static bool same_result(const VD &a, const VD &b, double tol, size_t &at) {
    if (a.size() != b.size()) { at = a.size() < b.size() ? a.size() : b.size(); return false; }
    for (size_t i = 0; i < a.size(); i++) if (!close_to(a[i], b[i], tol)) { at = i; return false; }
    return true;
}
void AnaComp::run(Ctx &c) {
    Ana *o[2] = { 0, 0 }; std::vector<i64> cf[2]; int n_calls[2] = { 0, 0 };
    for (size_t q = 0; q < c.ops.size(); q++) {
        const Op &op = *c.ops[q]; int s = op.arg(0) & 1;
        if (op.name == "new") {
            { SUT(c); delete o[s]; o[s] = 0; }
            { NoPreempt np; cf[s].assign(op.a.begin() + 1, op.a.end()); cf[s].resize(12, 0); limit(cf[s]); n_calls[s] = 0; }
            { SUT(c); o[s] = make(cf[s]); }
        } else if (op.name == "del") { SUT(c); delete o[s]; o[s] = 0; }
        else if (op.name == "call" && o[s]) {
            size_t n = o[s]->inlen(op);
            Buf<double> in(n), keep(n);
            double sc = scales[(u64)op.arg(3) % 6];
            { NoPreempt np; Sig sg(op.arg(1), op.arg(2)); for (size_t i = 0; i < n; i++) in.p[i] = sc * sg.at(op.arg(5) + (i64)i);
              if (op.arg(4) && n) { in.p[(size_t)op.arg(4) % n] = (op.arg(4) & 1) ? NAN : INFINITY; PROBE(poison_frame); }
              memcpy(keep.p, in.p, n * sizeof(double)); }
            VD got; { SUT(c); o[s]->go(op, in, n, got); }
            bool changed = memcmp(in.p, keep.p, n * sizeof(double)) != 0;
            { NoPreempt np; c.digv(got); }
            if (c.model) {
                size_t at;
                if (changed && !o[s]->may_write_input(op)) fail(c.prop, "input-changed", "%s: the call modified its input", name);
                VD want; NoPreempt np;
                Ana *f = make(cf[s]); memcpy(in.p, keep.p, n * sizeof(double)); f->go(op, in, n, want); delete f;
                double tol = 1e-12 * (max_abs(want) < 1e300 ? max_abs(want) : 0);
                if (!same_result(got, want, tol, at)) fail(c.prop, "history", "%s: call %d on this object gives value %zu = %.15g, a fresh object gives %.15g (%zu and %zu values)", name, n_calls[s] + 1, at, at < got.size() ? got[at] : NAN, at < want.size() ? want[at] : NAN, got.size(), want.size());
                if (n_calls[s]) PROBE(ana_reused);
                if (!op.arg(4)) {
                    want.clear(); tol = 0;
                    if (o[s]->expect(op, keep, n, want, tol) && !same_result(got, want, tol, at)) fail(c.prop, "definition", "%s: value %zu is %.15g, by definition %.15g (%zu and %zu values)", name, at, at < got.size() ? got[at] : NAN, at < want.size() ? want[at] : NAN, got.size(), want.size());
                }
            }
            if (!op.arg(4)) {
                VD other; double tol = 0; bool is; memcpy(in.p, keep.p, n * sizeof(double));
                { SUT(c); is = o[s]->alt(op, in, n, other, tol); }
                if (is) { NoPreempt np; size_t at; c.digv(other); PROBE(ana_alt_entry);
                    if (c.model && !same_result(got, other, tol, at)) fail(c.prop, "entries-disagree", "%s: value %zu is %.15g by one entry and %.15g by the equivalent one", name, at, at < got.size() ? got[at] : NAN, at < other.size() ? other[at] : NAN); }
            }
            n_calls[s]++;
        }
        step_done();
    }
    { SUT(c); delete o[0]; delete o[1]; }
}
}

namespace {
static int frame_size(Rng &r, int size) { if (size > 2) { static const int f[] = { 256, 440, 512, 512, 1000, 1024, 1024, 2048 }; return f[r.below(8)]; } static const int f[] = { 2, 4, 6, 8, 10, 12, 16, 20, 24, 32, 36, 40, 48, 64, 96, 100, 128 }; return f[r.below(size ? 17 : 12)]; }
static i64 frame_sig(Rng &r) { static const i64 t[] = { 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9 }; return t[r.below(12)]; }

// =============================================================== PhaseVocoder (C15)
struct PvComp : Comp {
    PvComp() : Comp("phasevocoder") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 n = frame_size(r, size), h = r.chance(500) ? n / 2 + (n < 2) : 1 + (i64)r.below((u64)(2 * n)), pos = 0, ty = frame_sig(r), sd = (i64)(r.next() >> 44);
        ops.push_back(mkop(c, "new", { n, h }));
        int k = many(r, 2 + (int)r.below(size ? 18 : 9), 6); if (size > 2 && k > 12) k = 12;
        for (int i = 0; i < k; i++) {
            if (interrupt(r, 120)) { ops.push_back(mkop(c, "reset")); continue; }
            if (r.chance(250)) { ty = frame_sig(r); sd = (i64)(r.next() >> 44); }
            ops.push_back(mkop(c, r.chance(400) ? "fd" : "td", { ty, sd, pos, (i64)r.below(6) })); pos += r.chance(800) ? h : (i64)r.below(100);
        }
    }
    void run(Ctx &c) {
        PhaseVocoder *p = 0; size_t n = 0; i64 hop = 0; VD prevT, prevU; u64 frames = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !p) { n = (size_t)clampi(o.arg(0), 2, 2048) & ~(size_t)1; hop = clampi(o.arg(1), 1, 2000); { SUT(c); p = new PhaseVocoder((int)n, (int)hop); } NoPreempt np; restart(n, hop, prevT, prevU); }
            if (!p) continue;
            size_t nb = n / 2 + 1;
            if (o.name == "reset") { if (frames) PROBE(reset_mid_stream); { SUT(c); p->reset(); } NoPreempt np; restart(n, hop, prevT, prevU); frames = 0; }
            else if (o.name == "td" || o.name == "fd") {
                Buf<double> in(n), keep(n), mag(nb), ph(nb), un(nb); double sc = scales[(u64)o.arg(3) % 6];
                VD R, I, sh(n);
                { NoPreempt np; Sig s(o.arg(0), o.arg(1)); for (size_t i = 0; i < n; i++) keep.p[i] = in.p[i] = sc * s.at(o.arg(2) + (i64)i); for (size_t i = 0; i < n; i++) sh[i] = in[(i + n / 2) % n]; Dft(n).run(sh.data(), 0, false, nb, R, I); }
                mag.fill(-9); ph.fill(-9); un.fill(-9);
                if (o.name == "td") { SUT(c); p->processTimeDomain(in, mag, ph, un); }
                else {
                    Buf<double> re(nb), im(nb); memcpy(re.p, R.data(), nb * 8); memcpy(im.p, I.data(), nb * 8);
                    { SUT(c); p->processFrequencyDomain(re, im, mag, ph, un); }
                    if (c.model && (memcmp(re.p, R.data(), nb * 8) || memcmp(im.p, I.data(), nb * 8))) fail(c.prop, "input-changed", "processFrequencyDomain modified its input");
                }
                c.dig(mag.p, nb); c.dig(ph.p, nb); c.dig(un.p, nb);
                if (c.model) {
                    NoPreempt np;
                    if (memcmp(in.p, keep.p, n * 8)) fail(c.prop, "input-changed", "processTimeDomain modified its input");
                    double big = sc * n;
                    for (size_t i = 0; i < nb; i++) {
                        if (!close_to(mag[i] * cos(ph[i]), R[i], 1e-10 * big) || !close_to(mag[i] * sin(ph[i]), I[i], 1e-10 * big) || !(mag[i] >= 0))
                            fail(c.prop, "spectrum", "frame %llu, bin %zu: magnitude %.12g phase %.12g, expected %.12g %.12g", (unsigned long long)frames, i, mag[i], ph[i], hypot(R[i], I[i]), atan2(I[i], R[i]));
                        if (!(fabs(ph[i]) <= M_PI + 1e-9)) fail(c.prop, "phase-range", "bin %zu: phase %.12g", i, ph[i]);
                        double om = 2 * M_PI * (double)hop * (double)i / (double)n, dev = wrap_pi(ph[i] - (prevT[i] + om)), want = prevU[i] + om + dev;
                        double tol = 1e-8 * (1 + fabs(want) * 1e-3), d = un[i] - want;
                        bool ok = fabs(d) <= tol || (M_PI - fabs(dev) < 1e-6 && fabs(fabs(d) - 2 * M_PI) <= tol + 1e-6);
                        if (!ok) fail(c.prop, "unwrapped", "frame %llu since construction or reset, bin %zu (size %zu hop %lld): unwrapped phase %.12g, expected %.12g", (unsigned long long)frames, i, n, (long long)hop, un[i], want);
                        prevT[i] = ph[i]; prevU[i] = un[i];
                    }
                }
                frames++;
            }
            step_done();
        }
        if (p) { SUT(c); delete p; }
    }
    static void restart(size_t n, i64 hop, VD &t, VD &u) { t.clear(); for (size_t i = 0; i < n / 2 + 1; i++) t.push_back(-2 * M_PI * (double)hop * (double)i / (double)n); u = t; }
};
static PvComp pv; static RegComp rpv(&pv);

// =============================================================== DetectionFunction (C16)
struct OnsetComp : Comp {
    OnsetComp() : Comp("onset") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 n = frame_size(r, size), h = r.chance(500) ? (n + 1) / 2 : 1 + (i64)r.below((u64)n), pos = 0, ty = frame_sig(r), sd = (i64)(r.next() >> 44);
        i64 relax = r.chance(400) ? -1 : (i64)r.below(1000), floor = r.chance(400) ? -1 : (i64)r.below(300);
        ops.push_back(mkop(c, "new", { n, h, 1 + (i64)r.below(5), r.chance(500) ? 30 : (i64)r.below(100), r.chance(350) ? 1 : 0, relax, floor }));
        int k = many(r, 2 + (int)r.below(size ? 18 : 9), 6), sc = (int)r.below(6); if (size > 2 && k > 12) k = 12;
        for (int i = 0; i < k; i++) {
            if (r.chance(250)) { ty = frame_sig(r); sd = (i64)(r.next() >> 44); if (r.chance(300)) sc = (int)r.below(6); }
            ops.push_back(mkop(c, r.chance(400) ? "fd" : "td", { ty, sd, pos, sc, (i64)r.below(10) ? 0 : 1 })); pos += r.chance(800) ? h : (i64)r.below(100);
        }
    }
    struct M { bool zero; VD peak, ptol, ktol, pm, p1, p2; std::vector<char> a1, a2; };    // model state; a*: phase of that bin ambiguous
    void run(Ctx &c) {
        DetectionFunction *d = 0; size_t n = 0; int type = 1; double db = 3, relax = 0, floor_ = 0; bool wh = false; M m; int frame = 0;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !d) {
                DFConfig k; n = (size_t)clampi(o.arg(0), 2, 2048) & ~(size_t)1; k.frameLength = (int)n; k.stepSize = (int)clampi(o.arg(1), 1, 1000); type = k.DFType = 1 + (int)((u64)(o.arg(2) - 1) % 5); db = k.dbRise = o.arg(3) / 10.0;
                wh = k.adaptiveWhitening = o.arg(4) != 0; k.whiteningRelaxCoeff = o.arg(5) < 0 ? -1 : clampi(o.arg(5), 0, 1000) / 1000.0; k.whiteningFloor = o.arg(6) < 0 ? -1 : (clampi(o.arg(6), 0, 10000) + 1) / 1000.0;
                relax = k.whiteningRelaxCoeff < 0 ? 0.9997 : k.whiteningRelaxCoeff; floor_ = k.whiteningFloor < 0 ? 0.01 : k.whiteningFloor;
                { SUT(c); d = new DetectionFunction(k); }
                NoPreempt np; size_t nb = n / 2 + 1; m.zero = true; m.ptol.assign(nb, 0); m.ktol.assign(nb, 0); m.peak.assign(nb, 0); m.pm.assign(nb, 0); m.p1.assign(nb, 0); m.p2.assign(nb, 0); m.a1.assign(nb, 0); m.a2.assign(nb, 0);
            }
            if (!d) continue;
            size_t nb = n / 2 + 1;
            if (o.name == "td" || o.name == "fd") {
                Buf<double> in(n), keep(n), re(nb), im(nb); double sc = scales[(u64)o.arg(3) % 6], got, big = sc * n; VD R, I;
                { NoPreempt np; Sig s(o.arg(0), o.arg(1)); for (size_t i = 0; i < n; i++) keep.p[i] = in.p[i] = sc * s.at(o.arg(2) + (i64)i);
                  VD w(n), sh(n); for (size_t i = 0; i < n; i++) w[i] = n > 1 ? in[i] * (0.5 - 0.5 * cos(2 * M_PI * (double)i / (double)n)) : in[i]; for (size_t i = 0; i < n; i++) sh[i] = w[(i + n / 2) % n];
                  Dft(n).run(sh.data(), 0, false, nb, R, I); memcpy(re.p, R.data(), nb * 8); memcpy(im.p, I.data(), nb * 8); }
                if (o.name == "td") { SUT(c); got = d->processTimeDomain(in); } else { SUT(c); got = d->processFrequencyDomain(re, im); }
                c.dig(got);
                VD sm; { SUT(c); double *s = d->getSpectrumMagnitude(); sm.assign(s, s + nb); }
                c.dig(sm.data(), nb);
                if (c.model) {
                    NoPreempt np;
                    if (memcmp(in.p, keep.p, n * 8) || memcmp(re.p, R.data(), nb * 8) || memcmp(im.p, I.data(), nb * 8)) fail(c.prop, "input-changed", "process modified its input");
                    if (!std::isfinite(got)) fail(c.prop, "not-finite", "type %d, frame %d: %g for finite input", type, frame, got);
                    // magnitudes: our own DFT. Bins that are only rounding noise have no defined phase.
                    double want = 0, slack = 0, top = 0; VD mag(nb), th(nb); std::vector<char> amb(nb);
                    for (size_t i = 0; i < nb; i++) { mag[i] = hypot(R[i], I[i]); th[i] = atan2(I[i], R[i]); if (mag[i] > top) top = mag[i]; }
                    double noise = 1e-12 * big; bool zero = true; for (size_t i = 0; i < n; i++) if (keep[i] != 0) zero = false;
                    // By the frequency entry the phase is that of the given numbers; that of an exactly silent frame (the signs of its zeros) is the library transform's.
                    if (o.name == "td") {
                        if (zero) { PhaseVocoder pv((int)n, 1); VD w(n), a(nb), b(nb); for (size_t i = 0; i < n; i++) w[i] = n > 1 ? in[i] * (0.5 - 0.5 * cos(2 * M_PI * (double)i / (double)n)) : in[i]; pv.processTimeDomain(w.data(), a.data(), th.data(), b.data()); PROBE(silent_frame); }
                        else for (size_t i = 0; i < nb; i++) amb[i] = mag[i] <= 1e-7 * top + noise;
                    }
                    VD mw = mag, mt(nb, 1e-10 * big);   // mt: tolerance of each magnitude after whitening
                    if (wh) { PROBE(df_whitened); for (size_t i = 0; i < nb; i++) { double v = mag[i], e = 1e-11 * big; if (v < m.peak[i]) { v = v + (m.peak[i] - v) * relax; e = std::max(e, m.ktol[i] * relax + e); } if (v < floor_) v = floor_; m.peak[i] = v; m.ktol[i] = e; mw[i] = mag[i] / v; mt[i] = 1e-11 + 1e-11 * big / v + mw[i] * e / v; } }
                    for (size_t i = 0; i < nb; i++) if (!close_to(sm[i], mw[i], mt[i])) fail(c.prop, "magnitude", "frame %d bin %zu: spectrum magnitude %.12g, expected %.12g%s", frame, i, sm[i], mw[i], wh ? " (whitened)" : "");
                    double peak2 = 0; for (size_t i = 0; i < nb; i++) if (mw[i] > peak2) peak2 = mw[i];
                    for (size_t i = 0; i < nb; i++) {
                        double dev = wrap_pi(th[i] - 2 * m.p1[i] + m.p2[i]); double mtol = mt[i], both = mtol + m.ptol[i]; bool a = amb[i] || m.a1[i] || m.a2[i];
                        switch (type) {
                        case DF_HFC: want += mw[i] * (double)(i + 1); slack += mtol * (double)(i + 1); break;
                        case DF_SPECDIFF: want += sqrt(fabs(mw[i] * mw[i] - m.pm[i] * m.pm[i])); slack += sqrt(2 * both * (mw[i] + m.pm[i] + both)); break;
                        case DF_PHASEDEV: want += fabs(dev); slack += a ? M_PI : 2e-4; break;
                        case DF_COMPLEXSD: { double x = m.pm[i] - mw[i] * cos(dev), y = mw[i] * sin(dev); want += sqrt(x * x + y * y); slack += a ? 2 * mw[i] + both : 1e-4 * mw[i] + 2 * both; break; }
                        case DF_BROADBAND: {
                            bool near_zero = !zero && !m.zero && (m.pm[i] <= 1e-7 * peak2 + 10 * both || mw[i] <= 10 * both || amb[i] || m.a1[i]);
                            double r = m.pm[i] > 0 && mw[i] > 0 ? 20 * log10(mw[i] / m.pm[i]) : m.pm[i] > 0 ? -1e9 : 0; bool hit = m.pm[i] > 0 && r > db;
                            if (hit) want += 1; if (near_zero || fabs(r - db) < 1e-3) slack += 1; break; }
                        }
                        m.p2[i] = m.p1[i]; m.a2[i] = m.a1[i]; m.p1[i] = th[i]; m.a1[i] = amb[i]; m.pm[i] = mw[i];
                    }
                    m.zero = zero; m.ptol = mt;
                    slack += 1e-9 * (1 + fabs(want));
                    if (fabs(got - want) > slack) fail(c.prop, "wrong-value", "type %d%s, frame %d of this object: %.12g, by definition %.12g (tolerance %.3g)", type, wh ? " whitened" : "", frame, got, want, slack);
                    if (type == DF_BROADBAND && want > 0) PROBE(df_broadband_hit);
                }
                frame++;
            }
            step_done();
        }
        if (d) { SUT(c); delete d; }
    }
};
static OnsetComp onset; static RegComp ronset(&onset);
}

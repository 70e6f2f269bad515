// Per-call analysers: transforms, windows, constant-Q, chroma, MFCC, tonal, maths (C18) and
// whole-signal analysers (C19). Each call is compared with a fresh object and, where the
// definition is short, with an independent implementation of it.
#include "comp.h"
#include <stdexcept>
#include <valarray>
#include <algorithm>
#include <sstream>
#include <iostream>
#include "dsp/transforms/FFT.h"
#include "dsp/transforms/DCT.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include "base/Pitch.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/wavelet/Wavelet.h"
#include "maths/MathUtilities.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
using namespace sim;
typedef std::vector<double> VD;
typedef std::vector<i64> VI;

namespace {
enum { X0 = 6 };   // index of the first extra call argument
static double junk() { return (double)(i64)(junk_salt() >> 44) - 500000.0; }
static void put(VD &out, const double *p, size_t n) { out.insert(out.end(), p, p + n); }
static double cosw(WindowType t, int i, int n) {
    double x = 2 * M_PI * i / n;
    switch (t) {
    case RectangularWindow: return 0.5;
    case BartlettWindow: if (n == 1) return 1; if (n == 2) return 0; if (n == 3) return i == 0 ? 0 : 2. / 3.; { int h = n / 2; double v = 1; if (i < h) v *= double(i) / h; if (i >= n - h) v *= 1.0 - double(i - (n - h)) / h; return v; }
    case HammingWindow: return n > 1 ? 0.54 - 0.46 * cos(x) : 1;
    case HanningWindow: return n > 1 ? 0.5 - 0.5 * cos(x) : 1;
    case BlackmanWindow: return n > 1 ? 0.42 - 0.5 * cos(x) + 0.08 * cos(2 * x) : 1;
    default: return n > 1 ? 0.35875 - 0.48829 * cos(x) + 0.14128 * cos(2 * x) - 0.01168 * cos(3 * x) : 1;
    }
}

// ---------------------------------------------------------------- FFT
struct FftAna : Ana {
    FFT f; int n;
    FftAna(int n_) : f(n_), n(n_) {}
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 3 == 1 ? n : 2 * n); }
    void go(const Op &o, double *in, size_t, VD &out) {
        int m = (int)(o.arg(X0) % 3); Buf<double> r(n), i(n);
        f.process(m == 2, in, m == 1 ? 0 : in + n, r, i); put(out, r, n); put(out, i, n);
    }
    bool expect(const Op &o, const double *in, size_t len, VD &w, double &tol) {
        int m = (int)(o.arg(X0) % 3); VD R, I; Dft(n).run(in, m == 1 ? 0 : in + n, m == 2, n, R, I);
        double s = 0; for (size_t i = 0; i < len; i++) s += fabs(in[i]);
        for (int i = 0; i < n && m == 2; i++) { R[i] /= n; I[i] /= n; }
        w = R; put(w, I.data(), n); tol = 1e-11 * s + 1e-300; return true;
    }
};
struct FftComp : AnaComp {
    FftComp() : AnaComp("fft") {}
    VI config(Rng &r, int size) { static const i64 b[] = { 64, 100, 128, 81, 125, 49, 128 }; return VI(1, size > 2 ? real_size(r) : r.chance(200) && size ? b[r.below(7)] : 1 + (i64)r.below(40)); }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(3)); }
    void limit(VI &c) { c[0] = clampi(c[0], 1, 2048); }
    Ana *make(const VI &c) { return new FftAna((int)c[0]); }
};
static FftComp fft_; static RegComp r_fft(&fft_);

// ---------------------------------------------------------------- FFTReal
struct FftRealAna : Ana {
    FFTReal f; int n;
    FftRealAna(int n_) : f(n_), n(n_) {}
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 3 == 2 ? n + 2 : n); }
    void go(const Op &o, double *in, size_t, VD &out) {
        Buf<double> r(n), i(n);
        if (o.arg(X0) >= 12) { bool no = false; try { FFTReal odd(n + 1); } catch (const std::invalid_argument &) { no = true; } if (!no) fail("", "accepted-odd", "FFTReal accepted the odd size %d", n + 1); }
        switch (o.arg(X0) % 3) {
        case 0: f.forward(in, r, i); put(out, r, n); put(out, i, n); break;
        case 1: f.forwardMagnitude(in, r); put(out, r, n); break;
        default: f.inverse(in, in + n / 2 + 1, r); put(out, r, n);
        }
    }
    bool expect(const Op &o, const double *in, size_t len, VD &w, double &tol) {
        double s = 0; for (size_t i = 0; i < len; i++) s += fabs(in[i]);
        tol = 1e-11 * s + 1e-300; VD R, I; int m = (int)(o.arg(X0) % 3), h = n / 2;
        if (m == 2) { VD re(n), im(n); for (int i = 0; i <= h; i++) { re[i] = in[i]; im[i] = (i && i < h) ? in[h + 1 + i] : 0; } for (int i = 1; i < h; i++) { re[n - i] = re[i]; im[n - i] = -im[i]; } Dft(n).run(re.data(), im.data(), true, n, R, I); for (int i = 0; i < n; i++) R[i] /= n; w = R; return true; }
        Dft(n).run(in, 0, false, n, R, I); w = R;
        if (m == 1) { for (int i = 0; i < n; i++) w[i] = hypot(R[i], I[i]); } else put(w, I.data(), n);
        return true;
    }
};
struct FftRealComp : AnaComp {
    FftRealComp() : AnaComp("fftreal") {}
    VI config(Rng &r, int size) { return VI(1, size > 2 ? real_size(r) & ~(i64)1 : 2 * (1 + (i64)r.below(size ? 60 : 24))); }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(15)); }
    void limit(VI &c) { c[0] = clampi(c[0], 2, 2048) & ~1; }
    Ana *make(const VI &c) { return new FftRealAna((int)c[0]); }
};
static FftRealComp fftreal_; static RegComp r_fftreal(&fftreal_);

// ---------------------------------------------------------------- DCT
struct DctAna : Ana {
    DCT d; int n;
    DctAna(int n_) : d(n_), n(n_) {}
    size_t inlen(const Op &) const { return (size_t)n; }
    void go(const Op &o, double *in, size_t, VD &out) {
        Buf<double> r(n);
        switch (o.arg(X0) % 4) { case 0: d.forward(in, r); break; case 1: d.inverse(in, r); break; case 2: d.forwardUnitary(in, r); break; default: d.inverseUnitary(in, r); }
        put(out, r, n);
    }
    bool expect(const Op &o, const double *in, size_t len, VD &w, double &tol) {
        int m = (int)(o.arg(X0) % 4); double s = 0, sc = n * sqrt(2.0 / n); for (size_t i = 0; i < len; i++) s += fabs(in[i]);
        tol = 1e-11 * s * (m == 3 ? sc : 1) + 1e-300; w.assign(n, 0);
        if (m == 0 || m == 2) { for (int k = 0; k < n; k++) { double a = 0; for (int i = 0; i < n; i++) a += in[i] * cos(M_PI * k * (2 * i + 1) / (2.0 * n)); w[k] = 2 * a; if (m == 2) w[k] /= sc; } if (m == 2) w[0] /= sqrt(2.0); }
        else for (int i = 0; i < n; i++) { double a = 0; for (int k = 0; k < n; k++) { double x = in[k]; if (m == 3) { x *= sc; if (!k) x *= sqrt(2.0); } a += (k ? 2 : 1) * x * cos(M_PI * k * (2 * i + 1) / (2.0 * n)); } w[i] = a / (2.0 * n); }
        return true;
    }
};
struct DctComp : AnaComp {
    DctComp() : AnaComp("dct") {}
    VI config(Rng &r, int size) { return VI(1, size > 2 ? 64 + (i64)r.below(450) : 1 + (i64)r.below(size ? 48 : 16)); }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(4)); }
    void limit(VI &c) { c[0] = clampi(c[0], 1, 512); }
    Ana *make(const VI &c) { return new DctAna((int)c[0]); }
};
static DctComp dct_; static RegComp r_dct(&dct_);

// ---------------------------------------------------------------- windows
template <class T> struct WinAna : Ana {
    Window<T> w; WindowType t; int n;
    WinAna(WindowType t_, int n_) : w(t_, n_), t(t_), n(n_) {}
    size_t inlen(const Op &) const { return (size_t)n; }
    bool may_write_input(const Op &o) const { return o.arg(X0) % 6 == 1; }
    void go(const Op &o, double *in, size_t, VD &out) {
        Buf<T> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = (T)in[i]; }
        switch (o.arg(X0) % 6) {
        case 0: w.cut(x, y); for (int i = 0; i < n; i++) { if (!(x[i] == (T)in[i] || x[i] != x[i])) in[i] = -99; } break;
        case 1: w.cut(x); for (int i = 0; i < n; i++) y[i] = x[i]; break;
        case 2: { std::vector<T> d = w.getWindowData(); for (int i = 0; i < n && i < (int)d.size(); i++) y[i] = d[i] * x[i]; if ((int)d.size() != n) y[0] = (T)1e30; break; }
        case 3: { Window<T> c(w); c.cut(x, y); break; }
        case 4: { Window<T> c(HanningWindow, (int)(1 + o.arg(X0 + 1) % 50)); c = w; c = c; c.cut(x, y); break; }
        default: { Window<T> c(w); { Window<T> k(c); k = w; } w = c; w.cut(x, y); }
        }
        for (int i = 0; i < n; i++) out.push_back((double)y[i]);
        out.push_back(w.getSize()); out.push_back(w.getType());
    }
    bool expect(const Op &, const double *in, size_t, VD &o, double &tol) {
        double m = 0; for (int i = 0; i < n; i++) { o.push_back((double)(T)((T)in[i] * (T)cosw(t, i, n))); m = std::max(m, fabs(in[i])); }
        o.push_back(n); o.push_back(t); tol = (sizeof(T) == 4 ? 1e-6 : 1e-12) * m + 1e-300; return true;
    }
};
struct WinComp : AnaComp {
    WinComp() : AnaComp("window") {}
    VI config(Rng &r, int size) { VI v; v.push_back((i64)r.below(6)); v.push_back(size > 2 ? real_size(r) + (i64)r.below(2) : 1 + (i64)r.below(r.chance(300) ? 4 : size ? 80 : 30)); v.push_back((i64)r.below(2)); return v; }
    VI call(Rng &r, const VI &, int) { VI v; v.push_back((i64)r.below(6)); v.push_back((i64)r.below(50)); return v; }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 5); c[1] = clampi(c[1], 1, 4096); }
    Ana *make(const VI &c) { if (c[2]) return new WinAna<float>((WindowType)c[0], (int)c[1]); return new WinAna<double>((WindowType)c[0], (int)c[1]); }
};
static WinComp win_; static RegComp r_win(&win_);

struct KsAna : Ana {      // Kaiser and sinc windows
    int kind, n; KaiserWindow *k; SincWindow *s;
    KsAna(const VI &c) : kind((int)c[0]), n((int)c[1]), k(0), s(0) {
        if (kind == 4) { kind = 3; n = n % 4; }
        if (kind == 0) { KaiserWindow::Parameters p; p.length = n; p.beta = (double)c[2] / 8; k = new KaiserWindow(p); }
        else if (kind == 1) k = new KaiserWindow(KaiserWindow::byTransitionWidth(10 + (double)c[2], 0.2 + (double)c[1] / 50));
        else if (kind == 2) k = new KaiserWindow(KaiserWindow::byBandwidth(10 + (double)c[2], 500 + 20 * (double)c[1], 8000));
        else s = new SincWindow(n, 1 + (double)c[2] / 4);
        n = k ? k->getLength() : s->getLength();
    }
    ~KsAna() { delete k; delete s; }
    size_t inlen(const Op &) const { return (size_t)n; }
    bool may_write_input(const Op &o) const { return o.arg(X0) & 1; }
    void go(const Op &o, double *in, size_t, VD &out) {
        Buf<double> y(n); if (o.arg(X0) & 1) { if (k) k->cut(in); else s->cut(in); memcpy(y.p, in, n * 8); } else { if (k) k->cut(in, y); else s->cut(in, y); }
        put(out, y, n); put(out, k ? k->getWindow() : s->getWindow(), n);
    }
};
struct KsComp : AnaComp {
    KsComp() : AnaComp("kaisersinc") {}
    VI config(Rng &r, int size) { VI v; v.push_back((i64)r.below(5)); v.push_back(2 + (i64)r.below(size > 2 ? 1000 : size ? 80 : 30)); v.push_back((i64)r.below(90)); return v; }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(2)); }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 4); c[1] = clampi(c[1], 2, 1100); c[2] = clampi(c[2], 0, 100); }
    Ana *make(const VI &c) { return new KsAna(c); }
};
static KsComp ks_; static RegComp r_ks(&ks_);

// ---------------------------------------------------------------- constant-Q and chroma
static CQConfig cqc(const VI &c) { CQConfig k; k.FS = (double)c[0]; k.min = (double)c[1]; k.max = (double)c[2]; k.BPO = (int)c[3]; k.CQThresh = (double)c[4] / 10000.0; return k; }
static VI cq_config(Rng &r, int size) {
    VI v; static const i64 bpo[] = { 12, 6, 12, 24, 3, 5 };
    i64 b = bpo[r.below(size ? 6 : 3)], fs = 1000 + (i64)r.below(8000), div = size ? 5 + (i64)r.below(10) : 4 + (i64)r.below(4);
    if (size > 2) { fs = r.chance(500) ? 11025 : 5512; div = 30 + (i64)r.below(40); b = r.chance(700) ? 12 : 36; }
    i64 mn = fs / div, mx = mn + (i64)r.below((u64)std::max<i64>(fs / 2 - mn, 2)) + 1;
    v.push_back(fs); v.push_back(mn); v.push_back(mx); v.push_back(b); v.push_back(r.chance(500) ? 54 : (i64)r.below(500)); v.push_back((i64)r.below(3));
    return v;
}
static void cq_limit(VI &c) { c[0] = clampi(c[0], 500, 48000); c[1] = clampi(c[1], c[0] / 80 + 1, c[0] / 2); c[2] = clampi(c[2], c[1] + 1, c[0] / 2 + c[1]); c[3] = clampi(c[3], 2, 36); c[4] = clampi(c[4], 0, 1000); }
struct CqAna : Ana {
    ConstantQ q; int n, K;
    CqAna(const VI &c) : q(cqc(c)) { q.sparsekernel(); n = q.getFFTLength(); K = q.getK(); }
    size_t inlen(const Op &) const { return (size_t)(2 * n); }
    void go(const Op &o, double *in, size_t, VD &out) {
        if (o.arg(X0) % 16 >= 14) q.sparsekernel();
        if (o.arg(X0) % 2 == 0) { Buf<double> r(K), i(K); q.process(in, in + n, r, i); put(out, r, K); put(out, i, K); }
        else { double *d = q.process(in); put(out, d, 2 * K); }
        out.push_back(K); out.push_back(n); out.push_back(q.getHop()); out.push_back(q.getQ());
    }
};
struct CqComp : AnaComp {
    CqComp() : AnaComp("constantq") {}
    int calls(int size) const { return size ? 8 : 4; }
    VI config(Rng &r, int size) { return cq_config(r, size); }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(16)); }
    void limit(VI &c) { cq_limit(c); }
    Ana *make(const VI &c) { return new CqAna(c); }
};
static CqComp cq_; static RegComp r_cq(&cq_);

struct ChromaAna : Ana {
    Chromagram *g; int n, bpo;
    ChromaAna(const VI &c) {
        ChromaConfig k; k.FS = (double)c[0]; k.min = (double)c[1]; k.max = (double)c[2]; k.BPO = (int)c[3]; k.CQThresh = (double)c[4] / 10000.0;
        k.normalise = c[5] == 0 ? MathUtilities::NormaliseNone : c[5] == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
        g = new Chromagram(k); n = g->getFrameSize(); bpo = k.BPO;
    }
    ~ChromaAna() { delete g; }
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 2 ? 2 * n : n); }
    void go(const Op &o, double *in, size_t, VD &out) {
        double *d = (o.arg(X0) % 2) ? g->process(in, in + n) : g->process(in); put(out, d, bpo);
        if (o.arg(X0) == 3) { Buf<double> y(bpo); memcpy(y.p, d, (size_t)bpo * 8); g->unityNormalise(y); put(out, y, bpo); }
        out.push_back(g->getK()); out.push_back(g->getHopSize());
    }
    bool alt(const Op &o, const double *in, size_t, VD &out, double &tol) {
        if (o.arg(X0) % 2) return false;
        Buf<double> re(n), im(n), w(n);
        { NoPreempt np; for (int i = 0; i < n; i++) { int k = (i + n / 2) % n; w[i] = in[k] * cosw(HammingWindow, k, n); } FFTReal f(n); f.forward(w, re, im); }
        double *d = g->process(re, im); put(out, d, bpo); out.push_back(g->getK()); out.push_back(g->getHopSize());
        double m = 0, s = 0; for (int i = 0; i < n; i++) { m = std::max(m, fabs(in[i])); } for (int i = 0; i < bpo; i++) s = std::max(s, fabs(d[i]));
        tol = 1e-7 * (s + m); return true;
    }
};
struct ChromaComp : AnaComp {
    ChromaComp() : AnaComp("chromagram") {}
    int calls(int size) const { return size ? 8 : 4; }
    VI config(Rng &r, int size) { return cq_config(r, size); }
    VI call(Rng &r, const VI &, int) { return VI(1, r.chance(300) ? r.chance(400) ? 3 : 1 : 0); }
    void limit(VI &c) { cq_limit(c); c[5] = clampi(c[5], 0, 2); }
    Ana *make(const VI &c) { return new ChromaAna(c); }
};
static ChromaComp chroma_; static RegComp r_chroma(&chroma_);

// ---------------------------------------------------------------- MFCC
struct MfccAna : Ana {
    MFCC *m; int n, nc, c0; WindowType wt;
    MfccAna(const VI &c) {
        MFCCConfig k((int)c[0]); k.fftsize = n = (int)c[1]; k.nceps = nc = (int)c[2]; k.want_c0 = c0 = c[3] != 0; k.window = wt = (WindowType)c[4]; k.logpower = c[5] ? 2.0 : 1.0;
        m = new MFCC(k);
    }
    ~MfccAna() { delete m; }
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 2 ? 2 * (n / 2 + 1) : n); }
    void go(const Op &o, double *in, size_t, VD &out) {
        Buf<double> y((size_t)(nc + c0)); int k = (o.arg(X0) % 2) ? m->process(in, in + n / 2 + 1, y) : m->process(in, y);
        put(out, y, nc + c0); out.push_back(k); out.push_back(m->getfftlength());
    }
    bool alt(const Op &o, const double *in, size_t, VD &out, double &tol) {
        if (o.arg(X0) % 2) return false;
        int h = n / 2 + 1; Buf<double> re(h), im(h), y((size_t)(nc + c0)); bool tiny = false;
        { NoPreempt np; VD w(n), R, I; double a = 0; for (int i = 0; i < n; i++) { w[i] = in[i] * cosw(wt, i, n); a += fabs(w[i]); } Dft(n).run(w.data(), 0, false, h, R, I); for (int i = 0; i < h; i++) { re[i] = R[i]; im[i] = I[i]; if (hypot(R[i], I[i]) < 1e-7 * a) tiny = true; } }
        if (tiny) return false;   // the log of a band holding only rounding noise is not determined
        int k = m->process(re, im, y); put(out, y, nc + c0); out.push_back(k); out.push_back(m->getfftlength()); tol = 1e-5 * (1 + max_abs(out)); return true;
    }
};
struct MfccComp : AnaComp {
    MfccComp() : AnaComp("mfcc") {}
    VI config(Rng &r, int size) { VI v; v.push_back(4000 + (i64)r.below(44100)); v.push_back(size > 2 ? real_size(r) & ~(i64)1 : 2 * (8 + (i64)r.below(size ? 100 : 40))); v.push_back(1 + (i64)r.below(30)); v.push_back((i64)r.below(2)); v.push_back((i64)r.below(6)); v.push_back(r.chance(200) ? 1 : 0); return v; }
    VI call(Rng &r, const VI &, int) { return VI(1, r.chance(300) ? 1 : 0); }
    void limit(VI &c) { c[0] = clampi(c[0], 1000, 96000); c[1] = clampi(c[1], 4, 2048) & ~1; c[2] = clampi(c[2], 1, 40); c[4] = clampi(c[4], 0, 5); }
    Ana *make(const VI &c) { return new MfccAna(c); }
};
static MfccComp mfcc_; static RegComp r_mfcc(&mfcc_);

// ---------------------------------------------------------------- tonal: chroma -> TCS -> change detection
struct TonalAna : Ana {
    TonalEstimator e; ChangeDetectionFunction cd; int width;
    static ChangeDFConfig cfg(int w) { ChangeDFConfig k; k.smoothingWidth = w; return k; }
    TonalAna(int w) : cd(cfg(w)), width(w) {}
    size_t inlen(const Op &o) const { return 12 * (size_t)(1 + o.arg(X0) % 20); }
    void go(const Op &o, double *in, size_t n, VD &out) {
        TCSGram g; if (o.arg(X0 + 1) % 3) { g.setFrameDuration((double)o.arg(X0 + 2)); } g.setNumBins(6); if (o.arg(X0 + 1) & 1) g.reserve(n / 12);
        for (size_t f = 0; f + 12 <= n; f += 12) {
            ChromaVector v; for (int i = 0; i < 12; i++) v[i] = in[f + i];
            if (o.arg(X0 + 1) & 4) v.normalizeL1();
            TCSVector t = e.transform2TCS(v); for (int i = 0; i < 6; i++) out.push_back(t[i]); out.push_back(t.magnitude());
            g.addTCSVector(t);
        }
        TCSVector b; g.getTCSVector(-1, b); out.push_back(b.magnitude()); g.getTCSVector(g.getSize(), b); out.push_back(b.magnitude()); g.getTCSVector(0, b); out.push_back(b[0]);
        out.push_back((double)g.getDuration()); out.push_back((double)g.getTime((size_t)g.getSize() - 1));
        ChangeDistance d = cd.process(g); for (size_t i = 0; i < d.size(); i++) out.push_back(d[i]);
        g.clear(); out.push_back(g.getSize());
    }
};
struct TonalComp : AnaComp {
    TonalComp() : AnaComp("tonal") {}
    VI config(Rng &r, int) { return VI(1, (i64)r.below(8)); }
    VI call(Rng &r, const VI &, int size) { VI v; v.push_back((i64)r.below(size > 2 ? 200 : size ? 20 : 6)); v.push_back((i64)r.below(8)); v.push_back((i64)r.below(300)); return v; }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 20); }
    Ana *make(const VI &c) { return new TonalAna((int)c[0]); }
};
static TonalComp tonal_; static RegComp r_tonal(&tonal_);

// ---------------------------------------------------------------- helpers with no object state to speak of
struct MathsAna : Ana {
    CosineDistance cd; KLDivergence kl; Correlation co;
    size_t inlen(const Op &o) const { int f = (int)(o.arg(X0) % 16); i64 k = o.arg(X0 + 1) % 60; if (k < 0) k = 0; return (size_t)((f == 3 || f == 4 || f == 6 || f == 8 || f == 9 || f == 10) ? k : f == 7 || f == 11 ? k + 1 : k + 2); }
    bool may_write_input(const Op &o) const { int f = (int)(o.arg(X0) % 16); return f == 6 || f == 7; }
    void go(const Op &o, double *in, size_t n, VD &out) {
        size_t h = n / 2; VD a(in, in + h), b(in + h, in + 2 * h), all(in, in + n);
        switch (o.arg(X0) % 16) {
        case 0: out.push_back(cd.distance(a, b)); out.push_back(cd.distance(b, a)); { VD z(b.size() + 1, 1.0); out.push_back(cd.distance(a, z)); } break;
        case 1: { VD va, vb; for (size_t i = 0; i < h; i++) { va.push_back(fabs(a[i]) + 0.1); vb.push_back(fabs(b[i]) + 0.2); } out.push_back(kl.distanceGaussian(a, va, b, vb)); break; }
        case 2: { VD va, vb; for (size_t i = 0; i < h; i++) { va.push_back(fabs(a[i])); vb.push_back(fabs(b[i])); } out.push_back(kl.distanceDistribution(va, vb, true)); out.push_back(kl.distanceDistribution(va, vb, false)); break; }
        case 3: { Buf<double> y(n); co.doAutoUnBiased(in, y, (int)n); put(out, y, n); break; }
        case 4: { double mn = junk(), mx = junk(); MathUtilities::getFrameMinMax(in, (int)n, &mn, &mx); out.push_back(mn); out.push_back(mx); out.push_back(MathUtilities::mean(in, (int)n)); out.push_back(MathUtilities::median(in, (int)n)); out.push_back(MathUtilities::sum(in, (int)n)); out.push_back(MathUtilities::mean(all, (int)(h / 2), (int)h)); break; }
        case 5: { double x = junk(); MathUtilities::getAlphaNorm(in, (int)n, 1 + (int)(o.arg(X0 + 2) % 4), &x); out.push_back(x); out.push_back(MathUtilities::getAlphaNorm(all, 1 + (int)(o.arg(X0 + 2) % 4))); break; }
        case 6: MathUtilities::normalise(in, (int)n, (MathUtilities::NormaliseType)(o.arg(X0 + 2) % 3)); put(out, in, n); break;
        case 7: MathUtilities::circShift(in, (int)n, (int)(o.arg(X0 + 2) % 100)); put(out, in, n); break;
        case 8: MathUtilities::normalise(all, (MathUtilities::NormaliseType)(o.arg(X0 + 2) % 3)); out = all; break;
        case 9: out = MathUtilities::normaliseLp(all, (int)(o.arg(X0 + 2) % 4)); break;
        case 10: MathUtilities::adaptiveThreshold(all); out = all; break;
        case 11: { double m = junk(); out.push_back(MathUtilities::getMax(in, (int)n, &m)); out.push_back(m); m = junk(); out.push_back(MathUtilities::getMax(all, &m)); out.push_back(m); break; }
        case 12: for (size_t i = 0; i < n; i++) { double x = in[i] == in[i] && fabs(in[i]) < 1e9 ? in[i] : 0; out.push_back(MathUtilities::princarg(in[i] * 10)); out.push_back(MathUtilities::round(x * 3)); out.push_back(MathUtilities::mod(x, 0.37)); } break;
        case 13: { i64 k = o.arg(X0 + 2), j = o.arg(X0 + 1); int x = (int)(j % 4 == 1 ? -k * 1000003 : j % 4 == 2 ? ((i64)1 << (k % 31)) : j % 4 == 3 ? ((i64)1 << (k % 30)) + k % 3 - 1 : k * 37 + 1); out.push_back(MathUtilities::nextPowerOfTwo(x)); out.push_back(MathUtilities::previousPowerOfTwo(x)); out.push_back(MathUtilities::nearestPowerOfTwo(x)); out.push_back(MathUtilities::isPowerOfTwo(x)); out.push_back(MathUtilities::gcd(x, (int)n)); out.push_back(MathUtilities::gcd(x, -(int)n)); out.push_back(MathUtilities::gcd((int)n, x ? x : 7)); out.push_back(MathUtilities::factorial((int)(x % 200))); break; }
        case 14: { float cents = (float)junk(); float f = Pitch::getFrequencyForPitch((int)(o.arg(X0 + 2) % 128), (float)(o.arg(X0 + 1) % 50)); out.push_back(f); out.push_back(Pitch::getPitchForFrequency(f, &cents)); out.push_back(cents); for (size_t i = 0; i < n; i++) { float q = (float)in[i]; int k = Pitch::getPitchForFrequency(q, &cents, i & 1 ? 440.f : 415.3f); if (q > 1e-6 && q < 1e9) { out.push_back(k); out.push_back(cents); } } break; }
        default: { VD l, hh; if (o.arg(X0 + 2) & 1) { l.push_back(junk()); hh.assign(99, junk()); } Wavelet::Type t = (Wavelet::Type)(o.arg(X0 + 2) % (int)(Wavelet::LastType + 1)); Wavelet::createDecompositionFilters(t, l, hh); out = l; out.insert(out.end(), hh.begin(), hh.end()); std::string s = Wavelet::getWaveletName(t); for (size_t i = 0; i < s.size(); i++) out.push_back(s[i]); }
        }
    }
};
struct MathsComp : AnaComp {
    MathsComp() : AnaComp("maths") {}
    bool poison_ok() const { return false; }
    VI config(Rng &, int) { return VI(1, 0); }
    VI call(Rng &r, const VI &, int) { VI v; v.push_back((i64)r.below(16)); v.push_back((i64)r.below(60)); v.push_back((i64)r.below(1000)); return v; }
    void limit(VI &) {}
    Ana *make(const VI &) { return new MathsAna; }
};
static MathsComp maths_; static RegComp r_maths(&maths_);

// ================================================================ whole-signal analysers (C19)
static void make_coeffs(i64 ord, u64 seed, VD &a, VD &b) {
    a.clear(); b.clear(); VD t; double tot = 0;
    if (ord == 2 && (seed & 1)) { double aa[] = { 1.0000, -0.5949, 0.2348 }, bb[] = { 0.1600, 0.3200, 0.1600 }; a.assign(aa, aa + 3); b.assign(bb, bb + 3); return; }
    for (i64 i = 0; i <= ord; i++) b.push_back(0.5 + 0.5 * Sig::noise(seed, i));
    a.push_back(1.0); for (i64 i = 1; i <= ord; i++) { t.push_back(Sig::noise(seed + 1, i)); tot += fabs(t.back()); }
    for (size_t i = 0; i < t.size(); i++) a.push_back(tot > 0 ? 0.85 * t[i] / tot : 0);
}
static void direct(const VD &a, const VD &b, const VD &x, VD &y) {
    y.assign(x.size(), 0);
    for (size_t n = 0; n < x.size(); n++) { double v = 0; for (size_t k = 0; k < b.size() && k <= n; k++) v += b[k] * x[n - k]; for (size_t k = 1; k < a.size() && k <= n; k++) v -= a[k] * y[n - k]; y[n] = v; }
}
static VD filtfilt_def(const VD &aa, const VD &b, const double *in, size_t n) {
    size_t e = 3 * (b.size() - 1); VD x(n + 2 * e, 0), y;
    for (size_t i = 0; i < n; i++) x[e + i] = in[i];
    for (size_t i = 1; i <= e; i++) if (i < n) { x[e - i] = 2 * in[0] - in[i]; x[e + n - 1 + i] = 2 * in[n - 1] - in[n - 1 - i]; }
    direct(aa, b, x, y); std::reverse(y.begin(), y.end()); x = y; direct(aa, b, x, y); std::reverse(y.begin(), y.end());
    return VD(y.begin() + (long)e, y.begin() + (long)(e + n));
}
// detection-function conditioning: normalise, zero-phase low-pass, subtract the moving median and delta
static bool dfp_def(const VD &a, const VD &b, const double *in, int n, int pre, int post, int alpha, bool pos, double delta, VD &w, double &tol) {
    if (n == 0 || n <= pre + post) return false;
    double lo = in[0], norm = 0, hi = 0; for (int i = 0; i < n; i++) { lo = std::min(lo, in[i]); hi = std::max(hi, fabs(in[i])); norm += pow(fabs(in[i]), (double)alpha); }
    norm = pow(norm / n, 1.0 / alpha); if (!(norm > 1e-290) || !std::isfinite(norm)) return false;
    VD x(n); for (int i = 0; i < n; i++) x[i] = (in[i] - lo) / norm;
    VD y = filtfilt_def(a, b, x.data(), (size_t)n); w.assign(n, 0);
    for (int i = 0; i < n; i++) {
        VD m(y.begin() + std::max(0, i - pre), y.begin() + std::min(n, i + post + 1)); std::sort(m.begin(), m.end()); size_t h = m.size() / 2;
        double med = m.size() % 2 ? m[h] : (m[h] + m[h - 1]) / 2; w[i] = y[i] - med - delta; if (pos && w[i] < 0) w[i] = 0;
    }
    tol = 1e-8 * (1 + max_abs(y)) * (1 + hi / norm); return true;
}
struct FiltFiltAna : Ana {
    VD a, b; FiltFilt *f; bool fir;
    FiltFiltAna(const VI &c) { make_coeffs(c[0], (u64)c[1], a, b); fir = c[2] != 0; if (fir) a.clear(); Filter::Parameters p; p.a = a; p.b = b; f = new FiltFilt(p); }
    ~FiltFiltAna() { delete f; }
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 400); }
    void go(const Op &, double *in, size_t n, VD &out) { Buf<double> y(n); f->process(in, y, (int)n); put(out, y, n); }
    bool expect(const Op &, const double *in, size_t n, VD &w, double &tol) {
        if (!n) { w.clear(); return true; }
        VD aa = a; if (fir) aa.assign(1, 1.0); double m = 0; for (size_t i = 0; i < n; i++) m = std::max(m, fabs(in[i]));
        w = filtfilt_def(aa, b, in, n); tol = 1e-9 * (m * 1e3 + max_abs(w)); return true;
    }
};
struct FiltFiltComp : AnaComp {
    FiltFiltComp() : AnaComp("filtfilt") {}
    VI config(Rng &r, int size) { VI v; v.push_back((i64)r.below(size ? 12 : 5)); v.push_back((i64)r.below(1000)); v.push_back(r.chance(200) ? 1 : 0); return v; }
    VI call(Rng &r, const VI &, int size) { return VI(1, r.chance(300) ? (i64)r.below(6) : (i64)r.below(size > 2 ? 6000 : size ? 200 : 40)); }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 40); }
    Ana *make(const VI &c) { return new FiltFiltAna(c); }
};
static FiltFiltComp ff_; static RegComp r_ff(&ff_);

struct DfpAna : Ana {
    VD a, b; DFProcess *d; int n; VI cf;
    DfpAna(const VI &c) : cf(c) {
        make_coeffs(c[0], (u64)c[1], a, b); Buf<double> aa(a.size()), bb(b.size()); memcpy(aa.p, a.data(), a.size() * 8); memcpy(bb.p, b.data(), b.size() * 8);
        DFProcConfig k; k.length = n = (int)c[2]; k.LPOrd = (int)c[0]; k.LPACoeffs = aa; k.LPBCoeffs = bb; k.winPre = (int)c[3]; k.winPost = (int)c[4]; k.AlphaNormParam = (double)(1 + c[5] % 9); k.isMedianPositive = c[6] & 1; k.delta = (float)c[7] / 100;
        d = new DFProcess(k);
    }
    ~DfpAna() { delete d; }
    size_t inlen(const Op &) const { return (size_t)n; }
    void go(const Op &, double *in, size_t, VD &out) { Buf<double> y(n); d->process(in, y); put(out, y, n); }
    bool expect(const Op &, const double *in, size_t, VD &w, double &tol) { return dfp_def(a, b, in, n, (int)cf[3], (int)cf[4], (int)(1 + cf[5] % 9), cf[6] & 1, (float)cf[7] / 100, w, tol); }
};
struct DfpComp : AnaComp {
    DfpComp() : AnaComp("dfprocess") {}
    VI config(Rng &r, int size) { VI v; v.push_back(r.chance(500) ? 2 : (i64)r.below(5)); v.push_back((i64)r.below(1000)); v.push_back(size > 2 ? 500 + (i64)r.below(2000) : r.chance(300) ? (i64)r.below(20) : 4 + (i64)r.below(size ? 120 : 40)); v.push_back(r.chance(500) ? 8 : (i64)r.below(12)); v.push_back(r.chance(500) ? 7 : (i64)r.below(12)); v.push_back((i64)r.below(9)); v.push_back((i64)r.below(2)); v.push_back((i64)r.below(3)); return v; }
    VI call(Rng &, const VI &, int) { return VI(); }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 10); c[2] = clampi(c[2], 0, 3000); c[3] = clampi(c[3], 0, 50); c[4] = clampi(c[4], 0, 50); c[5] = clampi(c[5], 0, 20); }
    Ana *make(const VI &c) { return new DfpAna(c); }
};
static DfpComp dfp_; static RegComp r_dfp(&dfp_);

struct PeakAna : Ana {
    VD a, b; PeakPicking *d; int n; VI cf;
    PeakAna(const VI &c) : cf(c) {
        make_coeffs(c[0], (u64)c[1], a, b); Buf<double> aa(a.size()), bb(b.size()); memcpy(aa.p, a.data(), a.size() * 8); memcpy(bb.p, b.data(), b.size() * 8);
        PPickParams k; k.length = n = (int)c[2]; k.tau = 0.0116; k.alpha = 9; k.cutoff = 14; k.LPOrd = (int)c[0]; k.LPACoeffs = aa; k.LPBCoeffs = bb; k.WinT.pre = (int)c[3]; k.WinT.post = (int)c[4]; k.QuadThresh.a = (double)(c[5] % 100) / 1000; k.QuadThresh.b = 0; k.QuadThresh.c = (double)(c[5] % 100) / 500; k.delta = (float)c[7] / 100;
        d = new PeakPicking(k);
    }
    ~PeakAna() { delete d; }
    size_t inlen(const Op &) const { return (size_t)n; }
    bool may_write_input(const Op &) const { return true; }   // src receives the conditioned function
    void go(const Op &o, double *in, size_t, VD &out) { std::vector<int> on; if (o.arg(X0) & 1) on.push_back(-5); d->process(in, n, on); out.push_back((double)on.size()); for (size_t i = 0; i < on.size(); i++) out.push_back(on[i]); put(out, in, n); if (on.size() > 1) PROBE(onset_found); }
    bool expect(const Op &o, const double *in, size_t, VD &w, double &tol) {
        VD s; if (n < 4 || !dfp_def(a, b, in, n, (int)cf[3], (int)cf[4], 9, false, (float)cf[7] / 100, s, tol)) return false;
        double qa = (double)(cf[5] % 100) / 1000, qc = (double)(cf[5] % 100) / 500; VD on; if (o.arg(X0) & 1) on.push_back(-5);
        for (int i = 2; i < n - 2; i++) {
            double d1 = s[i] - s[i - 1], d2 = s[i] - s[i + 1], t = 2 * tol; if (d1 < -t || d2 < -t || s[i] < -t) continue;
            if (d1 < t || d2 < t || s[i] < t) return false;   // rounding decides: no expectation
            double sy = 0, sxy = 0; for (int k = -2; k <= 2; k++) { sy += s[i + k]; sxy += k * k * s[i + k]; }
            double h = (5 * sxy - 10 * sy) / 70, f = (sy - 10 * h) / 5; if (fabs(h + qa) < 10 * tol || fabs(f - qc) < 10 * tol) return false;
            if (h < -qa || f > qc) on.push_back(i);
        }
        w.push_back((double)on.size()); put(w, on.data(), on.size()); put(w, s.data(), s.size()); PROBE(peak_defined); return true;
    }
};
struct PeakComp : AnaComp {
    PeakComp() : AnaComp("peakpicking") {}
    VI config(Rng &r, int size) { VI v; v.push_back(r.chance(600) ? 2 : (i64)r.below(5)); v.push_back((i64)r.below(1000)); v.push_back(size > 2 ? 500 + (i64)r.below(2000) : r.chance(250) ? (i64)r.below(20) : 4 + (i64)r.below(size ? 120 : 40)); v.push_back(r.chance(600) ? 8 : (i64)r.below(12)); v.push_back(r.chance(600) ? 7 : (i64)r.below(12)); v.push_back((i64)r.below(100)); v.push_back(0); v.push_back((i64)r.below(3)); return v; }
    VI call(Rng &r, const VI &, int) { return VI(1, (i64)r.below(2)); }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 10); c[2] = clampi(c[2], 0, 3000); c[3] = clampi(c[3], 0, 50); c[4] = clampi(c[4], 0, 50); c[5] = clampi(c[5], 0, 100); }
    Ana *make(const VI &c) { return new PeakAna(c); }
};
static PeakComp peak_; static RegComp r_peak(&peak_);

struct BeatSpecAna : Ana {
    BeatSpectrum b; int dim;
    BeatSpecAna(int d) : dim(d) {}
    size_t inlen(const Op &o) const { return (size_t)(dim * (o.arg(X0) % 60)); }
    void go(const Op &, double *in, size_t n, VD &out) { std::vector<VD> m; for (size_t i = 0; i + dim <= n; i += dim) m.push_back(VD(in + i, in + i + dim)); out = b.process(m); }
    bool expect(const Op &, const double *in, size_t n, VD &w, double &tol) {
        size_t f = n / dim, sz = f / 2; w.assign(sz, 0); double top = 0;
        for (size_t i = 0; i < sz; i++) for (size_t k = 0; k < sz; k++) { double d = 0, x = 0, y = 0; for (int j = 0; j < dim; j++) { double p = in[i * dim + j], q = in[(i + k + 1) * dim + j]; d += p * q; x += p * p; y += q * q; } w[k] += 1 - d / (sqrt(fabs(x * y)) + 1e-20); }
        for (size_t k = 0; k < sz; k++) top = std::max(top, w[k]);
        if (top > 0 && top < 1e-6) { w.clear(); return false; }   // normalising rounding noise
        if (top > 0) for (size_t k = 0; k < sz; k++) w[k] /= top;
        tol = 1e-8; return true;
    }
};
struct BeatSpecComp : AnaComp {
    BeatSpecComp() : AnaComp("beatspectrum") {}
    VI config(Rng &r, int) { return VI(1, 1 + (i64)r.below(12)); }
    VI call(Rng &r, const VI &, int size) { return VI(1, (i64)r.below(size > 2 ? 150 : size ? 40 : 14)); }
    void limit(VI &c) { c[0] = clampi(c[0], 1, 40); }
    Ana *make(const VI &c) { return new BeatSpecAna((int)c[0]); }
};
static BeatSpecComp bs_; static RegComp r_bs(&bs_);

// detection-function-like input: pulses at a steady (or changing) period over noise, non-negative, with silent stretches
static void df_signal(const Op &o, double *in, size_t n) {
    u64 s = (u64)o.arg(2); double per = 6 + (double)(mix(s, 9) % 600) / 10.0; int kind = (int)(o.arg(X0 + 1) % 8); if (kind >= 6) per = 6 + (double)(mix(s, 9) % 90) / 10.0; double next = (double)(mix(s, 5) % 30);
    for (size_t i = 0; i < n; i++) {
        double v = 0.05 * fabs(Sig::noise(s, (i64)i));
        if ((double)i >= next) { v += 1 + 0.3 * Sig::noise(s + 2, (i64)i); if (kind == 1) per *= 1.01; if (kind == 2 && (mix(s, i) & 15) == 0) per = 6 + (double)(mix(s, i) % 600) / 10.0; next += per; }
        if (kind == 3 && i > n / 3 && i < 3 * n / 4) v = 0;
        if (kind == 4 && i > n / 2) v = 0.3;
        if (kind == 5 && (mix(s, 77) & 1)) v = 0;
        if (kind >= 6 && i > n * (2 + mix(s, 78) % 5) / 8 && (kind == 6 || i < n * 15 / 16)) v = 0;       // steady beats, then silence (to the end, or nearly)
        in[i] = v * (o.arg(3) % 6 == 2 ? 1e6 : o.arg(3) % 6 == 3 ? 1e-6 : 1);
    }
}
struct TempoAna : Ana {
    VD a, b; TempoTrack *t;
    TempoAna(const VI &c) {
        make_coeffs(c[0], (u64)c[1], a, b); Buf<double> aa(a.size()), bb(b.size()); memcpy(aa.p, a.data(), a.size() * 8); memcpy(bb.p, b.data(), b.size() * 8);
        TTParams k; k.lagLength = (int)c[2]; k.winLength = 4 * (int)c[2]; k.LPOrd = (int)c[0]; k.LPACoeffs = aa; k.LPBCoeffs = bb; k.alpha = (int)(1 + c[3] % 9); k.WinT.pre = (int)c[4]; k.WinT.post = (int)c[5];
        t = new TempoTrack(k);
    }
    ~TempoAna() { delete t; }
    size_t inlen(const Op &o) const { return (size_t)(1 + o.arg(X0) % 4000); }
    bool may_write_input(const Op &) const { return true; }
    void go(const Op &o, double *in, size_t n, VD &out) {
        { NoPreempt np; df_signal(o, in, n); }
        VD tempi, df(in, in + n); std::vector<int> be = t->process(df, (o.arg(X0 + 2) & 1) ? &tempi : 0); out.push_back((double)be.size()); for (size_t i = 0; i < be.size(); i++) out.push_back(be[i]); put(out, tempi.data(), tempi.size()); if (be.size() > 3) PROBE(beats_found);
    }
};
struct TempoComp : AnaComp {
    TempoComp() : AnaComp("tempotrack") {}
    bool poison_ok() const { return false; }
    int calls(int size) const { return size ? 3 : 2; }
    VI config(Rng &r, int size) { VI v; v.push_back(r.chance(700) ? 2 : 1 + (i64)r.below(3)); v.push_back(r.chance(700) ? 1 : (i64)r.below(1000)); v.push_back(size > 1 && r.chance(300) ? 128 : 16 + (i64)r.below(size ? 24 : 10)); v.push_back((i64)r.below(9)); v.push_back(r.chance(600) ? 8 : (i64)r.below(8)); v.push_back(r.chance(600) ? 7 : (i64)r.below(8)); return v; }
    VI call(Rng &r, const VI &c, int size) { VI v; v.push_back((i64)r.below((u64)(c[2] * (size > 2 ? 30 : r.chance(250) ? 24 : size ? 12 : 8)))); v.push_back((i64)r.below(8)); v.push_back((i64)r.below(2)); return v; }
    void limit(VI &c) { c[0] = clampi(c[0], 0, 8); c[2] = clampi(c[2], 8, 256); c[3] = clampi(c[3], 0, 20); c[4] = clampi(c[4], 0, c[2] / 2); c[5] = clampi(c[5], 0, c[2] / 2); }
    Ana *make(const VI &c) { return new TempoAna(c); }
};
static TempoComp tempo_; static RegComp r_tempo(&tempo_);

struct Ttv2Ana : Ana {
    TempoTrackV2 t;
    Ttv2Ana(const VI &c) : t((float)c[0], (int)c[1]), rate((double)c[0]), inc((double)c[1]), prop("C19") {}
    size_t inlen(const Op &o) const { return (size_t)(o.arg(X0) % 3000); }
    bool may_write_input(const Op &) const { return true; }
    void go(const Op &o, double *in, size_t n, VD &out) {
        { NoPreempt np; df_signal(o, in, n); }
        double fresh = o.arg(X0 + 3) & 4 ? 7.25 : 0.0; VD df(in, in + n), bp(n, fresh), tempi, beats;     // 7.25: whatever the caller's vector held before
        if (o.arg(X0 + 2) % 3 == 2) { for (size_t i = 0; i < n; i++) bp[i] = (double)(1 + o.arg(X0 + 3) % 90); }      // beat period supplied by the caller
        else if (o.arg(X0 + 2) % 3 == 1) t.calculateBeatPeriod(df, bp, tempi, 60 + (double)(o.arg(X0 + 3) % 120), o.arg(X0 + 3) & 1);
        else t.calculateBeatPeriod(df, bp, tempi);
        if (o.arg(X0 + 3) & 2) t.calculateBeats(df, bp, beats, 0.5 + (double)(o.arg(X0 + 3) % 40) / 100.0, 1 + (double)(o.arg(X0 + 3) % 8)); else t.calculateBeats(df, bp, beats);
        out.push_back((double)bp.size()); put(out, bp.data(), bp.size()); out.push_back((double)tempi.size()); put(out, tempi.data(), tempi.size()); out.push_back((double)beats.size()); put(out, beats.data(), beats.size());
        if (beats.size() > 3) PROBE(beats_found);
        NoPreempt np;
        for (size_t i = 0; i < beats.size(); i++) {
            double v = beats[i]; if (!(v >= 0 && v < (double)n) || (i && !(v > beats[i - 1]))) fail(prop, "beats", "TempoTrackV2: beat %zu of %zu at %g, the one before at %g, input of %zu values", i, beats.size(), v, i ? beats[i - 1] : -1.0, n);
            double p = bp[(size_t)v]; if (i && p >= 1 && v - beats[i - 1] > 2 * p + 1.5) fail(prop, "beats", "TempoTrackV2: beat at %g follows one at %g, more than twice the beat period %g", v, beats[i - 1], p);
            if (i && p >= 1 && v - beats[i - 1] < p / 2 - 1.5) fail(prop, "beats", "TempoTrackV2: beat at %g follows one at %g, less than half the beat period %g", v, beats[i - 1], p);
        }
        if (fresh > 0 && o.arg(X0 + 2) % 3 != 2) { size_t left = 0; for (size_t i = 0; i < n; i++) left += bp[i] == fresh; if (left && left != n) fail(prop, "beats", "TempoTrackV2: %zu of %zu beat periods were left as they were before the call", left, n); }
        if (o.arg(X0 + 2) % 3 != 2) { if (tempi.size() != n && !tempi.empty()) fail(prop, "beats", "TempoTrackV2: %zu tempi for %zu values", tempi.size(), n);
            for (size_t i = 0; i < tempi.size(); i++) if (bp[i] >= 1 && !close_to(tempi[i] * bp[i], 60.0 * rate / inc, 1e-3 * rate)) fail(prop, "tempo", "TempoTrackV2: tempo %g at beat period %g (rate %g, increment %g)", tempi[i], bp[i], rate, inc); }
    }
    double rate, inc; const char *prop;
};
struct Ttv2Comp : AnaComp {
    Ttv2Comp() : AnaComp("tempotrackv2") {}
    bool poison_ok() const { return false; }
    int calls(int) const { return 2; }
    VI config(Rng &r, int) { VI v; v.push_back(r.chance(500) ? 44100 : 8000 + (i64)r.below(90000)); v.push_back(r.chance(500) ? 512 : 64 + (i64)r.below(1000)); return v; }
    VI call(Rng &r, const VI &, int size) { VI v; v.push_back(size > 2 ? (i64)r.below(2900) : r.chance(size ? 300 : 60) ? 640 + (i64)r.below(300) : (i64)r.below(200)); v.push_back((i64)r.below(8)); v.push_back((i64)r.below(3)); v.push_back((i64)r.below(200)); return v; }
    void limit(VI &c) { c[0] = clampi(c[0], 1000, 200000); c[1] = clampi(c[1], 1, 5000); }
    Ana *make(const VI &c) { return new Ttv2Ana(c); }
};
static Ttv2Comp tt2_; static RegComp r_tt2(&tt2_);
}

// Key detection (C20), hidden Markov model and segmentation (C08).
#include "comp.h"
#include <sstream>
#include <algorithm>
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/chromagram/Chromagram.h"
#include "base/Pitch.h"
#include "hmm/hmm.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/segmentation/cluster_melt.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
using namespace sim;
typedef std::vector<double> VD;

namespace {
// =============================================================== GetKeyMode (C20)
// Krumhansl-style profiles, 36 bins, published constants (the model keeps its own copy).
static const double PROF[2][36] = {
    { .0384, .0629, .0258, .0121, .0146, .0106, .0364, .0610, .0267, .0126, .0121, .0086, .0364, .0623, .0279, .0275, .0414, .0186, .0173, .0248, .0145, .0364, .0631, .0262, .0129, .0150, .0098, .0312, .0521, .0235, .0129, .0142, .0095, .0289, .0478, .0239 },
    { .0375, .0682, .0299, .0119, .0138, .0093, .0296, .0543, .0257, .0292, .0519, .0246, .0159, .0234, .0135, .0291, .0544, .0248, .0137, .0176, .0104, .0352, .0670, .0302, .0222, .0349, .0164, .0174, .0297, .0166, .0222, .0401, .0202, .0175, .0270, .0146 } };
struct KeyModel {
    int nb, nmed, fct; Decimator *dec; Chromagram *chr; VD low; size_t block;
    std::vector<VD> chromas; std::vector<std::pair<int, int> > keys;
    VD strength; double stol;
    KeyModel() : dec(0), chr(0) {}
    ~KeyModel() { delete dec; delete chr; }
    // one more frame; gives the admissible range of the answer
    void frame(const double *in, int &lo, int &hi) {
        if (fct > 1) dec->process(in, low.data()); else std::copy(in, in + block, low.begin());
        double *c = chr->process(low.data());
        chromas.push_back(VD(c, c + 36)); if ((int)chromas.size() > nb) chromas.erase(chromas.begin());
        VD m(36, 0.0); double big = 0;
        for (size_t i = 0; i < chromas.size(); i++) for (int k = 0; k < 36; k++) m[k] += chromas[i][k];
        double mean = 0; for (int k = 0; k < 36; k++) { m[k] /= (double)chromas.size(); big = std::max(big, fabs(m[k])); mean += m[k] / 36; }
        double ss = 0; for (int k = 0; k < 36; k++) { m[k] -= mean; ss += m[k] * m[k]; }
        strength.assign(24, 0); double corr[72];
        stol = 1e-9 + (ss > 0 ? 1e-13 * big / sqrt(ss) : 0);
        bool vague = ss > 0 ? sqrt(ss) < 1e-9 * big : big > 0;     // no shape left beyond rounding
        if (vague) stol = 4;
        for (int mode = 0; mode < 2; mode++) {
            double pm = 0, ps = 0; for (int k = 0; k < 36; k++) pm += PROF[mode][k] / 36;
            for (int k = 0; k < 36; k++) ps += (PROF[mode][k] - pm) * (PROF[mode][k] - pm);
            for (int b = 0; b < 36; b++) {       // bin b: profile's C (its bin 1) laid over chroma bin b - 1
                double n = 0; for (int i = 0; i < 36; i++) n += m[i] * (PROF[mode][(i - b + 2 + 72) % 36] - pm);
                corr[mode * 36 + b] = ss > 0 ? n / sqrt(ss * ps) : 0;
            }
            for (int s = 0; s < 12; s++) strength[mode * 12 + s] = std::max(corr[mode * 36 + s * 3], std::max(corr[mode * 36 + s * 3 + 1], corr[mode * 36 + s * 3 + 2]));
        }
        double best = -9; for (int i = 0; i < 72; i++) best = std::max(best, corr[i]);
        int kl = 99, kh = 0;
        for (int i = 0; i < 72; i++) if (corr[i] >= best - 2 * stol) { kl = std::min(kl, i / 3 + 1); kh = std::max(kh, i / 3 + 1); }
        if (kl != kh) PROBE(key_tie);
        keys.push_back(std::make_pair(kl, kh)); if ((int)keys.size() > nmed) keys.erase(keys.begin());
        std::vector<int> a, z; for (size_t i = 0; i < keys.size(); i++) { a.push_back(keys[i].first); z.push_back(keys[i].second); }
        std::sort(a.begin(), a.end()); std::sort(z.begin(), z.end());
        size_t mid = (a.size() + 1) / 2 - 1; lo = a[mid]; hi = z[mid];
    }
};
struct KeyComp : Comp {
    KeyComp() : Comp("getkeymode") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        if (size > 2) size = 1;
        static const i64 fct[] = { 1, 1, 2, 2, 4, 8 }; static const i64 low[] = { 500, 700, 1000, 1000, 1600, 2000, 4300, 5512 };
        i64 d = fct[r.below(6)], fs = low[r.below(size ? 8 : 5)] * d;
        i64 hw = 1 + (i64)r.below(r.chance(300) ? 10 : 4), mw = 1 + (i64)r.below(r.chance(300) ? 11 : 5), ov = (i64)1 << r.below(4);
        ops.push_back(mkop(c, "new", { fs, 440 + (i64)(r.chance(300) ? r.range(-12, 12) : 0), hw, mw, ov, d, (i64)r.below(100) }));
        int n = many(r, 2 + (int)r.below((u64)((hw + mw) * (size ? 2 : 1) + 4)), 1); if (n > 300) n = 300; i64 ty = 8, sd = (i64)(r.next() >> 44);
        if (r.chance(200)) ops.push_back(mkop(c, "strengths"));
        for (int i = 0; i < n; i++) {
            if (r.chance(300)) { sd = (i64)(r.next() >> 44); ty = r.chance(550) ? 10 : (i64)r.below(10); }
            ops.push_back(mkop(c, "frame", { ty, sd, (i64)r.below(3) }));
            if (r.chance(300)) ops.push_back(mkop(c, "strengths"));
        }
        if (r.chance(100)) { ops.push_back(mkop(c, "del")); }
    }
    // type 10: a triad with some harmonics on a seeded root, at the given sampling rate
    static double chord(u64 seed, i64 i, double fs) {
        static const int tri[2][3] = { { 0, 4, 7 }, { 0, 3, 7 } }; double v = 0; int root = (int)(seed % 12), mode = (int)(seed / 12 % 2);
        for (int n = 0; n < 3; n++) { double f = 440.0 * pow(2.0, (root + tri[mode][n] - 21) / 12.0); for (int h = 1; h <= 3; h++) if (f * h < fs * 0.45) v += 0.3 / h * sin(2 * M_PI * f * h * (double)i / fs); }
        return v;
    }
    void run(Ctx &c) {
        GetKeyMode *g = 0; KeyModel m; int bs = 0, hop = 0, frames = 0; i64 pos = 0; double fs = 1; bool dead = false;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !g && !dead) {
                fs = (double)clampi(o.arg(0), 400, 96000); i64 d = o.arg(5); while (d & (d - 1)) d &= d - 1; d = clampi(d, 1, 8);
                if (fs / (double)d < 400) d = 1;
                if (fs / (double)d > 12000) fs = 12000.0 * (double)d;
                GetKeyMode::Config cf(fs, (float)clampi(o.arg(1), 400, 480));
                cf.decimationFactor = (int)d; cf.frameOverlapFactor = (int)clampi(o.arg(4), 1, 8);
                int old_bs;
                {   // window lengths are chosen in frames, so the frame size is needed first
                NoPreempt np; Sut s0(0);
                ChromaConfig cc; cc.normalise = MathUtilities::NormaliseUnitMax; cc.FS = fs / (double)d; cc.BPO = 36; cc.CQThresh = 0.0054;
                cc.min = Pitch::getFrequencyForPitch(48, 0, cf.tuningFrequency); cc.max = Pitch::getFrequencyForPitch(96, 0, cf.tuningFrequency);
                m.chr = new Chromagram(cc); old_bs = m.chr->getFrameSize(); m.fct = (int)d; m.block = (size_t)old_bs; if (d > 1) m.dec = new Decimator((unsigned)(old_bs * d), (unsigned)d);
                m.low.assign((size_t)old_bs, 0); m.nb = (int)clampi(o.arg(2), 1, 40); m.nmed = (int)clampi(o.arg(3), 1, 40);
                double sec = (double)old_bs / cc.FS, fr = 0.01 + (double)(o.arg(6) % 90) / 100.0;
                cf.hpcpAverage = ((double)m.nb - fr) * sec; cf.medianAverage = ((double)m.nmed - fr) * sec;
                }
                { SUT(c); g = new GetKeyMode(cf); }
                bs = g->getBlockSize(); hop = g->getHopSize();
                if (c.model && (bs != old_bs * (int)d || hop != old_bs / cf.frameOverlapFactor * (int)d)) fail(c.prop, "sizes", "block %d hop %d, expected %d and %d", bs, hop, old_bs * (int)d, old_bs / cf.frameOverlapFactor * (int)d);
                c.digi(bs); c.digi(hop);
            }
            if (!g) { step_done(); continue; }
            if (o.name == "frame") {
                Buf<double> in((size_t)bs), keep((size_t)bs); static const double sc[] = { 1, 0.01, 1 };
                { NoPreempt np; Sig s(o.arg(0), o.arg(1)); for (int i = 0; i < bs; i++) keep.p[i] = in.p[i] = sc[(u64)o.arg(2) % 3] * (o.arg(0) == 10 ? chord((u64)o.arg(1), pos + i, fs) : s.at(pos + i)); }
                int k; { SUT(c); k = g->process(in); } pos += hop; frames++;
                c.digi(k);
                if (c.model) {
                    NoPreempt np; Sut h(0); int lo, hi;
                    if (memcmp(in.p, keep.p, (size_t)bs * 8)) fail(c.prop, "input-changed", "process modified its input");
                    m.frame(keep, lo, hi);
                    if (frames > m.nb) PROBE(key_window_slid); if (frames > m.nmed) PROBE(key_median_slid);
                    if (k < 0 || k > 24) fail(c.prop, "range", "frame %d: key %d", frames, k);
                    if (k < lo || k > hi) fail(c.prop, "key", "frame %d (averaging window %d frames, median window %d): key %d, expected %d%s%d from the frames received", frames, m.nb, m.nmed, k, lo, lo == hi ? "=" : "..", hi);
                    strengths(c, g, m);
                }
            } else if (o.name == "strengths") {
                double *s; { SUT(c); s = g->getKeyStrengths(); } c.dig(s, 24);
                if (c.model && frames) { NoPreempt np; strengths(c, g, m); }
            } else if (o.name == "del") { { SUT(c); delete g; } g = 0; dead = true; }
            step_done();
        }
        if (g) { SUT(c); delete g; }
    }
    static void strengths(Ctx &c, GetKeyMode *g, KeyModel &m) {
        double *s = g->getKeyStrengths();
        for (int i = 0; i < 24; i++) if (!(fabs(s[i] - m.strength[i]) <= m.stol)) fail(c.prop, "strengths", "key %d: strength %.12g, expected %.12g for the last processed frame", i + 1, s[i], m.strength[i]);
    }
};
static KeyComp key; static RegComp rkey(&key);

// =============================================================== HMM and segmentation (C08)
// features: a sequence of runs drawn from a few centres
struct Feat {
    int T, L; double *flat; double **x;
    Feat(int T_, int L_, int cap, u64 seed, int centres, double spread, int meanrun) : T(T_), L(L_) {
        if (cap < L) cap = L;
        x = (double **)malloc(sizeof(double *) * (size_t)T); flat = 0;
        NoPreempt np; Rng r(seed); std::vector<VD> c((size_t)centres, VD((size_t)L)); for (size_t i = 0; i < c.size(); i++) for (int d = 0; d < L; d++) c[i][d] = r.unit() * 2 - 1;
        size_t at = 0;
        for (int t = 0; t < T; t++) {
            x[t] = (double *)malloc(sizeof(double) * (size_t)cap);
            if (r.below((u64)meanrun) == 0) at = r.below(c.size());
            for (int d = 0; d < L; d++) x[t][d] = c[at][d] + spread * (r.unit() * 2 - 1);
        }
    }
    ~Feat() { for (int t = 0; t < T; t++) free(x[t]); free(x); }
};
static const double spreads[] = { 1, 0.5, 0.2, 0.05, 0.01, 0.003 };
static bool finite_rows(double **p, int n, int m) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!std::isfinite(p[i][j])) return false; return true; }
struct HmmComp : Comp {
    HmmComp() : Comp("hmm") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; i++) {
            if (r.chance(150)) ops.push_back(mkop(c, "pause", { (i64)r.below(3000000) }));
            i64 T = 2 + (i64)r.below(size ? 80 : 30), L = 1 + (i64)r.below(size ? 6 : 4), N = 1 + (i64)r.below(size ? 9 : 6); if (r.chance(60)) N += T; if (size > 2) { T = 50 + (i64)r.below(150); L = 1 + (i64)r.below(21); N = 5 + (i64)r.below(20); }
            if (N > 40) N = 40;
            ops.push_back(mkop(c, "train", { T, L, N, (i64)(r.next() >> 44), 1 + (i64)r.below(6), (i64)r.below(6), 1 + (i64)r.below(20), r.chance(120) ? 1 + (i64)r.below(3) : 0, r.chance(300) ? r.chance(500) ? 1 + 3 * (i64)r.below(4) : 1 + (i64)r.below(12) : 0 }));
        }
    }
    static void rows(Ctx &c, model_t *m, const char *when) {
        for (int i = -1; i < m->N; i++) {
            const double *p = i < 0 ? m->p0 : m->a[i]; double s = 0;
            for (int j = 0; j < m->N; j++) { if (!(p[j] >= 0 && p[j] <= 1 + 1e-9)) fail(c.prop, "not-a-probability", "%s: %s %d entry %d is %g", when, i < 0 ? "initial" : "transition row", i, j, p[j]); s += p[j]; }
            if (!(fabs(s - 1) <= 1e-6)) fail(c.prop, "row-sum", "%s: %s %d sums to %.9g (%d states)", when, i < 0 ? "initial distribution" : "transition row", i, s, m->N);
        }
        if (!finite_rows(m->mu, m->N, m->L)) fail(c.prop, "not-finite", "%s: a state mean is not finite", when);
        if (!finite_rows(m->cov, m->L, m->L)) fail(c.prop, "not-finite", "%s: the covariance is not finite", when);
    }
    // inverse and |determinant| by Gauss-Jordan; false when badly conditioned
    static bool inverse(double **cov, int L, std::vector<VD> &inv, double &ldet) {
        std::vector<VD> a((size_t)L, VD((size_t)(2 * L), 0.0)); double big = 0;
        for (int i = 0; i < L; i++) { for (int j = 0; j < L; j++) { a[i][j] = cov[i][j]; big = std::max(big, fabs(cov[i][j])); } a[i][L + i] = 1; }
        ldet = 0;
        for (int k = 0; k < L; k++) {
            int p = k; for (int i = k; i < L; i++) if (fabs(a[i][k]) > fabs(a[p][k])) p = i;
            if (!(fabs(a[p][k]) > 1e-6 * big)) return false;
            std::swap(a[p], a[k]); ldet += log(fabs(a[k][k])); double d = a[k][k];
            for (int j = 0; j < 2 * L; j++) a[k][j] /= d;
            for (int i = 0; i < L; i++) if (i != k) { double f = a[i][k]; for (int j = 0; j < 2 * L; j++) a[i][j] -= f * a[k][j]; }
        }
        inv.assign((size_t)L, VD((size_t)L)); for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) inv[i][j] = a[i][L + j];
        return true;
    }
    static void viterbi(Ctx &c, model_t *m, double **x, int T, const int *q) {
        int N = m->N, L = m->L;
        for (int t = 0; t < T; t++) if (q[t] < 0 || q[t] >= N) fail(c.prop, "state-range", "decoded state %d at time %d of a model with %d states", q[t], t, N);
        std::vector<VD> inv; double ldet; if (!inverse(m->cov, L, inv, ldet)) return;
        PROBE(hmm_viterbi_checked);
        std::vector<VD> lb((size_t)T, VD((size_t)N)); double scale = 0;
        for (int t = 0; t < T; t++) { double mx = 0; for (int i = 0; i < N; i++) {
            double s = 0; for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) s += (x[t][a] - m->mu[i][a]) * inv[a][b] * (x[t][b] - m->mu[i][b]);
            lb[t][i] = -0.5 * (s + L * log(2 * M_PI) + ldet); if (fabs(lb[t][i]) > mx) mx = fabs(lb[t][i]); } scale += mx; }
        VD phi((size_t)N), nx((size_t)N);
        for (int i = 0; i < N; i++) phi[i] = log(m->p0[i]) + lb[0][i];
        for (int t = 1; t < T; t++) { for (int j = 0; j < N; j++) { double b = -INFINITY; for (int i = 0; i < N; i++) b = std::max(b, phi[i] + log(m->a[i][j])); nx[j] = b + lb[t][j]; } phi = nx; }
        double best = -INFINITY; for (int i = 0; i < N; i++) best = std::max(best, phi[i]);
        if (!std::isfinite(best) || !std::isfinite(scale)) return;
        double got = log(m->p0[q[0]]) + lb[0][q[0]]; for (int t = 1; t < T; t++) got += log(m->a[q[t - 1]][q[t]]) + lb[t][q[t]];
        if (!(got >= best - 1e-7 * (1 + scale + fabs(best)))) fail(c.prop, "viterbi", "the decoded path has log probability %.9g, the most probable path %.9g (%d states, %d frames)", got, best, N, T);
    }
    void run(Ctx &c) {
        for (size_t k = 0; k < c.ops.size(); k++) {
            const Op &o = *c.ops[k];
            if (o.name == "pause") sleep_ns((u64)clampi(o.arg(0), 0, 10000000) * 1000);
            else if (o.name == "train") {
                int T = (int)clampi(o.arg(0), 2, 400), L = (int)clampi(o.arg(1), 1, 24), N = (int)clampi(o.arg(2), 1, 60), flat = (int)clampi(o.arg(7), 0, 3);
                Feat f(T, L, L, (u64)o.arg(3), (int)clampi(o.arg(4), 1, 20), spreads[(u64)o.arg(5) % 6], (int)clampi(o.arg(6), 1, 100));
                { NoPreempt np;    // degenerate data: one constant dimension, all equal, or proportional dimensions
                  if (flat == 1) for (int t = 0; t < T; t++) f.x[t][L - 1] = 0.5; if (flat == 2) for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) f.x[t][d] = 0.25 * d; if (flat == 3 && L > 1) for (int t = 0; t < T; t++) f.x[t][L - 1] = 2 * f.x[t][0]; }
                { NoPreempt np; int out = (int)clampi(o.arg(8), 0, 12); static const double far[] = { 30, 1e3, 1e5, 1e8 };   // one frame far from all the others: the last, the first or any
                  if (out) { int t = out % 3 == 1 ? T - 1 : out % 3 == 2 ? 0 : (int)(mix((u64)o.arg(3), 4) % (u64)T); for (int d = 0; d < L; d++) f.x[t][d] += far[(out - 1) / 3] * (mix((u64)o.arg(3), (u64)(90 + d)) & 1 ? 1 : -1); } }
                bool proper = flat == 0 && T > L + 1;
                Buf<int> q((size_t)T); q.fill(-7);
                model_t *m; { SUT(c); m = hmm_init(f.x, T, L, N); }
                if (c.model) { NoPreempt np; if (m->N != N || m->L != L) fail(c.prop, "model-size", "model of %d states, %d dimensions; asked for %d, %d", m->N, m->L, N, L); if (proper) rows(c, m, "after hmm_init"); }
                { SUT(c); hmm_train(f.x, T, m); }
                if (c.model && proper) { NoPreempt np; rows(c, m, "after hmm_train"); PROBE(hmm_trained); }
                { NoPreempt np; c.dig(m->p0, (size_t)N); for (int i = 0; i < N; i++) { c.dig(m->a[i], (size_t)N); c.dig(m->mu[i], (size_t)L); } for (int d = 0; d < L; d++) c.dig(m->cov[d], (size_t)L); }
                { SUT(c); viterbi_decode(f.x, T, m, q); }
                { NoPreempt np; for (int t = 0; t < T; t++) { c.digi(q[t]); if (q[t] < 0 || q[t] >= N) fail(c.prop, "state-range", "decoded state %d at time %d of a model with %d states", q[t], t, N); } }
                if (c.model && proper) { NoPreempt np; viterbi(c, m, f.x, T, q); }
                { SUT(c); hmm_close(m); }
            }
            step_done();
        }
    }
};
static HmmComp hmm_; static RegComp rhmm(&hmm_);

// C entry points of segmentation
struct SegCComp : Comp {
    SegCComp() : Comp("segment_c") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        int n = 1 + (int)r.below(size ? 4 : 3);
        for (int i = 0; i < n; i++) {
            i64 H = 1 + 2 * (i64)r.below(6), T = std::max((i64)3, H) + (r.chance(150) ? 0 : (i64)r.below(size ? 60 : 25)), L = 1 + (i64)r.below(5), N = 2 + (i64)r.below(6), k = 1 + (i64)r.below(6), lim = r.chance(200) ? 0 : 1 + (i64)r.below(20); if (size > 2) { H = 15; T = 100 + (i64)r.below(100); N = 10 + (i64)r.below(15); k = 2 + (i64)r.below(9); lim = 30; }
            i64 sd = (i64)(r.next() >> 44), cen = 1 + (i64)r.below(5), sp = (i64)r.below(6), mr = 1 + (i64)r.below(20);
            if (r.chance(150)) ops.push_back(mkop(c, "pause", { (i64)r.below(3000000) }));
            switch (r.below(6)) {
            case 0: ops.push_back(mkop(c, "hist", { T, 0, N, sd, cen, sp, mr, H })); break;
            case 1: ops.push_back(mkop(c, "melt", { T, 0, N, sd, cen, sp, mr, H, k, lim })); break;
            case 2: case 3: ops.push_back(mkop(c, "cluster", { T, L, N, sd, cen, sp, mr, H, k, lim })); break;
            case 4: ops.push_back(mkop(c, "constq", { T, r.chance(400) ? 2 + (i64)r.below(19) : 20 + (i64)r.below(8), N, sd, cen, sp, mr, H, k, lim, 1 })); break;
            default: { i64 b = 2 + (i64)r.below(8); ops.push_back(mkop(c, "constq", { T, b * (1 + (i64)r.below(4)) + (r.chance(300) ? 1 : 0), N, sd, cen, sp, mr, H, k, lim, 2, b })); }
            }
        }
    }
    static void in_range(Ctx &c, const int *q, int n, int k, const char *what) { for (int i = 0; i < n; i++) { c.digi(q[i]); if (q[i] < 1 || q[i] > k) fail(c.prop, "cluster-range", "%s: assignment %d at %d, %d clusters", what, q[i], i, k); } }
    void run(Ctx &c) {
        for (size_t z = 0; z < c.ops.size(); z++) {
            const Op &o = *c.ops[z];
            int H = (int)clampi(o.arg(7), 1, 41) | 1, T = (int)clampi(o.arg(0), std::max(3, H), 300), N = (int)clampi(o.arg(2), 1, 40), k = (int)clampi(o.arg(8), 1, 20), lim = (int)clampi(o.arg(9), 0, 100);
            u64 sd = (u64)o.arg(3); int cen = (int)clampi(o.arg(4), 1, 20), mr = (int)clampi(o.arg(6), 1, 100); double sp = spreads[(u64)o.arg(5) % 6];
            if (o.name == "pause") sleep_ns((u64)clampi(o.arg(0), 0, 10000000) * 1000);
            else if (o.name == "hist" || o.name == "melt") {
                Buf<int> x((size_t)T); Buf<double> h((size_t)(T * N)); VD want((size_t)(T * N), 0.0);
                { NoPreempt np; Rng r(sd); int at = 0; for (int i = 0; i < T; i++) { if (r.below((u64)mr) == 0) at = (int)r.below((u64)N); x.p[i] = r.chance(200) ? (int)r.below((u64)N) : at; } h.fill(-3);
                  for (int i = 0; i < T; i++) { int m = std::min(std::max(i, H / 2), T - H / 2 - 1); double nn = 0; VD b((size_t)N, 0.0); for (int t = m - H / 2; t <= m + H / 2; t++) b[(size_t)x[t]]++; for (int j = 0; j < N; j++) nn += b[j] * b[j]; for (int j = 0; j < N; j++) want[(size_t)(i * N + j)] = b[j] / nn; } }
                { SUT(c); create_histograms(x, T, N, H, h); }
                c.dig(h.p, h.n);
                if (c.model) { NoPreempt np; for (size_t i = 0; i < h.n; i++) if (!close_to(h[i], want[i], 1e-12)) fail(c.prop, "histogram", "histogram of frame %zu, state %zu is %.12g, expected %.12g (window %d, %d frames)", i / (size_t)N, i % (size_t)N, h[i], want[i], H, T); }
                if (o.name == "melt") {
                    Buf<double> bs(20); bs.p[0] = 100; for (int i = 1; i < 20; i++) bs.p[i] = 0.7 * bs[i - 1];
                    { SUT(c); cluster_melt(h, N, T, bs, 20, k, lim, x); }
                    NoPreempt np; in_range(c, x, T, k, "cluster_melt");
                }
            } else if (o.name == "cluster") {
                int L = (int)clampi(o.arg(1), 1, 24); Feat f(T, L, L, sd, cen, sp, mr); Buf<int> q((size_t)T); q.fill(-7);
                { SUT(c); cluster_segment(q, f.x, T, L, N, H, k, lim); }
                NoPreempt np; in_range(c, q, T, k, "cluster_segment");
            } else if (o.name == "constq") {
                int ty = o.arg(10) == 2 ? FEATURE_TYPE_CHROMA : FEATURE_TYPE_CONSTQ, L = (int)clampi(o.arg(1), 2, 80), b = ty == FEATURE_TYPE_CHROMA ? (int)clampi(o.arg(11), 1, L) : 8;
                Feat f(T, L, L + 1, sd, cen, sp, mr); Buf<int> q((size_t)T); q.fill(-7);
                { NoPreempt np; for (int t = 0; t < T; t++) for (int d = 0; d < L; d++) f.x[t][d] = fabs(f.x[t][d]); }
                { SUT(c); constq_segment(q, f.x, T, b, L, ty, N, H, k, lim); }
                NoPreempt np; in_range(c, q, T, k, "constq_segment");
            }
            step_done();
        }
    }
};
static SegCComp segc; static RegComp rsegc(&segc);

// ClusterMeltSegmenter through whole lives, more than one input each
struct SegComp : Comp {
    SegComp() : Comp("segmenter") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 ty = r.chance(400) ? 0 : r.chance(400) ? 3 : 1 + (i64)r.below(2), fs = ty == 1 || ty == 2 ? 1000 + (i64)r.below(1500) : ty == 3 ? 8000 + 1000 * (i64)r.below(3) : 100 + (i64)r.below(44000);
        if (ty == 1 && r.chance(100)) fs = 22050 + (i64)r.below(2000);
        if (ty == 3 && r.chance(200)) fs = 44100 + (i64)r.below(3900);
        i64 hop = 50 + (i64)r.below(300), win = hop + (i64)r.below(400), bins = 3 + (i64)r.below(8), fmin = 80 + (i64)r.below(80), H = 3 + 2 * (i64)r.below(4);
        if (ty == 0) { hop = 1 + (i64)r.below(2000); }
        i64 oct = fmin * (2 << r.below(3));
        ops.push_back(mkop(c, "new", { ty, fs, hop, win, fmin, oct, bins, 2 + (i64)r.below(6), 1 + (i64)r.below(6), H, r.chance(150) ? 0 : 1 + (i64)r.below(20) }));
        int rounds = 1 + (int)r.below(3);
        for (int k = 0; k < rounds; k++) {
            if (k) ops.push_back(mkop(c, "init", { r.chance(500) ? 0 : r.chance(500) ? fs / 2 : std::min((i64)48000, fs + (i64)r.below((u64)fs)) }));   // again, possibly for another rate
            if (ty == 0 || r.chance(150)) {
                int sets = r.chance(200) ? 2 : 1;
                for (int i = 0; i < sets; i++) ops.push_back(mkop(c, "feat", { r.chance(60) ? (i64)r.below((u64)H) : H + (i64)r.below(size ? 60 : 25), 1 + (i64)r.below(5), (i64)(r.next() >> 44), 1 + (i64)r.below(5), (i64)r.below(6), 1 + (i64)r.below(20) }));
            } else {
                int n = (int)H + (int)r.below(size ? 14 : 6); i64 t = (i64)r.below(10), s = (i64)(r.next() >> 44);
                if (r.chance(60)) n = (int)r.below((u64)H);
                for (int i = 0; i < n; i++) { if (r.chance(200)) { t = (i64)r.below(10); s = (i64)(r.next() >> 44); } ops.push_back(mkop(c, "ext", { t, s, r.chance(20) ? 1 : 0 })); }
            }
            if (r.chance(60)) ops.push_back(mkop(c, "clear"));
            if (r.chance(940)) ops.push_back(mkop(c, "seg", { r.chance(400) ? 1 + (i64)r.below(6) : 0, r.chance(350) ? 1 + (i64)(r.next() >> 44) : 0 }));
        }
        if (r.chance(300)) ops.push_back(mkop(c, "again"));
    }
    void run(Ctx &c) {
        ClusterMeltSegmenter *s = 0; ClusterMeltSegmenterParams p; int fs = 1, ty = 0; i64 count = 0, pos = 0; bool live = false, own = false; double hopS = 0.1;
        const Op *nw = 0; struct Fed { int fs; VD v; }; std::vector<Fed> fed; std::vector<VD> feats;   // what the pending frames came from
        for (size_t z = 0; z < c.ops.size(); z++) {
            const Op &o = *c.ops[z];
            bool again = o.name == "again" && nw;
            if ((o.name == "new" && !s) || again) {
                const Op &n = again ? *nw : o; nw = &n;
                { SUT(c); delete s; s = 0; }
                static const feature_types ft[] = { FEATURE_TYPE_UNKNOWN, FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC };
                ty = (int)clampi(n.arg(0), 0, 3); p.featureType = ft[ty]; fs = (int)clampi(n.arg(1), ty == 3 ? 4000 : ty ? 800 : 50, 48000);
                hopS = p.hopSize = (double)clampi(n.arg(2), 1, 5000) / 1000; p.windowSize = (double)clampi(n.arg(3), 20, 5000) / 1000;
                p.fmin = (int)clampi(n.arg(4), 40, 400); p.fmax = (int)clampi(n.arg(5), p.fmin * 2, 16000); p.nbins = (int)clampi(n.arg(6), 2, 24);
                p.nHMMStates = (int)clampi(n.arg(7), 1, 40); p.nclusters = (int)clampi(n.arg(8), 1, 20); p.histogramLength = (int)clampi(n.arg(9), 1, 41) | 1; p.neighbourhoodLimit = (int)clampi(n.arg(10), 0, 60);
                { SUT(c); s = new ClusterMeltSegmenter(p); s->initialise(fs); } count = 0; live = ty != 0; own = false; { NoPreempt np; fed.clear(); feats.clear(); }
            }
            if (!s) { step_done(); continue; }
            if (o.name == "init") { if (o.arg(0)) fs = (int)clampi(o.arg(0), ty == 3 ? 4000 : ty ? 800 : 50, 48000); { SUT(c); s->initialise(fs); } live = ty != 0 && !own; NoPreempt np; if (fed.size()) { Fed f; f.fs = fs; fed.push_back(f); } }
            else if (o.name == "feat") {
                int T = (int)clampi(o.arg(0), 0, 300), L = (int)clampi(o.arg(1), 1, 24); Feat f(T, L, L, (u64)o.arg(2), (int)clampi(o.arg(3), 1, 20), spreads[(u64)o.arg(4) % 6], (int)clampi(o.arg(5), 1, 100));
                std::vector<VD> v; { NoPreempt np; for (int t = 0; t < T; t++) v.push_back(VD(f.x[t], f.x[t] + L)); }
                { SUT(c); s->setFeatures(v); } count = T; own = true; live = false; { NoPreempt np; feats = v; fed.clear(); }
            } else if (o.name == "ext") {
                if (!live) continue;
                int n; { SUT(c); n = s->getWindowsize(); } bool few = o.arg(2) && n > 0; if (few) n--; i64 hop = s->getHopsize(); Buf<double> in((size_t)n), keep((size_t)n);
                { NoPreempt np; Sig g(o.arg(0), o.arg(1)); for (int i = 0; i < n; i++) keep.p[i] = in.p[i] = g.at(pos + i); }
                pos += hop;
                { SUT(c); s->extractFeatures(in, n); } if (!few) { count++; NoPreempt np; Fed f; f.fs = fs; f.v.assign(keep.p, keep.p + n); fed.push_back(f); }
                if (c.model && memcmp(in.p, keep.p, (size_t)n * 8)) fail(c.prop, "input-changed", "extractFeatures modified its input");
            } else if (o.name == "clear") { SUT(c); s->clear(); count = 0; NoPreempt np; fed.clear(); feats.clear(); }
            else if (o.name == "seg") {
                int m = (int)clampi(o.arg(0), 0, 20); u64 pin = c.model && count >= std::max(3, p.histogramLength) ? (u64)o.arg(1) : 0;
                pin_rand(pin);
                { SUT(c); if (m) s->segment(m); else s->segment(); }
                pin_rand(0);
                live = false;
                if (m) p.nclusters = m;
                const Segmentation &g = s->getSegmentation();
                if (count < std::max(3, p.histogramLength)) { if (count >= p.histogramLength) { count = 0; NoPreempt np; fed.clear(); feats.clear(); } step_done(); continue; }   // too little data to segment
                std::string text; { std::ostringstream os; { SUT(c); os << g; } NoPreempt np; text = os.str(); } for (size_t q = 0; q < text.size(); q += 8) c.digi(text[q]);
                if (pin) {   // a new object given the same frames and random numbers divides them in the same way
                    ClusterMeltSegmenter *f; int at = own || fed.empty() ? fs : fed[0].fs;
                    { SUT(c); f = new ClusterMeltSegmenter(p); f->initialise(at); if (own) f->setFeatures(feats); }
                    if (!own) for (size_t i = 0; i < fed.size(); i++) { SUT(c); if (fed[i].v.empty()) f->initialise(at = fed[i].fs); else f->extractFeatures(fed[i].v.data(), (int)fed[i].v.size()); }
                    pin_rand(pin); { SUT(c); f->segment(); } pin_rand(0);
                    std::string ft; { std::ostringstream os; { SUT(c); os << f->getSegmentation(); } NoPreempt np; ft = os.str(); }
                    if (ft != text) fail(c.prop, "history", "segmenting %lld frames with a used object gives another result than with a new one", (long long)count);
                    PROBE(seg_fresh); { SUT(c); delete f; }
                }
                NoPreempt np; fed.clear(); feats.clear(); PROBE(seg_done); i64 hop = s->getHopsize(), at = 0;
                c.digi((i64)g.segments.size()); c.digi(g.nsegtypes); c.digi(g.samplerate);
                for (size_t i = 0; i < g.segments.size(); i++) { c.digi(g.segments[i].start); c.digi(g.segments[i].end); c.digi(g.segments[i].type); }
                if (c.model) {
                    i64 wh = (i64)(hopS * fs + 0.001);
                    if (hop != wh) fail(c.prop, "hop", "getHopsize %lld, expected %lld", (long long)hop, (long long)wh);
                    if (g.segments.size() > 1) PROBE(seg_many);
                    if (g.nsegtypes != p.nclusters || s->getNSegmentTypes() != p.nclusters) fail(c.prop, "segment-types", "segmentation announces %d types, asked for %d", g.nsegtypes, p.nclusters);
                    if (g.samplerate != fs) fail(c.prop, "segment-rate", "segmentation sample rate %d, initialised with %d", g.samplerate, fs);
                    for (size_t i = 0; i < g.segments.size(); i++) {
                        const Segment &e = g.segments[i];
                        if (e.start != at || e.end < e.start || (hop && e.end == e.start)) fail(c.prop, "tiling", "segment %zu is %d..%d, expected to start at %lld", i, e.start, e.end, (long long)at);
                        if (e.type < 1 || e.type > p.nclusters) fail(c.prop, "segment-type", "segment %zu has type %d of %d", i, e.type, p.nclusters);
                        if (i && e.type == g.segments[i - 1].type) fail(c.prop, "segment-merge", "segments %zu and %zu both have type %d", i - 1, i, e.type);
                        if (hop && (e.end - e.start) % hop) fail(c.prop, "tiling", "segment %zu (%d..%d) is not a whole number of hops of %lld", i, e.start, e.end, (long long)hop);
                        at = e.end;
                    }
                    if (at != count * hop) fail(c.prop, "tiling", "%lld frames of hop %lld, but segments end at %lld", (long long)count, (long long)hop, (long long)at);
                }
                count = 0;
            }
            step_done();
        }
        { SUT(c); delete s; }
    }
};
static SegComp seg_; static RegComp rseg(&seg_);

// =============================================================== linear algebra and feature helpers
struct Rows { int n; double **p; Rows(int n_, int m, const double *v) : n(n_), p((double **)malloc(sizeof(double *) * (size_t)n_)) { for (int i = 0; i < n; i++) { p[i] = (double *)malloc(sizeof(double) * (size_t)m); for (int j = 0; j < m; j++) p[i][j] = v ? v[i * m + j] : (double)(i64)(junk_salt() >> 44) - 500000.0; } } ~Rows() { for (int i = 0; i < n; i++) free(p[i]); free(p); } };
struct MatAna : Ana {
    int n, m;
    MatAna(int n_, int m_) : n(n_), m(m_) {}
    int f(const Op &o) const { return (int)((u64)o.arg(6) % 6); }
    size_t inlen(const Op &o) const { return (size_t)(f(o) == 1 ? n * n : f(o) == 2 ? n * n + 2 * n : f(o) == 3 ? 3 * n * m : n * m); }
    // a well-conditioned symmetric matrix from arbitrary values
    static void spd(const double *in, int n, VD &a) { a.assign((size_t)(n * n), 0.0); double big = 1e-300; for (int i = 0; i < n * n; i++) big = std::max(big, fabs(in[i])); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = i == j ? 0.5 : 0; for (int k = 0; k < n; k++) s += in[i * n + k] * in[j * n + k] / (big * big * n); a[(size_t)(i * n + j)] = s; } }
    static void put(VD &out, double **p, int n, int m) { for (int i = 0; i < n; i++) out.insert(out.end(), p[i], p[i] + m); }
    void go(const Op &o, double *in, size_t, VD &out) {
        switch (f(o)) {
        case 0: { int k = 1 + (int)((u64)o.arg(7) % (u64)m); Rows r(n, m, in); pca_project(r.p, n, m, k); put(out, r.p, n, k); break; }
        case 1: { VD a; spd(in, n, a); Rows c(n, n, a.data()), ic(n, n, 0); double det = (double)(i64)(junk_salt() >> 44); invert(c.p, n, ic.p, &det); out.push_back(det); put(out, ic.p, n, n); put(out, c.p, n, n); break; }
        case 2: { VD a; spd(in, n, a); Rows ic(n, n, a.data()); Buf<double> y((size_t)n), z((size_t)n); out.push_back(gauss(in + n * n, n, in + n * n + n, ic.p, 0.7, y, z)); out.push_back(loggauss(in + n * n, n, in + n * n + n, ic.p, 0.7, y, z)); break; }
        case 3: { Buf<double> c((size_t)(n * n)); for (int i = 0; i < n * n; i++) c.p[i] = in[2 * n * m + i % (n * m)]; cblas_gemm(in, in + n * m, c.p, (int)((u64)o.arg(7) % 3)); out.insert(out.end(), c.p, c.p + n * n); break; }
        case 4: { int b = 1 + (int)((u64)o.arg(7) % (u64)m); Rows r(n, m, in), ch(n, b, 0); cq2chroma(r.p, n, m, b, ch.p); put(out, ch.p, n, b); break; }
        default: { VD v; for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) v.push_back(fabs(in[i * m + j])); v.push_back(0); } Rows r(n, m + 1, v.data()); mpeg7_constq(r.p, n, m); put(out, r.p, n, m + 1); }
        }
    }
    void cblas_gemm(const double *a, const double *b, double *c, int mode);
    bool expect(const Op &o, const double *in, size_t, VD &w, double &tol) {
        double big = 0; for (size_t i = 0; i < inlen(o); i++) big = std::max(big, fabs(in[i]));
        switch (f(o)) {
        case 1: { VD a; spd(in, n, a); std::vector<double *> r; for (int i = 0; i < n; i++) r.push_back(&a[(size_t)(i * n)]); std::vector<VD> inv; double ld; if (!HmmComp::inverse(r.data(), n, inv, ld)) return false; w.assign(1, exp(ld)); for (int i = 0; i < n; i++) w.insert(w.end(), inv[i].begin(), inv[i].end()); w.insert(w.end(), a.begin(), a.end()); tol = 1e-8 * (1 + exp(ld)); return true; }
        case 3: { int mode = (int)((u64)o.arg(7) % 3); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double s = mode == 2 ? in[2 * n * m + (j * n + i) % (n * m)] : 0; for (int k = 0; k < m; k++) s += (mode == 1 ? 2.0 : 1.0) * in[i * m + k] * in[n * m + j * m + k]; w.push_back(s); } tol = 1e-12 * big * big * m + 1e-12 * big; return true; }
        case 4: { int b = 1 + (int)((u64)o.arg(7) % (u64)m); for (int t = 0; t < n; t++) for (int k = 0; k < b; k++) { double s = 0; for (int q = 0; q < m / b; q++) s += fabs(in[t * m + q * b + k]); w.push_back(s); } tol = 1e-12 * big * m; return true; }
        default: return false;
        }
    }
};
extern "C" { enum CO { CoRow = 101, CoCol = 102 }; enum CT { CtNo = 111, CtT = 112 }; void cblas_dgemm(const enum CO, const enum CT, const enum CT, const int, const int, const int, const double, const double *, const int, const double *, const int, const double, double *, const int); }
// c (n x n, column major) = scale * a' b with a, b m x n column major
void MatAna::cblas_gemm(const double *a, const double *b, double *c, int mode) { cblas_dgemm(CoCol, CtT, CtNo, n, n, m, mode == 1 ? 2.0 : 1.0, a, m, b, m, mode == 2 ? 1.0 : 0.0, c, n); }
struct MatComp : AnaComp {
    MatComp() : AnaComp("matrix") {}
    bool poison_ok() const { return false; }
    std::vector<i64> config(Rng &r, int size) { std::vector<i64> v; bool big = size && r.chance(40); v.push_back(big ? 60 + (i64)r.below(12) : 1 + (i64)r.below(size ? 20 : 8)); v.push_back(big ? 2 : 1 + (i64)r.below(size ? 24 : 9)); return v; }
    std::vector<i64> call(Rng &r, const std::vector<i64> &, int) { std::vector<i64> v; v.push_back((i64)r.below(6)); v.push_back((i64)r.below(100)); return v; }
    void limit(std::vector<i64> &c) { c[0] = clampi(c[0], 2, 72); c[1] = clampi(c[1], 1, 40); }
    Ana *make(const std::vector<i64> &c) { return new MatAna((int)c[0], (int)c[1]); }
};
static MatComp mat_; static RegComp rmat(&mat_);
}

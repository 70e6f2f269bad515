// Components: one class per part of the library. Each simulated client drives one component
// through a seeded history of calls; digests of everything it returns are recorded, and
// (where Ctx::model is on) compared with a reference model.
#ifndef QMSIM_COMP_H
#define QMSIM_COMP_H
#include "rt.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>

namespace sim {

struct Sig {   // test signals: pure functions of (type, seed, index)
    int type; u64 seed;
    Sig(i64 t = 0, i64 s = 0) : type((int)((u64)t % 10)), seed((u64)s) {}
    static double noise(u64 seed, i64 i) { u64 z = mix(mix(0x51, seed), (u64)i); return (double)(i64)(z >> 11) * (2.0 / 9007199254740992.0) - 1.0; }
    static i64 hostile;        // every hostile-th value or so is replaced by an awkward one (0: never)
    double at(i64 i) const {
        if (hostile) { u64 h = mix(mix(0x4057, seed), (u64)i); if (h % (u64)hostile == 0) { static const double odd[] = { NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e-310, 4e9, -1e18 }; return odd[(h >> 40) & 7]; } }
        double f = 0.002 + 0.2 * (double)(mix(3, seed) % 1000) / 1000.0;
        switch (type) {
        case 0: return noise(seed, i);
        case 1: return 0.8 * sin(2 * M_PI * f * (double)i);
        case 2: return (i % (i64)(5 + seed % 200)) == (i64)(seed % 5) ? 1.0 : 0.0;
        case 3: return 0.0;
        case 4: return 0.5 * sin(2 * M_PI * f * (double)i) + 0.3 * noise(seed, i);
        case 5: return 0.7;
        case 6: return 1e-7 * noise(seed, i);
        case 7: { i64 b = i / (i64)(40 + seed % 400); return (mix(seed, (u64)b) & 3) ? 0.9 * noise(seed, i) : 0.0; }
        case 8: return 0.5 * sin(2 * M_PI * f * (double)i) + 0.3 * sin(2 * M_PI * f * 1.5 * (double)i) + 0.2 * sin(2 * M_PI * f * 2.0 * (double)i);
        default: return (i % (i64)(30 + seed % 300)) < 6 ? noise(seed, i) : 0.02 * noise(seed + 1, i);
        }
    }
    static const char *describe(int t);
};

// exact-size heap buffer: anything outside it is caught by the shadow memory. What it holds
// before it is written differs from buffer to buffer and from variant to variant, so a result
// the library leaves unwritten is never mistaken for one it wrote.
u64 junk_salt();
template <class T> struct Buf {
    T *p; size_t n;
    explicit Buf(size_t n_ = 0) : p((T *)malloc(n_ * sizeof(T))), n(n_) { u64 s = junk_salt(); for (size_t i = 0; i < n; i++) p[i] = (T)(i64)((mix(s, i) >> 20) % 2000) - (T)1000; }
    ~Buf() { free(p); }
    operator T *() const { return p; }
    void fill(T v) { for (size_t i = 0; i < n; i++) p[i] = v; }
private:
    Buf(const Buf &); Buf &operator=(const Buf &);
};
static inline void fill_sig(double *p, size_t n, const Sig &s, i64 from) { for (size_t i = 0; i < n; i++) p[i] = s.at(from + (i64)i); }

struct Ctx {
    const Plan *p; int client; bool model;
    std::vector<const Op *> ops;
    const char *prop;          // property the reference models report against
    static double canon(double v) { return v == 0 ? 0.0 : v != v ? NAN : v; }
    void dig(double v) { digest_d(client, canon(v)); }
    void dig(const double *v, size_t n) { u64 h = 1; for (size_t i = 0; i < n; i++) h = mix(h, dbits(canon(v[i]))); digest(client, h); }
    void digv(const std::vector<double> &v) { digest(client, v.size()); dig(v.data(), v.size()); }
    void digi(i64 v) { digest(client, (u64)v); }
};
// run code under test attributed to this client
#define SUT(c) ::sim::Sut sut_scope_((c).client + 1)

struct Comp {
    const char *name;
    Comp(const char *n) : name(n) {}
    virtual ~Comp() {}
    virtual void gen(Rng &r, std::vector<Op> &ops, int client, int size) = 0; // size 0 small, 1 ordinary, 2 large, 3 as large as in practice
    virtual void run(Ctx &c) = 0;
};
// how many operations: now and then a history many times longer than usual
extern int long_run;   // > 0: a run of many calls on small objects, this many times as many as usual and seldom interrupted by a reset
static inline int many(Rng &r, int n, int times = 8) { bool m = r.chance(30); return long_run ? n * long_run : m ? n * times : n; }
static inline bool interrupt(Rng &r, int permille) { return r.chance(long_run ? (permille + 19) / 20 : permille); }
// the sizes hosts use in practice, for the rare runs of size 3
static inline i64 real_size(Rng &r) { static const i64 s[] = { 256, 441, 512, 512, 1000, 1024, 1024, 1024, 1200, 2048 }; return s[r.below(10)]; }
std::vector<Comp *> &comps();
struct RegComp { RegComp(Comp *c) { comps().push_back(c); } };
Comp *find_comp(const std::string &n);

static inline Op mkop(int client, const char *name, std::vector<i64> a = std::vector<i64>()) { Op o; o.client = client; o.name = name; o.a = a; return o; }
static inline i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
static inline bool close_to(double a, double b, double tol) { return a == b || fabs(a - b) <= tol || (a != a && b != b); }
// after every operation: counts it and lets other threads in
extern void (*on_step)();   // a world watching single steps
static inline void step_done() { op_done(); if (on_step) on_step(); env_step(); point(); }
static inline double wrap_pi(double x) { x = fmod(x, 2 * M_PI); if (x >= M_PI) x -= 2 * M_PI; if (x < -M_PI) x += 2 * M_PI; return x; }
// plain discrete Fourier transform, bins 0..bins-1 (the reference for every spectrum)
struct Dft {
    size_t n; std::vector<double> c, s;
    explicit Dft(size_t n_) : n(n_), c(n_), s(n_) { for (size_t i = 0; i < n; i++) { c[i] = cos(2 * M_PI * (double)i / (double)n); s[i] = sin(2 * M_PI * (double)i / (double)n); } }
    void run(const double *re, const double *im, bool inv, size_t bins, std::vector<double> &R, std::vector<double> &I) const {
        R.assign(bins, 0); I.assign(bins, 0);
        for (size_t k = 0; k < bins; k++) { double a = 0, b = 0; size_t ix = 0;
            for (size_t i = 0; i < n; i++) { double cc = c[ix], ss = inv ? s[ix] : -s[ix]; a += re[i] * cc - (im ? im[i] * ss : 0); b += re[i] * ss + (im ? im[i] * cc : 0); ix += k; if (ix >= n) ix -= n; }
            R[k] = a; I[k] = b; }
    }
};
static inline double max_abs(const std::vector<double> &v) { double m = 0; for (size_t i = 0; i < v.size(); i++) if (fabs(v[i]) > m) m = fabs(v[i]); return m; }

// A per-call analyser: one object, stateless (or restartable) calls. AnaComp checks each call
// against a fresh object, an independent definition where there is one, and an equivalent entry.
struct Ana {
    virtual ~Ana() {}
    virtual size_t inlen(const Op &o) const = 0;               // input values this call takes
    virtual void go(const Op &o, double *in, size_t n, std::vector<double> &out) = 0;
    virtual bool expect(const Op &, const double *, size_t, std::vector<double> &, double &) { return false; }
    virtual bool alt(const Op &, const double *, size_t, std::vector<double> &, double &) { return false; }
    virtual bool may_write_input(const Op &) const { return false; }
};
struct AnaComp : Comp {
    AnaComp(const char *n) : Comp(n) {}
    virtual std::vector<i64> config(Rng &r, int size) = 0;
    virtual std::vector<i64> call(Rng &r, const std::vector<i64> &cfg, int size) = 0;   // extra args after the 6 standard ones
    virtual Ana *make(const std::vector<i64> &cfg) = 0;
    virtual bool poison_ok() const { return true; }
    virtual int calls(int size) const { return size ? 12 : 7; }
    virtual void limit(std::vector<i64> &cfg) = 0;             // force a configuration (as minimised) into its legal range
    void gen(Rng &r, std::vector<Op> &ops, int client, int size);
    void run(Ctx &c);
};
} // namespace sim
#endif

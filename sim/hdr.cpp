// Components that are header-only code under test. Instrumented.
#include "comp.h"
#include <vector>
#include <map>
#include <new>
#include <algorithm>
#include "thread/BlockAllocator.h"
#include "maths/MedianFilter.h"
#include "base/Window.h"
#include <iostream>
#include <sstream>
#include <iomanip>
#include <cmath>
namespace pf {
#include "maths/Polyfit.h"
}
#include "thread/Thread.h"
#include "thread/AsynchronousTask.h"
#include "dsp/transforms/FFT.h"
#include "dsp/rateconversion/Resampler.h"
using namespace sim;

namespace {
// =============================================================== BlockAllocator (C09)
struct Elem { char *p; u64 serial; };
struct BAComp : Comp {
    BAComp() : Comp("blockallocator") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        static const i64 szs[] = { 1, 2, 4, 7, 8, 9, 12, 16, 17, 24, 32, 40, 64, 100, 136 };
        i64 sz = szs[r.below(15)];
        bool big = size >= 2 && r.chance(40);
        ops.push_back(mkop(c, "new", { sz, r.chance(300) ? 1 : 0 }));
        if (big) {
            if (r.chance(600)) { // memory is out just when the table of blocks has to grow
                ops.push_back(mkop(c, "alloc", { 512 * 1024 - (i64)r.below(4) }));
                ops.push_back(mkop(c, "outage", { 4 + (i64)r.below(r.chance(500) ? 4 : 600) }));
                ops.push_back(mkop(c, "alloc", { 1 + (i64)r.below(1200) }));
            } else ops.push_back(mkop(c, "alloc", { 512 * (1020 + (i64)r.below(10)) + (i64)r.below(600) }));
            ops.push_back(mkop(c, "freerand", { (i64)r.below(3000), (i64)r.next() >> 20 }));
            ops.push_back(mkop(c, "alloc", { (i64)r.below(3000) }));
            return;
        }
        if (size >= 1 && r.chance(size >= 2 ? 60 : 15)) { // many blocks, thinned out and refilled over and over
            sz = 1 + (i64)r.below(24); ops.back().a[0] = sz;
            i64 blocks = 30 + (i64)r.below(r.chance(300) ? 330 : 60);
            ops.push_back(mkop(c, "alloc", { 512 * blocks + (i64)r.below(512) }));
            i64 stride = r.chance(400) ? 512 : r.chance(600) ? 2 + (i64)r.below(3) : 1 + (i64)r.below(1500), rounds = 1 + (i64)r.below(12);
            for (i64 i = 0; i < rounds; i++) { int how = (int)r.below(4);
                if (how == 0) ops.push_back(mkop(c, "freelast", { 512 * (i64)r.below((u64)blocks) }));
                else if (how == 1) ops.push_back(mkop(c, "freerand", { (i64)r.below(20000), (i64)(r.next() >> 20) }));
                else ops.push_back(mkop(c, "freestride", { stride, (i64)r.below(512) }));
                ops.push_back(mkop(c, "refill", { 0 })); }
            return;
        }
        int n = 2 + (int)r.below(size ? 16 : 7);
        static const char *nm[] = { "alloc", "freelast", "freefirst", "freerand", "freeall", "null", "reborn" };
        static const int w[] = { 40, 12, 12, 20, 8, 3, 2 };
        for (int i = 0; i < n; i++) {
            if (r.chance(20)) ops.push_back(mkop(c, "outage", { 1 + (i64)r.below(1200) }));
            int x = (int)r.below(97), j = 0; while (x >= w[j]) x -= w[j++];
            i64 k; switch (r.below(5)) { case 0: k = 1 + (i64)r.below(4); break; case 1: k = 511 + (i64)r.below(3); break; case 2: k = (i64)r.below(100); break; case 3: k = 1000 + (i64)r.below(80); break; default: k = (i64)r.below(size ? 1800 : 600); }
            ops.push_back(mkop(c, nm[j], { k, (i64)(r.next() >> 20) }));
        }
    }
    static void put(Elem &e, int sz) { u64 s = mix(5, e.serial); for (int i = 0; i < sz; i++) { if (i % 8 == 0) s = mix(s, i); e.p[i] = (char)(s >> (8 * (i % 8))); } }
    static bool same(const Elem &e, int sz) { u64 s = mix(5, e.serial); for (int i = 0; i < sz; i++) { if (i % 8 == 0) s = mix(s, i); if (e.p[i] != (char)(s >> (8 * (i % 8)))) return false; } return true; }
    struct St { BlockAllocator *b; int sz; bool fault; std::vector<Elem> live; std::map<char *, u64> idx; u64 serial; u64 peak; };
    static void add(Ctx &c, St &s, char *p, bool big) {
        NoPreempt np;
        if (!p) fail(c.prop, "null-element", "allocate() returned null");
        if ((u64)p % sizeof(void *)) fail(c.prop, "misaligned", "element at %p is not word-aligned", (void *)p);
        Elem e; e.p = p; e.serial = ++s.serial;
        if (!big) {
            std::map<char *, u64>::iterator n = s.idx.lower_bound(p);
            if (n != s.idx.end() && n->first < p + s.sz) fail(c.prop, "overlap", "a new element of %d bytes overlaps a live one (%d bytes further on)", s.sz, (int)(n->first - p));
            if (n != s.idx.begin()) { --n; if (n->first + s.sz > p) fail(c.prop, "overlap", "a new element of %d bytes overlaps a live one (%d bytes before)", s.sz, (int)(p - n->first)); }
            s.idx[p] = e.serial;
        }
        s.live.push_back(e);
        if (s.live.size() > s.peak) s.peak = s.live.size();
    }
    static void verify(Ctx &c, St &s, size_t i) { if (!same(s.live[i], s.sz)) fail(c.prop, "contents", "a live element of %d bytes lost its contents", s.sz); }
    static void drop(Ctx &c, St &s, size_t i, bool big) {
        verify(c, s, i);
        char *p; { NoPreempt np; p = s.live[i].p; if (!big) s.idx.erase(p); s.live[i] = s.live.back(); s.live.pop_back(); }
        { SUT(c); s.b->deallocate(p); }
    }
    void run(Ctx &c) {
        St s; s.b = 0; s.serial = 0; s.peak = 0; s.sz = 1; s.fault = false;
        bool big = false; int nfail = 0;
        for (size_t q = 0; q < c.ops.size(); q++) if (c.ops[q]->arg(0) > 12000) big = true;
        HeapStat base = heap_live(c.client + 1);
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !s.b) { s.sz = (int)clampi(o.arg(0), 1, 4096); s.fault = o.arg(1) != 0; SUT(c); s.b = new BlockAllocator(s.sz); }
            if (!s.b) continue;
            i64 k = clampi(o.arg(0), 0, 600000);
            if (o.name == "refill") k = (i64)(s.peak > s.live.size() ? s.peak - s.live.size() : 0);
            if (o.name == "alloc" || o.name == "refill") {
                for (i64 i = 0; i < k; i++) {
                    char *p = 0; bool threw = false;
                    alloc_fault(s.fault ? 1 : 0);
                    try { SUT(c); p = (char *)s.b->allocate(); } catch (std::bad_alloc &) { threw = true; }
                    alloc_fault(0);
                    if (threw) { NoPreempt np; PROBE(ba_alloc_failed); if (++nfail > 400) s.fault = false; continue; }
                    add(c, s, p, big);
                    if (big) { NoPreempt np; put(s.live.back(), s.sz); } else put(s.live.back(), s.sz);
                }
            } else if (o.name == "outage") { // memory is out for many calls in a row: those that need none still succeed
                for (i64 i = 0; i < clampi(k, 0, 2000); i++) { char *p = 0; alloc_fault(2); try { SUT(c); p = (char *)s.b->allocate(); } catch (std::bad_alloc &) {} alloc_fault(0); if (p) { add(c, s, p, big); put(s.live.back(), s.sz); } else PROBE(ba_alloc_failed); }
            } else if (o.name == "freestride") { size_t st = (size_t)clampi(k, 1, 100000); for (size_t i = (size_t)clampi(o.arg(1), 0, 100000); i < s.live.size(); i += st) drop(c, s, i, big); }
            else if (o.name == "freelast") { for (i64 i = 0; i < k && !s.live.empty(); i++) drop(c, s, s.live.size() - 1, big); }
            else if (o.name == "freefirst") { for (i64 i = 0; i < k && (size_t)i < s.live.size(); i++) drop(c, s, (size_t)i, big); }
            else if (o.name == "freerand") { Rng r((u64)o.arg(1)); for (i64 i = 0; i < k && !s.live.empty(); i++) drop(c, s, r.below(s.live.size()), big); }
            else if (o.name == "freeall") { if (!s.live.empty() && s.live.size() > 512) PROBE(ba_block_released); while (!s.live.empty()) drop(c, s, 0, big); }
            else if (o.name == "null") { SUT(c); s.b->deallocate(0); }
            else if (o.name == "reborn") { destroy(c, s, base); s.live.clear(); s.idx.clear(); s.peak = 0; SUT(c); s.b = new BlockAllocator(s.sz); }
            for (size_t i = 0; i < s.live.size(); i += big ? 64 : 1) { NoPreempt np; verify(c, s, i); }
            if (big) { // overlap check by sorting
                NoPreempt np; std::vector<char *> v; for (size_t i = 0; i < s.live.size(); i++) v.push_back(s.live[i].p);
                std::sort(v.begin(), v.end());
                for (size_t i = 1; i < v.size(); i++) if (v[i - 1] + s.sz > v[i]) fail(c.prop, "overlap", "two live elements overlap");
                if (s.live.size() > 1024 * 512) PROBE(ba_many_blocks);
            }
            { NoPreempt np; HeapStat h = heap_live(c.client + 1); u64 unit = (s.sz + 7) / 8 * 8 + 16;
              if (h.bytes - base.bytes > 2 * (s.peak + 1024) * unit + s.peak / 2 + 150000) fail(c.prop, "not-reused", "%llu bytes in use for at most %llu live elements of %d bytes", (unsigned long long)(h.bytes - base.bytes), (unsigned long long)s.peak, s.sz); }
            c.digi((i64)s.live.size());
            step_done();
        }
        if (s.b) destroy(c, s, base);
    }
    static void destroy(Ctx &c, St &s, HeapStat base) {
        for (size_t i = 0; i < s.live.size(); i++) { NoPreempt np; verify(c, s, i); }
        { SUT(c); delete s.b; } s.b = 0;
        HeapStat h = heap_live(c.client + 1);
        if (h.blocks != base.blocks) fail(c.prop, "not-released", "%llu block(s), %llu bytes still allocated after the allocator was destroyed", (unsigned long long)(h.blocks - base.blocks), (unsigned long long)(h.bytes - base.bytes));
    }
};
static BAComp ba; static RegComp rba(&ba);

// =============================================================== MedianFilter (C17)
template <class T> struct MedRun {
    static T val(i64 v, u64 salt) {
        switch ((u64)v % 12) {
        case 0: return T(0); case 1: return T(1); case 2: return T(-1); case 3: return T(5);
        case 4: if (sizeof(T) >= 4 && T(0.5) != T(0)) return std::numeric_limits<T>::infinity(); return T(1000000);
        case 5: if (T(0.5) != T(0)) return -std::numeric_limits<T>::infinity(); return T(-1000000);
        case 6: if (T(0.5) != T(0)) return std::numeric_limits<T>::quiet_NaN(); return T(3);
        case 7: return T(-0.0);
        case 8: return T((i64)(salt % 7) - 3);
        default: return T(Sig::noise(salt, v) * 100);
        }
    }
    static void check(Ctx &c, const std::vector<T> &last, int size, float pc, T got, const char *what) {
        if (!c.model) return;
        NoPreempt np;
        std::vector<T> s(last.end() - size, last.end()); std::sort(s.begin(), s.end());
        int ix = int((size * pc) / 100.f); if (ix >= size) ix = size - 1; if (ix < 0) ix = 0;
        if (!(s[ix] == got)) fail(c.prop, "wrong-percentile", "%s: size %d percentile %g gives %g, expected %g after %zu pushes", what, size, (double)pc, (double)got, (double)s[ix], last.size() - size);
    }
    static void run(Ctx &c) {
        MedianFilter<T> *m = 0; int size = 1; float pc = 50.f; std::vector<T> last;
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q];
            if (o.name == "new" && !m) { size = (int)clampi(o.arg(0), 1, 200); pc = (float)o.arg(1) / 4.f; SUT(c); if (o.arg(3)) m = new MedianFilter<T>(size), pc = 50.f; else m = new MedianFilter<T>(size, pc); NoPreempt np; last.assign(size, T(0)); }
            if (!m) continue;
            if (o.name == "push") {
                for (i64 i = 0; i < clampi(o.arg(0), 0, 400); i++) {
                    T v = val(o.arg(2) ? o.arg(2) + i * (o.arg(3) ? 1 : 0) : (i64)(mix((u64)o.arg(1), (u64)i) >> 8), (u64)o.arg(1));
                    { SUT(c); m->push(v); }
                    { NoPreempt np; last.push_back(v != v ? T(0) : v); if (v != v) PROBE(median_nan); }
                    T g; { SUT(c); g = m->get(); }
                    check(c, last, size, pc, g, "get()"); NoPreempt np; c.dig((double)g);
                }
            } else if (o.name == "get") { T g; { SUT(c); g = m->get(); } check(c, last, size, pc, g, "get()"); c.dig((double)g); }
            else if (o.name == "getat") { float p = (float)o.arg(0) / 4.f; T g; { SUT(c); g = m->getAt(p); } check(c, last, size, p, g, "getAt()"); c.dig((double)g); SUT(c); if (m->getSize() != size) fail(c.prop, "size", "getSize() changed"); }
            else if (o.name == "setp") { pc = (float)o.arg(0) / 4.f; { SUT(c); m->setPercentile(pc); } T g; { SUT(c); g = m->get(); } check(c, last, size, pc, g, "get() after setPercentile"); c.dig((double)g); }
            else if (o.name == "reset") { PROBE(reset_mid_stream); { SUT(c); m->reset(); } { NoPreempt np; last.assign(size, T(0)); } T g; { SUT(c); g = m->get(); } check(c, last, size, pc, g, "get() after reset"); c.dig((double)g); }
            else if (o.name == "filter") {
                int fs = (int)clampi(o.arg(0), 1, 60); size_t n = (size_t)clampi(o.arg(1), 0, 300); std::vector<T> in(n), out;
                { NoPreempt np; for (size_t i = 0; i < n; i++) in[i] = val((i64)(mix((u64)o.arg(2), i) >> 8), (u64)o.arg(2)); }
                { SUT(c); out = MedianFilter<T>::filter(fs, in); }
                NoPreempt np;
                for (size_t i = 0; i < out.size(); i++) c.dig((double)out[i]);
                if (c.model) {
                    if (out.size() != n) fail(c.prop, "filter-length", "filter() of %zu values returned %zu", n, out.size());
                    for (size_t j = 0; j < n; j++) {
                        std::vector<T> w; for (i64 k = (i64)j + fs / 2 - fs + 1; k <= (i64)j + fs / 2; k++) { T v = k >= 0 && k < (i64)n ? in[k] : T(0); w.push_back(v != v ? T(0) : v); }
                        std::sort(w.begin(), w.end()); int ix = int((fs * 50.f) / 100.f); if (ix >= fs) ix = fs - 1;
                        if (!(w[ix] == out[j])) fail(c.prop, "filter-value", "filter(size %d) of %zu values: element %zu is %g, expected %g", fs, n, j, (double)out[j], (double)w[ix]);
                    }
                }
            }
            step_done();
        }
        if (m) { SUT(c); delete m; }
    }
};
struct MedComp : Comp {
    MedComp() : Comp("medianfilter") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        i64 sz; switch (r.below(4)) { case 0: sz = 1 + (i64)r.below(3); break; case 1: sz = 1 + (i64)r.below(10); break; default: sz = 1 + (i64)r.below(40); }
        static const i64 pcs[] = { 200, 0, 400, 1, 399, 100, 300, 220, -40, 480 };
        ops.push_back(mkop(c, "new", { sz, r.chance(600) ? pcs[r.below(10)] : (i64)r.below(400), (i64)r.below(3), r.chance(200) ? 1 : 0 }));
        int n = many(r, 2 + (int)r.below(size ? 14 : 7), 1);
        for (int i = 0; i < n; i++) {
            u64 x = r.below(100);
            if (x < 52) ops.push_back(mkop(c, "push", { r.chance(300) ? 1 : (i64)r.below(3 * (u64)sz + 3), (i64)(r.next() >> 40), r.chance(300) ? 1 + (i64)r.below(30) : 0, (i64)r.below(2) }));
            else if (x < 60) ops.push_back(mkop(c, "get"));
            else if (x < 72) ops.push_back(mkop(c, "getat", { r.chance(500) ? pcs[r.below(10)] : (i64)r.below(400) }));
            else if (x < 84) ops.push_back(mkop(c, "setp", { r.chance(500) ? pcs[r.below(10)] : (i64)r.below(400) }));
            else if (x < 91) { if (!long_run || r.chance(100)) ops.push_back(mkop(c, "reset")); }
            else ops.push_back(mkop(c, "filter", { 1 + (i64)r.below(20), (i64)r.below(size ? 60 : 20), (i64)(r.next() >> 40) }));
        }
    }
    void run(Ctx &c) {
        int t = 0; for (size_t i = 0; i < c.ops.size(); i++) if (c.ops[i]->name == "new") { t = (int)((u64)c.ops[i]->arg(2) % 3); break; }
        if (t == 0) MedRun<double>::run(c); else if (t == 1) MedRun<float>::run(c); else MedRun<int>::run(c);
    }
};
static MedComp med; static RegComp rmed(&med);

// =============================================================== polynomial fit
struct PolyAna : Ana {
    size_t inlen(const Op &o) const { return 8 + (size_t)((u64)o.arg(7) % 40); }
    void go(const Op &o, double *in, size_t n, std::vector<double> &out) {
        std::vector<double> x, y(in, in + n), c(2 + (size_t)((u64)o.arg(6) % 3), -3.0); for (size_t i = 0; i < n; i++) x.push_back((double)i * 0.25);
        out.push_back(pf::TPolyFit::PolyFit2(x, y, c)); out.insert(out.end(), c.begin(), c.end());
    }
};
struct PolyComp : AnaComp {
    PolyComp() : AnaComp("polyfit") {}
    bool poison_ok() const { return false; }
    std::vector<i64> config(Rng &, int) { return std::vector<i64>(1, 0); }
    std::vector<i64> call(Rng &r, const std::vector<i64> &, int) { std::vector<i64> v; v.push_back((i64)r.below(3)); v.push_back((i64)r.below(40)); return v; }
    void limit(std::vector<i64> &) {}
    Ana *make(const std::vector<i64> &) { return new PolyAna; }
};
static PolyComp poly; static RegComp rpoly(&poly);

// =============================================================== thread objects doing library work
class FftTask : public AsynchronousTask {
public:
    FftTask(int n) : m_n(n), m_f(n), m_in(n), m_re(n), m_im(n) {}
    virtual ~FftTask() {}
    void request(i64 type, i64 seed) { { NoPreempt np; Sig s(type, seed); for (int i = 0; i < m_n; i++) m_in[i] = s.at(i); } startTask(); }
    void obtain(Ctx &c) { awaitTask(); c.dig(m_re.data(), m_re.size()); c.dig(m_im.data(), m_im.size()); }
protected:
    virtual void performTask() { m_f.forward(m_in.data(), m_re.data(), m_im.data()); }
    int m_n; FFTReal m_f; std::vector<double> m_in, m_re, m_im;
};
class ResThread : public Thread {
public:
    ResThread(i64 n, i64 seed) : m_n(n), m_seed(seed) {}
    virtual ~ResThread() { wait(); }   // a subclass has to wait before its run() goes away
    std::vector<double> out;
protected:
    virtual void run() { std::vector<double> in; { NoPreempt np; Sig s(0, m_seed); for (i64 i = 0; i < m_n; i++) in.push_back(s.at(i)); } out = Resampler::resample(3, 2, in.data(), (int)m_n); }
    i64 m_n, m_seed;
};
struct ThreadComp : Comp {
    ThreadComp() : Comp("threadobjs") {}
    void gen(Rng &r, std::vector<Op> &ops, int c, int size) {
        int n = 2 + (int)r.below(size ? 14 : 8), threads = 9;      // the simulator has room for MAXF threads in a run
        for (int i = 0; i < n; i++) {
            i64 s = (i64)r.below(3), v = (i64)(r.next() >> 44); u64 k = r.below(9);
            if (k < 2 || k == 6) { if (threads < 2) k = 3; else threads -= k == 6 ? 2 : 1; }
            switch (k) {
            case 0: case 1: ops.push_back(mkop(c, "task", { s, 2 * (1 + (i64)r.below(20)) })); break;
            case 2: case 3: case 4: ops.push_back(mkop(c, "round", { s, (i64)r.below(10), v, (i64)r.below(3) })); break;
            case 5: ops.push_back(mkop(c, "del", { s })); break;
            case 6: ops.push_back(mkop(c, "thread", { 1 + (i64)r.below(30), v, (i64)r.below(4) })); break;
            case 7: ops.push_back(mkop(c, "mutex", { (i64)r.below(4) })); break;
            default: ops.push_back(mkop(c, "cond", { 1 + (i64)r.below(3000000) }));
            }
        }
    }
    void run(Ctx &c) {
        FftTask *t[3] = { 0, 0, 0 };
        for (size_t q = 0; q < c.ops.size(); q++) {
            const Op &o = *c.ops[q]; int s = (int)((u64)o.arg(0) % 3);
            if (o.name == "task") { SUT(c); delete t[s]; t[s] = 0; t[s] = new FftTask((int)clampi(o.arg(1), 2, 128) & ~1); }
            else if (o.name == "round") { SUT(c); int k = (int)((u64)o.arg(3) % 3); for (int i = 0; i <= k; i++) if (t[(s + i) % 3]) t[(s + i) % 3]->request(o.arg(1), o.arg(2) + i); for (int i = 0; i <= k; i++) if (t[(s + i) % 3]) t[(s + i) % 3]->obtain(c); }
            else if (o.name == "del") { SUT(c); delete t[s]; t[s] = 0; }
            else if (o.name == "thread") {
                SUT(c); ResThread *r = new ResThread(clampi(o.arg(0), 1, 500), o.arg(1)); i64 m = o.arg(2);
                if (m) r->start();
                if (m > 1) { r->wait(); c.digv(r->out); }
                if (m > 2) { r->start(); r->wait(); c.digv(r->out); }
                delete r;
            } else if (o.name == "mutex") { SUT(c); Mutex *m = new Mutex; i64 k = o.arg(0); if (k & 1) { m->lock(); m->unlock(); } if (k & 2) { MutexLocker l(m); } c.digi(m->trylock()); m->unlock(); delete m; }
            else if (o.name == "cond") { SUT(c); Condition *k = new Condition("sim"); k->lock(); k->wait((int)clampi(o.arg(0), 1, 5000000)); k->unlock(); k->signal(); delete k; }
            step_done();
        }
        { SUT(c); for (int i = 0; i < 3; i++) delete t[i]; }
    }
};
static ThreadComp thrd; static RegComp rthrd(&thrd);
}

// Worlds built from components.
#include "comp.h"
#include <set>
#include <algorithm>
#include <sstream>
using namespace sim;

namespace sim {
std::vector<Comp *> &comps() { static std::vector<Comp *> c; return c; }
void (*on_step)() = 0;
i64 Sig::hostile = 0;
int long_run = 0;
Comp *find_comp(const std::string &n) { for (size_t i = 0; i < comps().size(); i++) if (n == comps()[i]->name) return comps()[i]; return 0; }
}

namespace {
static std::vector<Comp *> pick_list(const char *names) { std::vector<Comp *> v, only; std::istringstream is(names); std::string t; while (is >> t) { Comp *c = find_comp(t); if (c) v.push_back(c); else { fprintf(stderr, "no component %s\n", t.c_str()); abort(); } }
    if (const char *e = getenv("QM_ONLY")) { std::istringstream os(e); while (os >> t) for (size_t i = 0; i < v.size(); i++) if (t == v[i]->name) only.push_back(v[i]); if (!only.empty()) return only; }   // development: some components only
    return v; }

struct Client { const Plan *p; int id; const char *prop; bool model; Comp *comp; bool last; };
// keep a client's last analyser call and the construction of the object it is made on
static void only_last(std::vector<const Op *> &v) {
    const Op *made[2] = { 0, 0 }, *n = 0, *l = 0;
    for (size_t i = 0; i < v.size(); i++) { int s = v[i]->arg(0) & 1; if (v[i]->name == "new") made[s] = v[i]; else if (v[i]->name == "del") made[s] = 0; else if (v[i]->name == "call" && made[s]) { n = made[s]; l = v[i]; } }
    v.clear(); if (l) { v.push_back(n); v.push_back(l); }
}
// "again k m": the m operations before it, k more times
static void expand(std::vector<const Op *> &v) {
    std::vector<const Op *> o;
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i]->name != "again") { o.push_back(v[i]); continue; }
        size_t m = (size_t)clampi(v[i]->arg(1), 0, (i64)o.size()), b = o.size() - m; i64 k = m ? clampi(v[i]->arg(0), 0, (i64)(150000 / m)) : 0;
        while (k-- > 0 && o.size() < 150000) for (size_t j = 0; j < m; j++) o.push_back(o[b + j]);
    }
    v.swap(o);
}
static void client_run(Client *k) {
    Ctx c; c.p = k->p; c.client = k->id; c.model = k->model; c.prop = k->prop;
    { NoPreempt np; for (size_t i = 0; i < k->p->ops.size(); i++) if (k->p->ops[i].client == k->id) c.ops.push_back(&k->p->ops[i]); expand(c.ops); if (k->last) only_last(c.ops); }
    k->comp->run(c);
}
static void client_main(void *v) { client_run((Client *)v); }
static Comp *comp_of(const Plan &p, int client) {
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].client == client) {
        // the component name travels as a cfg key comp<client>
        break;
    }
    char k[16]; snprintf(k, sizeof k, "comp%d", client);
    i64 ix = p.get(k, -1);
    return ix >= 0 && ix < (i64)comps().size() ? comps()[(size_t)ix] : 0;
}
static i64 comp_index(Comp *c) { for (size_t i = 0; i < comps().size(); i++) if (comps()[i] == c) return (i64)i; return -1; }
static void gen_clients(Rng &r, Plan &p, const std::vector<Comp *> &from, int n, int size, int psame) {
    Comp *first = 0; if (const char *e = getenv("QM_SIZE")) size = atoi(e);   // development
    for (int i = 0; i < n; i++) {
        Comp *c = (first && r.chance(psame)) ? first : from[r.below(from.size())]; if (!first) first = c;
        char k[16]; snprintf(k, sizeof k, "comp%d", i); p.cfg[k] = comp_index(c);
        c->gen(r, p.ops, i, size);
    }
    p.cfg["clients"] = n;
}
// many calls on small objects
static void gen_long(Rng &r, Plan &p, const std::vector<Comp *> &v, int n) { static const int t[] = { 20, 60, 60, 150 }; long_run = t[r.below(4)] / n; gen_clients(r, p, v, n, 0, 500); long_run = 0; }
// one small object, tens of thousands of calls: beyond any 16-bit count
static int marathon(const std::string &n) {
    static const struct { const char *n; int calls; } t[] = { { "filter", 70000 }, { "framer", 70000 }, { "decimator", 70000 }, { "decimatorb", 35000 }, { "phasevocoder", 70000 }, { "onset", 70000 }, { "medianfilter", 70000 }, { "fft", 70000 }, { "fftreal", 70000 }, { "dct", 70000 }, { "window", 70000 }, { "mfcc", 35000 } };
    for (size_t i = 0; i < sizeof t / sizeof *t; i++) if (n == t[i].n) return t[i].calls;
    return 0;
}
static bool gen_marathon(Rng &r, Plan &p, const std::vector<Comp *> &from, int one_in) {
    if (r.below((u64)one_in) && !getenv("QM_MARATHON")) return false;
    std::vector<Comp *> v; for (size_t i = 0; i < from.size(); i++) if (marathon(from[i]->name)) v.push_back(from[i]);
    if (v.empty()) return false;
    gen_clients(r, p, v, 1, 0, 0); p.cfg["s_maxsync"] = 400000;
    static const char *ends[] = { "new", "del", "make", "reset", "resetbuf", "bad", "config", "configure", "source", "setSource", "destroy" };
    std::vector<size_t> ok; for (size_t i = 0; i < p.ops.size(); i++) { bool e = false; for (size_t j = 0; j < sizeof ends / sizeof *ends; j++) e |= p.ops[i].name == ends[j]; if (!e) ok.push_back(i); }
    if (ok.empty()) return true;
    size_t at = ok[r.below(ok.size())], m = 1; while (m < 4 && m <= at && r.chance(600)) { bool c = false; for (size_t j = 0; j < ok.size(); j++) c |= ok[j] == at - m; if (!c) break; m++; }
    i64 calls = marathon(comp_of(p, 0)->name); std::vector<i64> a; a.push_back((calls + (i64)r.below((u64)calls / 10)) / (i64)m); a.push_back((i64)m);
    p.ops.insert(p.ops.begin() + (long)at + 1, mkop(0, "again", a));
    return true;
}
static int run_clients(const Plan &p, const char *prop, bool model, int only, Client *cl, int *ids, bool last = false) {
    int n = (int)clampi(p.get("clients", 1), 1, MAXCLIENT - 1), m = 0;
    for (int i = 0; i < n; i++) {
        Comp *c = comp_of(p, i); if (!c || (only >= 0 && only != i)) continue;
        cl[m].p = &p; cl[m].id = i; cl[m].prop = prop; cl[m].model = model; cl[m].comp = c; cl[m].last = last; ids[m] = spawn(client_main, &cl[m]); m++;
    }
    for (int i = 0; i < m; i++) join(ids[i]);
    return m;
}

// one property's components, each client checked against its reference model
struct CompWorld : World {
    const char *prop, *list; bool alone;   // alone: also make each client's last call in a process of its own
    CompWorld(const char *n, const char *pr, const char *l, bool al = false) : World(n), prop(pr), list(l), alone(al) {}
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(list);
        int n = r.chance(600) ? 1 : 2 + (int)r.below(2);
        gen_sched(r, p, n == 1 ? 2 : 1);
        p.cfg["s_allocgap"] = r.chance(400) ? 5 + (i64)r.below(60) : 20 + (i64)r.below(400);
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000);
        if (gen_marathon(r, p, v, 6000)) return;
        if (r.chance(thorough ? 30 : 15)) { gen_long(r, p, v, 1); return; }
        gen_clients(r, p, v, n, thorough ? (r.chance(300) ? 2 : 1) + (r.chance(30) ? 1 : 0) : (r.chance(300) ? 1 : r.chance(80) ? 2 : r.chance(15) ? 3 : 0), 500);
    }
    void variants(const Plan &p, std::vector<Variant> &v) { Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); v.push_back(x); if (alone) { x.name = "last call alone"; x.last = true; x.sched = false; v.push_back(x); } }
    bool compare(const Plan &p, const std::vector<Variant> &v, Result **r, std::string &pr, std::string &cls, std::string &msg) {
        if (v.size() < 2) return true;
        for (int c = 0; c < MAXCLIENT; c++) {
            u64 a = r[0]->ndig[c], b = r[1]->ndig[c]; if (a > MAXDIG || b > a) continue;
            for (u64 i = 0; i < b; i++) if (r[0]->dig[c][a - b + i] != r[1]->dig[c][i]) {
                char t[200]; Comp *k = comp_of(p, c); snprintf(t, sizeof t, "%s: the last call of client %d gives a different result as the only call of a process", k ? k->name : "?", c);
                pr = prop; cls = "depends-on-history"; msg = t; return false;
            }
        }
        return true;
    }
    void run(const Plan &p, const Variant &va) { Client cl[MAXCLIENT]; int ids[MAXCLIENT]; run_clients(p, prop, !va.last, -1, cl, ids, va.last); }
};

// every component there is
static const char *ALL = "filter framer decimator decimatorb resampler downbeat phasevocoder onset fft fftreal dct window kaisersinc constantq chromagram mfcc tonal maths filtfilt dfprocess peakpicking beatspectrum tempotrack tempotrackv2 getkeymode hmm segment_c segmenter matrix polyfit blockallocator medianfilter threadobjs";
static std::string who(const Plan &p, int c) { Comp *k = comp_of(p, c); char t[64]; snprintf(t, sizeof t, "%s (client %d)", k ? k->name : "?", c); return t; }
static bool same_digests(const Result *a, const Result *b, int c, u64 &at) {
    u64 n = a->ndig[c] < b->ndig[c] ? a->ndig[c] : b->ndig[c]; if (n > MAXDIG) n = MAXDIG;
    for (at = 0; at < n; at++) if (a->dig[c][at] != b->dig[c][at]) return false;
    return a->ndig[c] == b->ndig[c];
}

// C06: several clients at once, each also alone
struct MixWorld : World {
    MixWorld() : World("mix") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(ALL);
        int n = 2 + (r.chance(300) ? 1 : 0) + (thorough && r.chance(200) ? 1 : 0);
        gen_sched(r, p, 1);
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000);
        if (r.chance(8)) gen_long(r, p, v, n); else gen_clients(r, p, v, n, r.chance(6) ? 3 : thorough && r.chance(400) ? 1 : r.chance(100) ? 1 : 0, 450);
    }
    void variants(const Plan &p, std::vector<Variant> &v) {
        Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); x.fixrand = true; x.name = "together"; v.push_back(x);
        int n = (int)clampi(p.get("clients", 1), 1, MAXCLIENT - 1);
        for (int i = 0; i < n; i++) { x.only_client = i; x.sched = false; x.migrate = i & 1; x.name = "alone"; v.push_back(x); }
    }
    bool compare(const Plan &p, const std::vector<Variant> &v, Result **r, std::string &pr, std::string &cls, std::string &msg) {
        for (size_t k = 1; k < v.size(); k++) { int c = v[k].only_client; u64 at;
            if (!same_digests(r[0], r[k], c, at)) { char t[240]; snprintf(t, sizeof t, "%s: result %llu differs from the same calls made alone", who(p, c).c_str(), (unsigned long long)at); pr = "C06"; cls = "interference"; msg = t; return false; } }
        return true;
    }
    void run(const Plan &p, const Variant &va) { Client cl[MAXCLIENT]; int ids[MAXCLIENT]; run_clients(p, "C06", false, va.only_client, cl, ids); }
};
// C07: the same histories in differing environments
struct EnvWorld : World {
    EnvWorld() : World("environment") {}
    static bool uses_random(const Plan &p) { int n = (int)p.get("clients", 1); for (int i = 0; i <= n; i++) { Comp *c = comp_of(p, i); if (c && (!strcmp(c->name, "hmm") || !strncmp(c->name, "segment", 7))) return true; } return false; }
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(ALL);
        int n = r.chance(700) ? 1 : 2;
        gen_sched(r, p, 1); if (r.chance(700)) p.cfg["s_gap"] = p.cfg["s_sgap"] = 0;
        if (r.chance(8)) gen_long(r, p, v, n); else gen_clients(r, p, v, n, r.chance(8) ? 3 : thorough && r.chance(300) ? 1 : r.chance(150) ? 1 : 0, 500);
        for (int i = 0; i < 3; i++) { char k[16]; snprintf(k, sizeof k, "fill%d", i); p.cfg[k] = (i64)r.below(6); snprintf(k, sizeof k, "layout%d", i); p.cfg[k] = 1 + (i64)r.below(50); snprintf(k, sizeof k, "clock%d", i); p.cfg[k] = 1 + (i64)r.below(1000000); snprintf(k, sizeof k, "rnd%d", i); p.cfg[k] = 1 + (i64)r.below(1000000); }
        if (p.cfg["fill0"] == p.cfg["fill1"]) p.cfg["fill1"] = (p.cfg["fill0"] + 1) % 6;
        // another client that only lives before the others, in one variant: often of the same kind
        int m = n; Comp *pre = r.chance(600) ? comp_of(p, 0) : v[r.below(v.size())]; char k[16]; snprintf(k, sizeof k, "comp%d", m); p.cfg[k] = comp_index(pre); pre->gen(r, p.ops, m, 0);
    }
    void variants(const Plan &p, std::vector<Variant> &v) {
        bool rnd = uses_random(p);
        for (int i = 0; i < 3; i++) {
            char k[16]; Variant x; x.fixrand = rnd; x.scramble = true;
            snprintf(k, sizeof k, "fill%d", i); x.fill = p.get(k, i); snprintf(k, sizeof k, "layout%d", i); x.layout = p.get(k, 1 + i); snprintf(k, sizeof k, "clock%d", i); x.clock = p.get(k, 1 + i); snprintf(k, sizeof k, "rnd%d", i); x.rnd = rnd ? p.get("rnd0", 1) : p.get(k, 1 + i);
            x.sched = i == 1; x.prelude = i == 1 ? 1 + p.get("layout1", 1) : 0; x.last = false; x.only_client = i == 2 ? 99 : -1;
            x.name = i == 0 ? "plain" : i == 1 ? "used heap, other memory, clock, random state and schedule" : "after other objects"; v.push_back(x);
        }
    }
    bool compare(const Plan &p, const std::vector<Variant> &v, Result **r, std::string &pr, std::string &cls, std::string &msg) {
        int n = (int)clampi(p.get("clients", 1), 1, MAXCLIENT - 2);
        for (size_t k = 1; k < v.size(); k++) for (int c = 0; c < n; c++) { u64 at;
            if (!same_digests(r[0], r[k], c, at)) { char t[300]; snprintf(t, sizeof t, "%s: result %llu differs in another environment (%s)", who(p, c).c_str(), (unsigned long long)at, v[k].name.c_str()); pr = "C07"; cls = "environment"; msg = t; return false; } }
        return true;
    }
    void run(const Plan &p, const Variant &va) {
        Client cl[MAXCLIENT]; int ids[MAXCLIENT];
        if (va.only_client == 99) { int n = (int)clampi(p.get("clients", 1), 1, MAXCLIENT - 2); Comp *c = comp_of(p, n); if (c) { cl[0].p = &p; cl[0].id = n; cl[0].prop = "C07"; cl[0].model = false; cl[0].comp = c; cl[0].last = false; join(spawn(client_main, &cl[0])); } }
        run_clients(p, "C07", false, -1, cl, ids);
    }
};
// C21: every component, memory safety only
struct SafetyWorld : World {
    SafetyWorld() : World("safety") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(ALL);
        int n = r.chance(750) ? 1 : 2 + (int)r.below(2);
        gen_sched(r, p, n == 1 ? 2 : 1);
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000); p.cfg["s_allocgap"] = 5 + (i64)r.below(400);
        if (gen_marathon(r, p, v, 5000)) {} else if (r.chance(8)) gen_long(r, p, v, n); else gen_clients(r, p, v, n, thorough ? (r.chance(200) ? 2 : 1) + (r.chance(30) ? 1 : 0) : r.chance(350) ? 1 : r.chance(50) ? 2 : r.chance(15) ? 3 : 0, 300);
    }
    void variants(const Plan &p, std::vector<Variant> &v) { Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); x.scramble = true; v.push_back(x); }
    void run(const Plan &p, const Variant &) { Client cl[MAXCLIENT]; int ids[MAXCLIENT]; run_clients(p, "C21", false, -1, cl, ids); }
};
// C22: the same life three times over; what is still held must not grow
struct LifeWorld : World {
    LifeWorld() : World("lifetime") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(ALL);
        gen_sched(r, p, 1); if (r.chance(700)) p.cfg["s_gap"] = p.cfg["s_sgap"] = 0;
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000);
        int n = r.chance(850) ? 1 : 2;
        if (r.chance(8)) gen_long(r, p, v, n); else gen_clients(r, p, v, n, r.chance(8) ? 3 : thorough ? 1 : r.chance(200) ? 1 : 0, 300);
        if (r.chance(500) && p.ops.size() > 1) p.ops.resize(1 + (size_t)r.below(p.ops.size()));   // destroyed at an arbitrary point
    }
    void variants(const Plan &p, std::vector<Variant> &v) { Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); x.fixrand = true; v.push_back(x); }
    void run(const Plan &p, const Variant &) {
        int n = (int)clampi(p.get("clients", 1), 1, MAXCLIENT - 1); HeapStat h[4][MAXCLIENT]; int live[4];
        for (int round = 0; round < 4; round++) {
            if (round) { Client cl[MAXCLIENT]; int ids[MAXCLIENT]; run_clients(p, "C22", false, -1, cl, ids); }
            for (int c = 0; c < n; c++) h[round][c] = heap_live(c + 1);
            live[round] = live_threads();
            if (round && (live[round] > live[0] || unjoined_threads() > 0)) fail("C22", "thread-left", "after every object was destroyed %d thread(s) still run and %d were never joined", live[round] - live[0], unjoined_threads());
        }
        // something kept once for the whole process is not a leak: it has to grow with every life
        for (int c = 0; c < n; c++) if (h[3][c].blocks > h[2][c].blocks && h[2][c].blocks > h[1][c].blocks) { Comp *k = comp_of(p, c); fail("C22", "leak", "%s: every life leaves %lld block(s), %lld bytes behind: %s", k ? k->name : "?", (long long)(h[3][c].blocks - h[2][c].blocks), (long long)(h[3][c].bytes - h[2][c].bytes), heap_leaks(c + 1).c_str()); }
    }
};

// C23: one object (or pair) used over and over: what it holds and what a round of calls costs stay put
struct GrowthWorld : World {
    struct Obs { std::vector<u64> bytes, work; };
    static Obs *obs;
    GrowthWorld() : World("growth") {}
    static void step() { NoPreempt np; u64 w = work_so_far(); obs->bytes.push_back(heap_live(1).bytes); obs->work.push_back(w); }
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list("filter filter framer decimator decimatorb resampler resampler resampler downbeat phasevocoder onset fft fftreal dct window kaisersinc constantq chromagram mfcc tonal maths filtfilt dfprocess peakpicking beatspectrum tempotrack tempotrackv2 getkeymode getkeymode hmm segment_c segmenter matrix polyfit medianfilter");
        gen_sched(r, p, 1); p.cfg["s_gap"] = p.cfg["s_sgap"] = 0;
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000);
        Plan q; gen_clients(r, q, v, 1, thorough && r.chance(300) ? 1 : 0, 0); p.cfg["clients"] = 1; p.cfg["comp0"] = q.cfg["comp0"];
        Comp *c = comp_of(q, 0); if (!c) return; p.cfg["comp0"] = comp_index(c);
        bool ana = dynamic_cast<AnaComp *>(c) != 0; size_t body = 1 + (size_t)r.below(6), nb = 0;
        for (size_t i = 0; i < q.ops.size(); i++) {
            const std::string &n = q.ops[i].name;
            if (i == 0 && !ana && n == "new") { p.ops.push_back(q.ops[i]); continue; }
            if (!ana && (n == "new" || n == "del" || n == "again" || n == "reborn")) continue;
            if (nb++ < body) p.ops.push_back(q.ops[i]);
        }
        if (!strcmp(c->name, "downbeat")) p.ops.push_back(mkop(0, "resetbuf"));
        if (!strcmp(c->name, "segmenter")) p.ops.push_back(mkop(0, "clear"));
        p.cfg["rounds"] = 24 + (i64)r.below(thorough ? 200 : 60);
    }
    void variants(const Plan &p, std::vector<Variant> &v) { Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); x.fixrand = true; v.push_back(x); }
    static void main_(void *vp) {
        const Plan &p = *(const Plan *)vp; Comp *k = comp_of(p, 0); if (!k) return;
        Ctx c; c.p = &p; c.client = 0; c.model = false; c.prop = "C23"; size_t first = 0;
        { NoPreempt np; while (first < p.ops.size() && p.ops[first].name == "new" && !dynamic_cast<AnaComp *>(k)) first++;
          for (size_t i = 0; i < first; i++) c.ops.push_back(&p.ops[i]);
          for (i64 n = 0; n < clampi(p.get("rounds", 40), 24, 2000); n++) for (size_t i = first; i < p.ops.size(); i++) c.ops.push_back(&p.ops[i]); }
        if (c.ops.size() > first) k->run(c);
    }
    void run(const Plan &p, const Variant &) {
        Obs o; obs = &o; { NoPreempt np; o.bytes.reserve(1 << 16); o.work.reserve(1 << 16); on_step = step; }
        int id = spawn(main_, (void *)&p); join(id); on_step = 0;
        Comp *k = comp_of(p, 0); size_t n = o.bytes.size(); if (n < 48) return;
        u64 b[4] = { 0, 0, 0, 0 }; double w[4];
        // growing in every doubling of the stream's length: storage that keeps everything
        u64 d[4] = { 0, 0, 0, 0 };
        for (size_t i = 0; i < n; i++) { size_t q = i < n / 8 ? 0 : i < n / 4 ? 1 : i < n / 2 ? 2 : 3; d[q] = std::max(d[q], o.bytes[i]); }
        if (d[0] + 64 <= d[1] && d[1] + 64 <= d[2] && d[2] + 64 <= d[3]) fail("C23", "memory-grows", "%s: memory held while the same calls are repeated %lld times grows with every doubling of their number: %llu, %llu, %llu, %llu bytes at most", k ? k->name : "?", (long long)p.get("rounds"), (unsigned long long)d[0], (unsigned long long)d[1], (unsigned long long)d[2], (unsigned long long)d[3]);
        // each round dearer than the one before: work that depends on how much went before
        size_t per = 0; { size_t first = 0; while (first < p.ops.size() && p.ops[first].name == "new" && !dynamic_cast<AnaComp *>(k)) first++; per = p.ops.size() - first; }
        if (per) { size_t rounds = n / per, up = 0, m = 0; double lo = 0, hi = 0; std::vector<u64> cost; for (size_t i = 1; i < rounds; i++) cost.push_back(o.work[(i + 1) * per - 1 + (n - rounds * per)] - o.work[i * per - 1 + (n - rounds * per)]);
            for (size_t i = cost.size() / 2; i < cost.size(); i++) { if (cost[i] > cost[i - 1]) up++; m++; }
            if (m >= 12 && up * 10 >= m * 9) { lo = (double)cost[cost.size() / 2]; hi = (double)cost.back(); fail("C23", "work-grows", "%s: of the last %zu rounds of the same calls %zu took more work than the one before: from %g memory accesses and branches to %g", k ? k->name : "?", m, up, lo, hi); } }
        for (size_t i = 0; i < n; i++) { size_t q = i * 4 / n; b[q] = std::max(b[q], o.bytes[i]); }
        for (size_t q = 0; q < 4; q++) w[q] = (double)(o.work[(q + 1) * n / 4 - 1] - (q ? o.work[q * n / 4 - 1] : 0));
        if ((b[0] < b[1] && b[1] < b[2] && b[2] < b[3]) || b[3] > 2 * b[0] + 4096) fail("C23", "memory-grows", "%s: memory held while the same calls are repeated %lld times keeps growing: %llu, %llu, %llu, %llu bytes at most in the four quarters", k ? k->name : "?", (long long)p.get("rounds"), (unsigned long long)b[0], (unsigned long long)b[1], (unsigned long long)b[2], (unsigned long long)b[3]);
        if (w[3] > 3 * w[0] + 200000 || (w[3] > 1.5 * w[2] + 20000 && w[2] > 1.5 * w[1] + 20000)) fail("C23", "work-grows", "%s: the same calls repeated %lld times take more and more work: %g, %g, %g, %g memory accesses and branches in the four quarters", k ? k->name : "?", (long long)p.get("rounds"), w[0], w[1], w[2], w[3]);
    }
};
GrowthWorld::Obs *GrowthWorld::obs = 0;
// C24: awkward numbers; only whether every call comes back
struct ReturnWorld : World {
    ReturnWorld() : World("returns") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        std::vector<Comp *> v = pick_list(ALL);
        int n = r.chance(850) ? 1 : 2;
        gen_sched(r, p, n == 1 ? 2 : 1);
        p.cfg["fill"] = (i64)r.below(6); p.cfg["layout"] = 1 + (i64)r.below(50); p.cfg["clock"] = 1 + (i64)r.below(1000000); p.cfg["rnd"] = 1 + (i64)r.below(1000000);
        static const i64 hs[] = { 1, 2, 10, 100, 400, 2000 }; p.cfg["hostile"] = r.chance(200) ? 0 : hs[r.below(6)];
        if (r.chance(8)) gen_long(r, p, v, n); else gen_clients(r, p, v, n, r.chance(8) ? 3 : thorough ? (r.chance(200) ? 2 : 1) : r.chance(300) ? 1 : 0, 300);
    }
    void variants(const Plan &p, std::vector<Variant> &v) { Variant x; x.fill = p.get("fill", 1); x.layout = p.get("layout", 1); x.clock = p.get("clock", 1); x.rnd = p.get("rnd", 1); v.push_back(x); }
    static int pca_gave_up(int code) { return code == 1; }   // principal component analysis of values that are not finite ends the program with a message
    void run(const Plan &p, const Variant &) { Client cl[MAXCLIENT]; int ids[MAXCLIENT]; Sig::hostile = p.get("hostile"); if (Sig::hostile) on_exit_hook = pca_gave_up; run_clients(p, "C24", false, -1, cl, ids); }
};

static CompWorld w_ba("blockallocator", "C09", "blockallocator");
static CompWorld w_filter("filter", "C10", "filter");
static CompWorld w_res("resampler", "C11", "resampler");
static CompWorld w_dec("decimators", "C12", "decimator decimatorb");
static CompWorld w_db("downbeat", "C13", "downbeat");
static CompWorld w_fr("framer", "C14", "framer");
static CompWorld w_med("median", "C17", "medianfilter");
static CompWorld w_pv("phasevocoder", "C15", "phasevocoder");
static CompWorld w_on("onset", "C16", "onset");
static CompWorld w_fa("frames", "C18", "fft fftreal dct window kaisersinc constantq chromagram mfcc tonal maths", true);
static CompWorld w_key("keymode", "C20", "getkeymode");
static CompWorld w_hmm("segmentation", "C08", "hmm segment_c segmenter");
static CompWorld w_ws("wholesignal", "C19", "filtfilt dfprocess peakpicking tempotrack tempotrackv2 beatspectrum filtfilt dfprocess peakpicking", true);

static MixWorld w_mix; static EnvWorld w_env; static SafetyWorld w_safe; static LifeWorld w_life; static GrowthWorld w_growth; static ReturnWorld w_ret;
struct Reg { Reg() { World *w[] = { &w_ba, &w_filter, &w_res, &w_dec, &w_db, &w_fr, &w_med, &w_pv, &w_on, &w_fa, &w_ws, &w_key, &w_hmm, &w_mix, &w_env, &w_safe, &w_life, &w_growth, &w_ret }; for (size_t i = 0; i < sizeof w / sizeof *w; i++) worlds().push_back(w[i]); } } reg;
}

// Driver: batches of simulated runs, replay and minimisation. Not instrumented.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <iostream>
using namespace sim;

static int log_fd = 1;
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Result *new_result() {
    void *p = mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Result *)p;
}
static const int MAXV = 12;
static Result *res[MAXV];
static int cpu_limit = 40;

struct Outcome {
    bool viol; std::string prop, cls, msg; int variant; u64 hash;
    std::vector<std::vector<Decision> > dec;
    Outcome() : viol(false), variant(-1), hash(0) {}
};
typedef std::vector<std::vector<Decision> > Script;

static Outcome run_plan(World *w, const Plan &p, const Script *script) {
    Outcome o;
    std::vector<Variant> vs; w->variants(p, vs);
    if (vs.size() > MAXV) vs.resize(MAXV);
    Result *rp[MAXV];
    o.hash = 7;
    size_t done = 0;
    for (size_t i = 0; i < vs.size(); i++) {
        if (!res[i]) res[i] = new_result();
        rp[i] = res[i];
        static std::vector<Decision> empty;
        execute(w, p, vs[i], script ? (i < script->size() ? &(*script)[i] : &empty) : 0, res[i], cpu_limit);
        o.hash = mix(o.hash, res[i]->hash);
        done = i + 1;
        if (res[i]->status != 1) {
            o.viol = true; o.prop = res[i]->prop; o.cls = res[i]->cls; o.msg = res[i]->msg; o.variant = (int)i;
            if (vs.size() > 1) o.msg += " [variant " + vs[i].name + "]";
            break;
        }
    }
    if (!o.viol && vs.size() > 1) {
        std::string prop, cls, msg;
        if (!w->compare(p, vs, rp, prop, cls, msg)) { o.viol = true; o.prop = prop; o.cls = cls; o.msg = msg; o.variant = 0; }
    }
    for (size_t i = 0; i < done; i++) {
        std::vector<Decision> d(res[i]->dec, res[i]->dec + std::min<u64>(res[i]->ndec, MAXDEC));
        o.dec.push_back(d);
    }
    return o;
}

static Plan make_plan(World *w, u64 seed, bool thorough) {
    Plan p; p.world = w->name; p.seed = seed;
    Rng r(seed);
    w->gen(r, p, thorough);
    return p;
}

static void write_replay(const char *path, const Plan &p, const Script &s, const Outcome &o, const std::string &prop) {
    std::ofstream f(path);
    f << "qmsim 1\nworld " << p.world << "\nproperty " << prop << "\nclass " << o.cls << "\nseed " << p.seed << "\n";
    f << "message " << o.msg << "\nhash " << o.hash << "\n";
    for (std::map<std::string, i64>::const_iterator i = p.cfg.begin(); i != p.cfg.end(); ++i) f << "cfg " << i->first << " " << i->second << "\n";
    for (size_t i = 0; i < p.ops.size(); i++) {
        f << "op " << p.ops[i].client << " " << p.ops[i].name;
        for (size_t j = 0; j < p.ops[i].a.size(); j++) f << " " << p.ops[i].a[j];
        f << "\n";
    }
    for (size_t v = 0; v < s.size(); v++) {
        f << "variant " << v << "\n";
        for (size_t i = 0; i < s[v].size(); i++) f << "decision " << kind_name[s[v][i].kind] << " thread " << s[v][i].fiber << " at " << s[v][i].index << " value " << s[v][i].value << "\n";
    }
    f << "end\n";
}
static bool read_replay(const char *path, Plan &p, Script &s, std::string &prop, std::string &cls, u64 &hash) {
    std::ifstream f(path); if (!f) return false;
    std::string line; int v = -1;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "world") is >> p.world;
        else if (k == "property") is >> prop;
        else if (k == "class") is >> cls;
        else if (k == "seed") is >> p.seed;
        else if (k == "hash") is >> hash;
        else if (k == "cfg") { std::string n; i64 x; is >> n >> x; p.cfg[n] = x; }
        else if (k == "op") { Op o; is >> o.client >> o.name; i64 x; while (is >> x) o.a.push_back(x); p.ops.push_back(o); }
        else if (k == "variant") { is >> v; s.resize(v + 1); }
        else if (k == "decision" && v >= 0) {
            std::string kn, t; Decision d; is >> kn >> t >> d.fiber >> t >> d.index >> t >> d.value;
            for (int i = 0; i < NKIND; i++) if (kn == kind_name[i]) d.kind = i;
            s[v].push_back(d);
        }
    }
    return true;
}

// ------------------------------------------------------------------ minimiser
static int min_budget; static double min_deadline;
static bool same_fail(World *w, const Plan &p, const Script &s, const std::string &prop, const std::string &cls, Outcome *out = 0) {
    if (min_budget-- <= 0 || wall() > min_deadline) return false;
    Outcome o = run_plan(w, p, &s);
    if (o.viol && o.cls == cls && o.prop == prop) { if (out) *out = o; return true; }
    return false;
}
template <class T, class F> static void ddmin(std::vector<T> &v, F test) {
    size_t chunk = std::max<size_t>(1, v.size() / 2);
    while (!v.empty()) {
        bool any = false;
        for (size_t i = 0; i < v.size();) {
            std::vector<T> c(v.begin(), v.begin() + i);
            size_t e = std::min(v.size(), i + chunk);
            c.insert(c.end(), v.begin() + e, v.end());
            if (test(c)) { v.swap(c); any = true; } else i = e;
            if (min_budget <= 0 || wall() > min_deadline) return;
        }
        if (chunk == 1 && !any) break;
        if (!any || chunk > v.size()) chunk = std::max<size_t>(1, chunk / 2);
    }
}
static void minimise(World *w, Plan &p, Script &s, Outcome &o) {
    std::string prop = o.prop, cls = o.cls;
    min_budget = 4000; min_deadline = wall() + 60;
    if (!same_fail(w, p, s, prop, cls)) return; // replay with script must reproduce first
    for (int round = 0; round < 3; round++) {
        size_t before = p.ops.size(), bd = 0; for (size_t i = 0; i < s.size(); i++) bd += s[i].size();
        // all decisions of a variant at once, then ddmin
        for (size_t v = 0; v < s.size(); v++) {
            if (s[v].empty()) continue;
            ddmin(s[v], [&](const std::vector<Decision> &c) { Script t = s; t[v] = c; return same_fail(w, p, t, prop, cls); });
        }
        ddmin(p.ops, [&](const std::vector<Op> &c) { Plan q = p; q.ops = c; return same_fail(w, q, s, prop, cls); });
        for (size_t i = 0; i < p.ops.size(); i++) for (size_t j = 0; j < p.ops[i].a.size(); j++) {
            for (int k = 0; k < 6; k++) {
                i64 x = p.ops[i].a[j]; if (x == 0) break;
                i64 y = k == 0 ? 0 : k == 1 ? 1 : (k & 1) ? x / 2 : x - (x > 0 ? 1 : -1);
                if (y == x) continue;
                Plan q = p; q.ops[i].a[j] = y;
                if (same_fail(w, q, s, prop, cls)) p = q;
            }
        }
        size_t ad = 0; for (size_t i = 0; i < s.size(); i++) ad += s[i].size();
        if (p.ops.size() == before && ad == bd) break;
    }
    min_budget = 10; min_deadline = wall() + 60;
    Outcome f;
    if (same_fail(w, p, s, prop, cls, &f)) o = f;
}

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, world, cls, needle, text; };
static std::vector<Known> known;
static void load_known(const char *path) {
    std::ifstream f(path); std::string l;
    while (std::getline(f, l)) { // open: property=<id> world=<w> class=<c> match=<substring of message>| text
        if (l.compare(0, 5, "open:")) continue;
        Known k; std::istringstream is(l.substr(5)); std::string t;
        while (is >> t) { if (!t.compare(0, 9, "property=")) k.prop = t.substr(9); else if (!t.compare(0, 6, "world=")) k.world = t.substr(6); else if (!t.compare(0, 6, "class=")) k.cls = t.substr(6); else if (!t.compare(0, 6, "match=")) { k.needle = t.substr(6); } else break; }
        size_t b = l.find('|'); if (b != std::string::npos) k.text = l.substr(b + 1);
        for (size_t i = 0; i < k.needle.size(); i++) if (k.needle[i] == '~') k.needle[i] = ' ';
        known.push_back(k);
    }
}
static const Known *is_known(const std::string &prop, const std::string &world, const Outcome &o) {
    for (size_t i = 0; i < known.size(); i++) if (known[i].prop == prop && (known[i].world.empty() || known[i].world == world) && known[i].cls == o.cls && o.msg.find(known[i].needle) != std::string::npos) return &known[i];
    return 0;
}

static std::string jstr(const std::string &s) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static std::string plan_text(const Plan &p) {
    std::ostringstream f; f << p.world << " seed=" << p.seed << " ";
    for (std::map<std::string, i64>::const_iterator i = p.cfg.begin(); i != p.cfg.end(); ++i) f << i->first << "=" << i->second << " ";
    f << "| "; size_t n = 0;
    for (size_t i = 0; i < p.ops.size() && n++ < 14; i++) { f << p.ops[i].client << ":" << p.ops[i].name; for (size_t j = 0; j < p.ops[i].a.size(); j++) f << (j ? "," : "(") << p.ops[i].a[j]; if (p.ops[i].a.size()) f << ")"; f << " "; }
    if (p.ops.size() > 14) f << "... " << p.ops.size() << " operations";
    return f.str();
}

int main(int argc, char **argv) {
    init_process();
    std::map<std::string, std::string> a; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (!s.compare(0, 2, "--")) { size_t e = s.find('='); a[s.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : s.substr(e + 1); } else pos.push_back(s); }
    if (pos.empty()) { fprintf(stderr, "usage: sim batch|replay|minimise|one|worlds ...\n"); return 2; }
    if (a.count("cpu")) cpu_limit = atoi(a["cpu"].c_str());
    log_fd = dup(1);
    FILE *lg = fdopen(log_fd, "w");
    if (!a.count("verbose")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
    std::string cmd = pos[0];
    if (cmd == "worlds") { for (size_t i = 0; i < worlds().size(); i++) fprintf(lg, "%s\n", worlds()[i]->name); return 0; }
    if (a.count("known")) load_known(a["known"].c_str());
    bool thorough = a["tier"] == "thorough";

    if (cmd == "one") { // --world --seed
        World *w = find_world(a["world"]); if (!w) { fprintf(lg, "no such world\n"); return 2; }
        u64 n = a.count("runs") ? strtoull(a["runs"].c_str(), 0, 10) : 1, s0 = strtoull(a["seed"].c_str(), 0, 10);
        for (u64 k = 0; k < n; k++) {
            Plan p = make_plan(w, s0 + k, thorough);
            if (a.count("print")) fprintf(lg, "%s\n", plan_text(p).c_str());
            Outcome o = run_plan(w, p, 0);
            fprintf(lg, "seed %llu hash %016llx viol %d prop=%s class=%s %s", (unsigned long long)(s0 + k), (unsigned long long)o.hash, o.viol, o.prop.c_str(), o.cls.c_str(), o.msg.c_str());
            if (a.count("stats")) fprintf(lg, " sync=%llu acc=%llu sw=%llu ops=%llu fib=%d allocs=%llu", (unsigned long long)res[0]->sync_ops, (unsigned long long)res[0]->accesses, (unsigned long long)res[0]->switches, (unsigned long long)res[0]->ops, res[0]->nfibers, (unsigned long long)res[0]->allocs);
            fprintf(lg, "\n");
        }
        fclose(lg); return 0;
    }
    if (cmd == "replay") {
        Plan p; Script s; std::string prop, cls; u64 h = 0;
        if (!read_replay(pos[1].c_str(), p, s, prop, cls, h)) { fprintf(lg, "cannot read\n"); return 2; }
        World *w = find_world(p.world); if (!w) { fprintf(lg, "no such world\n"); return 2; }
        Outcome o = run_plan(w, p, &s);
        fprintf(lg, "{\"violation\": %s, \"class\": %s, \"message\": %s, \"hash\": \"%llu\", \"same_class\": %s, \"same_hash\": %s}\n", o.viol ? "true" : "false", jstr(o.cls).c_str(), jstr(o.msg).c_str(), (unsigned long long)o.hash, o.viol && o.cls == cls ? "true" : "false", o.hash == h ? "true" : "false");
        fclose(lg);
        return o.viol && o.cls == cls && o.hash == h ? 0 : 1;
    }
    if (cmd == "minimise") { // sim minimise in out
        Plan p; Script s; std::string prop, cls; u64 h = 0;
        if (!read_replay(pos[1].c_str(), p, s, prop, cls, h)) return 2;
        World *w = find_world(p.world); if (!w) return 2;
        Outcome o = run_plan(w, p, &s);
        if (!o.viol || o.cls != cls) { fprintf(lg, "not reproduced\n"); fclose(lg); return 1; }
        minimise(w, p, s, o);
        write_replay(pos[2].c_str(), p, s, o, prop);
        size_t nd = 0; for (size_t i = 0; i < s.size(); i++) nd += s[i].size();
        fprintf(lg, "{\"ops\": %zu, \"decisions\": %zu, \"message\": %s}\n", p.ops.size(), nd, jstr(o.msg).c_str());
        fclose(lg); return 0;
    }
    if (cmd == "batch") { // --prop --worlds=a,b:weight --seed --from --count --stride --wall --fail=path
        std::string prop = a["prop"];
        std::vector<World *> ws; { std::istringstream is(a["worlds"]); std::string t; while (std::getline(is, t, ',')) { size_t c = t.find('*'); int k = c == std::string::npos ? 1 : atoi(t.c_str() + c + 1); World *w = find_world(t.substr(0, c)); if (!w) { fprintf(lg, "no world %s\n", t.c_str()); return 2; } while (k--) ws.push_back(w); } }
        u64 base = strtoull(a["seed"].c_str(), 0, 10), from = strtoull(a["from"].c_str(), 0, 10), count = strtoull(a["count"].c_str(), 0, 10), stride = strtoull(a["stride"].c_str(), 0, 10);
        double lim = atof(a["wall"].c_str()), t0 = wall();
        u64 recheck = a.count("recheck") ? strtoull(a["recheck"].c_str(), 0, 10) : 40;
        u64 runs = 0, execs = 0, sync = 0, acc = 0, sw = 0, ops = 0, nondet = 0, rechecked = 0, other = 0, mt = 0, threads = 0; double vt = 0, au = 0;
        u64 fired[NKIND] = { 0 }, probes[NPROBE] = { 0 }, runs_with[NKIND] = { 0 };
        std::unordered_set<u64> scheds, plans; std::map<std::string, u64> perworld; std::map<std::string, u64> knownhits;
        std::vector<std::string> samples; std::string othermsg;
        bool found = false; Outcome fo; Plan fp;
        for (u64 i = from; i < count; i += stride) {
            if (wall() - t0 > lim) break;
            World *w = ws[i % ws.size()];
            u64 seed = mix(mix(base, i), 0xC0FFEE) >> 1;
            Plan p = make_plan(w, seed, thorough);
            Outcome o = run_plan(w, p, 0);
            runs++; perworld[w->name]++;
            u64 ph = 1; for (size_t k = 0; k < p.ops.size(); k++) { ph = mix(ph, p.ops[k].client); for (size_t z = 0; z < p.ops[k].name.size(); z++) ph = mix(ph, p.ops[k].name[z]); for (size_t z = 0; z < p.ops[k].a.size(); z++) ph = mix(ph, p.ops[k].a[z]); }
            u64 comb = ph; bool anysw = false;
            for (size_t v = 0; v < o.dec.size(); v++) {
                Result *r = res[v]; execs++;
                sync += r->sync_ops; acc += r->accesses; sw += r->switches; ops += r->ops; vt += r->vtime_ns * 1e-9 - 1.0; au += r->audio_s; threads += r->nfibers;
                for (int k = 0; k < NKIND; k++) { fired[k] += r->fired[k]; if (r->fired[k]) runs_with[k]++; }
                for (int k = 0; k < NPROBE; k++) probes[k] += r->probe[k];
                comb = mix(comb, r->sched_hash); if (r->switches > 2) anysw = true;
            }
            if (anysw) mt++;
            scheds.insert(comb); plans.insert(ph);
            if (samples.size() < 2) samples.push_back(plan_text(p));
            bool gate = o.viol || (recheck && runs % recheck == 1);
            if (gate) {
                Outcome o2 = run_plan(w, p, 0); rechecked++;
                if (o2.hash != o.hash || o2.viol != o.viol || o2.cls != o.cls) { nondet++; if (othermsg.empty()) othermsg = "nondeterministic: " + plan_text(p) + " " + o.cls + " " + o.msg; if (o.viol) continue; }
            }
            if (o.viol) {
                if (o.prop.empty()) o.prop = prop == "C21" || prop == "C22" || prop == "C24" ? o.cls == "not-visible" ? "(thread classes)" : prop : prop;
                if (o.prop != prop) { other++; if (othermsg.empty()) othermsg = o.prop + " " + o.cls + ": " + o.msg + " | " + plan_text(p); continue; }
                const Known *k = is_known(prop, w->name, o);
                if (k) { knownhits[k->text]++; continue; }
                found = true; fo = o; fp = p; break;
            }
        }
        if (found) {
            if (fo.prop.empty()) fo.prop = prop;
            write_replay(a["fail"].c_str(), fp, fo.dec, fo, prop);
        }
        fprintf(lg, "{\"runs\": %llu, \"executions\": %llu, \"sync_ops\": %llu, \"accesses\": %llu, \"switches\": %llu, \"ops\": %llu, \"vtime_s\": %.6f, \"audio_s\": %.3f, \"threads\": %llu, \"multi\": %llu, \"rechecked\": %llu, \"nondeterministic\": %llu, \"other\": %llu, \"othermsg\": %s, \"found\": %s, \"class\": %s, \"message\": %s, \"wall\": %.3f, ",
            (unsigned long long)runs, (unsigned long long)execs, (unsigned long long)sync, (unsigned long long)acc, (unsigned long long)sw, (unsigned long long)ops, vt, au, (unsigned long long)threads, (unsigned long long)mt, (unsigned long long)rechecked, (unsigned long long)nondet, (unsigned long long)other, jstr(othermsg).c_str(), found ? "true" : "false", jstr(fo.cls).c_str(), jstr(fo.msg).c_str(), wall() - t0);
        fprintf(lg, "\"fired\": {"); for (int k = 0; k < NKIND; k++) fprintf(lg, "%s\"%s\": [%llu, %llu]", k ? ", " : "", kind_name[k], (unsigned long long)fired[k], (unsigned long long)runs_with[k]);
        fprintf(lg, "}, \"probes\": {"); for (int k = 0; k < NPROBES_USED; k++) fprintf(lg, "%s\"%s\": %llu", k ? ", " : "", probe_name[k], (unsigned long long)probes[k]);
        fprintf(lg, "}, \"perworld\": {"); { bool f = true; for (std::map<std::string, u64>::iterator i = perworld.begin(); i != perworld.end(); ++i) { fprintf(lg, "%s\"%s\": %llu", f ? "" : ", ", i->first.c_str(), (unsigned long long)i->second); f = false; } }
        fprintf(lg, "}, \"known\": {"); { bool f = true; for (std::map<std::string, u64>::iterator i = knownhits.begin(); i != knownhits.end(); ++i) { fprintf(lg, "%s%s: %llu", f ? "" : ", ", jstr(i->first).c_str(), (unsigned long long)i->second); f = false; } }
        fprintf(lg, "}, \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(lg, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
        // distinct sets: written as hex to be merged by the caller
        fprintf(lg, "], \"edges_total\": %u, \"edges\": \"", edges_total()); { std::vector<unsigned char> b; edges_seen(&b); for (size_t i = 0; i < b.size(); i++) fprintf(lg, "%02x", b[i]); }
        fprintf(lg, "\", \"distinct_plans\": %zu, \"distinct\": %zu}\n", plans.size(), scheds.size());
        fclose(lg);
        if (a.count("sets")) { std::ofstream f(a["sets"].c_str(), std::ios::binary); for (std::unordered_set<u64>::iterator i = scheds.begin(); i != scheds.end(); ++i) { u64 x = *i; f.write((char *)&x, 8); } }
        return 0;
    }
    return 2;
}

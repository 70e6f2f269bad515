// Deterministic simulator core: fibers, scheduler, virtual clock, simulated
// pthreads, arena heap with shadow memory, decision recording and replay.
#ifndef QMSIM_RT_H
#define QMSIM_RT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32;
typedef int64_t i64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed ^ 0x1234567) { s = next() ^ (seed << 32); s = next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }   // inclusive
    bool chance(unsigned per1000) { return below(1000) < per1000; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    u64 gap(u64 mean) {              // roughly geometric gap with the given mean, >= 1
        if (mean <= 1) return 1;
        double u = unit();
        double l = 0; // -log(1-u) by series-free approach
        l = -__builtin_log(1.0 - u);
        u64 g = (u64)(l * (double)mean) + 1;
        return g;
    }
};
static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
static inline u64 dbits(double d) { union { double d; u64 u; } x; x.d = d; return x.u; }

// Decision kinds. Default value is always 0 / "continue"; only deviations are recorded.
enum Kind { K_ACCESS, K_STATIC, K_SYNC, K_BLOCK, K_WAKE, K_SPURIOUS, K_STALL, K_CLOCKJUMP,
            K_CREATEFAIL, K_ALLOCFAIL, NKIND };
extern const char *kind_name[NKIND];

struct Decision { int kind; int fiber; u64 index; i64 value; };

struct Op {
    int client; std::string name; std::vector<i64> a;
    i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
    std::string world;
    u64 seed;
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    Plan() : seed(0) {}
    i64 get(const char *k, i64 d = 0) const {
        std::map<std::string, i64>::const_iterator i = cfg.find(k);
        return i == cfg.end() ? d : i->second;
    }
};

struct Variant {               // environment of one execution of a plan
    std::string name;
    int only_client;           // -1: all
    i64 fill, layout, clock, rnd, prelude;
    bool last;                 // run only each client's last call (on a fresh object in a fresh process)
    bool fixrand;              // srand's argument is ignored (random numbers taken as given)
    bool scramble;             // garbage below the stack pointer before every call into the code under test
    bool migrate;              // after every operation the client continues on "another thread" (fresh thread-local storage)
    bool sched;                // use plan's schedule settings (else: run without switching/faults)
    Variant() : only_client(-1), fill(1), layout(1), clock(1), rnd(1), prelude(0), last(false), fixrand(false), scramble(false), migrate(false), sched(true) {}
};

enum { MAXF = 80, MAXDIG = 6000, MAXCLIENT = 10, MAXDEC = 400000, NCOUNT = 40, NPROBE = 96 };
struct Result {                // in shared memory, written by the child
    volatile int status;       // 0 running/crashed, 1 ok, 2 fail
    char prop[16];             // "" = generic: counts against whatever is being checked
    char cls[64];
    char msg[1024];
    u64 hash;                  // history hash
    u64 sched_hash;            // hash of the context-switch sequence
    u64 sync_ops, accesses, switches, ops;
    u64 vtime_ns;              // simulated time
    double audio_s;            // simulated audio time
    u64 fired[NKIND];          // how often each decision kind deviated
    u64 probe[NPROBE];
    u64 allocs;
    int nfibers;
    u64 ndig[MAXCLIENT];
    u64 dig[MAXCLIENT][MAXDIG];
    u64 ndec;
    Decision dec[MAXDEC];
};

// ---- used by worlds (inside a run) ----
void fail(const char *prop, const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
void obs(u64 v);                          // fold into history hash
void digest(int client, u64 v);           // per client, per step digest
static inline void digest_d(int client, double d) { digest(client, dbits(d)); }
void op_done();
void pin_rand(u64 v);                    // random numbers of this thread start here, whatever the seed given (0: no longer)
void env_step();                          // after an operation: the variant's environment changes
void audio(double seconds);
void probe(int id);
int spawn(void (*fn)(void *), void *arg); // harness-level simulated thread
void join(int id);
void point();                             // explicit scheduling point (sync kind)
void sleep_ns(u64 ns);
u64 now_ns();                             // virtual monotonic clock
i64 realtime_us();
bool wallclock_jumped();
int self_id();
bool fiber_done(int id);
int live_threads();                       // simulated threads not yet finished
int unjoined_threads();                   // joinable threads finished or not, never joined/detached
int sut_created();                        // pthread_create successes so far
int sut_create_failures();
void quiesce();                           // stop faults, fair scheduling from here on
bool quiesced();
int held_locks();                         // mutexes currently locked
int foreign_unlocks();                    // raw pthread unlocks by a non-owner
int spurious_count();                     // spurious wakeups delivered so far
u64 spurious_to(int fiber);               // ... to this fiber
u64 stalls_ns();                          // simulated time added by stalls
u64 blocks_of(int fiber);                 // times this simulated thread has blocked
int fiber_blocked(int id);                // blocked on something without deadline?
const char *fiber_where(int id);

// Happens-before checked payload cells
void cell_write(int cell, const char *what);
void cell_read(int cell, const char *what);

// scope in which allocations are attributed to the system under test
struct Sut { int old; Sut(int tag); ~Sut(); };
// scope with preemption and shadow hooks off (harness critical section)
struct NoPreempt { bool old; NoPreempt(); ~NoPreempt(); };
struct HeapStat { u64 blocks, bytes; };
HeapStat heap_live(int tag);
u64 work_so_far();                        // accesses plus control-flow edges executed
unsigned edges_total(); unsigned edges_seen(std::vector<unsigned char> *bits);
u64 accesses_so_far();                    // instrumented accesses of this run
std::string heap_leaks(int tag);          // description of live blocks
void alloc_fault(int mode);               // current fiber: 1 allocation failures may be injected, 2 every allocation fails
extern int (*on_exit_hook)(int code);     // called when code under test calls exit(): return 1 if expected
void dirty_heap(u64 bytes);               // allocate, fill with junk and free: prior use of the process
void dirty_stack();

// world interface
struct World {
    const char *name;
    World(const char *n) : name(n) {}
    virtual ~World() {}
    virtual void gen(Rng &r, Plan &p, bool thorough) = 0;
    virtual void run(const Plan &p, const Variant &v) = 0;
    virtual void variants(const Plan &, std::vector<Variant> &v) { v.push_back(Variant()); }
    // compare results of the variants; return false and fill cls/msg to report
    virtual bool compare(const Plan &, const std::vector<Variant> &, Result **,
                         std::string &prop, std::string &cls, std::string &msg) { (void)prop; (void)cls; (void)msg; return true; }
};
void gen_sched(Rng &r, Plan &p, int profile); // profile 0: thread worlds (sync heavy), 1: DSP mixes (access level), 2: single threaded

// ---- used by the driver (parent) ----
void init_process();
// execute one variant of a plan in a forked child. If script != 0 use these decisions, else draw.
void execute(World *w, const Plan &p, const Variant &v, const std::vector<Decision> *script, Result *out, int cpu_limit_s);
std::vector<World *> &worlds();
World *find_world(const std::string &name);
extern const char *probe_name[];
enum ProbeId {
#define X(n) PR_##n,
#include "probes.def"
#undef X
    NPROBES_USED
};
} // namespace sim

#define PROBE(name) sim::probe(sim::PR_##name)
#endif

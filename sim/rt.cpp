// Simulator core. Compiled WITHOUT instrumentation.
#include "rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/auxv.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <elf.h>
#include <link.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <algorithm>

#define REAL(f) __real_##f
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self(); void __real_pthread_exit(void *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *); int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_timedlock(pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real_pthread_key_create(pthread_key_t *, void (*)(void *)); int __real_pthread_key_delete(pthread_key_t);
void *__real_pthread_getspecific(pthread_key_t); int __real_pthread_setspecific(pthread_key_t, const void *);
int __real_pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *); int __real_pthread_rwlock_destroy(pthread_rwlock_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_spin_init(pthread_spinlock_t *, int); int __real_pthread_spin_destroy(pthread_spinlock_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *); int __real_pthread_spin_trylock(pthread_spinlock_t *); int __real_pthread_spin_unlock(pthread_spinlock_t *);
int __real_sem_init(sem_t *, int, unsigned); int __real_sem_destroy(sem_t *); int __real_sem_wait(sem_t *);
int __real_sem_trywait(sem_t *); int __real_sem_timedwait(sem_t *, const struct timespec *); int __real_sem_post(sem_t *); int __real_sem_getvalue(sem_t *, int *);
int __real_sched_yield(); int __real_nanosleep(const struct timespec *, struct timespec *); int __real_usleep(useconds_t); unsigned __real_sleep(unsigned);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *); clock_t __real_clock();
int __real_rand(); void __real_srand(unsigned); long __real_random(); void __real_srandom(unsigned); int __real_rand_r(unsigned *);
double __real_drand48(); long __real_lrand48(); void __real_srand48(long);
void __real_exit(int) __attribute__((noreturn)); void __real__exit(int) __attribute__((noreturn)); void __real_abort() __attribute__((noreturn));
int __real___cxa_guard_acquire(u_int64_t *); void __real___cxa_guard_release(u_int64_t *); void __real___cxa_guard_abort(u_int64_t *);
int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
extern char __data_start, _end;
}

namespace sim {

const char *kind_name[NKIND] = { "access_preempt", "static_data_preempt", "sync_preempt", "block_pick", "wake_pick",
    "spurious_wakeup", "thread_stall", "wall_clock_jump", "thread_create_failure", "allocation_failure" };
const char *probe_name[] = {
#define X(n) #n,
#include "probes.def"
#undef X
    0 };

// ------------------------------------------------------------------ globals
static const u64 ARENA_BASE = 0x200000000000ull, ARENA_SIZE = 4ull << 30;
static const u64 SHADOW_BASE = 0x210000000000ull;
static const u64 STACK_BASE = 0x220000000000ull;
static const size_t STACK_SZ = 1 << 20, STACK_GUARD = 1 << 16;
static uint8_t *const shadow = (uint8_t *)SHADOW_BASE;

static bool g_run = false;        // inside a simulated run
static bool g_on = false;         // hooks active
static int g_internal = 0;        // allocations go to the real heap
static i64 g_cd = INT64_MAX, g_scd = INT64_MAX;
static u64 g_static_lo, g_static_span;
static Result *R = 0;
static const Plan *g_plan = 0;
static const Variant *g_var = 0;
int (*on_exit_hook)(int) = 0;
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));   // coverage builds only
static void child_exit() __attribute__((noreturn));
static void child_exit() { if (__llvm_profile_write_file) __llvm_profile_write_file(); __real__exit(0); }

enum FState { RUNNABLE, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_ONCE, W_RW, W_SEM, W_SPIN };
static const char *why_name[] = { "-", "mutex", "condition", "join", "sleep", "once", "rwlock", "semaphore", "spinlock" };

typedef uint32_t VC[MAXF];

struct Fiber {
    int id; FState st; Why why; u64 obj;
    bool timed, rt; i64 deadline; bool timed_out, woken, spurious;
    void *sp; char *stack;
    char *tls, *tls2; bool on;
    i64 cd, scd; u64 acc_next, st_next; u64 acc_last_switch;
    u64 nsync; u64 kc[NKIND];
    VC vc;
    int prio;
    u64 slot; bool joinable, detached, joined, harness; void *ret; void *(*fn)(void *); void *arg; void (*hfn)(void *);
    int sut_tag; int allocfault;
    const void *tsd[64];
    u64 rnd, pin;   // pin: random numbers restart here whatever srand is given
    u64 spur_in, nblocks;
    struct AtExit { void (*f)(void *); void *o; bool second; } atex[48]; bool second; int natex;
    int where_seq;
    u64 last_fair;
};
static Fiber F[MAXF];
static int nF = 0;
static Fiber *cur = 0;
static void *native_sp; static char *native_tls;
static char *tls_block; static size_t tls_size; static char *tls_template;

static i64 now = 0, rt_off = 0; static u64 stall_total = 0;
static bool g_quiet = false, g_replay = false, g_jumped = false;
static u64 quiesce_after, max_sync, max_acc, fair_acc;
static Rng srng(1);
static i64 c_psync, c_gap, c_sgap, c_pspur, c_pstall, c_pjump, c_pcreate, c_pct, c_pblock, c_allocgap;
static u64 tot_acc_base = 0;
static int n_created = 0, n_createfail = 0, n_foreign = 0, n_spur = 0;
static bool g_multi = false;

// replay script: open hash table
struct ScriptEnt { u64 key; i64 val; };
static ScriptEnt *sc_tab = 0; static u64 sc_mask = 0;
static std::vector<u64> *sc_acc = 0; // per fiber sorted access indices (K_ACCESS), [MAXF]
static std::vector<u64> *sc_sta = 0;
static u64 skey(int kind, int fiber, u64 idx) { return ((u64)(kind + 1) << 58) | ((u64)fiber << 50) | (idx & ((1ull << 50) - 1)); }
static bool sc_get(int kind, int fiber, u64 idx, i64 *v) {
    if (!sc_tab) return false;
    u64 k = skey(kind, fiber, idx), h = mix(0, k) & sc_mask;
    while (sc_tab[h].key) { if (sc_tab[h].key == k) { *v = sc_tab[h].val; return true; } h = (h + 1) & sc_mask; }
    return false;
}
static void record(int kind, u64 idx, i64 val) {
    R->fired[kind]++;
    if (R->ndec < MAXDEC) { Decision &d = R->dec[R->ndec++]; d.kind = kind; d.fiber = cur->id; d.index = idx; d.value = val; }
    R->hash = mix(R->hash, skey(kind, cur->id, idx) ^ (u64)val);
}

// ------------------------------------------------------------------ results
void vfail(const char *prop, const char *cls, const char *fmt, va_list ap) {
    g_on = false; g_run = false; g_internal++;
    R->status = 2;
    snprintf(R->prop, sizeof R->prop, "%s", prop);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    R->hash = mix(R->hash, 0xFA11);
    R->vtime_ns = now; R->nfibers = nF;
    child_exit();
}
void fail(const char *prop, const char *cls, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vfail(prop, cls, fmt, ap);
    __builtin_unreachable();
}
void obs(u64 v) { R->hash = mix(R->hash, v); }
void digest(int c, u64 v) {
    R->hash = mix(R->hash, v + 77 * c);
    if (c < 0 || c >= MAXCLIENT) return;
    u64 n = R->ndig[c]++;
    if (n < MAXDIG) R->dig[c][n] = v; else R->dig[c][MAXDIG - 1] = mix(R->dig[c][MAXDIG - 1], v);
}
void op_done() { R->ops++; }
void pin_rand(u64 v) { cur->pin = v; if (v) cur->rnd = v; }
static void swap_tls();
void env_step() {
    if (!g_var->migrate) return;
    g_internal++;
    if (!cur->tls2) { cur->tls2 = (char *)__real_malloc(tls_size + 64); memcpy(cur->tls2, tls_template, tls_size); }
    g_internal--;
    swap_tls();
}
static void swap_tls() {
    static char *t = 0; if (!t) { g_internal++; t = (char *)__real_malloc(tls_size + 64); g_internal--; }
    cur->second = !cur->second; memcpy(t, tls_block, tls_size); memcpy(tls_block, cur->tls2, tls_size); memcpy(cur->tls2, t, tls_size);
}
void audio(double s) { R->audio_s += s; }
void probe(int id) { if (R) R->probe[id]++; }

// ------------------------------------------------------------------ fibers
extern "C" void qm_ctx_switch(void **save, void *to);
__asm__(
".text\n.globl qm_ctx_switch\n.type qm_ctx_switch,@function\nqm_ctx_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
".size qm_ctx_switch,.-qm_ctx_switch\n"
".section .note.GNU-stack,\"\",@progbits\n.text\n");

static void sync_counters_out() {
    // nothing: counters are kept in cur->acc_next / g_cd
}
static void load_fiber(Fiber *f) {
    cur = f; g_cd = f->cd; g_scd = f->scd; g_on = f->on;
    memcpy(tls_block, f->tls, tls_size);
}
static u64 acc_done(Fiber *f) { return f == cur ? f->acc_next - (u64)(g_cd > 0 ? g_cd : 0) : f->acc_next - (u64)(f->cd > 0 ? f->cd : 0); }

static void switch_to(Fiber *f) {
    if (f == cur) return;
    R->switches++;
    R->sched_hash = mix(R->sched_hash, ((u64)cur->id << 8 | (u64)f->id) + (cur->nsync << 16));
    Fiber *o = cur;
    o->cd = g_cd; o->scd = g_scd; o->on = g_on;
    memcpy(o->tls, tls_block, tls_size);
    load_fiber(f);
    qm_ctx_switch(&o->sp, f->sp);
}

static void vc_join(VC &a, const VC &b) { for (int i = 0; i < nF; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void fiber_finish();
static void access_slow(); static void static_slow();
static u64 total_accesses() { u64 t = 0; for (int i = 0; i < nF; i++) t += acc_done(&F[i]); return t; }
u64 accesses_so_far() { return total_accesses(); }
static u64 g_edges = 0, g_edge_cap = 4000000000ull; static u32 g_edge_total = 0; static const u32 EDGE_MAX = 1 << 18; static unsigned char *g_edge_map = 0;
static void edge_limit() { g_edge_cap = ~0ull; fail("", "no-progress", "run exceeded 4000000000 control-flow edges without finishing"); }
u64 work_so_far() { return total_accesses() + g_edges; }
u32 edges_total() { return g_edge_total; }
u32 edges_seen(std::vector<unsigned char> *bits) { u32 n = 0; if (bits) bits->assign(g_edge_total / 8 + 1, 0); for (u32 i = 1; i <= g_edge_total && i < EDGE_MAX; i++) if (g_edge_map[i]) { n++; if (bits) (*bits)[i / 8] |= 1 << (i % 8); } return n; }

// plan next access-level event for cur
static void plan_next_access(Fiber *f, u64 done) {
    u64 nx = done + 50000000ull;
    u64 fa = f->last_fair + fair_acc; if (fa <= done) fa = done + 1;
    if (fa < nx) nx = fa;
    if (g_replay) {
        std::vector<u64> &v = sc_acc[f->id];
        g_internal++;
        std::vector<u64>::iterator i = std::upper_bound(v.begin(), v.end(), done);
        if (i != v.end() && *i < nx) nx = *i;
        g_internal--;
        f->cd = (i64)(nx - done); f->acc_next = nx;
        return;
    }
    if (!g_quiet && c_gap > 0) { u64 g = done + srng.gap((u64)c_gap); if (g < nx) nx = g; }
    f->cd = (i64)(nx - done); f->acc_next = nx;
}
static void plan_next_static(Fiber *f, u64 done) {
    u64 nx = done + (1ull << 40);
    if (g_replay) {
        std::vector<u64> &v = sc_sta[f->id];
        g_internal++;
        std::vector<u64>::iterator i = std::upper_bound(v.begin(), v.end(), done);
        if (i != v.end()) nx = *i;
        g_internal--;
    } else if (!g_quiet && c_sgap > 0) nx = done + srng.gap((u64)c_sgap);
    f->scd = (i64)(nx - done); f->st_next = nx;
}

static void root();
static Fiber *new_fiber() {
    if (nF >= MAXF) fail("", "sim-limit", "too many simulated threads in one run");
    Fiber *f = &F[nF];
    memset((void *)f, 0, sizeof *f);
    f->id = nF++;
    f->st = RUNNABLE;
    f->stack = (char *)STACK_BASE + (size_t)f->id * (STACK_SZ + STACK_GUARD) + STACK_GUARD;
    g_internal++;
    f->tls = (char *)__real_malloc(tls_size + 64);
    g_internal--;
    memcpy(f->tls, tls_template, tls_size);
    // stack garbage
    i64 fill = g_var->fill;
    size_t gl = 24 * 1024;
    u64 *g = (u64 *)(f->stack + STACK_SZ - gl);
    Rng gr((u64)fill * 977 + f->id);
    if (fill) for (size_t i = 0; i < gl / 8; i++) g[i] = (fill == 2) ? ~0ull : (fill == 3) ? 0x4340000000000000ull : gr.next();
    u64 *top = (u64 *)(f->stack + STACK_SZ);
    *--top = 0; *--top = 0; *--top = 0; // entry with rsp = 8 mod 16
    *--top = (u64)root;
    for (int i = 0; i < 6; i++) *--top = 0;
    --top; ((uint32_t *)top)[0] = 0x1f80; ((uint32_t *)top)[1] = 0x037f;
    f->sp = top;
    f->on = false;
    f->prio = (int)srng.below(1000) + 1000;
    f->rnd = (u64)g_var->rnd * 1000003ull + (u64)f->id * 0; f->pin = 0;
    f->slot = ~0ull;
    f->last_fair = 0;
    plan_next_access(f, 0); plan_next_static(f, 0);
    f->vc[f->id] = 1;
    return f;
}

static void root() {
    Fiber *f = cur;
    f->on = g_on = true;
    try {
        if (f->hfn) f->hfn(f->arg);
        else f->ret = f->fn(f->arg);
    } catch (abi::__forced_unwind &) { throw;
    } catch (std::exception &e) {
        fail("", "uncaught-exception", "simulated thread %d ended with uncaught exception: %s", f->id, e.what());
    } catch (...) {
        fail("", "uncaught-exception", "simulated thread %d ended with an uncaught exception", f->id);
    }
    g_on = false;
    fiber_finish();
}

// ------------------------------------------------------------------ scheduling
static i64 dl_mono(Fiber *f) { return f->rt ? f->deadline - rt_off : f->deadline; }
static void make_runnable(Fiber *f) { f->st = RUNNABLE; f->why = W_NONE; f->timed = false; }
static void fire_timers() {
    for (int i = 0; i < nF; i++) {
        Fiber *f = &F[i];
        if (f->st == BLOCKED && f->timed && dl_mono(f) <= now) { f->timed_out = true; make_runnable(f); }
    }
}
static int runnable_others(Fiber **out) {
    int n = 0;
    for (int i = 0; i < nF; i++) if (F[i].st == RUNNABLE && &F[i] != cur) out[n++] = &F[i];
    return n;
}
static Fiber *next_rr() {
    for (int k = 1; k <= nF; k++) { Fiber *f = &F[(cur->id + k) % nF]; if (f->st == RUNNABLE && f != cur) return f; }
    return 0;
}
static Fiber *by_value(i64 v) { // value = fiber id + 1
    if (v <= 0 || v > nF) return 0;
    Fiber *f = &F[v - 1];
    return (f->st == RUNNABLE && f != cur) ? f : 0;
}
// a generic recorded choice; returns 0 by default
static i64 choose(int kind, bool fires, i64 (*val)(void *), void *ctx) {
    u64 idx = cur->kc[kind]++;
    if (g_replay) { i64 v = 0; if (!g_quiet && sc_get(kind, cur->id, idx, &v)) { if (v) record(kind, idx, v); return v; } return 0; }
    if (g_quiet || !fires) return 0;
    i64 v = val(ctx);
    if (v) record(kind, idx, v);
    return v;
}
static i64 v_pick_other(void *) { Fiber *c[MAXF]; int n = runnable_others(c); return n ? c[srng.below(n)]->id + 1 : 0; }
static i64 v_stall(void *) {
    static const i64 mags[] = { 1000, 20000, 300000, 1000000, 15000000, 700000000, 3000000000ll };
    return mags[srng.below(7)] * (1 + (i64)srng.below(5));
}
static i64 v_jump(void *) { i64 m = (i64)srng.below(4000000000ull) + 1000; return srng.below(2) ? m : -m; }
static i64 v_spur(void *) {
    int c[MAXF], n = 0;
    for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].why == W_COND) c[n++] = i;
    return n ? c[srng.below(n)] + 1 : 0;
}
static i64 v_one(void *) { return 1; }
static i64 v_below(void *p) { return (i64)srng.below((u64) * (int *)p); }

static Fiber *pct_best() {
    Fiber *b = 0;
    for (int i = 0; i < nF; i++) if (F[i].st == RUNNABLE && (!b || F[i].prio > b->prio)) b = &F[i];
    return b;
}
static i64 v_pct(void *) { Fiber *b = pct_best(); return b && b != cur ? b->id + 1 : 0; }

bool quiesced() { return g_quiet; }
void quiesce() {
    if (g_quiet) return;
    g_quiet = true;
    for (int i = 0; i < nF; i++) { // replan access events: no more random preemption
        Fiber *f = &F[i]; u64 d = acc_done(f);
        plan_next_access(f, d); plan_next_static(f, f->st_next - (u64)(f == cur ? g_scd : f->scd));
        if (f == cur) { g_cd = f->cd; g_scd = f->scd; }
    }
}

static void timeouts_check();
static void sync_point() {
    if (!g_run || !cur) return;
    bool on = g_on; g_on = false;
    cur->nsync++; R->sync_ops++;
    now += 50;
    if (!g_quiet && R->sync_ops > quiesce_after) quiesce();
    if (R->sync_ops > max_sync) fail("", "no-progress", "run did not finish within %llu synchronisation steps (faults stopped and scheduling fair after %llu)", (unsigned long long)max_sync, (unsigned long long)quiesce_after);
    fire_timers();
    if (!g_quiet) {
        i64 v;
        if (g_replay || c_pstall) if ((v = choose(K_STALL, srng.chance(c_pstall), v_stall, 0))) { now += v; stall_total += v; fire_timers(); }
        if (g_replay || c_pjump) if ((v = choose(K_CLOCKJUMP, srng.chance(c_pjump), v_jump, 0))) { rt_off += v; g_jumped = true; fire_timers(); }
        if (g_replay || c_pspur) if ((v = choose(K_SPURIOUS, srng.chance(c_pspur), v_spur, 0))) {
            Fiber *f = v - 1 < nF ? &F[v - 1] : 0;
            if (f && f->st == BLOCKED && f->why == W_COND) { f->woken = true; f->spurious = true; f->spur_in++; n_spur++; make_runnable(f); }
        }
    }
    Fiber *nx = 0;
    if (g_quiet) nx = next_rr();
    else if (nF > 1) {
        if (c_pct && !g_replay) {
            if (srng.chance(c_pct)) cur->prio = (int)srng.below(900);
            nx = by_value(choose(K_SYNC, true, v_pct, 0));
        } else nx = by_value(choose(K_SYNC, g_replay ? false : srng.chance(c_psync), v_pick_other, 0));
    }
    if (nx) switch_to(nx);
    g_on = on;
}

static void dump_blocked(char *buf, size_t n) {
    size_t o = 0; buf[0] = 0;
    for (int i = 0; i < nF && o + 60 < n; i++)
        if (F[i].st != DONE) o += snprintf(buf + o, n - o, "[thread %d %s%s] ", i, F[i].st == BLOCKED ? "blocked on " : "runnable ", why_name[F[i].why]);
}

// block current fiber until made runnable
static void block(Why why, u64 obj, bool timed, bool rt, i64 deadline) {
    Fiber *me = cur;
    bool on = g_on; g_on = false;
    me->nblocks++;
    me->st = BLOCKED; me->why = why; me->obj = obj; me->timed = timed; me->rt = rt; me->deadline = deadline;
    me->timed_out = false; me->woken = false; me->spurious = false;
    Fiber *n = 0;
    for (;;) {
        fire_timers();
        if (me->st == RUNNABLE) { Fiber *c[MAXF]; if (!runnable_others(c)) { n = me; break; } }
        Fiber *c[MAXF]; int k = 0;
        for (int i = 0; i < nF; i++) if (F[i].st == RUNNABLE) c[k++] = &F[i];
        if (k) {
            Fiber *d = next_rr(); if (!d) d = me;
            if (k > 1 && !g_quiet) {
                i64 v;
                if (c_pct && !g_replay) v = choose(K_BLOCK, true, v_pct, 0);
                else v = choose(K_BLOCK, g_replay ? false : srng.chance(c_pblock), v_pick_other, 0);
                Fiber *b = by_value(v); if (b) d = b;
            }
            n = d; break;
        }
        i64 best = INT64_MAX; bool any = false;
        for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].timed) { any = true; best = std::min(best, dl_mono(&F[i])); }
        if (!any) {
            char b[700]; dump_blocked(b, sizeof b);
            fail("", "deadlock", "no simulated thread can ever run again: %s", b);
        }
        if (best > now) now = best;
    }
    if (n != me) switch_to(n);
    g_on = on;
}

static void wake_obj(u64 obj, Why why) {
    for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].why == why && F[i].obj == obj) { F[i].woken = true; make_runnable(&F[i]); }
}

static void access_slow() {
    bool on = g_on; g_on = false;
    u64 idx = cur->acc_next;
    u64 tot = 0; for (int i = 0; i < nF; i++) tot += (&F[i] == cur) ? idx : acc_done(&F[i]);
    R->accesses = tot;
    if (tot > max_acc) fail("", "no-progress", "run exceeded %llu memory accesses without finishing", (unsigned long long)max_acc);
    Fiber *t = 0;
    if (nF > 1) {
        if (g_replay) {
            i64 v = 0;
            if (!g_quiet && sc_get(K_ACCESS, cur->id, idx, &v)) { t = by_value(v); if (t) record(K_ACCESS, idx, v); }
        } else if (!g_quiet && c_gap > 0 && idx < cur->last_fair + fair_acc) {
            Fiber *c[MAXF]; int n = runnable_others(c);
            if (n) { t = c[srng.below(n)]; record(K_ACCESS, idx, t->id + 1); }
        }
        if (!t && idx >= cur->last_fair + fair_acc) { t = next_rr(); cur->last_fair = idx; }
    }
    if (idx >= cur->last_fair + fair_acc) cur->last_fair = idx;
    plan_next_access(cur, idx); g_cd = cur->cd;
    if (t) { now += 50; switch_to(t); }
    g_on = on;
}
static void static_slow() {
    bool on = g_on; g_on = false;
    u64 idx = cur->st_next;
    Fiber *t = 0;
    if (nF > 1 && !g_quiet) {
        if (g_replay) {
            i64 v = 0;
            if (sc_get(K_STATIC, cur->id, idx, &v)) { t = by_value(v); if (t) record(K_STATIC, idx, v); }
        } else if (c_sgap > 0) {
            Fiber *c[MAXF]; int n = runnable_others(c);
            if (n) { t = c[srng.below(n)]; record(K_STATIC, idx, t->id + 1); }
        }
    }
    plan_next_static(cur, idx); g_scd = cur->scd;
    if (t) { PROBE(static_shared_preempt); switch_to(t); }
    g_on = on;
}

static int new_slot_used[256];
static int free_slots[256], nfree_slots = 0, next_slot = 0;
static Fiber *slot_fiber[256];
static u64 take_slot(Fiber *f) { int s = nfree_slots ? free_slots[--nfree_slots] : next_slot++; slot_fiber[s & 255] = f; return (u64)s; }
static void give_slot(Fiber *f) { if (f->slot != ~0ull) { free_slots[nfree_slots++] = (int)f->slot; slot_fiber[f->slot & 255] = 0; f->slot = ~0ull; } }
static pthread_t id_of(Fiber *f) { return f->slot == ~0ull ? (pthread_t)(0x6f0000000000ull + (u64)f->id * 0x1000) : (pthread_t)(0x700000000000ull + f->slot * 0x1000); }

static void fiber_finish() {
    Fiber *me = cur;
    // thread_local destructors and TSD destructors are run by the caller (root) having returned
    for (int i = me->natex - 1; i >= 0; i--) { if (me->atex[i].second != me->second) swap_tls(); me->atex[i].f(me->atex[i].o); }
    me->natex = 0;
    sync_point();
    me->st = DONE; me->vc[me->id]++;
    if (me->detached) give_slot(me);
    wake_obj((u64)me->id + 1, W_JOIN);
    if (me->id == 0) { // world finished
        R->status = 1; R->vtime_ns = now; R->nfibers = nF; R->accesses = total_accesses();
        child_exit();
    }
    Fiber *c[MAXF]; int n = runnable_others(c);
    if (!n) { // advance time or deadlock
        me->why = W_NONE;
        for (;;) {
            i64 best = INT64_MAX; bool any = false;
            for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].timed) { any = true; best = std::min(best, dl_mono(&F[i])); }
            if (!any) { char b[700]; dump_blocked(b, sizeof b); fail("", "deadlock", "no simulated thread can ever run again: %s", b); }
            if (best > now) now = best;
            fire_timers();
            n = runnable_others(c); if (n) break;
        }
    }
    Fiber *d = next_rr();
    if (n > 1 && !g_quiet) {
        i64 v = (c_pct && !g_replay) ? choose(K_BLOCK, true, v_pct, 0) : choose(K_BLOCK, g_replay ? false : srng.chance(c_pblock), v_pick_other, 0);
        Fiber *b = by_value(v); if (b) d = b;
    }
    switch_to(d);
    abort();
}

// ------------------------------------------------------------------ API for worlds
NoPreempt::NoPreempt() : old(g_on) { g_on = false; }
NoPreempt::~NoPreempt() { g_on = old; }
int spawn(void (*fn)(void *), void *arg) {
    NoPreempt np;
    Fiber *f = new_fiber();
    f->harness = true; f->hfn = fn; f->arg = arg; f->joinable = true;
    f->vc[f->id] = 1; cur->vc[cur->id]++; vc_join(f->vc, cur->vc);
    f->slot = take_slot(f);
    return f->id;
}
void join(int id) {
    NoPreempt np;
    while (F[id].st != DONE) block(W_JOIN, (u64)id + 1, false, false, 0);
    vc_join(cur->vc, F[id].vc);
    F[id].joined = true; give_slot(&F[id]);
}
void point() { sync_point(); }
u64 now_ns() { return (u64)now; }
i64 realtime_us() { return (now + rt_off) / 1000; }
bool wallclock_jumped() { return g_jumped; }
int self_id() { return cur ? cur->id : -1; }
bool fiber_done(int id) { return F[id].st == DONE; }
int live_threads() { int n = 0; for (int i = 1; i < nF; i++) if (!F[i].harness && F[i].st != DONE) n++; return n; }
int unjoined_threads() { int n = 0; for (int i = 1; i < nF; i++) if (!F[i].harness && !F[i].joined && !F[i].detached) n++; return n; }
int sut_created() { return n_created; }
int sut_create_failures() { return n_createfail; }
int foreign_unlocks() { return n_foreign; }
int spurious_count() { return n_spur; }
u64 spurious_to(int f) { return F[f].spur_in; }
u64 blocks_of(int f) { return F[f].nblocks; }
u64 stalls_ns() { return stall_total; }
int fiber_blocked(int id) { return F[id].st == BLOCKED && !F[id].timed; }
const char *fiber_where(int id) { return F[id].st == BLOCKED ? why_name[F[id].why] : F[id].st == DONE ? "done" : "runnable"; }
void sleep_ns(u64 ns) { NoPreempt np; sync_point(); block(W_SLEEP, 0, true, false, now + (i64)ns); }

struct Cell { int wf; uint32_t wc; const char *ww; uint32_t rc[MAXF]; };
static Cell cells[256];
static const char *fmt_race = "%s by thread %d is not ordered after %s by thread %d (no happens-before edge): cell %d";
void cell_write(int c, const char *what) {
    NoPreempt np; Cell &x = cells[c]; 
    if (x.ww && x.wf != cur->id && x.wc > cur->vc[x.wf]) fail("", "not-visible", fmt_race, what, cur->id, x.ww, x.wf, c);
    for (int i = 0; i < nF; i++) if (i != cur->id && x.rc[i] > cur->vc[i]) fail("", "not-visible", fmt_race, what, cur->id, "a read", i, c);
    x.wf = cur->id; x.wc = cur->vc[cur->id]; x.ww = what;
}
void cell_read(int c, const char *what) {
    NoPreempt np; Cell &x = cells[c];
    if (x.ww && x.wf != cur->id && x.wc > cur->vc[x.wf]) fail("", "not-visible", fmt_race, what, cur->id, x.ww, x.wf, c);
    x.rc[cur->id] = cur->vc[cur->id];
}
static void vc_release(VC &o) { vc_join(o, cur->vc); cur->vc[cur->id]++; }
static void vc_acquire(VC &o) { vc_join(cur->vc, o); }

// ------------------------------------------------------------------ heap
struct Hdr { uint32_t magic; int32_t tag; u64 size; u64 base_off; uint32_t cls; uint32_t seq; };  // 32 bytes
enum { MAGIC_LIVE = 0x51A11FE1, MAGIC_FREE = 0xDEADF4EE };
static u64 arena_top = 0; static uint32_t alloc_seq = 0;
static Rng lrng(1);
static HeapStat live_stat[MAXCLIENT + 4];
struct FreeBlk { u64 base; u64 total; };
static const int NCLS = 200;
static std::vector<FreeBlk> *freelist = 0; // [NCLS]
static std::vector<FreeBlk> *quar = 0; static size_t quar_head = 0; static u64 quar_bytes = 0;

static inline bool in_arena(const void *p) { return (u64)p - ARENA_BASE < ARENA_SIZE; }
static int size_class(u64 total, u64 *rounded) {
    // 8 steps per power of two
    if (total < 64) total = 64;
    int lg = 63 - __builtin_clzll(total);
    u64 step = (1ull << lg) >> 3; if (step < 16) step = 16;
    u64 r = (total + step - 1) / step * step;
    int lg2 = 63 - __builtin_clzll(r);
    u64 st2 = (1ull << lg2) >> 3; if (st2 < 16) st2 = 16;
    int c = (lg2 - 6) * 8 + (int)((r - (1ull << lg2)) / st2);
    *rounded = r;
    return c < NCLS ? c : NCLS - 1;
}
static void poison(u64 a, u64 n, uint8_t v) { memset(shadow + ((a - ARENA_BASE) >> 3), v, n >> 3); } // 8-aligned
static void unpoison(u64 a, u64 n) {
    memset(shadow + ((a - ARENA_BASE) >> 3), 0, n >> 3);
    if (n & 7) shadow[(a + n - ARENA_BASE) >> 3] = (uint8_t)(n & 7);
}
u64 junk_salt() { NoPreempt np; static u64 n = 0; return mix(mix(0x1a5c, (u64)g_var->fill * 131 + (u64)g_var->prelude), ++n); }
static void fill_garbage(void *p, u64 n, i64 mode, u64 salt) {
    u64 *q = (u64 *)p; u64 w = n / 8;
    switch (mode) {
    case 0: memset(p, 0, n); return;
    case 2: memset(p, 0xFF, n); return;                                   // NaNs, -1
    case 3: for (u64 i = 0; i < w; i++) q[i] = 0x4340000000000000ull; break; // 2^53
    case 4: for (u64 i = 0; i < w; i++) q[i] = 0x3FF0000000000000ull; break; // 1.0
    case 5: for (u64 i = 0; i < w; i++) q[i] = 0x0000000100000001ull; break; // small ints
    default: { u64 s = salt * 0x9E3779B97F4A7C15ull + (u64)mode;
        for (u64 i = 0; i < w; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; q[i] = (s & ~0x7ff0000000000000ull) | ((0x3f0ull + (s >> 59)) << 52); } }
    }
    for (u64 i = w * 8; i < n; i++) ((char *)p)[i] = (char)(0x5a + i);
}

static bool alloc_should_fail() {
    if (!cur || !cur->allocfault || !cur->sut_tag) return false;
    if (cur->allocfault == 2) return true; // an outage the plan asks for
    return choose(K_ALLOCFAIL, !g_replay && c_allocgap > 0 && srng.below((u64)c_allocgap) == 0, v_one, 0) != 0;
}

static void *a_malloc(u64 size, u64 align) {
    bool on = g_on; g_on = false; g_internal++;
    void *ret = 0;
    if (alloc_should_fail() || size > (1ull << 31)) { g_internal--; g_on = on; errno = ENOMEM; return 0; }
    if (align < 16) align = 16;
    u64 pad = (g_var->layout > 1) ? 16 * lrng.below(6) : 0;
    u64 usr = (size + 15) & ~15ull;
    u64 total = 32 + pad + (align > 16 ? align : 0) + usr + 32 + ((size > 4096) ? 256 : 0), rounded;
    int c = size_class(total, &rounded);
    u64 base;
    if (c < NCLS - 1 && !freelist[c].empty()) { base = freelist[c].back().base; rounded = freelist[c].back().total; freelist[c].pop_back(); }
    else {
        if (arena_top + rounded + 4096 > ARENA_SIZE) fail("", "sim-limit", "simulated heap exhausted");
        base = ARENA_BASE + arena_top; arena_top += rounded;
    }
    u64 user = base + 32 + pad;
    user = (user + align - 1) & ~(align - 1);
    poison(base, rounded, 0xfa);
    Hdr *h = (Hdr *)(user - 32);
    h->magic = MAGIC_LIVE; h->tag = cur ? cur->sut_tag : 0; h->size = size; h->base_off = user - base; h->cls = (uint32_t)c; h->seq = ++alloc_seq;
    // stash rounded size after the header's user area is not possible; keep in side word
    *(u64 *)(base + rounded - 8) = rounded; // inside trailing redzone
    ((u64 *)(user - 32))[2] = (user - base) | (rounded << 20);
    unpoison(user, size);
    fill_garbage((void *)user, usr, g_var->fill, h->seq);
    live_stat[h->tag].blocks++; live_stat[h->tag].bytes += size;
    R->allocs++;
    ret = (void *)user;
    g_internal--; g_on = on;
    return ret;
}
static void drop_sync_objs(u64 lo, u64 hi);
static Hdr *hdr_of(void *p, const char *what) {
    Hdr *h = (Hdr *)((u64)p - 32);
    uint8_t sh = shadow[((u64)p - ARENA_BASE) >> 3];
    if (((u64)p & 15) || (u64)p < ARENA_BASE + 32 || h->magic != MAGIC_LIVE) {
        if (sh == 0xfd || h->magic == MAGIC_FREE) fail("", "double-free", "%s of a block that was already freed", what);
        fail("", "bad-free", "%s of a pointer that is not the start of a live heap block", what);
    }
    return h;
}
static void release_block(u64 base, u64 total) {
    FreeBlk b = { base, total };
    quar->push_back(b); quar_bytes += total;
    while (quar_bytes > (6u << 20) && quar_head < quar->size()) {
        FreeBlk q = (*quar)[quar_head++]; quar_bytes -= q.total;
        u64 r; int c = size_class(q.total, &r);
        if (c < NCLS - 1 && r == q.total) freelist[c].push_back(q);
    }
}
static void a_free(void *p) {
    bool on = g_on; g_on = false; g_internal++;
    Hdr *h = hdr_of(p, "free");
    u64 boff = ((u64 *)h)[2] & ((1u << 20) - 1), rounded = ((u64 *)h)[2] >> 20;
    u64 base = (u64)p - boff;
    live_stat[h->tag].blocks--; live_stat[h->tag].bytes -= h->size;
    h->magic = MAGIC_FREE;
    u64 usr = (h->size + 15) & ~15ull;
    poison((u64)p, usr ? usr : 0, 0xfd);
    if (usr) { memset(p, 0xDD, usr < 256 ? usr : 256); }
    drop_sync_objs((u64)p, (u64)p + usr);
    release_block(base, rounded);
    g_internal--; g_on = on;
}
static u64 a_size(void *p) { return hdr_of(p, "realloc")->size; }

static void __attribute__((noinline)) scramble_stack() { static u64 salt = 0; char *b = (char *)__builtin_alloca(8192); fill_garbage(b, 8192, g_var->fill, ++salt); __asm__ volatile("" : : "r"(b) : "memory"); }
Sut::Sut(int tag) { old = cur->sut_tag; cur->sut_tag = tag; if (g_var->scramble && tag) scramble_stack(); }
Sut::~Sut() { cur->sut_tag = old; }
void alloc_fault(int mode) { cur->allocfault = mode; }
HeapStat heap_live(int tag) { return live_stat[tag]; }
std::string heap_leaks(int tag) {
    NoPreempt np; g_internal++;
    std::string s; int n = 0; u64 a = ARENA_BASE;
    char b[96];
    // scan shadow-poisoned arena headers: walk by looking for live magic at 16-byte steps
    for (; a < ARENA_BASE + arena_top && n < 8; a += 16) {
        Hdr *h = (Hdr *)a;
        if (h->magic == MAGIC_LIVE && h->tag == tag && shadow[(a - ARENA_BASE) >> 3] == 0xfa && h->size < (1ull << 32)) {
            snprintf(b, sizeof b, "%llu bytes (allocation #%u); ", (unsigned long long)h->size, h->seq); s += b; n++;
        }
    }
    g_internal--;
    return s;
}
void dirty_heap(u64 bytes) {
    NoPreempt np;
    Rng r((u64)g_var->prelude * 31 + 7);
    std::vector<void *> v;
    g_internal++;
    u64 tot = 0;
    while (tot < bytes) { u64 n = 16 << r.below(10); n += r.below(64) * 8; g_internal--; void *p = malloc(n); g_internal++; if (p) { u64 *q = (u64 *)p; for (u64 i = 0; i < n / 8; i++) q[i] = dbits(r.unit() * 1e3 - 500); v.push_back(p); } tot += n; }
    for (size_t i = 0; i < v.size(); i++) { g_internal--; free(v[i]); g_internal++; }
    // make it reusable at once: old contents show through
    while (quar_head < quar->size()) { FreeBlk q = (*quar)[quar_head++]; quar_bytes -= q.total; u64 rr; int c = size_class(q.total, &rr); if (c < NCLS - 1 && rr == q.total) freelist[c].push_back(q); }
    g_internal--;
}

static void bad_access(u64 a, unsigned n, bool w) __attribute__((noinline, noreturn));
static void bad_access(u64 a, unsigned n, bool w) {
    g_on = false;
    uint8_t s = shadow[(a - ARENA_BASE) >> 3];
    if (!s) s = shadow[(a + n - 1 - ARENA_BASE) >> 3];
    const char *k = s == 0xfd ? "use-after-free" : "out-of-bounds";
    // locate neighbouring block: search backwards for a header
    u64 b = a & ~15ull; Hdr *h = 0; u64 user = 0;
    for (int i = 0; i < 200000 && b >= ARENA_BASE + 32; i++, b -= 16) {
        Hdr *x = (Hdr *)(b - 32);
        if ((x->magic == MAGIC_LIVE || x->magic == MAGIC_FREE) && shadow[(b - 32 - ARENA_BASE) >> 3] == 0xfa) { h = x; user = b; break; }
    }
    if (h) fail("", k, "%s of %u byte(s) at offset %lld of a heap block of %llu bytes%s (allocation #%u), thread %d", w ? "write" : "read", n, (long long)(a - user), (unsigned long long)h->size, h->magic == MAGIC_FREE ? " already freed" : "", h->seq, cur ? cur->id : -1);
    fail("", k, "%s of %u byte(s) outside any heap block, thread %d", w ? "write" : "read", n, cur ? cur->id : -1);
}
static inline void check_range(u64 a, u64 n, bool w) {
    if (!n) return;
    if (a - ARENA_BASE >= ARENA_SIZE) return;
    u64 e = a + n; u64 g0 = (a - ARENA_BASE) >> 3, g1 = (e - 1 - ARENA_BASE) >> 3;
    for (u64 g = g0; g < g1; g++) if (shadow[g]) bad_access(ARENA_BASE + g * 8 < a ? a : ARENA_BASE + g * 8 + (shadow[g] < 8 ? shadow[g] : 0), 1, w);
    uint8_t s = shadow[g1];
    if (s && (s >= 8 || ((e - 1) & 7) >= s)) bad_access(e - 1, 1, w);
}
static inline __attribute__((always_inline)) void acc(const void *p, unsigned n, bool w) {
    if (!g_on) return;
    u64 a = (u64)p;
    if (a - ARENA_BASE < ARENA_SIZE) {
        u64 off = a - ARENA_BASE;
        uint8_t s = shadow[off >> 3];
        if (__builtin_expect((a & 7) + n > 8, 0)) check_range(a, n, w);
        else if (__builtin_expect(s != 0, 0) && (s >= 8 || (a & 7) + n > s)) bad_access(a, n, w);
    } else if (a - g_static_lo < g_static_span) {
        if (--g_scd <= 0) static_slow();
    }
    if (--g_cd <= 0) access_slow();
}
static void acc_range(const void *p, u64 n, bool w) { if (!g_on || !n) return; check_range((u64)p, n, w); if ((u64)p - g_static_lo < g_static_span) { if (--g_scd <= 0) static_slow(); } if (--g_cd <= 0) access_slow(); }

// ------------------------------------------------------------------ sync objects
enum OType { O_MUTEX, O_COND, O_ONCE, O_RW, O_SEM, O_SPIN, O_ATOMIC, O_GUARD };
struct Obj { u64 addr; int type; bool used; bool locked; int owner; int count; int mkind; int readers; int clk; VC vc; };
static Obj objs[4096]; static int nobjs = 0;
static Obj *find_obj(u64 a, int t) { for (int i = nobjs - 1; i >= 0; i--) if (objs[i].used && objs[i].addr == a && objs[i].type == t) return &objs[i]; return 0; }
static Obj *make_obj(u64 a, int t) {
    Obj *o = 0;
    for (int i = 0; i < nobjs; i++) if (!objs[i].used) { o = &objs[i]; break; }
    if (!o) { if (nobjs >= 4096) fail("", "sim-limit", "too many synchronisation objects"); o = &objs[nobjs++]; }
    memset((void *)o, 0, sizeof *o); o->used = true; o->addr = a; o->type = t; o->owner = -1;
    return o;
}
static void kill_obj(Obj *o) { o->used = false; while (nobjs > 0 && !objs[nobjs - 1].used) nobjs--; }
static bool zeroed(const void *p, size_t n) { const char *c = (const char *)p; for (size_t i = 0; i < n; i++) if (c[i]) return false; return true; }
static Obj *get_obj(const void *p, int t, size_t n, const char *what) {
    Obj *o = find_obj((u64)p, t);
    if (o) return o;
    if (n && !zeroed(p, n)) {
        // PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP and friends set a kind word; everything else is garbage
        if (t != O_MUTEX) fail("", "pthread-misuse", "use of a %s that was never initialised", what);
        const int *w = (const int *)p; int k = w[4];
        pthread_mutex_t z; memset(&z, 0, sizeof z); ((int *)&z)[4] = k;
        if (memcmp(&z, p, sizeof z) || k < 0 || k > 3) fail("", "pthread-misuse", "use of a %s that was never initialised", what);
        o = make_obj((u64)p, t); o->mkind = k; return o;
    }
    return make_obj((u64)p, t);
}
static void drop_sync_objs(u64 lo, u64 hi) {
    if (!nobjs) return;
    for (int i = 0; i < nobjs; i++) if (objs[i].used && objs[i].addr >= lo && objs[i].addr < hi) {
        if (objs[i].type == O_MUTEX && objs[i].locked) fail("", "pthread-misuse", "memory of a locked mutex is freed");
        objs[i].used = false;
    }
    while (nobjs > 0 && !objs[nobjs - 1].used) nobjs--;
}
int held_locks() { int n = 0; for (int i = 0; i < nobjs; i++) if (objs[i].used && objs[i].type == O_MUTEX && objs[i].locked) n++; return n; }

static int m_lock(pthread_mutex_t *m, bool timed, i64 dl) {
    sync_point();
    Obj *o = get_obj(m, O_MUTEX, sizeof *m, "mutex");
    if (o->locked && o->owner == cur->id) {
        if (o->mkind == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
        if (o->mkind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    bool cont = false;
    while (o->locked) {
        if (!cont) { cont = true; PROBE(lock_contended); }
        block(W_MUTEX, (u64)m, timed, true, dl);
        if (timed && cur->timed_out && (o = find_obj((u64)m, O_MUTEX)) && o->locked) return ETIMEDOUT;
        o = find_obj((u64)m, O_MUTEX);
        if (!o) fail("", "pthread-misuse", "mutex destroyed while thread %d waits for it", cur->id);
    }
    o->locked = true; o->owner = cur->id; o->count = 1;
    vc_acquire(o->vc);
    return 0;
}
static void m_unlock_raw(Obj *o) { o->locked = false; o->owner = -1; vc_release(o->vc); wake_obj(o->addr, W_MUTEX); }
static int m_unlock(pthread_mutex_t *m) {
    sync_point();
    Obj *o = get_obj(m, O_MUTEX, sizeof *m, "mutex");
    if (!o->locked) { if (o->mkind) return EPERM; fail("", "pthread-misuse", "unlock of a mutex that is not locked, thread %d", cur->id); }
    if (o->owner != cur->id) { if (o->mkind) return EPERM; n_foreign++; }
    if (o->mkind == PTHREAD_MUTEX_RECURSIVE && --o->count > 0) return 0;
    m_unlock_raw(o);
    sync_point();
    return 0;
}
static int c_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, bool rt, const struct timespec *ts) {
    sync_point();
    Obj *o = get_obj(m, O_MUTEX, sizeof *m, "mutex");
    get_obj(c, O_COND, 0, "condition");
    if (!find_obj((u64)c, O_COND)) {}
    if (!o->locked || o->owner != cur->id) { if (o->mkind) return EPERM; fail("", "pthread-misuse", "condition wait without holding its mutex, thread %d", cur->id); }
    i64 dl = 0;
    if (timed) {
        if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
        dl = ts->tv_sec > 9000000000ll ? 9000000000000000000ll : ts->tv_sec * 1000000000ll + ts->tv_nsec;
    }
    int saved = o->count;
    m_unlock_raw(o);
    int n = 0; for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].why == W_COND && F[i].obj == (u64)c) n++;
    if (n) PROBE(cond_multiple_waiters);
    block(W_COND, (u64)c, timed, rt, dl);
    bool to = cur->timed_out && !cur->woken;
    // reacquire
    o = find_obj((u64)m, O_MUTEX);
    if (!o) fail("", "pthread-misuse", "mutex destroyed while thread %d waits on its condition", cur->id);
    while (o->locked) { bool a = cur->timed_out, b = cur->woken; block(W_MUTEX, (u64)m, false, false, 0); cur->timed_out = a; cur->woken = b; o = find_obj((u64)m, O_MUTEX); if (!o) fail("", "pthread-misuse", "mutex destroyed in use"); }
    o->locked = true; o->owner = cur->id; o->count = saved; vc_acquire(o->vc);
    if (to) PROBE(timedwait_expired); else if (timed) PROBE(timedwait_signalled);
    return to ? ETIMEDOUT : 0;
}
static int c_signal(pthread_cond_t *c, bool all) {
    sync_point();
    get_obj(c, O_COND, 0, "condition");
    Fiber *w[MAXF]; int n = 0;
    for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].why == W_COND && F[i].obj == (u64)c) w[n++] = &F[i];
    if (!n) PROBE(cond_signal_no_waiter);
    else if (all) for (int i = 0; i < n; i++) { w[i]->woken = true; make_runnable(w[i]); }
    else {
        i64 v = n > 1 ? choose(K_WAKE, !g_replay, v_below, &n) : 0;
        Fiber *f = w[v >= 0 && v < n ? v : 0];
        f->woken = true; make_runnable(f);
    }
    sync_point();
    return 0;
}

// ------------------------------------------------------------------ process setup
static void find_tls() {
    const ElfW(Ehdr) *eh = 0; (void)eh;
    ElfW(Phdr) *ph = (ElfW(Phdr) *)getauxval(AT_PHDR); size_t n = getauxval(AT_PHNUM);
    tls_size = 0;
    for (size_t i = 0; i < n; i++) if (ph[i].p_type == PT_TLS) {
        u64 al = ph[i].p_align ? ph[i].p_align : 1;
        tls_size = (ph[i].p_memsz + al - 1) / al * al;
    }
    char *tp; __asm__("movq %%fs:0,%0" : "=r"(tp));
    tls_block = tp - tls_size;
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
    g_on = false;
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGVTALRM ? "timeout" : "signal";
    if (sig == SIGVTALRM) fail("", "no-progress", "run used up its processor-time limit without finishing");
    u64 a = (u64)si->si_addr;
    const char *where = "";
    if (sig == SIGSEGV) {
        if (a >= STACK_BASE && a < STACK_BASE + (u64)MAXF * (STACK_SZ + STACK_GUARD)) where = " (stack overflow)";
        else if (a < 65536) where = " (null pointer)";
    }
    fail("", "crash", "%s%s in thread %d, pc 0x%llx", n, where, cur ? cur->id : -1, (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]);
}

static void __attribute__((noinline)) throw_one() { throw std::bad_alloc(); }
void init_process() {
    try { throw_one(); } catch (std::bad_alloc &) {} // the unwinder sorts its tables at the first throw: do that outside the arena
    g_edge_map = (unsigned char *)mmap(0, EDGE_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void *a = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap((void *)SHADOW_BASE, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    size_t sl = (size_t)MAXF * (STACK_SZ + STACK_GUARD) + STACK_GUARD;
    void *k = mmap((void *)STACK_BASE, sl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void *)ARENA_BASE || s != (void *)SHADOW_BASE || k != (void *)STACK_BASE) { fprintf(stderr, "simulator: cannot map arena\n"); _exit(2); }
    for (int i = 0; i < MAXF; i++) mprotect((char *)STACK_BASE + (size_t)i * (STACK_SZ + STACK_GUARD), STACK_GUARD, PROT_NONE);
    find_tls();
    g_static_lo = (u64)&__data_start; g_static_span = (u64)&_end - g_static_lo;
}

static void setup_cfg(const Plan &p, const Variant &v, bool replay) {
    bool s = v.sched;
    c_psync = s ? p.get("s_psync") : 0; c_gap = s ? p.get("s_gap") : 0; c_sgap = s ? p.get("s_sgap") : 0;
    c_pspur = s ? p.get("s_pspur") : 0; c_pstall = s ? p.get("s_pstall") : 0; c_pjump = s ? p.get("s_pjump") : 0;
    c_pcreate = s ? p.get("s_pcreate") : 0; c_pct = s ? p.get("s_pct") : 0; c_pblock = s ? p.get("s_pblock", 500) : 0;
    c_allocgap = s ? p.get("s_allocgap") : 0;
    quiesce_after = (u64)p.get("s_quiesce", 3000); max_sync = quiesce_after + (u64)p.get("s_maxsync", 60000);
    max_acc = (u64)p.get("s_maxacc", 3000000000ll); fair_acc = (u64)p.get("s_fair", 400000);
    g_replay = replay;
    srng = Rng(p.seed ^ 0x5eed5eedull); lrng = Rng((u64)v.layout * 7919 + 3);
    now = 1000000000ll; rt_off = p.get("s_rt0", 1600000000ll * 1000000) * 1000 - now + (v.clock > 1 ? v.clock * 1234567891011ll : 0);
}

static World *g_world;
static void world_entry(void *) { 
    g_on = false; // harness main thread runs unpreempted except at explicit points
    if (g_var->prelude) dirty_heap(400000 + 100000 * (g_var->prelude % 5));
    g_world->run(*g_plan, *g_var);
}

void execute(World *w, const Plan &p, const Variant &v, const std::vector<Decision> *script, Result *out, int cpu_s) {
    // reset only the parts that matter
    out->status = 0; out->prop[0] = out->cls[0] = out->msg[0] = 0; out->hash = 1; out->sched_hash = 1;
    out->sync_ops = out->accesses = out->switches = out->ops = out->vtime_ns = out->allocs = 0; out->audio_s = 0; out->nfibers = 0; out->ndec = 0;
    memset(out->fired, 0, sizeof out->fired); memset(out->probe, 0, sizeof out->probe); memset(out->ndig, 0, sizeof out->ndig);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(2); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        R = out; g_plan = &p; g_var = &v; g_world = w;
        static char sigstk[65536];
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sigstk; ss.ss_size = sizeof sigstk; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
        for (size_t i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu_s; setitimer(ITIMER_VIRTUAL, &it, 0);
        setup_cfg(p, v, script != 0);
        freelist = new std::vector<FreeBlk>[NCLS]; quar = new std::vector<FreeBlk>;
        if (script) {
            size_t n = 64; while (n < script->size() * 3) n *= 2;
            sc_tab = (ScriptEnt *)calloc(n, sizeof *sc_tab); sc_mask = n - 1;
            sc_acc = new std::vector<u64>[MAXF]; sc_sta = new std::vector<u64>[MAXF];
            for (size_t i = 0; i < script->size(); i++) {
                const Decision &d = (*script)[i];
                u64 k = skey(d.kind, d.fiber, d.index), h = mix(0, k) & sc_mask;
                while (sc_tab[h].key) h = (h + 1) & sc_mask;
                sc_tab[h].key = k; sc_tab[h].val = d.value;
                if (d.fiber < MAXF && d.kind == K_ACCESS) sc_acc[d.fiber].push_back(d.index);
                if (d.fiber < MAXF && d.kind == K_STATIC) sc_sta[d.fiber].push_back(d.index);
            }
            for (int i = 0; i < MAXF; i++) { std::sort(sc_acc[i].begin(), sc_acc[i].end()); std::sort(sc_sta[i].begin(), sc_sta[i].end()); }
        }
        native_tls = (char *)malloc(tls_size + 64); tls_template = (char *)malloc(tls_size + 64);
        memcpy(tls_template, tls_block, tls_size);
        // main fiber
        Fiber *f = new_fiber();
        f->harness = true; f->hfn = world_entry; f->joinable = true;
        g_run = true;
        load_fiber(f);
        qm_ctx_switch(&native_sp, f->sp);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (out->status == 0) {
        out->status = 2;
        snprintf(out->cls, sizeof out->cls, "crash");
        snprintf(out->msg, sizeof out->msg, "simulated process died (%s %d)", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
}

std::vector<World *> &worlds() { static std::vector<World *> w; return w; }
World *find_world(const std::string &n) { for (size_t i = 0; i < worlds().size(); i++) if (n == worlds()[i]->name) return worlds()[i]; return 0; }

void gen_sched(Rng &r, Plan &p, int profile) {
    std::map<std::string, i64> &c = p.cfg;
    if (profile == 2) { c["s_psync"] = 0; return; }
    // swarm: each run enables a random subset
    static const i64 ps[] = { 0, 30, 100, 250, 500, 800 };
    c["s_psync"] = ps[r.below(6)];
    if (r.chance(250)) c["s_pct"] = 5 + (i64)r.below(120);
    c["s_pblock"] = r.chance(300) ? 0 : (i64)r.below(900) + 50;
    if (profile == 0) {
        static const i64 gs[] = { 0, 0, 5, 15, 60, 200 };
        c["s_gap"] = gs[r.below(6)];
        if (r.chance(600)) c["s_pspur"] = 5 + (i64)r.below(250);
        if (r.chance(400)) c["s_pstall"] = 5 + (i64)r.below(200);
        c["s_quiesce"] = 300 + (i64)r.below(3000);
    } else {
        static const i64 gs[] = { 0, 300, 3000, 30000, 300000 };
        c["s_gap"] = gs[r.below(5)];
        static const i64 sg[] = { 0, 2, 5, 20, 100 };
        c["s_sgap"] = sg[r.below(5)];
        if (!c["s_gap"] && !c["s_sgap"]) c["s_sgap"] = 3;
        c["s_quiesce"] = 20000;
    }
    // starting time of day: often close to a second boundary
    i64 us = (i64)r.below(1000000);
    if (r.chance(500)) { static const i64 near[] = { 0, 1, 999999, 999998, 999000, 500000, 999900 }; us = near[r.below(7)]; }
    c["s_rt0"] = (1500000000ll + (i64)r.below(400000000)) * 1000000 + us;
}
} // namespace sim

using namespace sim;
// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { static u32 n = 0; if (a == b || *a) return; for (; a < b; a++) *a = ++n; g_edge_total = n; }
void __sanitizer_cov_trace_pc_guard(u32 *g) { if (!g_run) return; if (++g_edges > g_edge_cap) edge_limit(); if (*g < EDGE_MAX) g_edge_map[*g] = 1; }
void __sanitizer_cov_trace_pc() { if (g_run && ++g_edges > g_edge_cap) edge_limit(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
    void __tsan_read_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc_range(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc_range(p, n, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc_range(s, n, false); acc_range(d, n, true); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc_range(s, n, false); acc_range(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc_range(d, n, true); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}

// An atomic access is a scheduling point. It has a budget of its own: a loop that reads an atomic flag on
// every turn is not a lack of progress. Clocks are kept per address hash (conflating two only adds order).
static VC at_vc[256]; static u64 n_atomic = 0;
static u64 guards_done[64]; static int nguards_done = 0;      // function-local statics already constructed
static void at_point(const void *p) {
    if (!g_run || !cur) return;
    for (int i = 0; i < nguards_done; i++) if (guards_done[i] == (u64)p) return;
    if (n_atomic++ < 20000000) { max_sync++; if (n_atomic < 20000) quiesce_after++; }
    sync_point();
    VC &v = at_vc[((u64)p >> 2) * 0x9e3779b97f4a7c15ull >> 56];
    vc_acquire(v); vc_release(v);
}
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((const void *)a, sizeof(T), false); at_point((const void *)a); return *a; } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((const void *)a, sizeof(T), true); at_point((const void *)a); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { at_point((const void *)a); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at_point((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at_point((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { at_point((const void *)a); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (g_run && cur) sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ wrapped calls
#define INRUN (g_run && !g_internal && cur)
void *__wrap_malloc(size_t n) { if (!INRUN) return __real_malloc(n); return a_malloc(n, 16); }
void __wrap_free(void *p) { if (!p) return; if (in_arena(p)) { if (g_run) a_free(p); return; } __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (!INRUN) return __real_calloc(a, b); void *p = a_malloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
    if (p && !in_arena(p)) return __real_realloc(p, n);
    if (!INRUN) return __real_realloc(p, n);
    if (!p) return a_malloc(n, 16);
    if (!n) { a_free(p); return 0; }
    void *q = a_malloc(n, 16); if (!q) return 0;
    u64 o = a_size(p); memcpy(q, p, o < n ? o : n); a_free(p); return q;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n) { if (!INRUN) return __real_posix_memalign(r, al, n); void *p = a_malloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { if (!INRUN) return __real_aligned_alloc(al, n); return a_malloc(n, al); }

#define SIMF (g_run && cur)
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!SIMF) return __real_pthread_create(t, at, fn, arg);
    NoPreempt np;
    sync_point();
    if (choose(K_CREATEFAIL, !g_replay && c_pcreate && srng.chance(c_pcreate), v_one, 0)) { n_createfail++; PROBE(thread_create_failed); return EAGAIN; }
    Fiber *f = new_fiber();
    f->fn = fn; f->arg = arg; f->joinable = true; f->sut_tag = cur->sut_tag;
    if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); if (ds == PTHREAD_CREATE_DETACHED) f->detached = true; }
    f->vc[f->id] = 1; cur->vc[cur->id]++; vc_join(f->vc, cur->vc);
    f->slot = take_slot(f);
    *t = id_of(f);
    n_created++;
    sync_point();
    return 0;
}
static Fiber *fiber_of(pthread_t t) { u64 v = (u64)t; if (v >= 0x700000000000ull) { u64 s = (v - 0x700000000000ull) / 0x1000; return s < 256 ? slot_fiber[s] : 0; } if (v >= 0x6f0000000000ull) { u64 i = (v - 0x6f0000000000ull) / 0x1000; return i < (u64)nF ? &F[i] : 0; } return 0; }
int __wrap_pthread_join(pthread_t t, void **r) {
    if (!SIMF) return __real_pthread_join(t, r);
    NoPreempt np;
    sync_point();
    Fiber *f = fiber_of(t);
    if (!f || f->joined || f->detached || f->harness) fail("", "pthread-misuse", "join of a thread that is not joinable (already joined, detached or never started), by thread %d", cur->id);
    if (f == cur) return EDEADLK;
    while (f->st != DONE) block(W_JOIN, (u64)f->id + 1, false, false, 0);
    if (f->joined) fail("", "pthread-misuse", "thread joined twice");
    vc_join(cur->vc, f->vc); f->joined = true; give_slot(f);
    if (r) *r = f->ret;
    sync_point();
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { if (!SIMF) return __real_pthread_detach(t); NoPreempt np; Fiber *f = fiber_of(t); if (!f || f->joined || f->detached) fail("", "pthread-misuse", "detach of a thread that is not joinable"); f->detached = true; if (f->st == DONE) give_slot(f); return 0; }
pthread_t __wrap_pthread_self() { if (!SIMF) return __real_pthread_self(); return id_of(cur); }
void __wrap_pthread_exit(void *r) { if (!SIMF) __real_pthread_exit(r); g_on = false; cur->ret = r; fiber_finish(); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    if (!SIMF) return __real_pthread_mutex_init(m, a);
    NoPreempt np; Obj *o = find_obj((u64)m, O_MUTEX);
    if (o && o->locked) fail("", "pthread-misuse", "initialisation of a locked mutex");
    memset((void *)m, 0, sizeof *m);
    if (!o) o = make_obj((u64)m, O_MUTEX);
    int k = 0; if (a) pthread_mutexattr_gettype(a, &k); o->mkind = k; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!SIMF) return __real_pthread_mutex_destroy(m);
    NoPreempt np; sync_point(); Obj *o = find_obj((u64)m, O_MUTEX);
    if (o) { if (o->locked) fail("", "pthread-misuse", "destruction of a locked mutex by thread %d (held by thread %d)", cur->id, o->owner); kill_obj(o); }
    else fail("", "pthread-misuse", "destruction of a mutex that was never initialised or already destroyed");
    memset((void *)m, 0xAB, sizeof *m); return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!SIMF) return __real_pthread_mutex_lock(m); NoPreempt np; return m_lock(m, false, 0); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!SIMF) return __real_pthread_mutex_timedlock(m, t); NoPreempt np; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return m_lock(m, true, t->tv_sec * 1000000000ll + t->tv_nsec); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!SIMF) return __real_pthread_mutex_trylock(m);
    NoPreempt np; sync_point();
    Obj *o = get_obj(m, O_MUTEX, sizeof *m, "mutex");
    if (o->locked) { if (o->mkind == PTHREAD_MUTEX_RECURSIVE && o->owner == cur->id) { o->count++; return 0; } PROBE(trylock_failed); return EBUSY; }
    o->locked = true; o->owner = cur->id; o->count = 1; vc_acquire(o->vc); PROBE(trylock_ok); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!SIMF) return __real_pthread_mutex_unlock(m); NoPreempt np; return m_unlock(m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    if (!SIMF) return __real_pthread_cond_init(c, a);
    NoPreempt np; Obj *o = find_obj((u64)c, O_COND); if (!o) o = make_obj((u64)c, O_COND);
    memset((void *)c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); o->clk = k; return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if (!SIMF) return __real_pthread_cond_destroy(c);
    NoPreempt np; sync_point(); Obj *o = find_obj((u64)c, O_COND);
    for (int i = 0; i < nF; i++) if (F[i].st == BLOCKED && F[i].why == W_COND && F[i].obj == (u64)c) fail("", "pthread-misuse", "destruction of a condition while thread %d waits on it", i);
    if (!o) fail("", "pthread-misuse", "destruction of a condition that was never initialised or already destroyed");
    kill_obj(o); memset((void *)c, 0xAB, sizeof *c); return 0;
}
static void cond_known(pthread_cond_t *c) { if (!find_obj((u64)c, O_COND)) { if (!zeroed(c, sizeof *c)) fail("", "pthread-misuse", "use of a condition that was never initialised or already destroyed"); make_obj((u64)c, O_COND); } }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!SIMF) return __real_pthread_cond_wait(c, m); NoPreempt np; cond_known(c); return c_wait(c, m, false, false, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!SIMF) return __real_pthread_cond_timedwait(c, m, t); NoPreempt np; cond_known(c); Obj *o = find_obj((u64)c, O_COND); return c_wait(c, m, true, o->clk == CLOCK_REALTIME, t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!SIMF) return __real_pthread_cond_clockwait(c, m, k, t); NoPreempt np; cond_known(c); return c_wait(c, m, true, k == CLOCK_REALTIME, t); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!SIMF) return __real_pthread_cond_signal(c); NoPreempt np; cond_known(c); return c_signal(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!SIMF) return __real_pthread_cond_broadcast(c); NoPreempt np; cond_known(c); return c_signal(c, true); }

int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!SIMF) return __real_pthread_once(o, fn);
    { NoPreempt np; sync_point();
      if (*(volatile int *)o == 2) return 0;      // glibc's done value
      Obj *x = find_obj((u64)o, O_ONCE);
      if (x && x->locked) { while ((x = find_obj((u64)o, O_ONCE)) && x->locked) block(W_ONCE, (u64)o, false, false, 0); if (x) vc_acquire(x->vc); return 0; }
      if (!x) x = make_obj((u64)o, O_ONCE);
      x->locked = true; x->owner = cur->id; }
    fn();
    NoPreempt np; Obj *x = find_obj((u64)o, O_ONCE); x->locked = false; vc_release(x->vc); *(volatile int *)o = 2; wake_obj((u64)o, W_ONCE);
    return 0;
}
int __wrap___cxa_guard_acquire(u_int64_t *g) {
    if (!SIMF) return __real___cxa_guard_acquire(g);
    NoPreempt np; sync_point();
    for (;;) {
        if (*(volatile char *)g) { Obj *x = find_obj((u64)g, O_GUARD); if (x) vc_acquire(x->vc); return 0; }
        Obj *x = find_obj((u64)g, O_GUARD); if (!x) x = make_obj((u64)g, O_GUARD);
        if (!x->locked) { x->locked = true; x->owner = cur->id; return 1; }
        block(W_ONCE, (u64)g, false, false, 0);
    }
}
void __wrap___cxa_guard_release(u_int64_t *g) { if (!SIMF) { __real___cxa_guard_release(g); return; } NoPreempt np; Obj *x = find_obj((u64)g, O_GUARD); *(volatile char *)g = 1; if (nguards_done < 64) guards_done[nguards_done++] = (u64)g; if (x) { x->locked = false; vc_release(x->vc); } wake_obj((u64)g, W_ONCE); }
void __wrap___cxa_guard_abort(u_int64_t *g) { if (!SIMF) { __real___cxa_guard_abort(g); return; } NoPreempt np; Obj *x = find_obj((u64)g, O_GUARD); if (x) x->locked = false; wake_obj((u64)g, W_ONCE); }
int __wrap___cxa_thread_atexit(void (*f)(void *), void *o, void *d) { if (!SIMF) return __real___cxa_thread_atexit(f, o, d); if (cur->natex < 48) { cur->atex[cur->natex].f = f; cur->atex[cur->natex].o = o; cur->atex[cur->natex].second = cur->second; cur->natex++; } return 0; }

static void (*key_dtor[64])(void *); static int nkeys = 0;
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (!SIMF) return __real_pthread_key_create(k, d); NoPreempt np; if (nkeys >= 32) return EAGAIN; key_dtor[nkeys] = d; *k = 5000 + nkeys++; return 0; }
int __wrap_pthread_key_delete(pthread_key_t k) { if (!SIMF || k < 5000) return __real_pthread_key_delete(k); return 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { if (!SIMF || k < 5000) return __real_pthread_getspecific(k); return (void *)cur->tsd[k - 5000]; }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (!SIMF || k < 5000) return __real_pthread_setspecific(k, v); cur->tsd[k - 5000] = v; return 0; }

int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { if (!SIMF) return __real_pthread_rwlock_init(l, a); NoPreempt np; memset((void *)l, 0, sizeof *l); if (!find_obj((u64)l, O_RW)) make_obj((u64)l, O_RW); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_destroy(l); NoPreempt np; Obj *o = find_obj((u64)l, O_RW); if (o) kill_obj(o); return 0; }
static int rw_lock(pthread_rwlock_t *l, bool w, bool tr) {
    NoPreempt np; sync_point();
    for (;;) {
        Obj *o = find_obj((u64)l, O_RW); if (!o) o = make_obj((u64)l, O_RW);
        if (w ? (!o->locked && !o->readers) : !o->locked) { if (w) { o->locked = true; o->owner = cur->id; } else o->readers++; vc_acquire(o->vc); return 0; }
        if (tr) return EBUSY;
        block(W_RW, (u64)l, false, false, 0);
    }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_rdlock(l); return rw_lock(l, false, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_wrlock(l); return rw_lock(l, true, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_tryrdlock(l); return rw_lock(l, false, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_trywrlock(l); return rw_lock(l, true, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!SIMF) return __real_pthread_rwlock_unlock(l); NoPreempt np; Obj *o = find_obj((u64)l, O_RW); if (!o) return EPERM; if (o->locked) o->locked = false; else if (o->readers) o->readers--; vc_release(o->vc); wake_obj((u64)l, W_RW); sync_point(); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int s) { if (!SIMF) return __real_pthread_spin_init(l, s); NoPreempt np; *(volatile int *)l = 0; if (!find_obj((u64)l, O_SPIN)) make_obj((u64)l, O_SPIN); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { if (!SIMF) return __real_pthread_spin_destroy(l); NoPreempt np; Obj *o = find_obj((u64)l, O_SPIN); if (o) kill_obj(o); return 0; }
static int spin_lock(pthread_spinlock_t *l, bool tr) { NoPreempt np; sync_point(); for (;;) { Obj *o = find_obj((u64)l, O_SPIN); if (!o) o = make_obj((u64)l, O_SPIN); if (!o->locked) { o->locked = true; o->owner = cur->id; vc_acquire(o->vc); return 0; } if (tr) return EBUSY; block(W_SPIN, (u64)l, false, false, 0); } }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { if (!SIMF) return __real_pthread_spin_lock(l); return spin_lock(l, false); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { if (!SIMF) return __real_pthread_spin_trylock(l); return spin_lock(l, true); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { if (!SIMF) return __real_pthread_spin_unlock(l); NoPreempt np; Obj *o = find_obj((u64)l, O_SPIN); if (o) { o->locked = false; vc_release(o->vc); wake_obj((u64)l, W_SPIN); } sync_point(); return 0; }
int __wrap_sem_init(sem_t *s, int p, unsigned v) { if (!SIMF) return __real_sem_init(s, p, v); NoPreempt np; Obj *o = find_obj((u64)s, O_SEM); if (!o) o = make_obj((u64)s, O_SEM); o->count = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { if (!SIMF) return __real_sem_destroy(s); NoPreempt np; Obj *o = find_obj((u64)s, O_SEM); if (o) kill_obj(o); return 0; }
static int s_wait(sem_t *s, bool tr, bool timed, i64 dl) { NoPreempt np; sync_point(); for (;;) { Obj *o = find_obj((u64)s, O_SEM); if (!o) { errno = EINVAL; return -1; } if (o->count > 0) { o->count--; vc_acquire(o->vc); return 0; } if (tr) { errno = EAGAIN; return -1; } block(W_SEM, (u64)s, timed, true, dl); if (timed && cur->timed_out) { errno = ETIMEDOUT; return -1; } } }
int __wrap_sem_wait(sem_t *s) { if (!SIMF) return __real_sem_wait(s); return s_wait(s, false, false, 0); }
int __wrap_sem_trywait(sem_t *s) { if (!SIMF) return __real_sem_trywait(s); return s_wait(s, true, false, 0); }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *t) { if (!SIMF) return __real_sem_timedwait(s, t); return s_wait(s, false, true, t->tv_sec * 1000000000ll + t->tv_nsec); }
int __wrap_sem_post(sem_t *s) { if (!SIMF) return __real_sem_post(s); NoPreempt np; sync_point(); Obj *o = find_obj((u64)s, O_SEM); if (!o) { errno = EINVAL; return -1; } o->count++; vc_release(o->vc); wake_obj((u64)s, W_SEM); sync_point(); return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { if (!SIMF) return __real_sem_getvalue(s, v); Obj *o = find_obj((u64)s, O_SEM); *v = o ? o->count : 0; return 0; }

int __wrap_sched_yield() { if (!SIMF) return __real_sched_yield(); NoPreempt np; sync_point(); Fiber *n = next_rr(); if (n) switch_to(n); return 0; }
static int do_sleep(i64 ns) { NoPreempt np; sync_point(); block(W_SLEEP, 0, true, false, now + ns); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { if (!SIMF) return __real_nanosleep(t, r); return do_sleep(t->tv_sec * 1000000000ll + t->tv_nsec); }
int __wrap_usleep(useconds_t u) { if (!SIMF) return __real_usleep(u); return do_sleep((i64)u * 1000); }
unsigned __wrap_sleep(unsigned s) { if (!SIMF) return __real_sleep(s); do_sleep((i64)s * 1000000000ll); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { if (!SIMF) return __real_clock_nanosleep(c, fl, t, r); i64 n = t->tv_sec * 1000000000ll + t->tv_nsec; if (fl) n -= now + (c == CLOCK_REALTIME ? rt_off : 0); return do_sleep(n > 0 ? n : 0); }
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!SIMF) return __real_gettimeofday(tv, z); NoPreempt np; sync_point(); i64 t = (now + rt_off) / 1000; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!SIMF) return __real_clock_gettime(c, ts); NoPreempt np; sync_point(); i64 t = now + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? rt_off : 0); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t __wrap_time(time_t *p) { if (!SIMF) return __real_time(p); time_t t = (now + rt_off) / 1000000000; if (p) *p = t; return t; }
clock_t __wrap_clock() { if (!SIMF) return __real_clock(); return now / 1000; }
static u64 rnd_next() { u64 z = (cur->rnd += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
int __wrap_rand() { if (!SIMF) return __real_rand(); return (int)(rnd_next() & 0x7fffffff); }
void __wrap_srand(unsigned s) { if (!SIMF) { __real_srand(s); return; } if (cur->pin) { cur->rnd = cur->pin; return; } if (g_var->fixrand) s = 1; cur->rnd = (u64)s * 2654435761u + (u64)g_var->rnd * 1000003ull; }
long __wrap_random() { if (!SIMF) return __real_random(); return (long)(rnd_next() & 0x7fffffff); }
void __wrap_srandom(unsigned s) { if (!SIMF) { __real_srandom(s); return; } if (cur->pin) { cur->rnd = cur->pin; return; } if (g_var->fixrand) s = 1; cur->rnd = (u64)s * 2654435761u + (u64)g_var->rnd * 1000003ull; }
int __wrap_rand_r(unsigned *s) { if (!SIMF) return __real_rand_r(s); return (int)(rnd_next() & 0x7fffffff); }
double __wrap_drand48() { if (!SIMF) return __real_drand48(); return (rnd_next() >> 11) * (1.0 / 9007199254740992.0); }
long __wrap_lrand48() { if (!SIMF) return __real_lrand48(); return (long)(rnd_next() & 0x7fffffff); }
void __wrap_srand48(long s) { if (!SIMF) { __real_srand48(s); return; } cur->rnd = (u64)s * 2654435761u + (u64)g_var->rnd * 1000003ull; }
static void sim_exit(int code) {
    g_on = false;
    if (on_exit_hook && on_exit_hook(code)) { R->status = 1; R->vtime_ns = now; R->nfibers = nF; R->hash = mix(R->hash, 0xE817 + code); child_exit(); }
    fail("", "exit", "code under test called exit(%d), thread %d", code, cur->id);
}
void __wrap_exit(int code) { if (SIMF) sim_exit(code); __real_exit(code); }
void __wrap__exit(int code) { if (SIMF) sim_exit(code); __real__exit(code); }
void __wrap_abort() { if (SIMF) fail("", "abort", "code under test called abort(), thread %d", cur->id); __real_abort(); }
}
// Fortran I/O runtime referenced by dlamch.c's (never expected) warning; not part of the repository.
extern "C" { int s_wsfe(void *) { return 0; } int do_fio(void *, char *, int) { return 0; } int e_wsfe() { return 0; } }

// Worlds for thread/: AsynchronousTask, Mutex, Condition, Thread. Instrumented
// (the header-only code under test is compiled into this unit).
#include "rt.h"
#include "thread/Thread.h"
#include "thread/AsynchronousTask.h"
#include <string.h>
using namespace sim;

// =============================================================== async (C01, C02)
namespace {
struct TaskShared {            // outlives the task object
    long in, out; int requests, performed, inside, obtained; int worker; int creator; int cin, cout; int body; bool alive;
    bool pending;
};
static long f_of(long v) { return v * 2654435761l + 17; }

class SimTask : public AsynchronousTask {
public:
    SimTask(TaskShared *s) : m_s(s) {}
    virtual ~SimTask() {}
    void request(long v) {
        { NoPreempt np; cell_write(m_s->cin, "the caller's request data"); m_s->in = v; m_s->requests++; m_s->pending = true; }
        startTask();
    }
    long obtain() {
        awaitTask();
        NoPreempt np;
        if (m_s->inside) fail("C01", "await-early", "awaitTask returned while performTask is still running (request %d)", m_s->requests);
        if (m_s->performed != m_s->requests) fail("C01", m_s->performed < m_s->requests ? "await-early" : "performed-twice", "awaitTask returned after %d request(s) with performTask executed %d time(s)", m_s->requests, m_s->performed);
        cell_read(m_s->cout, "the caller's read of the result");
        m_s->pending = false; m_s->obtained++;
        return m_s->out;
    }
protected:
    virtual void performTask() {
        TaskShared *s = m_s; long v;
        {
            NoPreempt np;
            if (!s->alive) fail("C02", "task-after-destruction", "performTask called after the task object was destroyed");
            if (s->inside) fail("C01", "performed-concurrently", "performTask entered twice at once");
            if (!s->pending) fail(s->requests ? "C01" : "C02", "performed-unrequested", "performTask called with no request outstanding (%d requests, %d performed)", s->requests, s->performed);
            if (s->performed >= s->requests) fail("C01", "performed-twice", "performTask called %d times for %d request(s)", s->performed + 1, s->requests);
            if (self_id() == s->creator) fail("C01", "wrong-thread", "performTask ran on the caller's thread");
            if (s->worker < 0) s->worker = self_id();
            else if (s->worker != self_id()) fail("C01", "wrong-thread", "performTask ran on two different threads");
            s->inside = 1;
            cell_read(s->cin, "performTask's read of the request"); v = s->in;
        }
        switch (s->body % 6) {
        case 0: break;
        case 1: point(); break;
        case 2: for (int i = 0; i < 20; i++) point(); break;
        case 3: sleep_ns(5000000); break;
        case 4: { volatile long acc = 0; for (int i = 0; i < 40; i++) acc = acc + i; } break;
        case 5: sleep_ns(2000000000ull); point(); break;
        }
        NoPreempt np;
        cell_write(s->cout, "performTask's result"); s->out = f_of(v);
        s->inside = 0; s->performed++;
    }
private:
    TaskShared *m_s;
};

struct AsyncWorld : World {
    AsyncWorld() : World("async") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        gen_sched(r, p, 0);
        int callers = 1 + (int)r.below(3), per = 1 + (int)r.below(3);
        p.cfg["callers"] = callers; p.cfg["tasks"] = per; p.cfg["body"] = (i64)r.below(100000);
        for (int c = 0; c < callers; c++) {
            // legal protocol, random order
            std::vector<int> st(per, 0); // 0 none 1 idle 2 in flight
            int n = 2 + (int)r.below(thorough ? 30 : 14);
            for (int i = 0; i < n; i++) {
                int t = (int)r.below(per); Op o; o.client = c; o.a.push_back(t);
                if (st[t] == 0) { o.name = "new"; st[t] = 1; }
                else if (st[t] == 1) { if (r.chance(220)) { o.name = "del"; st[t] = 0; } else { o.name = "start"; o.a.push_back((i64)r.below(100000)); st[t] = 2; } }
                else { o.name = "await"; st[t] = 1; }
                p.ops.push_back(o);
                if (r.chance(120)) { Op w; w.client = c; w.name = "pause"; w.a.push_back((i64)r.below(5)); p.ops.push_back(w); }
            }
        }
    }
    struct Caller { const Plan *p; int id; int per; };
    static void caller(void *v) {
        Caller *c = (Caller *)v;
        g_caller(c);
    }
    static void g_caller(Caller *c) {
        const int MAXT = 4;
        SimTask *t[MAXT] = { 0 }; TaskShared *sh[MAXT] = { 0 }; bool fl[MAXT] = { 0 };
        int serial = 0;
        for (size_t i = 0; i <= c->p->ops.size(); i++) {
            bool fin = i == c->p->ops.size();
            if (!fin) {
                const Op &o = c->p->ops[i];
                if (o.client != c->id) continue;
                int k = (int)((u64)o.arg(0) % (u64)c->per);
                { NoPreempt np; op_done(); }
                if (o.name == "new" && !t[k]) {
                    { NoPreempt np; sh[k] = new TaskShared; memset(sh[k], 0, sizeof **sh); sh[k]->worker = -1; sh[k]->creator = self_id(); sh[k]->alive = true;
                      int cb = ((c->id * MAXT + k) * 5 + serial % 5) * 2 % 250; serial++; sh[k]->cin = cb; sh[k]->cout = cb + 1; sh[k]->body = (int)(c->p->get("body") + k * 7 + serial); }
                    t[k] = new SimTask(sh[k]);
                } else if (o.name == "start" && t[k] && !fl[k]) {
                    t[k]->request((long)o.arg(1)); fl[k] = true;
                } else if (o.name == "await" && t[k] && fl[k]) await(t[k], sh[k], fl[k]);
                else if (o.name == "del" && t[k] && !fl[k]) del(t[k], sh[k]);
                else if (o.name == "pause") { for (int j = 0; j < o.arg(0) % 8; j++) point(); }
            } else {
                for (int k = 0; k < c->per; k++) { if (t[k] && fl[k]) await(t[k], sh[k], fl[k]); if (t[k]) del(t[k], sh[k]); }
            }
        }
    }
    static void await(SimTask *t, TaskShared *s, bool &fl) {
        { NoPreempt np; if (s->inside) PROBE(worker_in_task_at_await); else if (s->performed == s->requests) PROBE(worker_done_before_await); }
        u64 sp = spurious_count();
        long got = t->obtain();
        NoPreempt np;
        if ((u64)spurious_count() != sp) PROBE(spurious_during_await);
        if (got != f_of(s->in)) fail("C01", "wrong-result", "obtained %ld, expected %ld", got, f_of(s->in));
        obs((u64)got); fl = false;
    }
    static void del(SimTask *&t, TaskShared *&s) {
        int w = s->worker; int before = s->performed;
        { NoPreempt np; if (w < 0) PROBE(destroy_before_worker_ran); }
        delete t; t = 0;
        NoPreempt np;
        s->alive = false;
        if (s->performed != before) fail("C02", "performed-unrequested", "performTask ran during destruction with no request outstanding");
        if (w >= 0 && !fiber_done(w)) fail("C02", "worker-outlives", "destructor returned while the worker thread is still alive");
        s = 0;
    }
    void run(const Plan &p, const Variant &) {
        int n = (int)p.get("callers", 1); if (n < 1) n = 1; if (n > 4) n = 4;
        int per = (int)p.get("tasks", 1); if (per < 1) per = 1; if (per > 4) per = 4;
        Caller c[4]; int id[4];
        for (int i = 0; i < n; i++) { c[i].p = &p; c[i].id = i; c[i].per = per; id[i] = spawn(caller, &c[i]); }
        for (int i = 0; i < n; i++) join(id[i]);
        if (live_threads()) fail("C02", "worker-outlives", "%d worker thread(s) still alive after every task was destroyed", live_threads());
        if (unjoined_threads()) fail("C02", "worker-not-joined", "%d worker thread(s) never joined", unjoined_threads());
        if (held_locks()) fail("C02", "lock-held", "%d lock(s) still held after every task was destroyed", held_locks());
    }
};
static AsyncWorld async_world;

// =============================================================== mutex (C03)
struct MState { int holder; int active; int cell; long value; };
struct MutexWorld : World {
    MutexWorld() : World("mutex") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        gen_sched(r, p, 0); p.cfg["s_pspur"] = 0;
        int n = 2 + (int)r.below(3), m = 1 + (int)r.below(2);
        p.cfg["threads"] = n; p.cfg["mutexes"] = m;
        static const char *names[] = { "lock", "unlock", "try", "scoped", "foreign", "work" };
        int w[6] = { 30, 30, 15, 12, (int)r.below(25), 15 };
        for (int t = 0; t < n; t++) {
            int k = 2 + (int)r.below(thorough ? 30 : 14);
            for (int i = 0; i < k; i++) {
                int tot = 0; for (int j = 0; j < 6; j++) tot += w[j];
                int x = (int)r.below(tot), j = 0; while (x >= w[j]) x -= w[j++];
                Op o; o.client = t; o.name = names[j]; o.a.push_back((i64)r.below(m)); o.a.push_back((i64)r.below(6)); p.ops.push_back(o);
            }
        }
    }
    struct T { MutexWorld *w; const Plan *p; int id; Mutex **mx; MState *st; int m; };
    static void act(MState &s, int d) { NoPreempt np; s.active += d; }
    static void got(T *t, int i, const char *how) {
        NoPreempt np; MState &s = t->st[i];
        if (s.holder != -1) fail("C03", "two-holders", "thread %d acquired mutex %d by %s while thread %d holds it", t->id, i, how, s.holder);
        s.holder = t->id;
        cell_read(s.cell, "the new holder's read"); cell_write(s.cell, "a holder's write"); s.value++;
    }
    static void rel(T *t, int i) {
        NoPreempt np; MState &s = t->st[i];
        if (s.holder != t->id) fail("C03", "two-holders", "thread %d about to release mutex %d finds holder %d", t->id, i, s.holder);
        cell_write(s.cell, "a holder's write"); s.holder = -1;
    }
    static void work(T *t, int i, int n, bool mine) {
        for (int k = 0; k < n; k++) { point(); if (mine) { NoPreempt np; if (t->st[i].holder != t->id) fail("C03", "two-holders", "mutex %d changed holder from %d to %d while held", i, t->id, t->st[i].holder); } }
    }
    static void thr(void *v) {
        T *t = (T *)v; bool hold[4] = { 0 };
        for (size_t q = 0; q < t->p->ops.size(); q++) {
            const Op &o = t->p->ops[q]; if (o.client != t->id) continue;
            int i = (int)((u64)o.arg(0) % (u64)t->m), n = (int)((u64)o.arg(1) % 8);
            { NoPreempt np; op_done(); }
            bool higher = false; for (int j = i; j < t->m; j++) higher |= hold[j];
            Mutex &mx = *t->mx[i]; MState &s = t->st[i];
            if (o.name == "lock" && !higher) {
                act(s, 1); mx.lock(); got(t, i, "lock"); hold[i] = true;
            } else if (o.name == "unlock" && hold[i]) {
                rel(t, i); hold[i] = false; mx.unlock(); act(s, -1);
            } else if (o.name == "try" && !hold[i]) {
                bool idle, ok; u64 b; long ev;
                { NoPreempt np; idle = s.active == 0; act(s, 1); b = blocks_of(self_id()); ev = s.value; }
                ok = mx.trylock();
                NoPreempt np;
                if (blocks_of(self_id()) != b) fail("C03", "trylock-blocked", "trylock blocked");
                if (ok) { got(t, i, "trylock"); hold[i] = true; }
                else { if (idle && s.value == ev && s.active == 1) fail("C03", "trylock-false", "trylock failed on a mutex nobody held or was using"); act(s, -1); }
            } else if (o.name == "scoped" && !higher) {
                act(s, 1);
                { MutexLocker l(&mx); got(t, i, "MutexLocker"); work(t, i, n, true); rel(t, i); }
                act(s, -1);
            } else if (o.name == "foreign" && !hold[i]) {
                { NoPreempt np; if (s.holder >= 0) PROBE(foreign_unlock_while_held); }
                int h = s.holder;
                mx.unlock();
                NoPreempt np;
                if (foreign_unlocks()) fail("C03", "foreign-unlock", "unlock called by thread %d, which does not hold mutex %d, released it from its holder (%d)", t->id, i, h);
            } else if (o.name == "work") work(t, i, n, hold[i]);
        }
        for (int i = t->m - 1; i >= 0; i--) if (hold[i]) { rel(t, i); t->mx[i]->unlock(); act(t->st[i], -1); }
    }
    void run(const Plan &p, const Variant &) {
        int n = (int)p.get("threads", 2), m = (int)p.get("mutexes", 1);
        if (n < 1) n = 1; if (n > 5) n = 5; if (m < 1) m = 1; if (m > 3) m = 3;
        Mutex *mx[4]; MState st[4]; T t[5]; int id[5];
        for (int i = 0; i < m; i++) { mx[i] = new Mutex; st[i].holder = -1; st[i].active = 0; st[i].cell = i; st[i].value = 0; }
        for (int i = 0; i < n; i++) { t[i].w = this; t[i].p = &p; t[i].id = i; t[i].mx = mx; t[i].st = st; t[i].m = m; id[i] = spawn(thr, &t[i]); }
        for (int i = 0; i < n; i++) join(id[i]);
        for (int i = 0; i < m; i++) {
            if (st[i].active) fail("C03", "sim-bug", "activity count %d", st[i].active);
            if (!mx[i]->trylock()) fail("C03", "unavailable", "mutex %d cannot be acquired after everybody released it", i);
            mx[i]->unlock();
            for (int k = 0; k < 2; k++) { mx[i]->lock(); mx[i]->unlock(); }
            delete mx[i];
        }
    }
};
static MutexWorld mutex_world;

// =============================================================== condition (C04)
struct CondWorld : World {
    CondWorld() : World("cond") {}
    // scenario 0: tokens; 1: pure timed waits; 2: tokens with timed waits; 3: untimed wait outlasts everything
    void gen(Rng &r, Plan &p, bool thorough) {
        gen_sched(r, p, 0);
        int sc = (int)r.below(4); p.cfg["scenario"] = sc;
        int k = 2 + (int)r.below(thorough ? 14 : 7);
        if (sc == 1) {
            if (r.chance(700)) p.cfg["s_pspur"] = 0;
            if (r.chance(800)) p.cfg["s_pstall"] = 0;
            p.cfg["threads"] = 1 + (i64)r.below(3);
            i64 base = p.cfg["s_rt0"] % 1000000;
            for (int t = 0; t < p.cfg["threads"]; t++) for (int i = 0; i < k; i++) {
                Op o; o.client = t; 
                int z = (int)r.below(10);
                if (z < 7) {
                    o.name = "twait"; i64 us;
                    switch (r.below(9)) { case 0: us = 1; break; case 1: us = 1000000 - base; break; case 2: us = 1000000; break; case 3: us = 2000000 - base; break;
                        case 4: us = 1 + (i64)r.below(1000); break; case 5: us = 1 + (i64)r.below(3000000); break; case 6: us = 1000000 + (i64)r.below(100000000); break; case 7: us = 1000 * (1 + (i64)r.below(4000)); break; default: us = 2147483647 - (i64)r.below(10); }
                    if (us < 1) us = 1; o.a.push_back(us);
                    o.a.push_back((i64)r.below(4)); // alignment mode: choose us so that now+us lands near a second boundary
                } else if (z < 9) o.name = "signal";
                else { o.name = "sleep"; o.a.push_back((i64)r.below(2000000)); }
                p.ops.push_back(o);
            }
        } else {
            if (r.chance(250)) p.cfg["s_pjump"] = 5 + (i64)r.below(60);
            int cons = 1 + (int)r.below(3), prod = 1 + (int)r.below(2);
            p.cfg["consumers"] = cons; p.cfg["producers"] = prod;
            for (int c = 0; c < prod; c++) for (int i = 0; i < k; i++) {
                Op o; o.client = 10 + c; o.name = r.chance(800) ? "put" : "sleep"; o.a.push_back((i64)r.below(3000000)); p.ops.push_back(o);
            }
            p.cfg["slow"] = (i64)r.below(3);
        }
    }
    struct S { Condition *c; int inside; long tokens, taken, put, signals; int cell; const Plan *p; bool done; int waiting; int scenario; long finished; };
    struct T { S *s; int id; int ncons; };
    static void enter(S *s, int id, const char *how) { NoPreempt np; if (s->inside != -1) fail("C04", "lock-not-held", "thread %d holds the condition's lock after %s although thread %d holds it too", id, how, s->inside); s->inside = id; cell_read(s->cell, "the holder's read"); cell_write(s->cell, "a holder's write"); }
    static void leave(S *s, int id) { NoPreempt np; if (s->inside != id) fail("C04", "lock-not-held", "thread %d finds thread %d inside its locked region", id, s->inside); cell_write(s->cell, "a holder's write"); s->inside = -1; }
    static void consumer(void *v) {
        T *t = (T *)v; S *s = t->s;
        for (;;) {
            s->c->lock(); enter(s, t->id, "lock()");
            while (s->tokens == 0 && !s->done) {
                leave(s, t->id);
                if (s->scenario == 2 && (t->id & 1)) {
                    s->c->wait((int)(50000 + 100000 * t->id));
                } else {
                    u64 sp = spurious_to(self_id()); i64 sg = s->signals; u64 t0 = now_ns();
                    s->c->wait();
                    NoPreempt np;
                    if (sp == spurious_to(self_id()) && sg == s->signals) fail("C04", "wait-returned", "wait() without timeout returned after %llu us of simulated time though nothing was signalled", (unsigned long long)((now_ns() - t0) / 1000));
                }
                enter(s, t->id, "wait()");
                for (int k = 0; k < 2; k++) { point(); NoPreempt np; if (s->inside != t->id) fail("C04", "lock-not-held", "lock not held after wait() returned"); }
            }
            bool stop = s->tokens == 0 && s->done;
            if (!stop) { s->tokens--; s->taken++; }
            leave(s, t->id); s->c->unlock();
            if (stop) break;
        }
        NoPreempt np; s->finished++;
    }
    static void producer(void *v) {
        T *t = (T *)v; S *s = t->s;
        for (size_t q = 0; q < s->p->ops.size(); q++) {
            const Op &o = s->p->ops[q]; if (o.client != t->id) continue;
            { NoPreempt np; op_done(); }
            if (o.name == "put") {
                s->c->lock(); enter(s, t->id, "lock()");
                s->tokens++; s->put++;
                point();
                { NoPreempt np; s->signals++; }
                s->c->signal();
                leave(s, t->id); s->c->unlock();
            } else { i64 d = o.arg(0); if (s->scenario == 3) d *= 1000000; sleep_ns((u64)(d < 0 ? 0 : d) * 1000); }
        }
    }
    static void timed(void *v) {
        T *t = (T *)v; S *s = t->s;
        for (size_t q = 0; q < s->p->ops.size(); q++) {
            const Op &o = s->p->ops[q]; if (o.client != t->id) continue;
            { NoPreempt np; op_done(); }
            if (o.name == "twait") {
                // every thread has its own Condition here: nothing can wake it but time (or an injected spurious wakeup)
                i64 us = o.arg(0); if (us < 1) us = 1; if (us > 2147483647) us = 2147483647;
                Condition *c = &s->c[t->id];
                c->lock();
                if (o.arg(1) % 4 == 1) { i64 d = 1000000 - realtime_us() % 1000000; us = d; PROBE(timedwait_second_boundary); }
                else if (o.arg(1) % 4 == 2) { us = 1000000 - realtime_us() % 1000000 + 1000000 * (us % 5); PROBE(timedwait_second_boundary); }
                u64 sp = spurious_to(self_id()), st = stalls_ns(); u64 t0 = now_ns();
                c->wait((int)us);
                u64 el = now_ns() - t0; u64 stall = stalls_ns() - st;
                NoPreempt np;
                if (!wallclock_jumped()) {
                    if (sp == spurious_to(self_id()) && (i64)el < us * 1000 - 1000) fail("C04", "timeout-early", "wait(%lld us) returned after %llu ns with no wakeup delivered (start at %lld us into the second)", (long long)us, (unsigned long long)el, (long long)((i64)(realtime_us() * 1000 - (i64)el) / 1000 % 1000000));
                    if (el > (u64)us * 1000 + 2000000 + stall) fail("C04", "timeout-late", "wait(%lld us) returned only after %llu ns", (long long)us, (unsigned long long)el);
                }
                obs(el > 0);
                { np.old = false; }
                if (held_locks() < 1) fail("C04", "lock-not-held", "wait(us) returned without holding the lock");
                c->unlock();
                // the lock must be free again and usable
                c->lock(); c->unlock();
            } else if (o.name == "signal") {
                Condition *c = &s->c[t->id]; if (o.arg(0) & 1) { c->lock(); c->signal(); c->unlock(); } else c->signal();
            } else sleep_ns((u64)(o.arg(0) < 0 ? 0 : o.arg(0)) * 1000);
        }
    }
    void run(const Plan &p, const Variant &) {
        S s; memset(&s, 0, sizeof s); s.inside = -1; s.cell = 3; s.p = &p; s.scenario = (int)p.get("scenario");
        if (s.scenario == 1) {
            int n = (int)p.get("threads", 1); if (n < 1) n = 1; if (n > 3) n = 3;
            // array of conditions
            char *mem = (char *)::operator new(sizeof(Condition) * 3);
            s.c = (Condition *)mem;
            for (int i = 0; i < n; i++) new (mem + i * sizeof(Condition)) Condition("sim");
            T t[3]; int id[3];
            for (int i = 0; i < n; i++) { t[i].s = &s; t[i].id = i; id[i] = spawn(timed, &t[i]); }
            for (int i = 0; i < n; i++) join(id[i]);
            for (int i = 0; i < n; i++) s.c[i].~Condition();
            ::operator delete(mem);
        } else {
            int cons = (int)p.get("consumers", 1), prod = (int)p.get("producers", 1);
            if (cons < 1) cons = 1; if (cons > 4) cons = 4; if (prod < 1) prod = 1; if (prod > 3) prod = 3;
            s.c = new Condition("sim");
            T c[4], q[3]; int ci[4], pi[3];
            for (int i = 0; i < cons; i++) { c[i].s = &s; c[i].id = i; ci[i] = spawn(consumer, &c[i]); }
            for (int i = 0; i < prod; i++) { q[i].s = &s; q[i].id = 10 + i; pi[i] = spawn(producer, &q[i]); }
            for (int i = 0; i < prod; i++) join(pi[i]);
            // stop: one final state change signalled once per consumer
            for (int k = 0; k < cons; k++) {
                s.c->lock(); enter(&s, 99, "lock()"); s.done = true; s.signals++; s.c->signal(); leave(&s, 99); s.c->unlock();
                point();
            }
            for (int i = 0; i < cons; i++) join(ci[i]);
            if (s.taken != s.put || s.tokens) fail("C04", "lost", "put %ld tokens, taken %ld", s.put, s.taken);
            delete s.c;
        }
        if (held_locks()) fail("C04", "lock-held", "%d lock(s) still held at the end", held_locks());
    }
};
static CondWorld cond_world;

// =============================================================== thread (C05)
struct ThShared { int starts, runs, begun, ended; int fiber[8]; pthread_t ids[8]; int cell, cell2; int body; int creator; bool exiting; int live_objects; long token; };
class SimThread : public Thread {
public:
    SimThread(ThShared *s) : m_s(s) {}
protected:
    virtual void run() {
        ThShared *s = m_s;   // the object may be destroyed by its owner from here on
        {
            NoPreempt np;
            if (s->begun - s->ended > 0) fail("C05", "run-twice", "run() entered while it is already running");
            if (s->begun >= s->starts) fail("C05", "run-twice", "run() executed %d times for %d start(s)", s->begun + 1, s->starts);
            if (self_id() == s->creator) fail("C05", "wrong-thread", "run() executed on the thread that called start()");
            cell_read(s->cell, "run()'s read of what was set up before start()");
            s->fiber[s->begun % 8] = self_id(); s->ids[s->begun % 8] = pthread_self(); s->begun++;
        }
        switch (s->body % 5) { case 0: break; case 1: point(); break; case 2: for (int i = 0; i < 15; i++) point(); break; case 3: sleep_ns(30000000); break; case 4: { volatile int a = 0; for (int i = 0; i < 30; i++) a = a + 1; } }
        NoPreempt np; s->body = s->body * 7 + 3; if (s->body < 0) s->body = -s->body;
        cell_write(s->cell2, "run()'s result"); s->token++; s->ended++;
    }
private:
    ThShared *m_s;
};
struct ThreadWorld : World {
    ThreadWorld() : World("thread") {}
    void gen(Rng &r, Plan &p, bool thorough) {
        gen_sched(r, p, 0); p.cfg["s_pspur"] = 0;
        if (r.chance(300)) p.cfg["s_pcreate"] = 20 + (i64)r.below(300);
        int owners = 1 + (int)r.below(3); p.cfg["owners"] = owners; p.cfg["body"] = (i64)r.below(1000);
        static const char *nm[] = { "new", "start", "wait", "del", "pause", "id" };
        for (int c = 0; c < owners; c++) {
            int n = 3 + (int)r.below(thorough ? 20 : 11);
            for (int i = 0; i < n; i++) { Op o; o.client = c; static const int seq[] = { 0, 1, 1, 1, 2, 2, 3, 4, 5 }; o.name = nm[i == 0 ? 0 : seq[r.below(9)]]; o.a.push_back((i64)r.below(2)); o.a.push_back((i64)r.below(6)); p.ops.push_back(o); }
        }
    }
    struct C { const Plan *p; int id; };
    static void owner(void *v) {
        C *c = (C *)v;
        SimThread *t[2] = { 0, 0 }; ThShared *s[2] = { 0, 0 }; bool run[2] = { 0, 0 }; int serial = 0;
        for (size_t q = 0; q <= c->p->ops.size(); q++) {
            bool fin = q == c->p->ops.size();
            if (fin) { for (int k = 0; k < 2; k++) if (t[k]) del(t[k], s[k], run[k], k); break; }
            const Op &o = c->p->ops[q]; if (o.client != c->id) continue;
            int k = (int)((u64)o.arg(0) % 2);
            { NoPreempt np; op_done(); }
            if (o.name == "new" && !t[k]) {
                { NoPreempt np; s[k] = new ThShared; memset(s[k], 0, sizeof **s); s[k]->creator = self_id(); int cb = ((c->id * 2 + k) * 8 + serial++ % 8) * 2 % 250; s[k]->cell = cb; s[k]->cell2 = cb + 1; s[k]->body = (int)(c->p->get("body") + serial) & 1023; }
                t[k] = new SimThread(s[k]); run[k] = false;
            } else if (o.name == "start" && t[k] && !run[k] && s[k]->starts < 6) {
                int f;
                { NoPreempt np; cell_write(s[k]->cell, "the owner's set-up before start()"); if (s[k]->starts) PROBE(thread_restart); s[k]->starts++; f = sut_create_failures(); }
                int cr = sut_created(); (void)cr;
                t_start(t[k]);
                NoPreempt np;
                // other owners may have provoked a failure of their own; our start must not return if ours failed
                if (sut_create_failures() != f && s_failed_self) fail("C05", "start-ignored-failure", "start() returned although the thread could not be created");
                run[k] = true;
            } else if (o.name == "wait" && t[k]) dowait(t[k], s[k], run[k]);
            else if (o.name == "del" && t[k]) del(t[k], s[k], run[k], k);
            else if (o.name == "pause") { for (int j = 0; j < o.arg(1) % 8; j++) point(); }
            else if (o.name == "id" && t[k] && run[k]) { pthread_t i = t[k]->id(); NoPreempt np; if (s[k]->begun == s[k]->starts && !pthread_equal(i, s[k]->ids[(s[k]->begun - 1) % 8])) fail("C05", "wrong-id", "id() is not the id of the thread executing run()"); }
        }
    }
    static bool s_failed_self;
    static void t_start(SimThread *t) {
        // createfail is decided inside pthread_create called by start(); detect "ours" by comparing counts around the call without other creators in between
        int f0 = sut_create_failures(), c0 = sut_created();
        t->start();
        NoPreempt np;
        int f1 = sut_create_failures(), c1 = sut_created();
        s_failed_self = (f1 > f0 && c1 == c0);
    }
    static void dowait(SimThread *t, ThShared *s, bool &run) {
        if (!run) { u64 b = blocks_of(self_id()); t->wait(); NoPreempt np; PROBE(thread_wait_twice); if (blocks_of(self_id()) != b) fail("C05", "wait-blocked", "wait() blocked although nothing was running"); return; }
        t->wait();
        NoPreempt np; run = false;
        if (s->ended != s->starts) fail("C05", "wait-early", "wait() returned with run() finished %d of %d times", s->ended, s->starts);
        cell_read(s->cell2, "the owner's read after wait()");
        int i = (s->begun - 1) % 8;
        if (!fiber_done(s->fiber[i])) fail("C05", "wait-early", "wait() returned while the thread is still alive");
    }
    static void del(SimThread *&t, ThShared *&s, bool &run, int) {
        if (run) {
            // the subclass part must still be there when run() is entered: wait for that only
            for (int i = 0; s->begun < s->starts; i++) { if (i < 50) point(); else sleep_ns(1000000); if (i > 20000) fail("C05", "never-ran", "run() was never entered after start()"); }
            PROBE(thread_destroy_unwaited);
        }
        delete t; t = 0;
        NoPreempt np;
        if (run) {
            if (s->ended != s->starts) fail("C05", "destroy-early", "destructor returned with run() finished %d of %d times", s->ended, s->starts);
            cell_read(s->cell2, "the owner's read after destruction");
            if (!fiber_done(s->fiber[(s->begun - 1) % 8])) fail("C05", "destroy-early", "destructor returned while the thread is still alive");
        }
        if (s->begun != s->starts) fail("C05", "run-count", "run() executed %d times for %d start(s)", s->begun, s->starts);
        run = false; s = 0;
    }
    static int exit_hook(int code) { return sut_create_failures() > 0 && code != 0; }
    void run(const Plan &p, const Variant &) {
        on_exit_hook = exit_hook;
        if (!Thread::threadingAvailable()) fail("C05", "unavailable", "threadingAvailable() is false");
        int n = (int)p.get("owners", 1); if (n < 1) n = 1; if (n > 3) n = 3;
        C c[3]; int id[3];
        for (int i = 0; i < n; i++) { c[i].p = &p; c[i].id = i; id[i] = spawn(owner, &c[i]); }
        for (int i = 0; i < n; i++) join(id[i]);
        if (sut_create_failures()) fail("C05", "start-ignored-failure", "a thread could not be created and the process carried on");
        if (live_threads()) fail("C05", "thread-outlives", "%d thread(s) alive after every Thread object was destroyed", live_threads());
        if (unjoined_threads()) fail("C05", "not-joined", "%d thread(s) never joined", unjoined_threads());
    }
};
bool ThreadWorld::s_failed_self = false;
static ThreadWorld thread_world;

struct Reg { Reg() { worlds().push_back(&async_world); worlds().push_back(&mutex_world); worlds().push_back(&cond_world); worlds().push_back(&thread_world); } };
static Reg reg;
}

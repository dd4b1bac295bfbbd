#include "sim.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdlib>
#include <climits>

namespace sim {
Run * R = nullptr;
size_t task_stack = 1 << 20;
// an interpreter with a lock of its own lets go of it while a task waits for its turn
void * (*wait_enter)() = nullptr; void (*wait_leave)(void *) = nullptr; void (*violation_hook)() = nullptr; bool (*may_switch)() = nullptr;

static void fwait(std::atomic<int> & a) {
    while (a.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int *) &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int> & a) {
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, (int *) &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

const char * kind_name(unsigned k) {
    switch (k) {
    case K_OPEN: return "open"; case K_READ: return "read"; case K_WRITE: return "write"; case K_CLOSE: return "close";
    case K_MKDIR: return "mkdir"; case K_STAT: return "stat"; case K_DIR: return "readdir"; case K_RENAME: return "rename";
    case K_UNLINK: return "unlink"; case K_ALLOC: return "alloc"; case K_UTIME: return "utimes"; case K_SYNC: return "sync";
    case K_MPI: return "mpi"; case K_MEM: return "mem"; case K_STDIO: return "stdio";
    }
    return "?";
}
string strf(const char * fmt, ...) {
    char b[4096]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va); return b;
}
u64 hash_bytes(const void * p, size_t n) {
    u64 h = 0x1234567 ^ n; const u8 * c = (const u8 *) p;
    while (n >= 8) { u64 v; memcpy(&v, c, 8); h = mix64(h, v); c += 8; n -= 8; }
    u64 v = 0; memcpy(&v, c, n); return mix64(h, v);
}
void tracef(const char * fmt, ...) {
    if (!R || !R->trace) return;
    char b[2048]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    fprintf(stderr, "[%6ld t%d op%d] %s\n", R->step, R->cur ? R->cur->id : -1, R->cur ? R->cur->op : -1, b);
}
void note_violation(const char * kind, const string & msg) {
    if (!R->v.set) {
        R->v.set = true; R->v.kind = kind; R->v.msg = msg; R->v.op = R->cur ? R->cur->op : -1;
        if (R->trace) fprintf(stderr, "VIOLATION %s: %s\n", kind, msg.c_str());
    }
    R->abort = true;
    if (violation_hook) violation_hook();
}
void fail(const char * kind, const char * fmt, ...) {
    char b[4096]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    note_violation(kind, b);
    throw Killed();
}
Proc * add_proc(int copy, int rank, int nrank) {
    Proc * p = new Proc; p->id = (int) R->procs.size(); p->copy = copy; p->rank = rank; p->nrank = nrank;
    R->procs.push_back(p); return p;
}
Task * add_task(Proc * p, std::function<void()> body) {
    Task * t = new Task; t->id = (int) R->tasks.size(); t->proc = p; t->body = body;
    t->prio = mix64(R->cfg.sseed, t->id, 77) | (1ull << 40);
    R->tasks.push_back(t); return t;
}
static bool can_run(Task * t) {
    if (t->st == Task::DONE) return false;
    if (R->abort || t->killed) return true;
    if (t->st == Task::BLOCKED) return t->pred();
    return true;
}
static Task * choose(Task * self, bool must_leave) {
    // self: the task that holds the baton (may be blocked or done)
    vector<Task *> run;
    for (Task * t : R->tasks) if (can_run(t)) run.push_back(t);
    if (run.empty()) return nullptr;
    if (R->abort || R->job_killed) return run[0];
    bool selfok = false;
    for (Task * t : run) if (t == self) selfok = true;
    if (run.size() == 1) return run[0];
    Cfg & c = R->cfg;
    Task * pick = nullptr;
    long at = R->nchoice++;
    if (c.explicit_sched) {
        while (R->forced_i < c.forced.size() && c.forced[R->forced_i].first < at) R->forced_i++;
        if (R->forced_i < c.forced.size() && c.forced[R->forced_i].first == at) {
            int want = c.forced[R->forced_i].second; R->forced_i++;
            for (Task * t : run) if (t->id == want) pick = t;
        }
        if (!pick) pick = selfok ? self : run[0];
    } else {
        // a stalled task only runs when nobody else can
        if (c.policy == 3) {
            vector<Task *> r2;
            for (Task * t : run) if (t->stall_until <= R->step) r2.push_back(t);
            if (!r2.empty() && r2.size() != run.size()) { run = r2; selfok = false; for (Task * t : run) if (t == self) selfok = true; }
        }
        if (c.policy == 2) {
            for (u64 pt : R->pct_points) if ((long) pt == R->step && selfok) self->prio = --R->low_prio + (1l << 30);
            for (Task * t : run) if (!pick || t->prio > pick->prio) pick = t;
        } else {
            int pm = c.policy == 0 ? 0 : c.switch_pm;
            if (selfok && !must_leave && !R->srng.pm(pm)) pick = self;
            else pick = run[R->srng.below(run.size())];
            if (c.policy == 3 && pick == self && R->srng.pm(20)) self->stall_until = R->step + (long) R->srng.below(300);
        }
    }
    // only record where the default rule (stay, else lowest id) would differ
    Task * def = selfok ? self : nullptr;
    if (!def) { for (Task * t : R->tasks) if (can_run(t)) { def = t; break; } }
    if (pick != def) R->decisions.push_back({at, pick->id});
    return pick;
}
static void switch_to(Task * self, Task * next) {
    if (next == self) return;
    if (self) { R->switches++; R->shash = mix64(R->shash, R->step, next->id); }
    R->cur = next;
    sync_std();
    fwake(next->go);
    if (self && self->st != Task::DONE) { void * s = wait_enter ? wait_enter() : nullptr; fwait(self->go); if (wait_leave) wait_leave(s); }
}
static void dead_check(Task * t) {
    if (R->abort || t->killed) throw Killed();
}
static void on_no_runnable(Task * self) {
    bool all = true; string s;
    for (Task * t : R->tasks) if (t->st != Task::DONE) { all = false; s += strf(" task%d(op %d) waits in %s;", t->id, t->op, t->waiting); }
    if (all) { R->cur = nullptr; fwake(R->ctl); return; }
    note_violation("deadlock", "no task can make progress:" + s);
    for (Task * t : R->tasks) if (t->st != Task::DONE) { if (t == self) return; switch_to(self, t); return; }
}
void block_on(const char * what, std::function<bool()> pred) {
    Task * t = R->cur;
    dead_check(t);
    t->pred = pred; t->st = Task::BLOCKED; t->waiting = what;
    while (true) {
        Task * n = choose(t, false);
        if (!n) { on_no_runnable(t); if (R->abort) break; continue; }
        if (n == t) break;
        switch_to(t, n);
        break;
    }
    t->st = Task::READY; t->pred = nullptr;
    dead_check(t);
}
void yield_point() {
    Task * t = R->cur;
    dead_check(t);
    Task * n = may_switch && !may_switch() ? t : choose(t, false);
    if (n && n != t) switch_to(t, n);
    dead_check(t);
}
void kill_job() {
    R->job_killed = true;
    for (Task * t : R->tasks) t->killed = true;
    throw Killed();
}
void set_op(int op) { Task * t = R->cur; t->op = op; t->faulted = 0; t->denied = false; }

SysRes sys(unsigned kind, const char * what, u64 arg) {
    SysRes r;
    Task * t = R ? R->cur : nullptr;
    if (!t) return r;
    dead_check(t);
    R->step++;
    if (R->step > R->cfg.maxsteps) fail("no-progress", "more than %ld simulated calls; last %s %s", R->cfg.maxsteps, kind_name(kind), what);
    if (kind != K_ALLOC) {
        t->iocalls++;
        R->vtime_us += 1 + (mix64(R->cfg.ioseed, R->step) & 63);
        hashv(mix64(t->id, kind, arg));
        if (R->trace) tracef("%s %s %llu", kind_name(kind), what, (unsigned long long) arg);
        Task * n = may_switch && !may_switch() ? t : choose(t, false);
        if (n && n != t) { switch_to(t, n); dead_check(t); }
    }
    if (kind == K_ALLOC && !t->allocs) return r;
    for (Fault & f : R->faults) {
        if (f.op != t->op || !(f.kinds & kind) || (f.task >= 0 && f.task != t->id)) continue;
        int i = f.seen++;
        if (i < f.n || i >= f.n + f.cnt) continue;
        f.hits++;
        if (f.kill) {
            R->stat[strf("fault.kill@%s", kind_name(kind))]++;
            if (R->trace) tracef("KILL at %s %s", kind_name(kind), what);
            if (kind == K_WRITE && f.tear >= 0) { r.tear = f.tear; r.kill_after = true; return r; }
            if (f.killone) { t->killed = true; throw Killed(); }
            kill_job();
        }
        t->faulted++; if (f.err == EACCES || f.err == EPERM) t->denied = true;
        R->stat[strf("fault.%s", kind_name(kind))]++;
        R->stat[strf("errno.%d", f.err)]++;
        hashv(f.err);
        if (R->trace) tracef("FAULT errno %d at %s %s", f.err, kind_name(kind), what);
        r.err = f.err; r.lose = f.lose;
        return r;
    }
    return r;
}
thread_local const char * stack_lo, * stack_hi;
static void * task_main(void * a) {
    Task * t = (Task *) a;
    pthread_attr_t at; void * lo; size_t len;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &len); stack_lo = (const char *) lo; stack_hi = stack_lo + len; pthread_attr_destroy(&at); }
    fwait(t->go);
    try {
        dead_check(t);
        t->body();
    } catch (Killed &) {
    } catch (ExitEx &) {
    }
    t->st = Task::DONE;
    Task * n = choose(t, true);
    if (!n) on_no_runnable(t);
    else switch_to(t, n);
    return nullptr;
}
void run_tasks() {
    Run * r = R;
    r->srng = Rng(r->cfg.sseed);
    Rng p(mix64(r->cfg.sseed, 5));
    r->pct_points.clear();
    if (r->cfg.policy == 2) for (int i = 0; i < r->cfg.pct_depth; i++) r->pct_points.push_back(r->step + p.below(i == 0 ? 60 : 1200));
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, task_stack);
    vector<Task *> mine;
    for (Task * t : r->tasks) if (t->st != Task::DONE) mine.push_back(t);
    for (Task * t : mine) pthread_create(&t->th, &at, task_main, t);
    pthread_attr_destroy(&at);
    if (mine.empty()) return;
    Task * first = choose(nullptr, true);
    r->cur = first; sync_std();
    fwake(first->go);
    fwait(r->ctl);
    for (Task * t : mine) pthread_join(t->th, nullptr);
    r->cur = nullptr;
}
void end_phase() {
    close_dead_files();
    for (Task * t : R->tasks) delete t;
    for (Proc * p : R->procs) delete p;
    R->tasks.clear(); R->procs.clear();
    R->job_killed = false;
}
}

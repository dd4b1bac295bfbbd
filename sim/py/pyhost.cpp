// The simulator with a Python interpreter inside: the real extension module and package run on simulated storage,
// every rank in a task of its own; the workload and the reference model are in harness.py.
#include <Python.h>
#include "../engine.h"
#include <dlfcn.h>
#include <deque>
#include <unistd.h>

namespace sim {
extern int lib_dlflags;

void report_and_exit();
static PyObject * mod;
static int phases;
struct Coll { string kind; int root = 0, n = 0; vector<Bytes> data; vector<char> in; };
typedef std::shared_ptr<Coll> CollP;
static std::map<u64, CollP> colls; static vector<u64> coll_seq; static vector<CollP> coll_last;

[[noreturn]] static void py_die(const char * what) { fprintf(stderr, "pyhost: %s\n", what); if (PyErr_Occurred()) PyErr_Print(); fflush(stderr); _exit(3); }
static void * py_wait_enter() { return PyGILState_Check() ? (void *) PyEval_SaveThread() : nullptr; }
static void py_wait_leave(void * s) { if (s) PyEval_RestoreThread((PyThreadState *) s); }
static void py_start() {
    if (mod) return;
    setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONHASHSEED", "0", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("PYTHONSTARTUP");
    PyConfig c; PyConfig_InitPythonConfig(&c); c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0;
    PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3.12");
    PyStatus st = Py_InitializeFromConfig(&c); if (PyStatus_Exception(st)) { fprintf(stderr, "pyhost: %s\n", st.err_msg ? st.err_msg : "cannot start Python"); _exit(3); }
    PyConfig_Clear(&c);
    lib_dlflags = RTLD_GLOBAL; lib_get("libbig", 0);
    PyObject * path = PySys_GetObject("path");
    for (string p : {lib_dir, lib_dir + "/pypkg", string(BF_SITE)}) { PyObject * o = PyUnicode_FromString(p.c_str()); PyList_Insert(path, 0, o); Py_DECREF(o); }
    mod = PyImport_ImportModule("harness"); if (!mod) py_die("harness.py does not load");
    wait_enter = py_wait_enter; wait_leave = py_wait_leave; violation_hook = report_and_exit; task_stack = 16 << 20;
}
static Plan gen_py(const string & prop, u64 seed, int scale) {
    py_start(); PyObject * r = PyObject_CallMethod(mod, "generate", "sKi", prop.c_str(), (unsigned long long) seed, scale); if (!r) py_die("generate");
    Plan p = Plan::parse(PyUnicode_AsUTF8(r)); Py_DECREF(r); return p;
}
static void exec_py(const Plan & p) {
    py_start(); phases = 0; colls.clear();
    PyObject * r = PyObject_CallMethod(mod, "execute", "s", p.text().c_str()); if (!r) py_die("execute"); Py_DECREF(r);
}
void extra_works(std::map<string, Work> & m) { m["P27"] = {gen_py, exec_py}; m["P28"] = {gen_py, exec_py}; m["P32"] = {gen_py, exec_py}; }
}
using namespace sim;
static string buf;
extern "C" {
static std::set<int> flags;
void bfsim_flag(int f) { flags.insert(f); }
void bfsim_wait_flag(int f) { block_on("a flag", [f] { return flags.count(f) != 0; }); }
// a phase that drops all its objects leaves nothing but one error text of each thread
static void run_audited(int n) {
    unsigned long long t0; long base = held_total(0, &t0, nullptr); R->stat["audits"]++;
    run_tasks();
    string w; long now = held_total(t0, nullptr, &w);
    if (now > base + n) { R->cur = nullptr; note_violation("leak", strf("all objects are gone, and %ld pieces of memory are still held: %s", now - base - n, w.c_str())); }
}
// the extension gives the interpreter's lock up and takes it again: others may run in between
PyThreadState * sim_PyEval_SaveThread() { PyThreadState * t = PyEval_SaveThread(); if (may_switch) yield_point(); return t; }
void sim_PyEval_RestoreThread(PyThreadState * t) { if (may_switch) yield_point(); PyEval_RestoreThread(t); }
static bool no_lock() { return !PyGILState_Check(); }
// one phase: one process with n threads; who holds the interpreter's lock runs until he gives it up
void bfsim_threads(int n, int (*cb)(int)) {
    Proc * p = new_proc("libbig", 0, 0, 1);
    for (int r = 0; r < n; r++) add_task(p, [cb, r] { cb(r); });
    flags.clear(); phases++; may_switch = no_lock; run_audited(n); may_switch = nullptr; end_phase();
}
// one phase: n processes with a single thread each, from start to end
void bfsim_phase(int n, int (*cb)(int)) {
    colls.clear(); coll_seq.assign(n, 0); coll_last.assign(n, nullptr);
    for (int r = 0; r < n; r++) { Proc * p = new_proc("libbig", 0, r, n); add_task(p, [cb, r] { cb(r); }); }
    phases++; run_audited(n); end_phase();
}
void bfsim_op(int op) { set_op(op); }
int bfsim_faulted() { return R->cur->faulted; }
long bfsim_step() { return R->step; }
void bfsim_yield() { yield_point(); }
void bfsim_fail(const char * kind, const char * msg) { note_violation(kind, msg); }
void bfsim_stat(const char * name, long n) { R->stat[name] += n; }
void bfsim_hash(u64 v) { hashv(v); }
void bfsim_trace(const char * s) { tracef("%s", s); }
int bfsim_fds() { return (int) R->cur->proc->fds.size(); }
int bfsim_exists(const char * p) { return FS->exists(p); }
int bfsim_isdir(const char * p) { return FS->isdir(p); }
void bfsim_mkdirs(const char * p) { FS->mkdirs(p); }
void bfsim_remove(const char * p) { FS->remove(p); }
void bfsim_put(const char * p, const char * d, size_t n) { FS->put(p, Bytes((const u8 *) d, (const u8 *) d + n)); }
const char * bfsim_content(const char * p, size_t * n) { Bytes b = FS->content(p); buf.assign((const char *) b.data(), b.size()); *n = buf.size(); return buf.data(); }
// the size of a file and the pages storage keeps of it
const char * bfsim_pages(const char * p, size_t * n) {
    buf.clear(); auto num = [](u64 v) { buf.append((const char *) &v, 8); };
    NodeP d = FS->get(p); num(d ? d->size : 0);
    if (d) for (auto & x : d->pg) { num(x.first); buf.append((const char *) x.second.data(), PG); }
    *n = buf.size(); return buf.data();
}
const char * bfsim_list(const char * p) { buf.clear(); for (auto & x : FS->list(p)) buf += x + "\n"; return buf.c_str(); }
// a collective call: everybody gives bytes and may then look at what the others gave
void bfsim_coll(const char * kind, int root, const char * d, size_t n) {
    Proc * p = R->cur->proc; int me = p->rank, N = p->nrank; sys(K_MPI, kind, n);
    u64 s = coll_seq[me]++; CollP & c = colls[s];
    if (!c) { c = std::make_shared<Coll>(); c->kind = kind; c->root = root; c->data.resize(N); c->in.assign(N, 0); }
    if (c->kind != kind || c->root != root) note_violation("collective-mismatch", strf("rank %d calls %s(root %d) where another rank calls %s(root %d)", me, kind, root, c->kind.c_str(), c->root));
    c->data[me].assign((const u8 *) d, (const u8 *) d + n); c->in[me] = 1; c->n++;
    CollP k = c; coll_last[me] = k;
    bool weak = k->kind == "bcast" && (int) (mix64(R->cfg.mseed, s) % 1000) < R->cfg.weak_pm;
    if (weak) { if (me != root) block_on(kind, [k, root] { return k->in[root] != 0; }); }
    else block_on(kind, [k, N] { return k->n == N; });
}
const char * bfsim_coll_get(int rank, size_t * n) { CollP & k = coll_last[R->cur->proc->rank]; *n = k->data[rank].size(); return (const char *) k->data[rank].data(); }
}

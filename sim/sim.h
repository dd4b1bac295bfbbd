// Deterministic simulator: tasks, scheduler, faults, storage. See DESIGN.md.
#pragma once
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <pthread.h>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned char u8;
typedef std::vector<u8> Bytes;
using std::string;
using std::vector;

inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline u64 mix64(u64 a, u64 b) { return mix64(a ^ mix64(b)); }
inline u64 mix64(u64 a, u64 b, u64 c) { return mix64(mix64(a, b), c); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
    bool pm(int permille) { return (int) below(1000) < permille; }
    template<class T> const T & pick(const vector<T> & v) { return v[below(v.size())]; }
};

enum Kind { K_OPEN = 1, K_READ = 2, K_WRITE = 4, K_CLOSE = 8, K_MKDIR = 16, K_STAT = 32, K_DIR = 64, K_RENAME = 128,
            K_UNLINK = 256, K_ALLOC = 512, K_UTIME = 1024, K_SYNC = 2048, K_MPI = 4096, K_MEM = 8192, K_STDIO = 16384,
            K_IO = 2047 & ~K_ALLOC & ~K_UTIME };
const char * kind_name(unsigned k);

struct Fault {
    int op = -1;        // operation index
    int task = -1;      // task id (or any)
    int n = 0;          // n-th matching call within the operation
    unsigned kinds = 0; // which calls count
    int err = 0;        // errno to return; 0 with kill => crash
    int cnt = 1;        // how many consecutive matching calls fail
    bool kill = false;  // kill the job at this call
    bool killone = false;
    int tear = -1;      // kill at a write: per mille of the bytes that still reach the storage
    bool lose = false;  // for close: bytes written through this descriptor are lost
    int seen = 0, hits = 0;
};

struct Cfg {
    u64 sseed = 1, mseed = 1, ioseed = 1;
    int policy = 0;         // 0 run to block, 1 random switches, 2 priorities (PCT-like), 3 stalls
    int switch_pm = 200;
    int pct_depth = 3;
    int shortio_pm = 0;     // probability of a legal short transfer
    int fdlimit = 0;
    i64 cap = -1;           // bytes of disk
    int eager_pm = 500;     // sends that complete without the receiver
    int weak_pm = 500;      // collectives that synchronise no more than they must
    bool shuffle = true;    // directory order
    bool dtunknown = false;
    bool closefaults = false; // keep undo records
    long maxsteps = 2000000;
    vector<std::pair<long,int>> forced; // explicit schedule: at choice number -> run task
    bool explicit_sched = false;
};

struct Proc;
struct Task {
    int id = 0;
    Proc * proc = nullptr;
    std::function<void()> body;
    pthread_t th;
    std::atomic<int> go{0};
    enum St { READY, BLOCKED, DONE } st = READY;
    std::function<bool()> pred;
    const char * waiting = "";
    bool killed = false;
    int op = -1;            // current operation
    int faulted = 0;        // injected failures in the current operation
    bool allocs = false;    // memory for the transfer of rows may run out now
    bool denied = false;    // one of them refused access
    u64 mpicalls = 0, iocalls = 0;
    u64 prio = 0;
    long stall_until = 0;
    // data-file occupancy (P19)
    int open_data = 0;
};

struct OpenFile;
struct Proc {
    int id = 0;
    int rank = 0, nrank = 1;
    int copy = 0;
    void * api = nullptr;
    std::set<int> fds;
    FILE * in = nullptr, * out = nullptr, * err = nullptr;
    string indata, outdata, errdata;
    size_t inpos = 0;
    int exit_code = -1;
    bool exited = false, aborted = false, finalized = false;
    // getopt
    int optind_ = 1, opterr_ = 1, optopt_ = 0, optpos = 0; char * optarg_ = nullptr;
    void * user = nullptr;
    int dirs = 0;           // directory streams
    bool audit = false; long base = 0;   // what it held before the first call
    u64 aseq = 0;
};

struct Killed {};
struct ExitEx { int code; };

struct Violation { bool set = false; string kind, msg; int op = -1; };

struct Run {
    Cfg cfg;
    vector<Fault> faults;
    vector<Task *> tasks;
    vector<Proc *> procs;
    Task * cur = nullptr;
    long step = 0;
    u64 hash = 0;          // everything observable
    u64 shash = 0;         // schedule
    u64 vtime_us = 0;
    bool abort = false;    // violation found: unwind everything
    bool job_killed = false;
    bool calm = false;     // nothing goes wrong and nobody else touches the storage in this run
    Violation v;
    Rng srng;
    vector<std::pair<long,int>> decisions; // recorded switches
    std::map<string, long> stat;
    long switches = 0, nchoice = 0;
    bool trace = false;
    std::atomic<int> ctl{0};
    vector<u64> pct_points;
    size_t forced_i = 0;
    long low_prio = 0;
};
extern Run * R;
extern void * (*wait_enter)(); extern void (*wait_leave)(void *); extern void (*violation_hook)();   // see simcore.cpp
extern bool (*may_switch)();   // says no while something outside the simulation keeps the other tasks from running (Python's lock)
extern size_t task_stack; extern thread_local const char * stack_lo, * stack_hi;

// run all tasks to completion (the controller)
Task * add_task(Proc * p, std::function<void()> body);
Proc * add_proc(int copy, int rank, int nrank);
void run_tasks();
void end_phase();          // drops processes and their open files
void block_on(const char * what, std::function<bool()> pred);
void yield_point();
// entry of every simulated system call: returns 0 or the errno to inject
struct SysRes { int err = 0; bool lose = false; int tear = -1; bool kill_after = false; };
SysRes sys(unsigned kind, const char * what, u64 arg = 0);
[[noreturn]] void kill_job();
void set_op(int op);
[[noreturn]] void fail(const char * kind, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
void note_violation(const char * kind, const string & msg);
void tracef(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
inline void hashv(u64 v) { R->hash = mix64(R->hash, v); }
u64 hash_bytes(const void * p, size_t n);
string strf(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

// storage -----------------------------------------------------------------
enum { PG = 512 };
struct Node {
    bool dir = false;
    bool unreadable = false;
    u64 ino = 0;
    u64 size = 0;
    std::map<string, std::shared_ptr<Node>> ch;
    std::map<u64, std::array<u8, PG>> pg;
    ~Node();
};
typedef std::shared_ptr<Node> NodeP;
struct Fs {
    NodeP root;
    i64 used = 0;   // bytes in pages
    u64 next_ino = 1;
    Fs() { reset(); }
    void reset();
    NodeP mk(bool dir);
    // returns errno
    int walk(const string & path, NodeP * node, NodeP * parent = nullptr, string * leaf = nullptr);
    NodeP get(const string & path);
    Bytes read(const NodeP & n, u64 off, u64 len);
    u64 write(const NodeP & n, u64 off, const u8 * p, u64 len, i64 cap); // returns bytes written
    void truncate(const NodeP & n, u64 len);
    // host-side helpers
    Bytes content(const string & path);
    bool exists(const string & path);
    bool isdir(const string & path);
    void mkdirs(const string & path);
    void put(const string & path, const Bytes & b);
    void put(const string & path, const string & s) { put(path, Bytes(s.begin(), s.end())); }
    void remove(const string & path);
    vector<string> list(const string & path);
    u64 digest();
};
extern Fs * FS;
struct OpenFile {
    NodeP node; string path; int fd = -1; Proc * proc = nullptr; Task * task = nullptr;
    bool rd = false, wr = false, app = false, dead = false, std_ = false; u64 pos = 0; FILE * fp = nullptr; bool isdata = false;
    int stdkind = 0;
    struct Undo { u64 off; Bytes old; u64 oldsize; };
    vector<Undo> undo;
};
extern std::set<OpenFile *> * open_files;
void close_dead_files();
void exit_flush(Proc * p);   // what exit() does to stdio
void free_run_memory();
// memory, directory streams, communicators and datatypes a process holds; a word about the latest
long held_now(Proc *, string * what);
long held_total(unsigned long long since, unsigned long long * now, string * what);
void mpi_reset();
void mpi_world(int n);
int mpi_pending();
int mpi_held(int rank, string * what);  // communicators and datatypes
bool is_data_path(const string & p);
extern std::function<void(Task *, OpenFile *, bool)> data_file_hook;  // open/close of data files
void sync_std();
}

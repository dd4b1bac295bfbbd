// The libc entry points of the code under test: redirected here by objcopy --redefine-syms.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <malloc.h>
#include <csignal>

using namespace sim;
namespace sim {
std::set<OpenFile *> * open_files = new std::set<OpenFile *>;
std::function<void(Task *, OpenFile *, bool)> data_file_hook;
struct Alloc { size_t n; int proc, op; u64 seq; };
static std::unordered_map<void *, Alloc> * allocs = new std::unordered_map<void *, Alloc>;
static u64 nalloc;
static std::map<int, OpenFile *> * fdtab = new std::map<int, OpenFile *>;
static int next_fd = 1000;
static std::map<pthread_mutex_t *, int> * mutexes = new std::map<pthread_mutex_t *, int>;

bool is_data_path(const string & p) {
    size_t i = p.rfind('/'); string s = i == string::npos ? p : p.substr(i + 1);
    if (s.size() < 6) return false;
    for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) return false;
    return true;
}
static u64 iohash(OpenFile * f) { Task * t = R->cur; return mix64(R->cfg.ioseed, t ? t->id * 1000003 + t->iocalls : 0, f->node ? f->node->ino : f->stdkind); }

static ssize_t ck_read_raw(OpenFile * f, char * buf, size_t n) {
    if (f->dead) return 0;
    if (f->std_) {
        if (f->stdkind != 0) { errno = EBADF; return -1; }
        SysRes r = sys(K_READ, "<stdin>", n);
        if (r.err) { errno = r.err; return -1; }
        Proc * p = f->proc;
        size_t left = p->indata.size() - p->inpos;
        if (n > left) n = left;
        if (n > 1 && R->cfg.shortio_pm) { u64 h = iohash(f); if ((int) (h % 1000) < R->cfg.shortio_pm) n = 1 + (h >> 20) % n; }
        memcpy(buf, p->indata.data() + p->inpos, n); p->inpos += n;
        return n;
    }
    if (!f->rd) { errno = EBADF; return -1; }
    SysRes r = sys(K_READ, f->path.c_str(), n);
    if (f->dead) return 0;
    if (r.err) { errno = r.err; return -1; }
    if (f->node->dir) { errno = EISDIR; return -1; }
    if (f->pos >= f->node->size) return 0;
    u64 left = f->node->size - f->pos;
    if (n > left) n = left;
    if (n > 1 && R->cfg.shortio_pm) { u64 h = iohash(f); if ((int) (h % 1000) < R->cfg.shortio_pm) { n = 1 + (h >> 20) % n; R->stat["shortread"]++; } }
    Bytes b = FS->read(f->node, f->pos, n);
    memcpy(buf, b.data(), n);
    f->pos += n;
    return n;
}
static ssize_t ck_write_raw(OpenFile * f, const char * buf, size_t n) {
    if (f->dead) return n;
    if (f->std_) {
        if (f->stdkind == 0) { errno = EBADF; return -1; }
        if (f->stdkind == 1) {
            SysRes r = sys(K_STDIO, "<stdout>", n);
            if (r.err) { errno = r.err; return -1; }
        }
        string & o = f->stdkind == 1 ? f->proc->outdata : f->proc->errdata;
        if (o.size() < (4u << 20)) o.append(buf, n);
        hashv(hash_bytes(buf, n));
        return n;
    }
    if (!f->wr) { errno = EBADF; return -1; }
    if (n == 0) return 0;
    SysRes r = sys(K_WRITE, f->path.c_str(), n);
    if (f->dead) return n;
    if (r.err) { errno = r.err; return -1; }
    if (f->app) f->pos = f->node->size;
    if (r.kill_after) {
        size_t k = n * (size_t) r.tear / 1000;
        FS->write(f->node, f->pos, (const u8 *) buf, k, R->cfg.cap);
        R->stat["torn_write"]++;
        kill_job();
    }
    if (n > 1 && R->cfg.shortio_pm) { u64 h = iohash(f); if ((int) (h % 1000) < R->cfg.shortio_pm) { n = 1 + (h >> 20) % n; R->stat["shortwrite"]++; } }
    if (R->cfg.closefaults) {
        OpenFile::Undo u; u.off = f->pos; u.oldsize = f->node->size; u.old = FS->read(f->node, f->pos, n); f->undo.push_back(u);
    }
    u64 k = FS->write(f->node, f->pos, (const u8 *) buf, n, R->cfg.cap);
    hashv(mix64(f->node->ino, f->pos, hash_bytes(buf, n)));
    f->pos += k;
    if (k == 0) { R->cur->faulted++; R->stat["fault.nospace"]++; errno = ENOSPC; return -1; }
    return k;
}
static ssize_t ck_read(void * c, char * buf, size_t n) { return ck_read_raw((OpenFile *) c, buf, n); }
static ssize_t ck_write(void * c, const char * buf, size_t n) {
    // write(2) until everything is out or an error occurs, as stdio does on a descriptor
    size_t done = 0;
    while (done < n) {
        ssize_t k = ck_write_raw((OpenFile *) c, buf + done, n - done);
        if (k <= 0) break;
        done += k;
    }
    return done;
}
static int ck_seek(void * c, off64_t * off, int wh) {
    OpenFile * f = (OpenFile *) c;
    if (f->dead) return 0;
    if (f->std_) { errno = ESPIPE; return -1; }
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64) f->pos : (i64) f->node->size;
    i64 np;
    if (__builtin_add_overflow(base, (i64) *off, &np) || np < 0) { errno = EINVAL; return -1; }
    f->pos = np; *off = np;
    return 0;
}
static int finish_close(OpenFile * f) {
    int rt = 0;
    if (!f->dead) {
        SysRes r = sys(K_CLOSE, f->path.c_str(), 0);
        if (!f->dead) {
            if (r.err) {
                rt = -1;
                if (r.lose) {
                    for (size_t i = f->undo.size(); i-- > 0;) {
                        auto & u = f->undo[i];
                        FS->write(f->node, u.off, u.old.data(), u.old.size(), -1);
                        if (f->node->size > u.oldsize) FS->truncate(f->node, u.oldsize);
                    }
                }
                errno = r.err;
            }
            if (f->isdata && data_file_hook) data_file_hook(R->cur, f, false);
            if (f->proc) f->proc->fds.erase(f->fd - f->proc->id * 100000 - 1000);
        }
    }
    int e = errno;
    fdtab->erase(f->fd);
    open_files->erase(f);
    delete f;
    errno = e;
    return rt;
}
static int ck_close(void * c) { return finish_close((OpenFile *) c); }

static FILE * wrap(OpenFile * f, const char * mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE * fp = fopencookie(f, mode, io);
    __fsetlocking(fp, FSETLOCKING_BYCALLER);
    f->fp = fp;
    return fp;
}
static int parse_mode(const char * m, int * fl) {
    switch (m[0]) { case 'r': *fl = O_RDONLY; break; case 'w': *fl = O_WRONLY | O_CREAT | O_TRUNC; break; case 'a': *fl = O_WRONLY | O_CREAT | O_APPEND; break; default: return EINVAL; }
    for (const char * p = m + 1; *p && *p != ','; p++) {
        if (*p == '+') *fl = (*fl & ~O_ACCMODE) | O_RDWR;
        else if (*p == 'x') *fl |= O_EXCL;
    }
    return 0;
}
static OpenFile * do_open(const string & path, int fl, int * err) {
    SysRes r = sys(K_OPEN, path.c_str(), fl);
    if (r.err) { *err = r.err; return nullptr; }
    Proc * p = R->cur ? R->cur->proc : nullptr;
    if (p && R->cfg.fdlimit && (int) p->fds.size() >= R->cfg.fdlimit) {
        R->cur->faulted++; R->stat["fault.fdlimit"]++;
        *err = EMFILE; return nullptr;
    }
    NodeP n, par; string leaf;
    int e = FS->walk(path, &n, &par, &leaf);
    if (e && !(e == ENOENT && par && (fl & O_CREAT) && path.back() != '/')) { *err = e; return nullptr; }
    bool wr = (fl & O_ACCMODE) != O_RDONLY;
    if (!n) {
        n = FS->mk(false); par->ch[leaf] = n;
    } else {
        if ((fl & O_CREAT) && (fl & O_EXCL)) { *err = EEXIST; return nullptr; }
        if (n->dir && wr) { *err = EISDIR; return nullptr; }
        if (n->unreadable && R->cur) { R->cur->faulted++; R->cur->denied = true; R->stat["fault.eacces"]++; *err = EACCES; return nullptr; }
        if (fl & O_TRUNC) FS->truncate(n, 0);
    }
    OpenFile * f = new OpenFile;
    f->node = n; f->path = path; f->rd = (fl & O_ACCMODE) != O_WRONLY; f->wr = wr; f->app = fl & O_APPEND;
    f->proc = p; f->task = R->cur;
    f->isdata = is_data_path(path);
    if (p) { int fd = 3; while (p->fds.count(fd)) fd++; p->fds.insert(fd); f->fd = p->id * 100000 + fd + 1000; }
    (*fdtab)[f->fd] = f;
    open_files->insert(f);
    if (f->isdata && data_file_hook) data_file_hook(R->cur, f, true);
    return f;
}
void forget_std();
void close_dead_files() {
    vector<OpenFile *> v(open_files->begin(), open_files->end());
    for (OpenFile * f : v) { f->dead = true; if (f->fp) fclose(f->fp); else { finish_close(f); } }
    forget_std();
    for (Proc * p : R->procs) {
        for (FILE ** q : {&p->in, &p->out, &p->err}) if (*q) { /* std streams are in open_files */ *q = nullptr; }
    }
}
void exit_flush(Proc * p) {
    int (* volatile flush)(FILE *) = fflush;
    if (p->out) flush(p->out);
    if (p->err) flush(p->err);
    vector<OpenFile *> v;
    for (OpenFile * f : *open_files) if (f->proc == p && !f->std_ && f->fp) v.push_back(f);
    std::sort(v.begin(), v.end(), [](OpenFile * a, OpenFile * b) { return a->fd < b->fd; });
    int (* volatile shut)(FILE *) = fclose;
    for (OpenFile * f : v) shut(f->fp);
}
long held_now(Proc * p, string * what) {
    long n = p->dirs; const Alloc * l = nullptr; string w;
    for (auto & a : *allocs) if (a.second.proc == p->id) { n++; if (a.second.seq >= p->aseq && (!l || a.second.seq < l->seq)) l = &a.second; }
    if (!what) p->aseq = nalloc;
    if (l) w = strf("%zu bytes of memory taken in operation %d", l->n, l->op);
    if (p->dirs) w += strf("%s%d directory streams", w.empty() ? "" : ", ", p->dirs);
    string m; if (int k = mpi_held(p->rank, &m)) { n += k; w += (w.empty() ? "" : ", ") + m; }
    if (what) *what = w;
    return n;
}
// what all processes hold, and what was taken first after the given moment
long held_total(unsigned long long since, unsigned long long * now, string * what) {
    const Alloc * l = nullptr;
    for (auto & a : *allocs) if (a.second.seq >= since && (!l || a.second.seq < l->seq)) l = &a.second;
    if (now) *now = nalloc;
    if (what && l) *what = strf("%zu bytes taken by process %d in operation %d", l->n, l->proc, l->op);
    return (long) allocs->size();
}
void free_run_memory() {
    for (auto & a : *allocs) free(a.first);
    allocs->clear(); nalloc = 0;
    mutexes->clear();
}
static FILE * std_file(Proc * p, int kind) {
    FILE ** slot = kind == 0 ? &p->in : kind == 1 ? &p->out : &p->err;
    if (!*slot) {
        OpenFile * f = new OpenFile; f->std_ = true; f->stdkind = kind; f->proc = p; f->fd = -10 - kind - 3 * p->id; f->rd = kind == 0; f->wr = kind != 0;
        f->path = kind == 0 ? "<stdin>" : kind == 1 ? "<stdout>" : "<stderr>";
        open_files->insert(f);
        *slot = wrap(f, kind == 0 ? "r" : "w");
        if (kind == 2) setvbuf(*slot, nullptr, _IONBF, 0);
    }
    return *slot;
}
}
#define RET(e) do { int e__ = (e); if (e__) { errno = e__; return -1; } return 0; } while (0)
extern "C" {
FILE * sim_stdin = nullptr, * sim_stdout = nullptr, * sim_stderr = nullptr;
char * sim_optarg; int sim_optind = 1, sim_opterr = 1, sim_optopt = 0;
char ** sim_environ = nullptr;
static Proc * gowner = nullptr;
}
namespace sim {
void forget_std() { gowner = nullptr; }
void sync_std() {
    Task * t = R->cur;
    if (!t || !t->proc) return;
    Proc * p = t->proc;
    sim_stdin = std_file(p, 0); sim_stdout = std_file(p, 1); sim_stderr = std_file(p, 2);
    if (gowner != p) {
        if (gowner) { for (Proc * q : R->procs) if (q == gowner) { q->optarg_ = sim_optarg; q->optind_ = sim_optind; q->opterr_ = sim_opterr; q->optopt_ = sim_optopt; } }
        sim_optarg = p->optarg_; sim_optind = p->optind_; sim_opterr = p->opterr_; sim_optopt = p->optopt_;
        gowner = p;
    }
}
}
extern "C" {
// --- stdio -------------------------------------------------------------
FILE * sim_fopen(const char * path, const char * mode) {
    int fl = 0, e = parse_mode(mode, &fl);
    OpenFile * f = e ? nullptr : do_open(path, fl, &e);
    if (!f) { errno = e; return nullptr; }
    return wrap(f, mode);
}
FILE * sim_freopen(const char * path, const char * mode, FILE * fp) { if (fp) fclose(fp); return path ? sim_fopen(path, mode) : (errno = EBADF, nullptr); }
FILE * sim_fdopen(int fd, const char * mode) {
    auto it = fdtab->find(fd); if (it == fdtab->end()) { errno = EBADF; return nullptr; }
    return wrap(it->second, mode);
}
int sim_fileno(FILE * fp) {
    for (OpenFile * f : *open_files) if (f->fp == fp) return f->std_ ? f->stdkind : f->fd;
    errno = EBADF; return -1;
}
FILE * sim_tmpfile(void) { errno = EROFS; return nullptr; }
int sim_printf(const char * fmt, ...) { va_list va; va_start(va, fmt); int r = vfprintf(sim_stdout, fmt, va); va_end(va); return r; }
int sim_vprintf(const char * fmt, va_list va) { return vfprintf(sim_stdout, fmt, va); }
int sim_puts(const char * s) { if (fputs(s, sim_stdout) < 0) return EOF; return fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
int sim_scanf(const char * fmt, ...) { va_list va; va_start(va, fmt); int r = vfscanf(sim_stdin, fmt, va); va_end(va); return r; }
void sim_perror(const char * s) { fprintf(sim_stderr, "%s: errno %d\n", s, errno); }
// --- descriptors ---------------------------------------------------------
int sim_open(const char * path, int fl, ...) {
    int e = 0; OpenFile * f = do_open(path, fl, &e);
    if (!f) { errno = e; return -1; }
    return f->fd;
}
static OpenFile * byfd(int fd) { auto it = fdtab->find(fd); if (it == fdtab->end()) { errno = EBADF; return nullptr; } return it->second; }
int sim_creat(const char * path, mode_t m) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int sim_close(int fd) { OpenFile * f = byfd(fd); if (!f) return -1; return finish_close(f); }
ssize_t sim_read(int fd, void * b, size_t n) { if (fd == 0) { return fread(b, 1, n, sim_stdin); } OpenFile * f = byfd(fd); return f ? ck_read_raw(f, (char *) b, n) : -1; }
ssize_t sim_write(int fd, const void * b, size_t n) {
    if (fd == 1 || fd == 2) { size_t k = fwrite(b, 1, n, fd == 1 ? sim_stdout : sim_stderr); return k; }
    OpenFile * f = byfd(fd); return f ? ck_write_raw(f, (const char *) b, n) : -1;
}
ssize_t sim_pread(int fd, void * b, size_t n, off_t o) { OpenFile * f = byfd(fd); if (!f) return -1; u64 p = f->pos; f->pos = o; ssize_t k = ck_read_raw(f, (char *) b, n); f->pos = p; return k; }
ssize_t sim_pwrite(int fd, const void * b, size_t n, off_t o) { OpenFile * f = byfd(fd); if (!f) return -1; u64 p = f->pos; f->pos = o; ssize_t k = ck_write_raw(f, (const char *) b, n); f->pos = p; return k; }
off_t sim_lseek(int fd, off_t o, int wh) { OpenFile * f = byfd(fd); if (!f) return -1; off64_t x = o; return ck_seek(f, &x, wh) ? -1 : x; }
int sim_fsync(int fd) { SysRes r = sys(K_SYNC, "fsync", 0); RET(r.err); }
int sim_fdatasync(int fd) { SysRes r = sys(K_SYNC, "fdatasync", 0); RET(r.err); }
void sim_sync(void) {}
int sim_ftruncate(int fd, off_t n) { OpenFile * f = byfd(fd); if (!f) return -1; SysRes r = sys(K_WRITE, f->path.c_str(), n); if (r.err) { errno = r.err; return -1; } FS->truncate(f->node, n); return 0; }
int sim_truncate(const char * p, off_t n) { SysRes r = sys(K_WRITE, p, n); if (r.err) { errno = r.err; return -1; } NodeP x; int e = FS->walk(p, &x); if (e) { errno = e; return -1; } FS->truncate(x, n); return 0; }
// --- names -----------------------------------------------------------------
static void fill_stat(const NodeP & n, struct stat * st) {
    memset(st, 0, sizeof *st); st->st_ino = n->ino; st->st_dev = 7; st->st_nlink = 1; st->st_uid = st->st_gid = 1000;
    st->st_mode = n->dir ? S_IFDIR | 0775 : S_IFREG | 0664; st->st_size = n->dir ? 4096 : (off_t) n->size; st->st_blksize = 4096; st->st_blocks = n->pg.size();
    st->st_mtime = R->vtime_us / 1000000;
}
int sim_stat(const char * p, struct stat * st) {
    SysRes r = sys(K_STAT, p, 0); if (r.err) { errno = r.err; return -1; }
    NodeP n; int e = FS->walk(p, &n); if (e) { errno = e; return -1; }
    fill_stat(n, st); return 0;
}
int sim_lstat(const char * p, struct stat * st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat * st) { OpenFile * f = byfd(fd); if (!f) return -1; fill_stat(f->node, st); return 0; }
int sim_access(const char * p, int m) { SysRes r = sys(K_STAT, p, 1); if (r.err) { errno = r.err; return -1; } NodeP n; RET(FS->walk(p, &n)); }
int sim_mkdir(const char * p, mode_t m) {
    SysRes r = sys(K_MKDIR, p, 0); if (r.err) { errno = r.err; return -1; }
    NodeP n, par; string leaf; string q = p;
    while (q.size() > 1 && q.back() == '/') q.pop_back();
    int e = FS->walk(q, &n, &par, &leaf);
    if (e == 0) { errno = EEXIST; return -1; }
    if (e != ENOENT || !par) { errno = e; return -1; }
    par->ch[leaf] = FS->mk(true);
    return 0;
}
static int unlink_(const char * p, int wantdir) {
    SysRes r = sys(K_UNLINK, p, 0); if (r.err) { errno = r.err; return -1; }
    NodeP n, par; string leaf; int e = FS->walk(p, &n, &par, &leaf);
    if (e) { errno = e; return -1; }
    if (wantdir == 0 && n->dir) { errno = EISDIR; return -1; }
    if (wantdir == 1 && !n->dir) { errno = ENOTDIR; return -1; }
    if (n->dir && !n->ch.empty()) { errno = ENOTEMPTY; return -1; }
    if (!par) { errno = EBUSY; return -1; }
    FS->used -= (i64) n->pg.size() * PG;
    par->ch.erase(leaf); return 0;
}
int sim_unlink(const char * p) { return unlink_(p, 0); }
int sim_rmdir(const char * p) { return unlink_(p, 1); }
int sim_remove(const char * p) { return unlink_(p, 2); }
int sim_rename(const char * a, const char * b) {
    SysRes r = sys(K_RENAME, a, 0); if (r.err) { errno = r.err; return -1; }
    if (R->trace) tracef("  rename to %s", b);
    NodeP n, par, m, mpar; string leaf, mleaf;
    int e = FS->walk(a, &n, &par, &leaf); if (e) { errno = e; return -1; }
    e = FS->walk(b, &m, &mpar, &mleaf);
    if (e && !(e == ENOENT && mpar)) { errno = e; return -1; }
    if (m == n) return 0;
    if (m) {
        if (m->dir && !n->dir) { errno = EISDIR; return -1; }
        if (!m->dir && n->dir) { errno = ENOTDIR; return -1; }
        if (m->dir && !m->ch.empty()) { errno = ENOTEMPTY; return -1; }
        FS->used -= (i64) m->pg.size() * PG;
    }
    par->ch.erase(leaf); mpar->ch[mleaf] = n;
    return 0;
}
int sim_link(const char * a, const char * b) { errno = EPERM; return -1; }
int sim_utimes(const char * p, const struct timeval * tv) { SysRes r = sys(K_UTIME, p, 0); if (r.err) { errno = r.err; return -1; } NodeP n; RET(FS->walk(p, &n)); }
int sim_utime(const char * p, const struct utimbuf * tv) { return sim_utimes(p, nullptr); }
int sim_chmod(const char * p, mode_t m) { NodeP n; RET(FS->walk(p, &n)); }
mode_t sim_umask(mode_t m) { return 022; }
char * sim_getcwd(char * b, size_t n) { if (!b) { b = (char *) malloc(n ? n : 16); } strcpy(b, "/w"); return b; }
// --- directories ------------------------------------------------------------
struct SimDir { vector<struct dirent> ents; size_t i; };
static SimDir * opendir_(const char * p) {
    SysRes r = sys(K_DIR, p, 0); if (r.err) { errno = r.err; return nullptr; }
    NodeP n; int e = FS->walk(p, &n); if (e) { errno = e; return nullptr; }
    if (!n->dir) { errno = ENOTDIR; return nullptr; }
    if (n->unreadable) { R->cur->faulted++; R->cur->denied = true; R->stat["fault.eacces"]++; errno = EACCES; return nullptr; }
    Proc * pr = R->cur ? R->cur->proc : nullptr;
    if (pr && R->cfg.fdlimit && (int) pr->fds.size() >= R->cfg.fdlimit) { R->cur->faulted++; R->stat["fault.fdlimit"]++; errno = EMFILE; return nullptr; }
    SimDir * d = new SimDir; d->i = 0; if (pr) pr->dirs++;
    auto add = [&](const string & s, int type) {
        struct dirent x; memset(&x, 0, sizeof x); x.d_ino = 1; x.d_type = R->cfg.dtunknown ? DT_UNKNOWN : type;
        x.d_reclen = sizeof x; strncpy(x.d_name, s.c_str(), sizeof x.d_name - 1); d->ents.push_back(x);
    };
    add(".", DT_DIR); add("..", DT_DIR);
    for (auto & c : n->ch) add(c.first, c.second->dir ? DT_DIR : DT_REG);
    if (R->cfg.shuffle) { Rng g(mix64(R->cfg.ioseed, n->ino)); for (size_t i = d->ents.size(); i > 1; i--) std::swap(d->ents[i - 1], d->ents[g.below(i)]); }
    return d;
}
void * sim_opendir(const char * p) { return opendir_(p); }
struct dirent * sim_readdir(void * dd) { SimDir * d = (SimDir *) dd; if (d->i >= d->ents.size()) return nullptr; return &d->ents[d->i++]; }
void sim_rewinddir(void * dd) { ((SimDir *) dd)->i = 0; }
static void drop_dir(SimDir * d) { if (R && R->cur && R->cur->proc) R->cur->proc->dirs--; delete d; }
int sim_closedir(void * dd) { drop_dir((SimDir *) dd); return 0; }
void * sim_malloc(size_t);
void * sim_realloc(void *, size_t);
void sim_free(void *);
int sim_scandir(const char * p, struct dirent *** out, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    SimDir * d = opendir_(p);
    if (!d) return -1;
    vector<struct dirent *> v;
    for (auto & e : d->ents) if (!filter || filter(&e)) { struct dirent * x = (struct dirent *) sim_malloc(sizeof e); memcpy(x, &e, sizeof e); v.push_back(x); }
    drop_dir(d);
    struct dirent ** a = (struct dirent **) sim_malloc(sizeof(void *) * (v.size() ? v.size() : 1));
    for (size_t i = 0; i < v.size(); i++) a[i] = v[i];
    if (cmp) qsort(a, v.size(), sizeof *a, (int (*)(const void *, const void *)) cmp);
    *out = a;
    return (int) v.size();
}
// --- memory --------------------------------------------------------------
static const size_t HUGE_ALLOC = 300u << 20;
// only buffers for rows run out of memory: larger than a path
static const size_t BIG_ALLOC = 6000;
static void note(void * p, size_t n) { if (p) (*allocs)[p] = {n, R && R->cur && R->cur->proc ? R->cur->proc->id : -1, R && R->cur ? R->cur->op : -1, nalloc++}; }
void * sim_malloc(size_t n) {
    if (R && R->cur) if (n >= BIG_ALLOC) { SysRes r = sys(K_ALLOC, "malloc", n); if (r.err) { errno = ENOMEM; return nullptr; } }
    if (n > HUGE_ALLOC) { errno = ENOMEM; return nullptr; }
    void * p = malloc(n);
    if (p) memset(p, 0xA5, n < 65536 ? n : 65536);
    note(p, n); return p;
}
void * sim_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n) || n > HUGE_ALLOC) { errno = ENOMEM; return nullptr; }
    void * p = calloc(a, b); note(p, n); return p;
}
void sim_free(void * p) { if (!p) return; allocs->erase(p); free(p); }
void * sim_realloc(void * q, size_t n) {
    if (!q) return sim_malloc(n);
    auto it = allocs->find(q);
    size_t old = it == allocs->end() ? 0 : it->second.n;
    if (n > HUGE_ALLOC) { errno = ENOMEM; return nullptr; }
    void * p = malloc(n);
    if (!p) return p;
    memset(p, 0xA5, n < 65536 ? n : 65536);
    memcpy(p, q, std::min(it == allocs->end() ? malloc_usable_size(q) : old, n));
    sim_free(q); note(p, n);
    return p;
}
char * sim_strdup(const char * s) { size_t n = strlen(s) + 1; char * p = (char *) sim_malloc(n); memcpy(p, s, n); return p; }
char * sim_strndup(const char * s, size_t m) { size_t n = strnlen(s, m); char * p = (char *) sim_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void * sim_aligned_alloc(size_t a, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void ** p, size_t a, size_t n) { *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
// --- process -------------------------------------------------------------
static void py_exit() { if (violation_hook) note_violation("aborted", "the library ended the interpreter"); }
void sim_exit(int c) { py_exit(); throw ExitEx{c}; }
void sim__exit(int c) { py_exit(); throw ExitEx{c}; }
void sim_abort(void) { py_exit(); if (R->cur) R->cur->proc->aborted = true; throw ExitEx{134}; }
void sim___assert_fail(const char * e, const char * f, unsigned l, const char * fn) { fprintf(sim_stderr, "assertion %s failed %s:%u\n", e, f, l); sim_abort(); }
pid_t sim_getpid(void) { return R->cur ? 4000 + R->cur->proc->id : 1; }
pid_t sim_getppid(void) { return 1; }
pid_t sim_fork(void) { errno = EAGAIN; return -1; }
// the only command: rm -rf, applied to the simulated disk with the words a shell would make of the line
int sim_system(const char * c) {
    if (!c) return 1;
    string line = c; tracef("SYSTEM %s", c); R->stat["commands"]++;
    vector<string> w; string cur; bool in = false, odd = false;
    for (size_t i = 0; i < line.size(); i++) {
        char ch = line[i];
        if (ch == '\'') { in = true; size_t e = line.find('\'', i + 1); if (e == string::npos) { odd = true; break; } cur += line.substr(i + 1, e - i - 1); i = e; }
        else if (ch == '"') { in = true; for (i++; i < line.size() && line[i] != '"'; i++) { if (line[i] == '\\' && i + 1 < line.size() && strchr("\"\\$`", line[i + 1])) i++; else if (line[i] == '$' || line[i] == '`') odd = true; cur += line[i]; } if (i >= line.size()) { odd = true; break; } }
        else if (ch == '\\' && i + 1 < line.size()) { in = true; cur += line[++i]; }
        else if (ch == ' ' || ch == '\t' || ch == '\n') { if (in) w.push_back(cur); cur.clear(); in = false; }
        else { if (strchr(";|&$`*?<>()[]{}#~!", ch)) odd = true; in = true; cur += ch; }
    }
    if (in) w.push_back(cur);
    if (odd || w.empty() || w[0] != "rm") { fail("command", "a command this program has no use for: %s", c); }
    bool opts = true;
    for (size_t i = 1; i < w.size(); i++) {
        if (opts && w[i] == "--") { opts = false; continue; }
        if (opts && w[i].size() > 1 && w[i][0] == '-') continue;
        if (FS->exists(w[i])) FS->remove(w[i]);
    }
    return 0;
}
FILE * sim_popen(const char *, const char *) { errno = EAGAIN; return nullptr; }
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h) { return SIG_DFL; }
int sim_sigaction(int, const void *, void *) { return 0; }
int sim_raise(int s) { sim_abort(); return 0; }
int sim_kill(pid_t, int) { errno = EPERM; return -1; }
unsigned sim_alarm(unsigned) { return 0; }
int sim_atexit(void (*f)(void)) { return 0; }
char * sim_getenv(const char *) { return nullptr; }
int sim_setenv(const char *, const char *, int) { return 0; }
int sim_gethostname(char * b, size_t n) { snprintf(b, n, "node%d", R->cur ? R->cur->proc->id : 0); return 0; }
int sim_isatty(int) { return 0; }
// --- time ----------------------------------------------------------------
time_t sim_time(time_t * t) { time_t v = 1700000000 + R->vtime_us / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval * tv, void *) { tv->tv_sec = sim_time(nullptr); tv->tv_usec = R->vtime_us % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec * ts) { ts->tv_sec = sim_time(nullptr); ts->tv_nsec = R->vtime_us % 1000000 * 1000; return 0; }
clock_t sim_clock(void) { return R->vtime_us; }
int sim_usleep(useconds_t u) { R->vtime_us += u; sys(K_UTIME, "usleep", u); return 0; }
unsigned sim_sleep(unsigned s) { R->vtime_us += s * 1000000ull; sys(K_UTIME, "sleep", s); return 0; }
int sim_nanosleep(const struct timespec * a, struct timespec *) { R->vtime_us += a->tv_sec * 1000000 + a->tv_nsec / 1000; sys(K_UTIME, "nanosleep", 0); return 0; }
int sim_sched_yield(void) { sys(K_UTIME, "sched_yield", 0); return 0; }
static unsigned rnd_state = 1;
void sim_srand(unsigned s) { rnd_state = s; }
int sim_rand(void) { rnd_state = rnd_state * 1103515245u + 12345u; return (int) (rnd_state >> 1); }
// --- threads of the code under test ----------------------------------------
int sim_pthread_mutex_init(pthread_mutex_t * m, const void *) { (*mutexes)[m] = 0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t * m) { mutexes->erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t * m) {
    if (!R->cur) return 0;
    sys(K_MEM, "mutex_lock", 0);
    int me = R->cur->id + 1;
    block_on("pthread_mutex_lock", [m] { return (*mutexes)[m] == 0; });
    (*mutexes)[m] = me; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t * m) { if ((*mutexes)[m]) return EBUSY; (*mutexes)[m] = R->cur ? R->cur->id + 1 : 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t * m) { (*mutexes)[m] = 0; return 0; }
static std::set<void *> * onces = new std::set<void *>;
int sim_pthread_once(pthread_once_t * o, void (*f)(void)) { if (*(int *) o == 0) { *(int *) o = 2; f(); } return 0; }
// --- getopt ------------------------------------------------------------------
int sim_getopt(int argc, char * const * argv, const char * opts) {
    // GNU permutation is not needed by a driver that puts options first
    Proc * p = R->cur->proc;
    if (sim_optind == 0) { sim_optind = 1; p->optpos = 0; }
    if (p->optpos == 0) {
        if (sim_optind >= argc) return -1;
        const char * a = argv[sim_optind];
        if (a[0] != '-' || a[1] == 0) return -1;
        if (!strcmp(a, "--")) { sim_optind++; return -1; }
        p->optpos = 1;
    }
    const char * a = argv[sim_optind];
    char c = a[p->optpos++];
    const char * o = c == ':' ? nullptr : strchr(opts, c);
    bool last = a[p->optpos] == 0;
    if (!o) { sim_optopt = c; if (last) { sim_optind++; p->optpos = 0; } return '?'; }
    if (o[1] == ':') {
        if (!last) { sim_optarg = (char *) a + p->optpos; sim_optind++; }
        else if (sim_optind + 1 < argc) { sim_optarg = argv[sim_optind + 1]; sim_optind += 2; }
        else { sim_optind++; p->optpos = 0; sim_optopt = c; return '?'; }
        p->optpos = 0;
        return c;
    }
    if (last) { sim_optind++; p->optpos = 0; }
    return c;
}
}
// other names of the same calls
extern "C" {
void sim_alias_fopen64() __attribute__((alias("sim_fopen")));
void sim_alias_open64() __attribute__((alias("sim_open")));
void sim_alias_creat64() __attribute__((alias("sim_creat")));
void sim_alias_lseek64() __attribute__((alias("sim_lseek")));
void sim_alias_stat64() __attribute__((alias("sim_stat")));
void sim_alias_lstat64() __attribute__((alias("sim_lstat")));
void sim_alias_fstat64() __attribute__((alias("sim_fstat")));
void sim_alias_scandir64() __attribute__((alias("sim_scandir")));
void sim_alias_readdir64() __attribute__((alias("sim_readdir")));
void sim_alias_ftruncate64() __attribute__((alias("sim_ftruncate")));
void sim_alias_truncate64() __attribute__((alias("sim_truncate")));
void sim_alias_pread64() __attribute__((alias("sim_pread")));
void sim_alias_pwrite64() __attribute__((alias("sim_pwrite")));
void sim_alias_freopen64() __attribute__((alias("sim_freopen")));
void sim_alias_tmpfile64() __attribute__((alias("sim_tmpfile")));
void sim_alias___isoc99_scanf() __attribute__((alias("sim_scanf")));
void sim_alias___isoc23_scanf() __attribute__((alias("sim_scanf")));
void sim_alias___strdup() __attribute__((alias("sim_strdup")));
void sim_alias___clock_gettime() __attribute__((alias("sim_clock_gettime")));
void sim_alias__Exit() __attribute__((alias("sim__exit")));
extern char ** sim_alias___environ __attribute__((alias("sim_environ")));
}

// The simulated message layer: every collective and message of the code under test goes through here.
#include "sim.h"
#include "include/mpi.h"
#include <algorithm>
#include <cerrno>
#include <deque>

using namespace sim;
enum Base { B_NONE, B_I, B_U, B_F, B_PAIR_II, B_PAIR_DI, B_PAIR_LI };
struct SimType {
    size_t size, extent; ptrdiff_t lb; int base; bool committed, builtin, freed;
    vector<std::pair<ptrdiff_t, size_t>> segs; // disp, len
    int owner = -1;
};
struct SimOp { int k; const char * name; };
struct Inst;
struct SimComm {
    int id;
    vector<int> members;          // world ranks
    vector<u64> seq;              // collectives entered, per member
    vector<char> freed;
    std::map<u64, Inst *> inst;
    std::string path;
};
struct Msg;
struct SimReq { int kind; bool done; int owner; void * buf; int count; MPI_Datatype type; int peer, tag; SimComm * comm; MPI_Status st; Msg * msg; };
struct Msg { int src, dst, tag; SimComm * comm; Bytes data; bool late; const void * buf; int count; MPI_Datatype type; bool matched; SimReq * sreq; u64 order; };

struct Inst {
    string kind; int root = -1; MPI_Op op = nullptr;
    vector<char> in;
    vector<Bytes> data; vector<vector<Bytes>> parts;
    vector<u64> a, b;
    vector<SimComm *> newcomm;
    int arrived = 0, left = 0; bool weak = false, done = false;
};
#define T_(n, c, b) struct SimType sim_t_##n = {sizeof(c), sizeof(c), 0, b, true, true, false, {{0, sizeof(c)}}};
extern "C" {
struct di { double d; int i; }; struct li { long d; int i; };
T_(char, char, B_I) T_(schar, signed char, B_I) T_(uchar, unsigned char, B_U) T_(byte, unsigned char, B_U) T_(short, short, B_I) T_(ushort, unsigned short, B_U)
T_(int, int, B_I) T_(uint, unsigned, B_U) T_(long, long, B_I) T_(ulong, unsigned long, B_U) T_(llong, long long, B_I) T_(ullong, unsigned long long, B_U)
T_(float, float, B_F) T_(double, double, B_F) T_(aint, long, B_I) T_(cbool, bool, B_U) T_(int8, int8_t, B_I) T_(int16, int16_t, B_I) T_(int32, int32_t, B_I)
T_(int64, int64_t, B_I) T_(uint8, uint8_t, B_U) T_(uint16, uint16_t, B_U) T_(uint32, uint32_t, B_U) T_(uint64, uint64_t, B_U) T_(offset, long long, B_I)
T_(intint, int[2], B_PAIR_II) T_(doubleint, di, B_PAIR_DI) T_(longint, li, B_PAIR_LI)
enum { O_SUM, O_MAX, O_MIN, O_PROD, O_LOR, O_LAND, O_BOR, O_BAND, O_BXOR, O_LXOR, O_MAXLOC, O_MINLOC };
#define O_(n, k) struct SimOp sim_o_##n = {k, #n};
O_(sum, O_SUM) O_(max, O_MAX) O_(min, O_MIN) O_(prod, O_PROD) O_(lor, O_LOR) O_(land, O_LAND) O_(bor, O_BOR) O_(band, O_BAND) O_(bxor, O_BXOR) O_(lxor, O_LXOR) O_(maxloc, O_MAXLOC) O_(minloc, O_MINLOC)
}
namespace {
vector<SimComm *> comms;
vector<SimType *> types;
vector<Inst *> insts;
vector<SimReq *> reqs;
std::deque<Msg *> msgs;      // unmatched, in order of sending
vector<Msg *> allmsgs;
std::map<int, vector<SimReq *>> posted; // by world rank
SimComm * world = nullptr;
vector<SimComm *> selfs;
int ncomm = 0; u64 norder = 0;

int wrank() { return R->cur->proc->rank; }
SimComm * mkcomm(const vector<int> & m) {
    SimComm * c = new SimComm; c->id = ncomm++; c->members = m; c->seq.assign(m.size(), 0); c->freed.assign(m.size(), 0);
    comms.push_back(c); return c;
}
int rank_in(SimComm * c, const char * fn) {
    if (!c) fail("mpi-misuse", "%s on a null communicator", fn);
    bool known = false; for (SimComm * x : comms) if (x == c) known = true;
    if (!known) fail("mpi-misuse", "%s on an invalid communicator", fn);
    int w = wrank();
    for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == w) {
        if (c->freed[i]) fail("mpi-misuse", "%s on a freed communicator", fn);
        return (int) i;
    }
    fail("mpi-misuse", "%s by a process that is not a member", fn);
}
void ckt(MPI_Datatype t, const char * fn) {
    if (!t) fail("mpi-misuse", "%s with a null datatype", fn);
    if (!t->builtin) { bool known = false; for (SimType * x : types) if (x == t) known = true; if (!known) fail("mpi-misuse", "%s with an invalid datatype", fn); }
    if (t->freed || !t->committed) fail("mpi-misuse", "%s with a %s datatype", fn, t->freed ? "freed" : "not committed");
}
void cknum(long n, const char * fn) { if (n < 0) fail("mpi-misuse", "%s with negative count %ld", fn, n); }
Bytes pack(const void * buf, i64 disp, int count, MPI_Datatype t) {
    Bytes b; b.resize((size_t) count * t->size);
    if (b.empty()) return b;
    const char * p = (const char *) buf + disp * (ptrdiff_t) t->extent; size_t o = 0;
    if (t->segs.size() == 1 && t->segs[0].first == 0 && t->segs[0].second == t->extent) { memcpy(&b[0], p, b.size()); return b; }
    for (int i = 0; i < count; i++) for (auto & s : t->segs) { memcpy(&b[o], p + i * (ptrdiff_t) t->extent + s.first, s.second); o += s.second; }
    return b;
}
void unpack(const Bytes & b, void * buf, i64 disp, MPI_Datatype t) {
    if (b.empty()) return;
    char * p = (char *) buf + disp * (ptrdiff_t) t->extent; size_t o = 0;
    if (t->segs.size() == 1 && t->segs[0].first == 0 && t->segs[0].second == t->extent) { memcpy(p, &b[0], b.size()); return; }
    for (int i = 0; o < b.size(); i++) for (auto & s : t->segs) { if (o >= b.size()) break; size_t k = std::min(s.second, b.size() - o); memcpy(p + i * (ptrdiff_t) t->extent + s.first, &b[o], k); o += k; }
}
template<class T> void red(int op, T * a, const T * b, size_t n) {
    for (size_t i = 0; i < n; i++) switch (op) {
    case O_SUM: a[i] = (T) (a[i] + b[i]); break; case O_PROD: a[i] = (T) (a[i] * b[i]); break;
    case O_MAX: if (b[i] > a[i]) a[i] = b[i]; break; case O_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case O_LOR: a[i] = a[i] || b[i]; break; case O_LAND: a[i] = a[i] && b[i]; break; case O_LXOR: a[i] = !a[i] != !b[i]; break;
    default: if constexpr (std::is_integral<T>::value) { if (op == O_BOR) a[i] |= b[i]; else if (op == O_BAND) a[i] &= b[i]; else if (op == O_BXOR) a[i] ^= b[i]; else fail("mpi-misuse", "bad op"); } else fail("mpi-misuse", "bad op for floating type");
    }
}
template<class V> void redloc(int op, V * a, const V * b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        bool take = op == O_MAXLOC ? b[i].d > a[i].d : b[i].d < a[i].d;
        if (take) a[i] = b[i]; else if (a[i].d == b[i].d && b[i].i < a[i].i) a[i].i = b[i].i;
    }
}
struct ii { int d, i; };
void reduce(MPI_Op op, MPI_Datatype t, Bytes & a, const Bytes & b) {
    size_t n = a.size() / t->size; if (!n) return;
    if (op->k == O_MAXLOC || op->k == O_MINLOC) {
        if (t->base == B_PAIR_II) return redloc(op->k, (ii *) &a[0], (const ii *) &b[0], n);
        if (t->base == B_PAIR_DI) return redloc(op->k, (di *) &a[0], (const di *) &b[0], n);
        if (t->base == B_PAIR_LI) return redloc(op->k, (li *) &a[0], (const li *) &b[0], n);
        fail("mpi-misuse", "MINLOC/MAXLOC on a plain type");
    }
#define RD(B, S, T) if (t->base == B && t->size == S) return red<T>(op->k, (T *) &a[0], (const T *) &b[0], n);
    RD(B_I, 1, int8_t) RD(B_I, 2, int16_t) RD(B_I, 4, int32_t) RD(B_I, 8, int64_t)
    RD(B_U, 1, uint8_t) RD(B_U, 2, uint16_t) RD(B_U, 4, uint32_t) RD(B_U, 8, uint64_t)
    RD(B_F, 4, float) RD(B_F, 8, double)
    fail("mpi-misuse", "reduction on a derived datatype");
}
// Enter a collective: checks that all members make the same call.
struct Coll {
    SimComm * c; int me; Inst * in; int n; const char * kind;
    Coll(SimComm * comm, const char * kind_, int root = -1, MPI_Op op = nullptr) : c(comm), kind(kind_) {
        SysRes r = sys(K_MPI, kind_, root);
        R->cur->mpicalls++;
        me = rank_in(c, kind_); n = (int) c->members.size();
        if (root >= n || root < -1) fail("mpi-misuse", "%s with root %d of %d", kind_, root, n);
        u64 s = c->seq[me]++;
        Inst *& x = c->inst[s];
        if (!x) {
            x = new Inst; insts.push_back(x); x->kind = kind_; x->root = root; x->op = op; x->in.assign(n, 0); x->data.resize(n); x->parts.resize(n); x->a.assign(n, 0); x->b.assign(n, 0); x->newcomm.assign(n, nullptr);
            x->weak = (int) (mix64(R->cfg.mseed, c->id, s) % 1000) < R->cfg.weak_pm;
        } else {
            if (x->kind != kind_) fail("mpi-mismatch", "rank %d of communicator %d calls %s while another rank calls %s", me, c->id, kind_, x->kind.c_str());
            if (x->root != root) fail("mpi-mismatch", "%s with root %d on rank %d and %d on another", kind_, root, me, x->root);
            if (x->op != op) fail("mpi-mismatch", "%s with different operations", kind_);
        }
        in = x;
    }
    void arrive() { in->in[me] = 1; in->arrived++; if (!in->weak) wait_all(); }
    void wait_all() { Inst * i = in; int nn = n; block_on(kind, [i, nn] { return i->arrived == nn; }); }
    void wait_for(int r) { Inst * i = in; block_on(kind, [i, r] { return i->in[r] != 0; }); }
};
void fin(Coll & c) { c.in->left++; }
}
namespace sim {
void mpi_reset() {
    for (auto p : comms) delete p; for (auto p : types) delete p; for (auto p : insts) delete p; for (auto p : reqs) delete p; for (auto p : allmsgs) delete p;
    comms.clear(); types.clear(); insts.clear(); reqs.clear(); allmsgs.clear(); msgs.clear(); posted.clear(); world = nullptr; selfs.clear(); ncomm = 0; norder = 0;
}
void mpi_world(int n) {
    mpi_reset(); vector<int> m; for (int i = 0; i < n; i++) m.push_back(i);
    world = mkcomm(m); for (int i = 0; i < n; i++) selfs.push_back(mkcomm({i}));
}
int mpi_held(int rank, string * what) {
    int c = 0, t = 0, q = 0;
    for (SimComm * x : comms) { if (x == world || std::find(selfs.begin(), selfs.end(), x) != selfs.end()) continue; for (size_t i = 0; i < x->members.size(); i++) if (x->members[i] == rank && !x->freed[i]) c++; }
    for (SimType * x : types) if (x->owner == rank && !x->freed) t++;
    for (SimReq * x : reqs) if (x->owner == rank) q++;
    if (what && c + t + q) *what = strf("%d communicators, %d datatypes, %d requests", c, t, q);
    return c + t + q;
}
int mpi_pending() { return (int) msgs.size(); }
}
static bool match(const SimReq * r, const Msg * m) {
    return m->comm == r->comm && m->dst == r->owner && (r->peer == MPI_ANY_SOURCE || r->comm->members[r->peer] == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void deliver(SimReq * r, Msg * m) {
    if (m->late) m->data = pack(m->buf, 0, m->count, m->type);
    size_t room = (size_t) r->count * r->type->size;
    if (m->data.size() > room) fail("mpi-truncate", "message of %zu bytes from rank %d tag %d received into %zu bytes", m->data.size(), m->src, m->tag, room);
    unpack(m->data, r->buf, 0, r->type);
    int s = -1; for (size_t i = 0; i < r->comm->members.size(); i++) if (r->comm->members[i] == m->src) s = (int) i;
    r->st.MPI_SOURCE = s; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.sim_bytes = m->data.size();
    r->done = true; m->matched = true; if (m->sreq) m->sreq->done = true;
    hashv(mix64(m->src, m->dst, m->data.size()));
}
static SimReq * mkreq(int kind) { SimReq * r = new SimReq(); r->kind = kind; r->owner = wrank(); r->done = false; reqs.push_back(r); return r; }
static SimReq * post_send(const void * buf, int count, MPI_Datatype t, int dst, int tag, SimComm * c, const char * fn, int sync) {
    SysRes sr = sys(K_MPI, fn, dst); R->cur->mpicalls++;
    rank_in(c, fn); ckt(t, fn); cknum(count, fn);
    SimReq * r = mkreq(0);
    if (dst == MPI_PROC_NULL) { r->done = true; return r; }
    if (dst < 0 || dst >= (int) c->members.size()) fail("mpi-misuse", "%s to rank %d", fn, dst);
    Msg * m = new Msg; allmsgs.push_back(m);
    m->src = wrank(); m->dst = c->members[dst]; m->tag = tag; m->comm = c; m->count = count; m->type = t; m->buf = buf; m->matched = false; m->sreq = nullptr; m->order = norder++;
    bool eager = !sync && (int) (mix64(R->cfg.mseed, m->order, m->src) % 1000) < R->cfg.eager_pm;
    m->late = !eager;
    if (eager) { m->data = pack(buf, 0, count, t); r->done = true; } else { m->sreq = r; pack(buf, 0, count, t); }
    auto & pv = posted[m->dst];
    for (size_t i = 0; i < pv.size(); i++) if (match(pv[i], m)) { SimReq * q = pv[i]; pv.erase(pv.begin() + i); deliver(q, m); return r; }
    msgs.push_back(m);
    return r;
}
static Msg * find(const SimReq * r, bool take) {
    vector<Msg *> cand; std::set<int> srcs;
    for (Msg * m : msgs) if (match(r, m) && !srcs.count(m->src)) { cand.push_back(m); srcs.insert(m->src); }
    if (cand.empty()) return nullptr;
    Msg * m = cand[mix64(R->cfg.mseed, R->cur->id, R->cur->mpicalls) % cand.size()];
    if (take) msgs.erase(std::find(msgs.begin(), msgs.end(), m));
    return m;
}
static SimReq * post_recv(void * buf, int count, MPI_Datatype t, int src, int tag, SimComm * c, const char * fn) {
    SysRes sr = sys(K_MPI, fn, src); R->cur->mpicalls++;
    rank_in(c, fn); ckt(t, fn); cknum(count, fn);
    SimReq * r = mkreq(1);
    r->buf = buf; r->count = count; r->type = t; r->peer = src; r->tag = tag; r->comm = c;
    if (src == MPI_PROC_NULL) { r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.sim_bytes = 0; return r; }
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int) c->members.size())) fail("mpi-misuse", "%s from rank %d", fn, src);
    Msg * m = find(r, true);
    if (m) deliver(r, m); else posted[r->owner].push_back(r);
    return r;
}
static void ckreq(SimReq * r, const char * fn) { for (SimReq * q : reqs) if (q == r) return; fail("mpi-misuse", "%s on an invalid request", fn); }
static void wait1(SimReq * r, MPI_Status * st, const char * fn) {
    block_on(fn, [r] { return r->done; });
    if (st && st != MPI_STATUS_IGNORE) *st = r->st;
    reqs.erase(std::find(reqs.begin(), reqs.end(), r)); delete r;
}
static void poll_yield() {
    Task * t = R->cur; long s = R->step; bool others = false;
    for (Task * o : R->tasks) if (o != t && o->st != Task::DONE) others = true;
    if (!others) return;
    (void) s; t->stall_until = R->step + 5; yield_point();
}
#define ME(c) Coll & C = c; (void) C
extern "C" {
MPI_Comm sim_mpi_world(void) { return world; }
MPI_Comm sim_mpi_self(void) { return selfs[wrank()]; }
int MPI_Init(int *, char ***) { sys(K_MPI, "MPI_Init", 0); return 0; }
int MPI_Init_thread(int *, char ***, int r, int * p) { if (p) *p = r; return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalized(int * f) { *f = 0; return 0; }
int MPI_Finalize(void) { R->cur->proc->finalized = true; Coll c(world, "MPI_Finalize"); c.arrive(); c.wait_all(); return 0; }
int MPI_Abort(MPI_Comm, int code) {
    sys(K_MPI, "MPI_Abort", code);
    R->stat["mpi_abort"]++;
    for (Proc * p : R->procs) if (!p->exited) { p->exited = true; p->aborted = true; p->exit_code = code ? code : 1; }
    Task * me = R->cur;
    for (Task * t : R->tasks) if (t != me) t->killed = true;
    throw ExitEx{code ? code : 1};
}
double MPI_Wtime(void) { R->vtime_us += 3; return R->vtime_us * 1e-6; }
int MPI_Get_processor_name(char * s, int * n) { *n = sprintf(s, "node%d", wrank()); return 0; }
int MPI_Comm_rank(MPI_Comm c, int * r) { *r = rank_in(c, "MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm c, int * n) { rank_in(c, "MPI_Comm_size"); *n = (int) c->members.size(); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, int) { return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int * r) { *r = a == b ? MPI_IDENT : a->members == b->members ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm * out) {
    Coll c(comm, "MPI_Comm_split");
    c.in->a[c.me] = (u64) (i64) color; c.in->b[c.me] = (u64) (i64) key; c.in->weak = false;
    c.in->in[c.me] = 1; c.in->arrived++; c.wait_all();
    if (!c.in->done) {
        c.in->done = true;
        std::map<i64, vector<std::pair<i64, int>>> g;
        for (int i = 0; i < c.n; i++) g[(i64) c.in->a[i]].push_back({(i64) c.in->b[i], i});
        for (auto & p : g) {
            if (p.first == MPI_UNDEFINED) continue;
            std::stable_sort(p.second.begin(), p.second.end());
            vector<int> m; for (auto & q : p.second) m.push_back(comm->members[q.second]);
            SimComm * nc = mkcomm(m); for (auto & q : p.second) c.in->newcomm[q.second] = nc;
        }
    }
    *out = c.in->newcomm[c.me]; return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm * out) {
    Coll c(comm, "MPI_Comm_dup"); c.in->in[c.me] = 1; c.in->arrived++; c.wait_all();
    if (!c.in->newcomm[0]) { SimComm * n = mkcomm(comm->members); for (auto & x : c.in->newcomm) x = n; }
    *out = c.in->newcomm[c.me]; return 0;
}
int MPI_Comm_free(MPI_Comm * c) { int r = rank_in(*c, "MPI_Comm_free"); if (*c == world) fail("mpi-misuse", "MPI_Comm_free of MPI_COMM_WORLD"); (*c)->freed[r] = 1; *c = nullptr; return 0; }
static int newtype(SimType t, MPI_Datatype * out) { t.owner = wrank(); t.builtin = false; t.committed = false; t.freed = false; SimType * p = new SimType(t); types.push_back(p); *out = p; return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint stride, MPI_Datatype t, MPI_Datatype * out) {
    SimType x = *t; x.base = B_NONE; x.segs.clear(); x.size = t->size * n * bl;
    for (int i = 0; i < n; i++) for (int j = 0; j < bl; j++) for (auto & s : t->segs) {
        ptrdiff_t d = i * stride + j * (ptrdiff_t) t->extent + s.first;
        if (!x.segs.empty() && x.segs.back().first + (ptrdiff_t) x.segs.back().second == d) x.segs.back().second += s.second; else x.segs.push_back({d, s.second});
    }
    x.extent = n > 0 ? (n - 1) * stride + bl * t->extent : 0;
    return newtype(x, out);
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * out) {
    SimType x = *t; x.base = B_NONE; x.segs.clear(); x.size = t->size * n; x.extent = t->extent * n;
    if (t->segs.size() == 1 && t->segs[0].second == t->extent && t->segs[0].first == 0) { if (n) x.segs.push_back({0, x.size}); return newtype(x, out); }
    return MPI_Type_create_hvector(1, n, 0, t, out);
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype t, MPI_Datatype * out) { return MPI_Type_create_hvector(n, bl, stride * (ptrdiff_t) t->extent, t, out); }
int MPI_Type_create_struct(int n, const int * bl, const MPI_Aint * d, const MPI_Datatype * t, MPI_Datatype * out) {
    SimType x; x.size = 0; x.extent = 0; x.lb = 0; x.base = B_NONE;
    for (int i = 0; i < n; i++) for (int j = 0; j < bl[i]; j++) for (auto & s : t[i]->segs) { x.segs.push_back({d[i] + j * (ptrdiff_t) t[i]->extent + s.first, s.second}); x.size += s.second; x.extent = std::max<size_t>(x.extent, d[i] + (j + 1) * t[i]->extent); }
    return newtype(x, out);
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype * out) { SimType x = *t; x.lb = lb; x.extent = ext; return newtype(x, out); }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype * out) { newtype(*t, out); (*out)->committed = true; return 0; }
int MPI_Type_commit(MPI_Datatype * t) { if (!*t || (*t)->freed) fail("mpi-misuse", "MPI_Type_commit of an invalid datatype"); (*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype * t) { if (!*t || (*t)->builtin || (*t)->freed) fail("mpi-misuse", "MPI_Type_free of an invalid datatype"); (*t)->freed = true; *t = nullptr; return 0; }
int MPI_Type_size(MPI_Datatype t, int * n) { *n = (int) t->size; return 0; }
int MPI_Type_extent(MPI_Datatype t, MPI_Aint * n) { *n = t->extent; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint * lb, MPI_Aint * n) { *lb = t->lb; *n = t->extent; return 0; }
int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * n) { *n = t->size ? (s->sim_bytes % t->size ? MPI_UNDEFINED : (int) (s->sim_bytes / t->size)) : 0; return 0; }
int MPI_Barrier(MPI_Comm comm) { Coll c(comm, "MPI_Barrier"); c.in->in[c.me] = 1; c.in->arrived++; c.wait_all(); return 0; }
int MPI_Bcast(void * buf, int n, MPI_Datatype t, int root, MPI_Comm comm) {
    ckt(t, "MPI_Bcast"); cknum(n, "MPI_Bcast");
    Coll c(comm, "MPI_Bcast", root);
    if (c.me == root) c.in->data[root] = pack(buf, 0, n, t);
    c.arrive();
    if (c.me != root) {
        c.wait_for(root);
        if (c.in->data[root].size() != (size_t) n * t->size) fail("mpi-mismatch", "MPI_Bcast of %zu bytes received as %zu bytes", c.in->data[root].size(), (size_t) n * t->size);
        unpack(c.in->data[root], buf, 0, t);
    }
    return 0;
}
static Bytes reduced(Coll & c, MPI_Op op, MPI_Datatype t, int upto) {
    Bytes a = c.in->data[0];
    for (int i = 1; i < upto; i++) {
        if (c.in->data[i].size() != a.size()) fail("mpi-mismatch", "%s with %zu and %zu bytes", c.kind, a.size(), c.in->data[i].size());
        reduce(op, t, a, c.in->data[i]);
    }
    return a;
}
int MPI_Reduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
    ckt(t, "MPI_Reduce"); cknum(n, "MPI_Reduce");
    Coll c(comm, "MPI_Reduce", root, op);
    if (s == MPI_IN_PLACE && c.me != root) fail("mpi-misuse", "MPI_IN_PLACE on a non-root rank");
    c.in->data[c.me] = pack(s == MPI_IN_PLACE ? r : s, 0, n, t);
    c.arrive();
    if (c.me == root) { c.wait_all(); unpack(reduced(c, op, t, c.n), r, 0, t); }
    return 0;
}
int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
    ckt(t, "MPI_Allreduce"); cknum(n, "MPI_Allreduce");
    if (s != MPI_IN_PLACE && s == r && n > 0) fail("mpi-misuse", "MPI_Allreduce with aliased buffers");
    Coll c(comm, "MPI_Allreduce", -1, op);
    c.in->data[c.me] = pack(s == MPI_IN_PLACE ? r : s, 0, n, t);
    c.arrive(); c.wait_all();
    unpack(reduced(c, op, t, c.n), r, 0, t);
    return 0;
}
int MPI_Scan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
    ckt(t, "MPI_Scan"); Coll c(comm, "MPI_Scan", -1, op);
    c.in->data[c.me] = pack(s == MPI_IN_PLACE ? r : s, 0, n, t);
    c.arrive(); for (int i = 0; i <= c.me; i++) c.wait_for(i);
    unpack(reduced(c, op, t, c.me + 1), r, 0, t); return 0;
}
int MPI_Exscan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
    ckt(t, "MPI_Exscan"); Coll c(comm, "MPI_Exscan", -1, op);
    c.in->data[c.me] = pack(s == MPI_IN_PLACE ? r : s, 0, n, t);
    c.arrive(); for (int i = 0; i < c.me; i++) c.wait_for(i);
    if (c.me) unpack(reduced(c, op, t, c.me), r, 0, t); return 0;
}
static void chk(Coll & c, size_t got, size_t want, int from) { if (got != want) fail("mpi-mismatch", "%s: %zu bytes from rank %d where %zu are expected", c.kind, got, from, want); }
static int gather(Coll & c, const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, int rn, MPI_Datatype rt, int root, bool all) {
    bool amroot = all || c.me == root;
    if (s == MPI_IN_PLACE) {
        if (!amroot) fail("mpi-misuse", "MPI_IN_PLACE on a non-root rank");
        ckt(rt, c.kind); int k = rc ? rc[c.me] : rn; i64 d = rc ? rd[c.me] : (i64) rn * c.me; cknum(k, c.kind); c.in->data[c.me] = pack(r, d, k, rt);
    } else { ckt(st, c.kind); cknum(sn, c.kind); c.in->data[c.me] = pack(s, 0, sn, st); }
    if (amroot) ckt(rt, c.kind);
    c.arrive();
    if (amroot) {
        c.wait_all();
        for (int i = 0; i < c.n; i++) {
            int k = rc ? rc[i] : rn; i64 d = rc ? rd[i] : (i64) rn * i; cknum(k, c.kind);
            chk(c, c.in->data[i].size(), (size_t) k * rt->size, i);
            if (s == MPI_IN_PLACE && i == c.me) continue;
            unpack(c.in->data[i], r, d, rt);
        }
    }
    return 0;
}
int MPI_Gather(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) { Coll c(comm, "MPI_Gather", root); return gather(c, s, sn, st, r, nullptr, nullptr, rn, rt, root, false); }
int MPI_Gatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, int root, MPI_Comm comm) { Coll c(comm, "MPI_Gatherv", root); return gather(c, s, sn, st, r, rc, rd, 0, rt, root, false); }
int MPI_Allgather(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, MPI_Comm comm) { Coll c(comm, "MPI_Allgather"); return gather(c, s, sn, st, r, nullptr, nullptr, rn, rt, -1, true); }
int MPI_Allgatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm comm) { Coll c(comm, "MPI_Allgatherv"); return gather(c, s, sn, st, r, rc, rd, 0, rt, -1, true); }
static int scatter(Coll & c, const void * s, const int * sc, const int * sd, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root) {
    if (c.me == root) {
        ckt(st, c.kind); c.in->parts[root].resize(c.n);
        for (int i = 0; i < c.n; i++) { int k = sc ? sc[i] : sn; i64 d = sc ? sd[i] : (i64) sn * i; cknum(k, c.kind); if (i == root && r == MPI_IN_PLACE) continue; c.in->parts[root][i] = pack(s, d, k, st); }
    }
    if (r != MPI_IN_PLACE) { ckt(rt, c.kind); cknum(rn, c.kind); }
    c.arrive(); c.wait_for(root);
    if (r != MPI_IN_PLACE) { Bytes & b = c.in->parts[root][c.me]; chk(c, b.size(), (size_t) rn * rt->size, root); unpack(b, r, 0, rt); }
    return 0;
}
int MPI_Scatter(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) { Coll c(comm, "MPI_Scatter", root); return scatter(c, s, nullptr, nullptr, sn, st, r, rn, rt, root); }
int MPI_Scatterv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) { Coll c(comm, "MPI_Scatterv", root); return scatter(c, s, sc, sd, 0, st, r, rn, rt, root); }
static int alltoall(Coll & c, const void * s, const int * sc, const int * sd, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, int rn, MPI_Datatype rt) {
    ckt(rt, c.kind);
    bool inpl = s == MPI_IN_PLACE;
    if (!inpl) ckt(st, c.kind);
    c.in->parts[c.me].resize(c.n);
    for (int i = 0; i < c.n; i++) {
        if (inpl) { int k = rc ? rc[i] : rn; i64 d = rc ? rd[i] : (i64) rn * i; c.in->parts[c.me][i] = pack(r, d, k, rt); }
        else { int k = sc ? sc[i] : sn; i64 d = sc ? sd[i] : (i64) sn * i; cknum(k, c.kind); c.in->parts[c.me][i] = pack(s, d, k, st); }
    }
    c.arrive(); c.wait_all();
    for (int i = 0; i < c.n; i++) {
        int k = rc ? rc[i] : rn; i64 d = rc ? rd[i] : (i64) rn * i; cknum(k, c.kind);
        chk(c, c.in->parts[i][c.me].size(), (size_t) k * rt->size, i);
        unpack(c.in->parts[i][c.me], r, d, rt);
    }
    return 0;
}
int MPI_Alltoall(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, MPI_Comm comm) { Coll c(comm, "MPI_Alltoall"); return alltoall(c, s, nullptr, nullptr, sn, st, r, nullptr, nullptr, rn, rt); }
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm comm) { Coll c(comm, "MPI_Alltoallv"); return alltoall(c, s, sc, sd, 0, st, r, rc, rd, 0, rt); }
int MPI_Send(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { wait1(post_send(b, n, t, d, tag, c, "MPI_Send", 0), nullptr, "MPI_Send"); return 0; }
int MPI_Rsend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { wait1(post_send(b, n, t, d, tag, c, "MPI_Ssend", 1), nullptr, "MPI_Ssend"); return 0; }
int MPI_Recv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status * st) { wait1(post_recv(b, n, t, s, tag, c, "MPI_Recv"), st, "MPI_Recv"); return 0; }
int MPI_Isend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r) { *r = post_send(b, n, t, d, tag, c, "MPI_Isend", 0); return 0; }
int MPI_Issend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r) { *r = post_send(b, n, t, d, tag, c, "MPI_Issend", 1); return 0; }
int MPI_Irecv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request * r) { *r = post_recv(b, n, t, s, tag, c, "MPI_Irecv"); return 0; }
int MPI_Sendrecv(const void * sb, int sn, MPI_Datatype st, int d, int stag, void * rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status * status) {
    SimReq * a = post_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv"); SimReq * b = post_send(sb, sn, st, d, stag, c, "MPI_Sendrecv", 0);
    wait1(a, status, "MPI_Sendrecv"); wait1(b, nullptr, "MPI_Sendrecv"); return 0;
}
int MPI_Wait(MPI_Request * r, MPI_Status * st) { sys(K_MPI, "MPI_Wait", 0); if (!*r) return 0; ckreq(*r, "MPI_Wait"); wait1(*r, st, "MPI_Wait"); *r = nullptr; return 0; }
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * st) {
    sys(K_MPI, "MPI_Waitall", n);
    for (int i = 0; i < n; i++) if (r[i]) { ckreq(r[i], "MPI_Waitall"); wait1(r[i], st ? &st[i] : nullptr, "MPI_Waitall"); r[i] = nullptr; }
    return 0;
}
int MPI_Waitany(int n, MPI_Request * r, int * idx, MPI_Status * st) {
    sys(K_MPI, "MPI_Waitany", n); R->cur->mpicalls++;
    vector<int> live; for (int i = 0; i < n; i++) if (r[i]) { ckreq(r[i], "MPI_Waitany"); live.push_back(i); }
    if (live.empty()) { *idx = MPI_UNDEFINED; return 0; }
    block_on("MPI_Waitany", [&] { for (int i : live) if (r[i]->done) return true; return false; });
    vector<int> d; for (int i : live) if (r[i]->done) d.push_back(i);
    int k = d[mix64(R->cfg.mseed, R->cur->id, R->cur->mpicalls) % d.size()];
    *idx = k; wait1(r[k], st, "MPI_Waitany"); r[k] = nullptr; return 0;
}
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * st) {
    sys(K_MPI, "MPI_Test", 0); if (!*r) { *flag = 1; return 0; }
    ckreq(*r, "MPI_Test"); *flag = (*r)->done; if (*flag) { wait1(*r, st, "MPI_Test"); *r = nullptr; } else poll_yield(); return 0;
}
int MPI_Testall(int n, MPI_Request * r, int * flag, MPI_Status * st) {
    sys(K_MPI, "MPI_Testall", n); *flag = 1; for (int i = 0; i < n; i++) if (r[i] && !r[i]->done) *flag = 0;
    if (*flag) return MPI_Waitall(n, r, st); poll_yield(); return 0;
}
static int probe(int s, int tag, MPI_Comm c, MPI_Status * st, int * flag) {
    SysRes sr = sys(K_MPI, "MPI_Probe", s); R->cur->mpicalls++; rank_in(c, "MPI_Probe");
    SimReq q{}; q.owner = wrank(); q.comm = c; q.peer = s; q.tag = tag;
    if (!flag) block_on("MPI_Probe", [&] { return find(&q, false) != nullptr; });
    Msg * m = find(&q, false);
    if (flag) { *flag = m != nullptr; if (!m) { poll_yield(); return 0; } }
    if (st) { size_t bytes = m->late ? (size_t) m->count * m->type->size : m->data.size(); for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == m->src) st->MPI_SOURCE = (int) i; st->MPI_TAG = m->tag; st->sim_bytes = bytes; }
    return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status * st) { return probe(s, tag, c, st, nullptr); }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int * flag, MPI_Status * st) { return probe(s, tag, c, st, flag); }
int MPI_Error_string(int e, char * s, int * n) { *n = sprintf(s, "error %d", e); return 0; }
}

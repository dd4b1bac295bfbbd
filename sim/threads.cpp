// Threads of one process: P15. They are preempted at the library's memory accesses and storage calls.
#include "model.h"
#include <algorithm>
#include <cerrno>
extern "C" void sim_free(void *);

namespace sim {
static bool mem_yield;
static void mem_access(const void * p) {
    Run * r = R; if (!mem_yield || !r || !r->cur || r->abort) return;
    // the thread's own stack is nobody else's
    if ((const char *) p >= stack_lo && (const char *) p < stack_hi) return;
    r->step++; r->stat["memory_accesses"]++;
    if (r->step > r->cfg.maxsteps) fail("no-progress", "more than %ld memory accesses and calls", r->cfg.maxsteps);
    yield_point();
}
}
extern "C" {
#define COVF(n) void __sanitizer_cov_load##n(void * p) { sim::mem_access(p); } void __sanitizer_cov_store##n(void * p) { sim::mem_access(p); }
COVF(1) COVF(2) COVF(4) COVF(8) COVF(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
}
namespace sim {
namespace {
struct SB { string name, path; Hdr hd; Attrs at; bool exists = false; Bytes rows; };
struct TH { bool open = false, wrote = false, hdirty = false, adirty = false; BigBlock bb; Hdr hd; Attrs at; };
struct TW {
    const Plan * p; int n, ns; string root; vector<SB> sh;     // blocks shared for reading
    Model M; BigFile bf; vector<BigBlock> bb; bool opened = false; int done = 0;
    std::set<string> messages; bool ref = false, faulty = false;
    std::map<int, string> text;   // results of the serial run, by operation
    vector<std::map<int, TH>> own;
};
TW * T;
string own_name(int t, i64 b) { return strf("%st%d_%d", b % 2 ? "own/" : "", t, (int) (b % 3)); }
void tjudge(const char * what, int rt, bool valid) {
    R->stat[strf("call.%s.%s", what, rt ? "error" : "ok")]++; hashv(mix64(rt != 0, hash_bytes(what, strlen(what))));
    if (rt == 0) { if (!valid) fail("accepted", "%s of an invalid request returned success", what); return; }
    if (valid && R->cur->faulted == 0) fail("invented-failure", "%s failed although no storage call of this thread failed: %s", what, last_error().c_str());
    const char * m = api()->big_file_get_error_message();
    if (!m) fail("no-message", "%s failed without an error message", what);
    yield_point();            // the thread looks at it a little later
    string s = m;
    if (s.empty()) fail("no-message", "%s failed without an error message", what);
    if (R->trace) tracef("%s -> %d %s", what, rt, s.c_str());
    if (T->faulty) return;
    if (T->ref) T->messages.insert(s);
    else if (!T->messages.count(s)) fail("message-wrong", "%s failed; the error message the thread obtains belongs to no failure there was: %s", what, s.c_str());
    R->stat["messages_checked"]++;
}
void check_rows(const char * what, const SB & b, const Hdr & hd, i64 start, Arr & a, const DT & dd, i64 n) {
    vector<Bytes> rows(n, Bytes(hd.rowlen())); for (i64 i = 0; i < n; i++) memcpy(&rows[i][0], &b.rows[(start + i) * hd.rowlen()], hd.rowlen());
    (void) dd; i64 w = arr_differs(a, hd.dt, rows);
    if (w >= 0) fail("read-wrong", "%s of %lld rows of %s from %lld: element %lld is wrong", what, (long long) n, b.path.c_str(), (long long) start, (long long) w);
    if (!a.guards_ok()) fail("destination-overrun", "%s of %s changed memory outside the destination", what, b.path.c_str());
    R->stat["rows_read"] += n;
}
void do_read(const Op & o, BigBlock * bb, SB & b) {
    Hdr & hd = b.hd; i64 size = (i64) hd.total(), start = size * o.i("start") / 1000, n = std::min<i64>(o.i("max", 20), (size - start) * o.i("len", 1000) / 1000);
    DT dd = o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; dd.be = o.i("be");
    Bytes part(b.rows.begin() + start * hd.rowlen(), b.rows.begin() + (start + n) * hd.rowlen());
    if (!convertible(dd, hd.dt) || !bytes_defined(dd, hd.dt, part)) { dd = hd.dt; dd.be = o.i("be"); }
    if (o.i("simple")) {
        BigArray ba; memset(&ba, 0, sizeof ba); int rt = api()->big_block_read_simple(bb, start, n, &ba, dd.str().c_str()); tjudge("big_block_read_simple", rt, true); if (rt) return;
        Bytes exp((size_t) n * hd.nm * dd.w); for (i64 i = 0; i < n * hd.nm; i++) conv(dd, &exp[i * dd.w], hd.dt, &part[i * hd.dt.w]);
        if (ba.dims[0] != (size_t) n || (exp.size() && memcmp(exp.data(), ba.data, exp.size()))) fail("read-wrong", "the convenience read of %lld rows of %s from %lld returned wrong values", (long long) n, b.path.c_str(), (long long) start);
        sim_free(ba.data); R->stat["rows_read"] += n; return;
    }
    BigBlockPtr ptr = {0}; tjudge("big_block_seek", api()->big_block_seek(bb, &ptr, start), true);
    Arr a; a.make(dd, n, hd.nm, (int) o.i("layout"), o.u("vs"), false, false); a.snap(); a.init(api());
    int rt = api()->big_block_read(bb, &ptr, &a.ba); tjudge("big_block_read", rt, true); if (rt) return;
    check_rows("read", b, hd, start, a, dd, n);
    if (ptr.aoffset != start + n) fail("position-wrong", "after reading %lld rows from %lld of %s the position is %lld", (long long) n, (long long) start, b.path.c_str(), (long long) ptr.aoffset);
}
void do_attr(BigBlock * bb, SB & b, const Op & o) {
    if (b.at.empty() || o.i("name") % 3 == 0) { Attrs a = handle_attrs(*bb, "list"); if (!(a == b.at)) fail("attributes-wrong", "the attributes of %s are %s, expected %s", b.path.c_str(), attrs_str(a).c_str(), attrs_str(b.at).c_str()); return; }
    auto it = b.at.begin(); std::advance(it, o.i("name") % b.at.size());
    BigAttr * l = api()->big_block_lookup_attr(bb, it->first.c_str());
    if (!l || l->nmemb != it->second.nm) fail("attributes-wrong", "attribute %s of %s is not found", it->first.c_str(), b.path.c_str());
    Bytes v(it->second.v.size() + 8); int rt = api()->big_block_get_attr(bb, it->first.c_str(), v.data(), it->second.dts.c_str(), it->second.nm); tjudge("big_block_get_attr", rt, true);
    v.resize(it->second.v.size()); if (v != it->second.v) fail("attributes-wrong", "attribute %s of %s has the wrong value", it->first.c_str(), b.path.c_str());
}
void do_fail(const Op & o, BigBlock * bb, SB & b) {
    int w = (int) o.i("what"); string nm = strf("missing-%d", (int) o.i("name"));
    BigFile f; BigBlock t; BigBlockPtr ptr = {0};
    if (w == 0) { string r = "/w/" + nm; tjudge("big_file_open", api()->big_file_open(&f, r.c_str()), false); }
    else if (w == 1) { memset(&t, 0, sizeof t); tjudge("big_file_open_block", api()->big_file_open_block(&T->bf, &t, nm.c_str()), false); }
    else if (w == 2) tjudge("big_block_seek", api()->big_block_seek(bb, &ptr, (ptrdiff_t) b.hd.total() + 1 + o.i("name")), false);
    else if (w == 3) {
        tjudge("big_block_seek", api()->big_block_seek(bb, &ptr, 0), true);
        Arr a; a.make(b.hd.dt, b.hd.total() + 1, b.hd.nm, 0, 1, false, false); a.snap(); a.init(api());
        tjudge("big_block_read", api()->big_block_read(bb, &ptr, &a.ba), false); if (!a.unchanged()) fail("changed", "a refused read changed the destination");
    } else if (w == 4) { char v[8]; tjudge("big_block_get_attr", api()->big_block_get_attr(bb, nm.c_str(), v, "i8", 1), false); }
    else if (w == 5) { tjudge("big_block_remove_attr", api()->big_block_remove_attr(bb, nm.c_str()), false); }
    else if (w == 6) { memset(&t, 0, sizeof t); size_t fs = 3; tjudge("big_file_create_block", api()->big_file_create_block(&T->bf, &t, "bad name", "i8", 1, 1, &fs), false); }
    else if (b.hd.total() && b.hd.dt.k != 'S') {
        tjudge("big_block_seek", api()->big_block_seek(bb, &ptr, 0), true);
        Arr a; a.make(DT('S', 3), 1, b.hd.nm, 0, 1, false, false); a.snap(); a.init(api());
        tjudge("big_block_read", api()->big_block_read(bb, &ptr, &a.ba), false);
    }
}
void do_own(int t, const Op & o) {
    i64 bi = o.i("b") % 3; string name = own_name(t, bi), path = blkpath(T->root, name); TH & h = T->own[t][bi]; auto & d = T->M.disk[path]; const string & k = o.kind;
    auto attr = [&](AttrV & a) { a.dt = parse_dt(o.s("dt", "i8")); a.dts = a.dt.str(); a.nm = (int) o.i("nm", 1); a.v.resize((size_t) a.nm * a.dt.w); Rng g(o.u("vs")); for (int i = 0; i < a.nm; i++) gen_value(g, a.dt, a.dt, &a.v[(size_t) i * a.dt.w]); };
    if (k == "tcreate") {
        if (h.open) return;
        Hdr hd; hd.dt = parse_dt(o.s("dt", "i8")); hd.nm = (int) o.i("nm", 1); vector<size_t> fs; for (i64 x : o.list("sizes")) { hd.sizes.push_back(x); fs.push_back(x); }
        memset(&h.bb, 0xC3, sizeof h.bb);
        int rt = api()->big_file_create_block(&T->bf, &h.bb, name.c_str(), hd.dt.str().c_str(), hd.nm, (int) fs.size(), fs.empty() ? nullptr : fs.data());
        d.exists = true; d.unknown = true; tjudge("big_file_create_block", rt, true); if (rt) return;
        d.unknown = false; d.h = {hd}; d.a = {Attrs()}; d.reset(hd); check_bb("create", h.bb, hd);
        h.open = true; h.hd = hd; h.at = Attrs(); h.wrote = h.hdirty = h.adirty = false;
        return;
    }
    if (!d.exists || d.unknown) return;
    if (!h.open) {
        if (k == "tflush" || k == "tclose") return;
        memset(&h.bb, 0xC3, sizeof h.bb); int rt = api()->big_file_open_block(&T->bf, &h.bb, name.c_str()); tjudge("big_file_open_block", rt, true); if (rt) return;
        h.open = true; h.wrote = h.hdirty = h.adirty = false;
        // after a close that failed, each of the two files is the old one or the new one
        Attrs a = handle_attrs(h.bb, "open"); bool got = false; h.hd = d.h.back(); for (auto & x : d.h) if ((int) x.sizes.size() == h.bb.Nfile) h.hd = x;
        h.at = d.a.back(); for (auto & x : d.a) if (!got && x == a) { h.at = x; got = true; }
        check_bb("open", h.bb, h.hd); if (!got) fail("attributes-wrong", "the attributes of %s are %s, expected %s", path.c_str(), attrs_str(a).c_str(), attrs_str(h.at).c_str());
        d.h = {h.hd}; d.a = {h.at};
    }
    Hdr hd = h.hd; i64 size = (i64) hd.total();
    if (k == "twrite" || k == "tread") {
        i64 start = size * o.i("start") / 1000, n = std::min<i64>(o.i("max", 20), (size - start) * o.i("len", 1000) / 1000);
        DT sd = o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; sd.be = o.i("be");
        BigBlockPtr ptr = {0}; tjudge("big_block_seek", api()->big_block_seek(&h.bb, &ptr, start), true);
        if (k == "twrite") {
            if (!convertible(hd.dt, sd)) sd = hd.dt;
            Arr a; a.make(sd, n, hd.nm, (int) o.i("layout"), o.u("vs"), true, false); Rng g(o.u("vs")); for (i64 i = 0; i < n * hd.nm; i++) gen_value(g, sd, hd.dt, a.at(i));
            a.snap(); vector<Bytes> rows; arr_rows(a, hd.dt, rows); a.init(api());
            int rt = api()->big_block_write(&h.bb, &ptr, &a.ba); tjudge("big_block_write", rt, true);
            if (!a.unchanged()) fail("source-changed", "writing to %s changed the caller's array", path.c_str());
            if (rt) { d.maybe(hd, start, rows); return; }
            d.wrote(hd, start, rows); if (n) h.wrote = h.hdirty = true; R->stat["rows_written"] += n;
            if (ptr.aoffset != start + n) fail("position-wrong", "after writing %lld rows from %lld of %s the position is %lld", (long long) n, (long long) start, path.c_str(), (long long) ptr.aoffset);
        } else {
            SB b; b.path = path; b.hd = hd; b.rows = disk_rows(path, hd, 0, size); Bytes part(b.rows.begin() + start * hd.rowlen(), b.rows.begin() + (start + n) * hd.rowlen());
            if (!convertible(sd, hd.dt) || !bytes_defined(sd, hd.dt, part)) sd = hd.dt;
            bool sure = d.readable(hd, start, n); if (!sure) return;
            Arr a; a.make(sd, n, hd.nm, (int) o.i("layout"), o.u("vs"), false, false); a.snap(); a.init(api());
            int rt = api()->big_block_read(&h.bb, &ptr, &a.ba); tjudge("big_block_read", rt, true); if (rt) return;
            check_rows("read", b, hd, start, a, sd, n);
        }
    } else if (k == "tattr") {
        AttrV a; attr(a); static const char * N[] = {"a", "Time", "b", "%s"}; string nm = N[o.i("name") % 4];
        int rt = api()->big_block_set_attr(&h.bb, nm.c_str(), a.v.data(), a.dts.c_str(), a.nm); tjudge("big_block_set_attr", rt, true); h.at[nm] = a; h.adirty = true;
    } else if (k == "tgrow") {
        if (hd.sizes.size() > 20) return;
        Hdr n = hd; vector<size_t> fs; for (i64 x : o.list("sizes")) { fs.push_back(x); n.sizes.push_back(x); }
        int rt = api()->big_block_grow(&h.bb, (int) fs.size(), fs.data()); tjudge("big_block_grow", rt, true);
        if (!rt) { h.hd = n; h.hdirty = true; size_t old = hd.sizes.size(); d.layout(n); for (size_t i = old; i < n.sizes.size(); i++) for (auto & x : d.files[i]) x = RowC(); }
        check_bb("grow", h.bb, h.hd);
    } else if (k == "tflush" || k == "tclose") {
        bool hadw = h.wrote; int rt = k == "tclose" ? api()->big_block_close(&h.bb) : api()->big_block_flush(&h.bb); tjudge(k == "tclose" ? "big_block_close" : "big_block_flush", rt, true);
        if (rt) { d.h.push_back(h.hd); d.a.push_back(h.at); if (k == "tclose" && hadw) d.exact = false; } else { d.h = {h.hd}; d.a = {h.at}; h.wrote = h.hdirty = h.adirty = false; }
        if (k == "tclose") h.open = false;
        if (!rt) { T->M.check(path); T->M.check_sums(path, hd); }
    }
}
void do_list() {
    char ** l = nullptr; int n = 0; int rt = api()->big_file_list(&T->bf, &l, &n); tjudge("big_file_list", rt, true); if (rt) return;
    std::set<string> got; for (int i = 0; i < n; i++) { if (!got.insert(l[i]).second) fail("list-wrong", "block %s is listed twice", l[i]); sim_free(l[i]); } sim_free(l);
    for (auto & b : T->sh) if (!got.count(b.name)) fail("list-wrong", "block %s is missing from the list", b.name.c_str());
}
void do_fmt(const Op & o) {
    DT d = parse_dt(o.s("dt", "i8")); d.be = o.i("be"); u8 v[32] = {0}; gen_value(o.u("vs"), d, d, v); char buf[600]; memset(buf, 'x', sizeof buf);
    api()->big_file_dtype_format(buf, d.str().c_str(), v, nullptr); string s(buf, strnlen(buf, sizeof buf));
    if (T->ref) T->text[o.idx] = s; else if (T->text[o.idx] != s) fail("format-wrong", "formatting a %s gives `%s', alone it gives `%s'", d.str().c_str(), s.c_str(), T->text[o.idx].c_str());
    u8 back[32] = {0}; if (d.k != 'b' && d.k != 'a') { int rt = api()->big_file_dtype_parse(s.c_str(), d.str().c_str(), back, nullptr); string k = "p" + string((char *) back, d.w) + strf("%d", rt); int id = o.idx + 1000000; if (T->ref) T->text[id] = k; else if (T->text[id] != k) fail("format-wrong", "parsing `%s' as %s differs from when it is done alone", s.c_str(), d.str().c_str()); }
}
void thread_main(int t, bool only_ref) {
    for (auto & o : T->p->ops) {
        if ((int) (o.i("t") % T->n) != t && !only_ref) continue;
        set_op(o.idx); const string & k = o.kind; SB & b = T->sh[o.i("s") % T->sh.size()]; int bi = (int) (o.i("s") % T->sh.size());
        if (k == "tfail") do_fail(o, &T->bb[bi], b);
        else if (k == "tfmt") do_fmt(o);
        else if (only_ref) continue;
        else if (k == "sread") do_read(o, &T->bb[bi], b);
        else if (k == "sattr") do_attr(&T->bb[bi], b, o);
        else if (k == "sopen") {
            BigBlock bb; memset(&bb, 0xC3, sizeof bb); int rt = api()->big_file_open_block(&T->bf, &bb, b.name.c_str()); tjudge("big_file_open_block", rt, true); if (rt) continue;
            check_bb("open", bb, b.hd); do_read(o, &bb, b); rt = api()->big_block_close(&bb); tjudge("big_block_close", rt, true);
        } else if (k == "tlist") do_list();
        else do_own(t, o);
    }
}
void open_shared() {
    int rt = api()->big_file_open(&T->bf, T->root.c_str()); judge("big_file_open", rt, true); T->bb.resize(T->sh.size());
    for (size_t i = 0; i < T->sh.size(); i++) { memset(&T->bb[i], 0xC3, sizeof T->bb[i]); rt = api()->big_file_open_block(&T->bf, &T->bb[i], T->sh[i].name.c_str()); judge("big_file_open_block", rt, true); }
}
void close_shared() {
    for (size_t i = 0; i < T->sh.size(); i++) { check_bb("end", T->bb[i], T->sh[i].hd); judge("big_block_close", api()->big_block_close(&T->bb[i]), true); }
    judge("big_file_close", api()->big_file_close(&T->bf), true);
}
}
void exec_threads(const Plan & p) {
    TW w; T = &w; w.p = &p; w.n = std::max<int>(2, (int) p.pi("n", 2)); w.ns = std::max<int>(1, (int) p.pi("ns", 1)); w.root = "/w/f"; w.own.resize(w.n); w.faulty = !p.faults.empty();
    FS->mkdirs("/w"); mem_yield = false; string lib = "libbigcov"; size_t buf = (size_t) p.pi("buf", 4096);
    int guard = 0;
    auto phase = [&](std::function<void()> f, const char * l) { lib_restore_all(); Proc * pr = new_proc(l, guard++ % 2); add_task(pr, [f, buf] { api()->big_file_set_buffer_size(buf); f(); }); run_tasks(); end_phase(); return !R->v.set; };
    bool ok = phase([&] {
        set_op(-2); judge("big_file_create", api()->big_file_create(&w.bf, w.root.c_str()), true);
        Rng g((u64) p.pi("seed"));
        for (int s = 0; s < w.ns; s++) {
            SB b; b.name = strf("%ss%d", s % 2 ? "g/" : "", s); b.path = blkpath(w.root, b.name); b.hd.dt = parse_dt(string(g.below(4) == 0 ? ">" : "<") + g.pick(NUM_TYPES)); b.hd.nm = 1 + (int) g.below(3); int nf = 1 + (int) g.below(3); vector<size_t> fs; for (int i = 0; i < nf; i++) { fs.push_back(g.below(5) == 0 ? 0 : 1 + g.below(12)); b.hd.sizes.push_back(fs.back()); }
            BigBlock bb; judge("big_file_create_block", api()->big_file_create_block(&w.bf, &bb, b.name.c_str(), b.hd.dt.str().c_str(), b.hd.nm, nf, fs.data()), true);
            i64 n = (i64) b.hd.total(); Arr a; a.make(b.hd.dt, n, b.hd.nm, 0, 1, true, false); for (i64 i = 0; i < n * b.hd.nm; i++) gen_value(g, b.hd.dt, b.hd.dt, a.at(i)); vector<Bytes> rows; a.snap(); arr_rows(a, b.hd.dt, rows); a.init(api());
            BigBlockPtr q = {0}; judge("big_block_seek", api()->big_block_seek(&bb, &q, 0), true); judge("big_block_write", api()->big_block_write(&bb, &q, &a.ba), true); for (auto & r : rows) b.rows.insert(b.rows.end(), r.begin(), r.end());
            int na = (int) g.below(5); for (int i = 0; i < na; i++) { AttrV v; v.dt = parse_dt(g.pick(NUM_TYPES)); v.dts = v.dt.str(); v.nm = 1 + (int) g.below(20); v.v.resize(v.nm * v.dt.w); for (int e = 0; e < v.nm; e++) gen_value(g, v.dt, v.dt, &v.v[e * v.dt.w]); string nm = strf("at%d", (int) g.below(9)); judge("big_block_set_attr", api()->big_block_set_attr(&bb, nm.c_str(), v.v.data(), v.dts.c_str(), v.nm), true); b.at[nm] = v; }
            judge("big_block_close", api()->big_block_close(&bb), true);
            DiskBlk & d = w.M.disk[b.path]; d.exists = true; d.h = {b.hd}; d.a = {b.at}; d.reset(b.hd); d.wrote(b.hd, 0, rows); b.exists = true; w.sh.push_back(b);
        }
        api()->big_file_close(&w.bf);
    }, "libbig");
    // alone: the failures there will be, and their messages
    if (ok) { w.ref = true; ok = phase([&] { open_shared(); bool f = w.faulty; w.faulty = false; auto save = R->faults; R->faults.clear(); thread_main(-1, true); R->faults = save; w.faulty = f; set_op(-3); close_shared(); }, lib.c_str()); w.ref = false; }
    if (ok) {
        lib_restore_all(); Proc * pr = new_proc(lib, 0);
        add_task(pr, [&w, buf] { set_op(-4); api()->big_file_set_buffer_size(buf); if (w.p->pi("leak")) audit_start(); open_shared(); w.opened = true; mem_yield = true; block_on("the threads", [&w] { return w.done == w.n; }); mem_yield = false; close_shared(); if (!R->cur->proc->fds.empty()) fail("fd-leak", "%zu files are still open at the end", R->cur->proc->fds.size()); audit("at the end of the threads"); });
        for (int t = 0; t < w.n; t++) add_task(pr, [&w, t] {
            block_on("the start", [&w] { return w.opened; }); thread_main(t, false);
            set_op(1000000 + t); for (auto & x : w.own[t]) if (x.second.open) { Op c; c.kind = "tclose"; c.idx = 1000000 + t; c.set("b", x.first); do_own(t, c); }
            api()->big_file_set_error_message(nullptr);
            w.done++;
        });
        run_tasks(); mem_yield = false; end_phase(); ok = !R->v.set;
    }
    mem_yield = false;
    if (ok) { R->faults.clear(); phase([&] { set_op(1000100); w.M.check_all(); verify_all(w.M, w.root); }, "libbig"); }
    T = nullptr;
}
Plan gen_threads(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x74ead)); Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next();
    static const int POL[] = {1, 1, 1, 2, 2, 3}; c.policy = POL[g.below(6)]; c.switch_pm = g.below(3) ? 2 + (int) g.below(60) : 50 + (int) g.below(600); c.pct_depth = 2 + (int) g.below(8); c.maxsteps = 20000000; if (g.below(4) == 0) c.shortio_pm = (int) g.below(400);
    int n = 2 + (int) g.below(3); p.par["n"] = std::to_string(n); p.par["ns"] = std::to_string(1 + g.below(3)); p.par["seed"] = std::to_string(g.below(1000000000)); static const vector<i64> BUFS = {1, 24, 48, 64, 256, 4096, 65536}; p.par["buf"] = std::to_string(g.pick(BUFS));
    struct Wt { const char * k; int w; }; vector<Wt> w;
    int mode = (int) g.below(4);
    if (mode == 0) w = {{"tfail", 10}, {"sread", 2}};
    else if (mode == 1) w = {{"sread", 8}, {"sattr", 3}, {"sopen", 2}, {"tfail", 2}, {"tfmt", 2}};
    else if (mode == 2) w = {{"tcreate", 5}, {"twrite", 9}, {"tread", 5}, {"tattr", 3}, {"tflush", 3}, {"tclose", 3}, {"tgrow", 2}, {"tfail", 2}, {"sread", 2}, {"tfmt", 1}};
    else w = {{"sread", 4}, {"sattr", 2}, {"sopen", 2}, {"tfail", 4}, {"tlist", 1}, {"tfmt", 1}, {"tcreate", 3}, {"twrite", 4}, {"tread", 2}, {"tattr", 2}, {"tflush", 2}, {"tclose", 2}, {"tgrow", 1}};
    int tot = 0; for (auto & x : w) tot += x.w;
    int nops = n * (2 + (int) g.below(6)) + (scale ? (int) g.below(20) : 0);
    if (mode >= 2) for (int t = 0; t < n; t++) p.op("tcreate").set("t", t).set("b", 0).set("dt", g.pick(NUM_TYPES)).set("nm", 1 + g.below(2)).set("sizes", vector<i64>{1 + (i64) g.below(8), (i64) g.below(5)});
    for (int i = 0; i < nops; i++) {
        int r = (int) g.below(tot); string q; for (auto & x : w) { if (r < x.w) { q = x.k; break; } r -= x.w; }
        Op & o = p.op(q); o.set("t", g.below(n)).set("s", g.below(3));
        if (q == "tfail") o.set("what", g.below(8)).set("name", g.below(4));
        else if (q == "sattr") o.set("name", g.below(9));
        else if (q == "tfmt") { static const vector<string> F = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "S5"}; o.set("dt", g.pick(F)).set("be", g.below(2)).setu("vs", g.next()); }
        else if (q != "tlist") {
            o.setu("vs", g.next()).set("start", g.below(2) ? 0 : g.below(1001)).set("len", g.below(2) ? 1000 : g.below(1001)).set("max", 1 + g.below(16)).set("layout", g.below(3) ? 0 : g.below(9)).set("b", g.below(3)); if (g.below(3) == 0) o.set("dt", g.pick(NUM_TYPES)); if (g.below(4) == 0) o.set("be", 1); if (g.below(4) == 0) o.set("simple", 1);
            if (q == "tcreate" || q == "tattr") o.set("dt", g.pick(NUM_TYPES)).set("nm", 1 + g.below(4)).set("name", g.below(4));
            if (q == "tcreate" || q == "tgrow") { vector<i64> v; int nf = 1 + (int) g.below(3); for (int z = 0; z < nf; z++) v.push_back(g.below(5) == 0 ? 0 : 1 + (i64) g.below(8)); o.set("sizes", v); }
        }
    }
    if (g.below(3) == 0) {
        static const unsigned KS[] = {K_OPEN, K_READ, K_WRITE, K_IO, K_IO, K_CLOSE}; static const int ER[] = {EIO, ENOSPC, EMFILE}; int nf = 1 + (int) g.below(3);
        for (int i = 0; i < nf; i++) { const Op & o = p.ops[g.below(p.ops.size())]; if (o.kind == "tfail" || o.kind == "tfmt") continue; Fault f; f.op = o.idx; f.kinds = KS[g.below(6)]; f.n = (int) g.below(3); f.err = ER[g.below(3)]; f.cnt = g.below(2) ? 1 : 1000000; if (f.kinds & K_CLOSE) c.closefaults = true; p.faults.push_back(f); }
    }
    return p;
}
}

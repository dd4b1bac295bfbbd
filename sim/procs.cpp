// Several processes that share one directory: P14.
#include "model.h"
#include <algorithm>
#include <cerrno>

extern "C" void sim_free(void *);
namespace sim {
namespace {
void free_list(char ** l, int n) { for (int i = 0; i < n; i++) sim_free(l[i]); sim_free(l); }
const vector<string> ANAMES = {"a", "Time", "%d%s%n", "ab", "#HUMANE"};
struct HV { bool none = true; Hdr h; };
// what is known of one block: every version its owner ever stored, in order
struct PB {
    string name, path; int owner = -1;      // owner: the only process that changes its metadata
    bool shared = false, priv = false;      // shared: several processes write its rows; priv: created again, rows read by the owner only
    vector<HV> hv{HV()}; size_t hdone = 0;
    vector<Attrs> av{Attrs()}; size_t adone = 0;
    bool creating = false, cut = false;     // a creation is going on / was cut off by the end of its process
    struct Row { vector<Bytes> v; size_t done = 0; };  // v[0]: never written
    vector<Row> rows; vector<char> wrote_once; i64 nrows = 0; bool exact = true, writing = false;
};
struct PH { bool open = false, adirty = false, hdirty = false, wrote = false; BigBlock bb; Hdr hd; Attrs at; size_t h0 = 0; };
struct PP { BigFile bf; bool fopen_ = false; std::map<int, PH> h; };
struct World { const Plan * p; int n; string root; vector<PB> b; vector<PP> pp; bool created = false; int creating = 0; };
World * W;
struct InFlight { std::function<void()> f; };

void layout(PB & b, const Hdr & h) { if ((i64) h.total() > b.nrows) b.nrows = (i64) h.total(); b.rows.resize(b.nrows); for (auto & r : b.rows) if (r.v.empty()) r.v.push_back(Bytes()); }
bool file_ready(PP & P) {
    if (P.fopen_) return true;
    bool was = W->created;
    if (was) { int rt = api()->big_file_open(&P.bf, W->root.c_str()); judge("big_file_open", rt, true); P.fopen_ = true; return true; }
    int rt = api()->big_file_create(&P.bf, W->root.c_str()); judge("big_file_create", rt, true);
    if (!FS->isdir(W->root)) fail("effect-missing", "big_file_create succeeded but the directory does not exist");
    W->created = true; P.fopen_ = true; return true;
}
// open a block: the result must be one of the versions there were meanwhile
PH * handle(PP & P, int bi, bool must) {
    PB & b = W->b[bi]; PH & h = P.h[bi];
    if (h.open) return &h;
    if (must && b.hv[b.hdone].none) return nullptr;
    if (!file_ready(P)) return nullptr;
    size_t h0 = b.hdone, a0 = b.adone; bool creating0 = b.creating || b.cut;
    memset(&h.bb, 0xC3, sizeof h.bb);
    int rt = api()->big_file_open_block(&P.bf, &h.bb, b.name.c_str());
    bool maynone = false; for (size_t i = h0; i < b.hv.size(); i++) maynone |= b.hv[i].none;
    bool may = false; for (size_t i = h0; i < b.hv.size(); i++) may |= !b.hv[i].none;
    if (rt && maynone) { judge("big_file_open_block", rt, false); R->stat["open_before_created"]++; return nullptr; }
    judge("big_file_open_block", rt, may);
    (void) creating0;
    // the header
    bool ok = false; string want;
    for (size_t i = h0; i < b.hv.size(); i++) if (!b.hv[i].none) {
        const Hdr & x = b.hv[i].h; want = x.str();
        if (string(h.bb.dtype, strnlen(h.bb.dtype, 8)) == x.dt.str() && h.bb.nmemb == x.nm && h.bb.Nfile == (int) x.sizes.size()) {
            bool same = true; for (size_t k = 0; k < x.sizes.size(); k++) same &= h.bb.fsize[k] == x.sizes[k];
            if (same) { ok = true; h.hd = x; h.h0 = i; break; }
        }
    }
    if (!ok) fail("metadata-wrong", "a process that opens %s while another writes it gets %sx%d with %d files, which is no version of it (last %s)", b.path.c_str(), h.bb.dtype, h.bb.nmemb, h.bb.Nfile, want.c_str());
    check_bb("open", h.bb, h.hd);
    Attrs at = handle_attrs(h.bb, "open"); ok = false;
    for (size_t i = a0; i < b.av.size(); i++) if (b.av[i] == at) ok = true;
    if (!ok) fail("attributes-wrong", "a process that opens %s while another writes it gets the attributes %s, which is no version of them (last %s)", b.path.c_str(), attrs_str(at).c_str(), attrs_str(b.av.back()).c_str());
    h.at = at; h.open = true; h.adirty = h.hdirty = h.wrote = false;
    if (b.hv.size() > h0 + 1 || b.av.size() > a0 + 1) R->stat["open_during_change"]++;
    R->stat["opens"]++;
    return &h;
}
void flush(PP & P, int bi, PH & h, bool close) {
    PB & b = W->b[bi]; size_t hi = 0, ai = 0;
    if (h.hdirty) { HV v; v.none = false; v.h = h.hd; hi = b.hv.size(); b.hv.push_back(v); }
    if (h.adirty) { ai = b.av.size(); b.av.push_back(h.at); }
    bool once = b.exact && h.wrote && !b.shared;
    int rt = close ? api()->big_block_close(&h.bb) : api()->big_block_flush(&h.bb);
    judge(close ? "big_block_close" : "big_block_flush", rt, true);
    if (hi) b.hdone = hi; if (ai) b.adone = ai;
    if (once && !b.priv) {
        bool all = true; for (size_t i = 0; i < h.hd.total(); i++) all &= b.wrote_once[i] == 1;
        if (all) {
            HdrFile hf; string why; if (!decode_header(slurp(b.path + "/header"), hf, why)) fail("metadata-damaged", "header of %s: %s", b.path.c_str(), why.c_str());
            u64 at = 0; for (size_t f = 0; f < h.hd.sizes.size(); f++) { unsigned s = 0; for (u64 i = 0; i < h.hd.sizes[f]; i++) for (u8 c : b.rows[at + i].v[b.rows[at + i].done]) s += c; at += h.hd.sizes[f]; if (f < hf.ck.size() && hf.ck[f] != s) fail("checksum-wrong", "file %zu of %s: the stored checksum is %u, the bytes add up to %u", f, b.path.c_str(), hf.ck[f], s); }
            R->stat["checksums_verified"]++;
        }
    }
    h.adirty = h.hdirty = h.wrote = false;
    if (close) h.open = false;
}
void do_create(PP & P, int k, const Op & o, int bi) {
    PB & b = W->b[bi]; if (b.owner != k || b.shared || P.h[bi].open) return;
    bool again = !b.hv[b.hdone].none; if (again && !b.priv) return;
    if (!file_ready(P)) return;
    Hdr hd; hd.dt = parse_dt(o.s("dt", "i8")); hd.nm = (int) o.i("nm", 1); vector<size_t> fs; for (i64 x : o.list("sizes")) { hd.sizes.push_back(x); fs.push_back(x); }
    HV v; v.none = false; v.h = hd; size_t hi = b.hv.size(), ai = b.av.size();
    b.hv.push_back(v); b.av.push_back(Attrs()); b.creating = true;
    b.rows.clear(); b.nrows = 0; layout(b, hd); b.wrote_once.assign(b.nrows, 0); b.exact = true;
    PH & h = P.h[bi]; memset(&h.bb, 0xC3, sizeof h.bb);
    int rt = api()->big_file_create_block(&P.bf, &h.bb, b.name.c_str(), hd.dt.str().c_str(), hd.nm, (int) fs.size(), fs.empty() ? nullptr : fs.data());
    judge("big_file_create_block", rt, true);
    b.creating = false; b.hdone = hi; b.adone = ai;
    for (size_t i = 0; i < fs.size(); i++) { NodeP n = FS->get(b.path + strf("/%06X", (unsigned) i)); if (!n) fail("effect-missing", "create of %s succeeded but data file %zu does not exist", b.path.c_str(), i); }
    check_bb("create", h.bb, hd);
    h.open = true; h.hd = hd; h.at = Attrs(); h.adirty = h.hdirty = h.wrote = false;
}
void do_write(PP & P, int k, const Op & o, int bi) {
    PB & b = W->b[bi]; if (!b.shared && b.owner != k) return;
    PH * hp = handle(P, bi, true); if (!hp) return; PH & h = *hp;
    i64 size = (i64) h.hd.total(), lo = 0, hi = size;
    if (b.shared) { lo = size * k / W->n; hi = size * (k + 1) / W->n; if (o.i("interleave")) { } }
    i64 start = lo + (hi - lo) * o.i("start") / 1000, n = std::min<i64>(o.i("max", 20), (hi - start) * o.i("len", 1000) / 1000);
    if (o.has("rest")) { start = lo; n = hi - lo; }
    if (n <= 0 || n * h.hd.nm > 100000 || h.hd.nm == 0) return;
    DT sd = o.has("dt") ? parse_dt(o.s("dt")) : h.hd.dt; sd.be = o.i("be"); if (!convertible(h.hd.dt, sd)) { sd = h.hd.dt; }
    Arr a; a.make(sd, n, h.hd.nm, (int) o.i("layout"), o.u("vs"), true, false); Rng g(o.u("vs"));
    for (i64 i = 0; i < n * h.hd.nm; i++) gen_value(g, sd, h.hd.dt, a.at(i));
    a.snap(); vector<Bytes> rows; arr_rows(a, h.hd.dt, rows); a.init(api());
    BigBlockPtr ptr = {0}; judge("big_block_seek", api()->big_block_seek(&h.bb, &ptr, start), true);
    vector<size_t> idx(n); for (i64 i = 0; i < n; i++) { auto & r = b.rows[start + i]; idx[i] = r.v.size(); r.v.push_back(rows[i]); b.wrote_once[start + i] = (char) std::min(2, b.wrote_once[start + i] + 1); }
    int rt = api()->big_block_write(&h.bb, &ptr, &a.ba);
    judge("big_block_write", rt, true);
    if (!a.unchanged()) fail("source-changed", "writing to %s changed the caller's array", b.path.c_str());
    for (i64 i = 0; i < n; i++) b.rows[start + i].done = idx[i];
    h.wrote = true; h.hdirty = true;
    R->stat["rows_written"] += n;
}
void do_read(PP & P, int k, const Op & o, int bi) {
    PB & b = W->b[bi]; if (b.priv && b.owner != k) return;
    PH * hp = handle(P, bi, false); if (!hp) return; PH & h = *hp;
    i64 size = (i64) h.hd.total(); i64 start = size * o.i("start") / 1000, n = std::min<i64>(o.i("max", 30), (size - start) * o.i("len", 1000) / 1000);
    if (n <= 0 || h.hd.nm == 0) return;
    if (b.nrows < size) fail("internal", "model of %s is too short", b.path.c_str());
    // which rows are certainly there
    bool sure = true; u64 off = 0;
    for (u64 s : h.hd.sizes) { i64 hi = -1; for (u64 i = 0; i < s; i++) if (b.rows[off + i].done) hi = (i64) i; i64 a = std::max<i64>(off, start), e = std::min<i64>(off + s, start + n); if (a < e && e - (i64) off > hi + 1) sure = false; off += s; }
    if (b.creating || b.cut) sure = false;
    vector<size_t> d0(n); for (i64 i = 0; i < n; i++) d0[i] = b.rows[start + i].done;
    Arr a; a.make(h.hd.dt, n, h.hd.nm, (int) o.i("layout"), o.u("vs"), false, false); a.snap(); a.init(api());
    BigBlockPtr ptr = {0}; judge("big_block_seek", api()->big_block_seek(&h.bb, &ptr, start), true);
    int rt = api()->big_block_read(&h.bb, &ptr, &a.ba);
    if (rt && !sure) { R->stat["unwritten_read_refused"]++; return; }
    judge("big_block_read", rt, true);
    int rl = h.hd.rowlen(); bool conc = false;
    for (i64 i = 0; i < n; i++) {
        PB::Row & r = b.rows[start + i]; if (r.v.size() > d0[i] + 1) conc = true;
        for (int e = 0; e < h.hd.nm; e++) for (int c = 0; c < h.hd.dt.w; c++) {
            u8 got = a.at(i * h.hd.nm + e)[c]; bool ok = false;
            for (size_t q = d0[i]; q < r.v.size() && !ok; q++) ok = got == (q ? r.v[q][e * h.hd.dt.w + c] : 0);
            if (!ok) fail("read-wrong", "process %d reads a wrong byte in row %lld of %s (element %d)", k, (long long) (start + i), b.path.c_str(), e);
        }
    }
    (void) rl; if (conc) R->stat["read_during_write"]++;
    R->stat["rows_read"] += n;
}
void do_list(PP & P, int k) {
    if (!file_ready(P)) return;
    vector<char> must(W->b.size()); vector<size_t> h0(W->b.size()); for (size_t i = 0; i < W->b.size(); i++) { must[i] = !W->b[i].hv[W->b[i].hdone].none; h0[i] = W->b[i].hv.size(); }
    char ** names = nullptr; int n = 0;
    int rt = api()->big_file_list(&P.bf, &names, &n); judge("big_file_list", rt, true);
    std::set<string> got; for (int i = 0; i < n; i++) { if (!got.insert(names[i]).second) fail("list-wrong", "block %s is listed twice", names[i]); }
    for (size_t i = 0; i < W->b.size(); i++) {
        PB & b = W->b[i]; bool may = false; for (auto & v : b.hv) may |= !v.none;
        bool in = got.erase(b.name);
        if (must[i] && !in) fail("list-wrong", "process %d lists the file while another process works on it: block %s, which was there all the time, is missing", k, b.name.c_str());
        if (in && !may) fail("list-wrong", "block %s is listed before anyone created it", b.name.c_str());
    }
    if (!got.empty()) fail("list-wrong", "`%s' is listed, which is no block", got.begin()->c_str());
    free_list(names, n);
    R->stat["lists"]++;
}
void proc_main(int k) {
    PP & P = W->pp[k]; const Plan & p = *W->p;
    for (auto & o : p.ops) {
        if (o.i("pr") % W->n != k) continue;
        set_op(o.idx); int bi = (int) (o.i("b") % W->b.size()); PB & b = W->b[bi]; const string & q = o.kind;
        if (q == "pfile") { if (P.fopen_ || o.i("again")) { BigFile t; int rt = api()->big_file_create(&t, W->root.c_str()); judge("big_file_create", rt, true); api()->big_file_close(&t); W->created = true; } else file_ready(P); }
        else if (q == "pcreate") do_create(P, k, o, bi);
        else if (q == "pwrite") do_write(P, k, o, bi);
        else if (q == "pread") do_read(P, k, o, bi);
        else if (q == "plist") do_list(P, k);
        else if (q == "popen") handle(P, bi, false);
        else if (q == "pflush" || q == "pclose") { PH & h = P.h[bi]; if (h.open) flush(P, bi, h, q == "pclose"); }
        else if (q == "pattr" || q == "prmattr") {
            if (b.owner != k) continue; PH * h = handle(P, bi, true); if (!h) continue;
            string name = ANAMES[o.i("name") % ANAMES.size()];
            if (q == "prmattr") { bool has = h->at.count(name); int rt = api()->big_block_remove_attr(&h->bb, name.c_str()); judge("big_block_remove_attr", rt, has); if (!rt) { h->at.erase(name); h->adirty = true; } continue; }
            AttrV a; a.dt = parse_dt(o.s("dt", "i8")); a.dts = a.dt.str(); a.nm = (int) o.i("nm", 1); a.v.resize((size_t) a.nm * a.dt.w); Rng g(o.u("vs")); for (int i = 0; i < a.nm; i++) gen_value(g, a.dt, a.dt, &a.v[(size_t) i * a.dt.w]);
            int rt = api()->big_block_set_attr(&h->bb, name.c_str(), a.v.data(), a.dts.c_str(), a.nm); judge("big_block_set_attr", rt, true); h->at[name] = a; h->adirty = true;
        } else if (q == "pgrow") {
            if (b.owner != k || b.shared) continue; PH * h = handle(P, bi, true); if (!h || h->hd.sizes.size() > 30) continue;
            // a handle from before the last growth would undo it
            if (h->h0 < b.hdone && !(b.hv[b.hdone].h == h->hd)) continue;
            Hdr n = h->hd; vector<size_t> fs; for (i64 x : o.list("sizes")) { fs.push_back(x); n.sizes.push_back(x); }
            int rt = api()->big_block_grow(&h->bb, (int) fs.size(), fs.empty() ? nullptr : fs.data()); judge("big_block_grow", rt, true);
            h->hd = n; h->hdirty = true; check_bb("grow", h->bb, n);
            layout(b, n); b.wrote_once.resize(b.nrows, 0);
        }
    }
    set_op(1000000 + k);
    for (auto & x : P.h) if (x.second.open) flush(P, x.first, x.second, true);
    if (P.fopen_) { judge("big_file_close", api()->big_file_close(&P.bf), true); P.fopen_ = false; }
    if (!R->cur->proc->fds.empty()) fail("fd-leak", "%zu files are still open at the end of process %d", R->cur->proc->fds.size(), k);
    audit("at the end of the process");
}
}
void exec_procs(const Plan & p) {
    World w; W = &w; w.p = &p; w.n = std::max<int>(2, (int) p.pi("n", 2)); auto i = p.par.find("root"); w.root = i == p.par.end() ? "/w/f" : i->second;
    Op q; q.kv = p.par;
    // the blocks: first the shared ones, then those of each process
    int ns = (int) p.pi("nshared", 1), own = (int) p.pi("nown", 2); vector<string> pre; { string t = q.s("pre", "g/"), c; for (char ch : t + "|") { if (ch == '|') { pre.push_back(c); c.clear(); } else c += ch; } }
    for (int s = 0; s < ns; s++) { PB b; b.name = strf("s%d", s); if (s) b.name = pre[0] + b.name; b.shared = true; b.owner = 0; w.b.push_back(b); }
    for (int k = 0; k < w.n; k++) for (int s = 0; s < own; s++) { PB b; b.name = pre[(k + s) % pre.size()] + strf("%c%d", "bc"[s % 2], k); b.owner = k; b.priv = s == 1; w.b.push_back(b); }
    for (auto & b : w.b) b.path = blkpath(w.root, b.name);
    w.pp.resize(w.n);
    // the shared blocks exist beforehand
    lib_restore_all(); FS->mkdirs("/w");
    if (ns) {
        Proc * pr = new_proc("libbig", 0);
        add_task(pr, [&] {
            set_op(-2); BigFile bf; judge("big_file_create", api()->big_file_create(&bf, w.root.c_str()), true); w.created = true;
            for (int s = 0; s < ns; s++) {
                PB & b = w.b[s]; Hdr hd; hd.dt = parse_dt(q.s("dt", "i8")); hd.nm = (int) q.i("nm", 1); vector<size_t> fs; for (i64 x : q.list("sizes")) { hd.sizes.push_back(x); fs.push_back(x); }
                BigBlock bb; judge("big_file_create_block", api()->big_file_create_block(&bf, &bb, b.name.c_str(), hd.dt.str().c_str(), hd.nm, (int) fs.size(), fs.data()), true);
                judge("big_block_close", api()->big_block_close(&bb), true);
                HV v; v.none = false; v.h = hd; b.hv = {v}; b.av = {Attrs()}; layout(b, hd); b.wrote_once.assign(b.nrows, 0);
            }
            api()->big_file_close(&bf);
        });
        run_tasks(); end_phase(); if (R->v.set) { W = nullptr; return; }
    }
    lib_restore_all();
    for (int k = 0; k < w.n; k++) { Proc * pr = new_proc("libbig", k); add_task(pr, [k] { api()->big_file_set_buffer_size((size_t) W->p->pi("buf", 4096)); if (W->p->pi("leak")) audit_start(); proc_main(k); }); }
    run_tasks();
    vector<char> dead(w.n); for (int k = 0; k < w.n; k++) { dead[k] = R->tasks[k]->killed; if (dead[k]) R->stat["crash"]++; }
    end_phase();
    if (R->v.set) { W = nullptr; return; }
    // afterwards a new process finds everything
    Model M;
    for (auto & b : w.b) {
        bool may = false; for (size_t i = b.hdone; i < b.hv.size(); i++) may |= !b.hv[i].none; if (!may) continue;
        DiskBlk & d = M.disk[b.path]; d.exists = true;
        for (size_t i = b.hdone; i < b.hv.size(); i++) if (b.hv[i].none) d.unknown = true; else d.h.push_back(b.hv[i].h);
        for (size_t i = b.adone; i < b.av.size(); i++) d.a.push_back(b.av[i]);
        if (b.creating) d.unknown = true;
        if (d.unknown) continue;
        Hdr big = d.h[0]; for (auto & h : d.h) if (h.total() > big.total()) big = h;
        d.reset(big); d.exact = false;
        for (auto & x : b.hv) if (!x.none) d.maxf = std::max(d.maxf, x.h.sizes.size());   // a replaced block may leave its files
        for (i64 i = 0; i < (i64) big.total(); i++) { RowC * r = d.row(big, i); auto & x = b.rows[i]; if (x.done) { r->wr = true; r->v = x.v[x.done]; } for (size_t v = x.done + 1; v < x.v.size(); v++) r->alts.push_back(x.v[v]); }
    }
    lib_restore_all(); R->faults.clear();
    Proc * pr = new_proc("libbig", 0);
    add_task(pr, [&] {
        set_op(1000100); M.check_all();
        if (!FS->isdir(w.root)) return;
        verify_all(M, w.root);
        BigFile bf; judge("big_file_open", api()->big_file_open(&bf, w.root.c_str()), true);
        char ** names = nullptr; int n = 0; judge("big_file_list", api()->big_file_list(&bf, &names, &n), true);
        std::set<string> got(names, names + n);
        for (auto & b : w.b) { bool must = !b.hv[b.hdone].none; bool in = got.erase(b.name); if (must && !in) fail("list-wrong", "block %s is missing from the final list", b.name.c_str()); }
        if (!got.empty()) fail("list-wrong", "`%s' is in the final list, which is no block", got.begin()->c_str());
        free_list(names, n); api()->big_file_close(&bf);
    });
    run_tasks(); end_phase();
    W = nullptr;
}
Plan gen_procs(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x9c0c5)); Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next(); c.shuffle = true; c.dtunknown = g.below(3) == 0;
    static const int POL[] = {1, 1, 1, 2, 2, 3}; c.policy = POL[g.below(6)]; c.switch_pm = 20 + (int) g.below(700); c.pct_depth = 1 + (int) g.below(6); if (g.below(3) == 0) c.shortio_pm = (int) g.below(500);
    int n = 2 + (int) g.below(3), ns = g.below(4) ? 1 + (int) g.below(2) : 0, own = 1 + (int) g.below(2);
    p.par["n"] = std::to_string(n); p.par["nshared"] = std::to_string(ns); p.par["nown"] = std::to_string(own);
    static const vector<string> ROOT = {"/w/f", "/w/a/b/c/f", "f", "x/y/f/", "/w/f"}; p.par["root"] = g.pick(ROOT);
    static const vector<string> PRE = {"g/", "", "g/h/i/j/", "g/|g/h/", "deep/er/and/deep/er/|deep/", "1/|"}; p.par["pre"] = g.pick(PRE);
    static const vector<i64> BUFS = {1, 16, 32, 64, 256, 4096, 1 << 20}; p.par["buf"] = std::to_string(g.pick(BUFS));
    auto etype = [&] { static const vector<string> ODD = {"S3", "i2", "b1"}; return string(g.below(4) == 0 ? ">" : "<") + (g.below(8) == 0 ? g.pick(ODD) : g.pick(NUM_TYPES)); };
    auto sizes = [&](bool grow) { vector<i64> v; int nf = 1 + (int) g.below(grow ? 2 : 4); for (int i = 0; i < nf; i++) v.push_back(g.below(6) == 0 ? 0 : 1 + (i64) g.below(g.below(5) ? 12 : 60)); return v; };
    { Op o; vector<i64> v = sizes(false); v[0] += 4; o.set("sizes", v); p.par["sizes"] = o.s("sizes"); p.par["dt"] = etype(); p.par["nm"] = std::to_string(1 + g.below(3)); }
    int nb = ns + n * own; int nops = n * (3 + (int) g.below(10)) + (scale ? (int) g.below(30) : 0);
    auto mine = [&](int k) { return (i64) (ns + k * own + (int) g.below(own)); };
    auto mkcreate = [&](int k, i64 b) { p.op("pcreate").set("pr", k).set("b", b).set("dt", etype()).set("nm", 1 + g.below(3)).set("sizes", sizes(false)); };
    bool burst = g.below(2);
    if (burst) for (int k = 0; k < n; k++) { p.op("pfile").set("pr", k); mkcreate(k, ns + k * own); }
    struct Wt { const char * k; int w; }; vector<Wt> w = {{"pcreate", 4}, {"pwrite", 10}, {"pread", 6}, {"pflush", 5}, {"pclose", 4}, {"popen", 4}, {"plist", 3}, {"pattr", 5}, {"prmattr", 1}, {"pgrow", 3}, {"pfile", 1}};
    int tot = 0; for (auto & x : w) tot += x.w;
    for (int i = 0; i < nops; i++) {
        int r = (int) g.below(tot); string q; for (auto & x : w) { if (r < x.w) { q = x.k; break; } r -= x.w; }
        int k = (int) g.below(n);
        if (q == "pcreate") { mkcreate(k, mine(k)); continue; }
        Op & o = p.op(q); o.set("pr", k); bool sh = ns && g.below(2);
        i64 b = sh ? (i64) g.below(ns) : mine(k); if (q == "pread" || q == "popen") b = g.below(nb); if (sh && (q == "pattr" || q == "prmattr")) o.set("pr", 0);
        o.set("b", b);
        if (q == "pwrite" || q == "pread") { o.setu("vs", g.next()).set("start", g.below(2) ? 0 : g.below(1001)).set("len", g.below(2) ? 1000 : g.below(1001)).set("max", 1 + g.below(g.below(4) ? 12 : 80)).set("layout", g.below(3) ? 0 : g.below(9)); if (g.below(3) == 0) o.set("rest", 1); if (g.below(4) == 0) o.set("dt", g.pick(NUM_TYPES)).set("be", g.below(2)); }
        else if (q == "pattr" || q == "prmattr") { static const vector<string> AT = {"i4", "i8", "f8", "S1", "c16"}; o.set("name", g.below(ANAMES.size())).set("dt", g.pick(AT)).set("nm", g.below(8) == 0 ? g.below(200) : 1 + g.below(5)).setu("vs", g.next()); }
        else if (q == "pgrow") o.set("sizes", sizes(true));
        else if (q == "pfile") o.set("again", 1);
    }
    // every process may fill its part, and read what the others left
    for (int k = 0; k < n; k++) for (int s = 0; s < ns; s++) if (g.below(2)) { p.op("pwrite").set("pr", k).set("b", s).set("rest", 1).setu("vs", g.next()); if (g.below(2)) p.op("pclose").set("pr", k).set("b", s); }
    if (g.below(3) == 0) { int nf = 1 + (int) g.below(2); static const unsigned KS[] = {K_IO, K_IO, K_WRITE, K_OPEN, K_RENAME, K_MKDIR, K_CLOSE}; for (int i = 0; i < nf; i++) { Fault f; const Op & o = p.ops[g.below(p.ops.size())]; f.op = o.idx; f.kinds = KS[g.below(7)]; f.n = (int) g.below(g.below(2) ? 2 : 8); f.kill = f.killone = true; p.faults.push_back(f); } }
    return p;
}
}

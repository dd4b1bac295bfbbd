// The command line tools as simulated processes: P23-P26, P29.
#include "model.h"
#include "include/mpi.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <dlfcn.h>

extern "C" {
// generators of the sampling tool: the real ones, released with the run
void * gsl_rng_alloc(const void *); void gsl_rng_free(void *);
}
static std::set<void *> * rngs = new std::set<void *>;
extern "C" void * sim_gsl_rng_alloc(const void * t) { void * r = gsl_rng_alloc(t); rngs->insert(r); return r; }
extern "C" void sim_gsl_rng_free(void * r) { if (r) { rngs->erase(r); gsl_rng_free(r); } }
namespace sim {
namespace {
const vector<string> TN = {"x", "g/x", "g/y", "0/Position", "new", "v2.", "g/new/deep", "%s%n", "xy", string(200, 'l') + "/" + string(255, 'l')};
const vector<string> TA = {"a", "Time", "%d%s%n", "ab", "#HUMANE", "BoxSize", "MassTable"};
const vector<string> ROOTS = {"/w/f", "/w/g", "/w/deep/h"};
struct TB { Hdr h; Attrs a; Bytes rows; vector<unsigned> ck; bool unknown = false, damaged = false, huge = false; std::map<u64, Bytes> sp; };
struct Res { int status = 0; bool killed = false, aborted = false; string out, err; int faulted = 0; bool io = false; };
struct TW {
    const Plan * p; std::map<string, TB> b; std::map<string, Bytes> samples;
    std::map<string, u64> snap; std::set<string> nosum; // blocks with rows written more than once: their checksums add up all that was written
};
TW * W;

void walk_files(const string & path, std::map<string, u64> & m) {
    NodeP n = FS->get(path); if (!n) return;
    if (!n->dir && n->size > (1 << 22)) { u64 h = mix64(n->size, 7); static const std::array<u8, PG> Z = {}; for (auto & x : n->pg) if (x.second != Z) h = mix64(h, x.first, hash_bytes(x.second.data(), PG)); m[path] = h; return; }
    if (!n->dir) { Bytes b = FS->content(path); m[path] = mix64(n->size, hash_bytes(b.data(), b.size())); return; }
    m[path + "/"] = 1;
    for (auto & c : n->ch) walk_files((path == "/" ? "" : path) + "/" + c.first, m);
}
void take_snap() { W->snap.clear(); walk_files("/w", W->snap); }
// nothing below /w may have changed, except below these paths (files) and directories that lead to them
void check_unchanged(const char * tool, const vector<string> & except) {
    std::map<string, u64> now; walk_files("/w", now);
    auto exempt = [&](const string & f) { for (auto & e : except) if (f.compare(0, e.size(), e) == 0 || (f.back() == '/' && e.compare(0, f.size(), f) == 0)) return true; return false; };
    for (auto & x : W->snap) { if (exempt(x.first)) continue; auto i = now.find(x.first); if (i == now.end()) fail("others-changed", "%s removed %s", tool, x.first.c_str()); if (i->second != x.second) fail("others-changed", "%s changed %s", tool, x.first.c_str()); }
    for (auto & x : now) if (!W->snap.count(x.first) && !exempt(x.first)) fail("others-changed", "%s left %s behind", tool, x.first.c_str());
}
// run a tool as one process, or as the ranks of a job started by a launcher
Res run_tool(const Op & o, const char * tool, int n, const vector<string> & args, const string & input, i64 chunk = 0) {
    Res res; bool mpi = n > 0; int np = mpi ? n : 1; string lib = string("tool-") + tool;
    vector<vector<string>> st(np); vector<vector<char *>> av(np); vector<int> code(np, -1), fl(np, 0); vector<char> fin(np, 0);
    lib_restore_all();
    if (mpi) mpi_world(np);
    bool kill_hit = false; int status = 0;
    for (int k = 0; k < np; k++) {
        Proc * pr = new_proc(lib, k, k, np); pr->indata = input;
        st[k] = args; st[k].insert(st[k].begin(), string("bigfile-") + tool); for (auto & s : st[k]) av[k].push_back(&s[0]); av[k].push_back(nullptr);
        if (chunk > 0) if (size_t * c = (size_t *) dlsym(lib_get(lib, k)->h, "CHUNKSIZE")) *c = (size_t) chunk;
        add_task(pr, [&, k, pr] {
            set_op(o.idx); int rc;
            try { rc = api()->sim_main((int) st[k].size(), &av[k][0]); }
            catch (ExitEx & e) { rc = e.code; }
            pr->exited = true; code[k] = rc; exit_flush(pr); fl[k] = R->cur->faulted;
            if (mpi && !pr->finalized && !R->abort) {
                // the launcher ends the job when a process leaves without MPI_Finalize
                status = rc ? rc : 1; res.faulted += fl[k];
                for (Task * t : R->tasks) res.faulted += t != R->cur ? t->faulted : 0;
                R->stat["job_ended_by_launcher"]++; kill_job();
            }
        });
    }
    R->stat[strf("tool.%s", tool)]++;
    if (R->trace) { string s; for (auto & a : args) s += " " + a; tracef("RUN bigfile-%s%s (%d processes)", tool, s.c_str(), np); }
    long k0 = 0; for (auto & f : R->faults) if (f.kill) k0 += f.hits;
    run_tasks();
    long k1 = 0; for (auto & f : R->faults) if (f.kill) k1 += f.hits;
    kill_hit = k1 > k0;
    for (int k = 0; k < np; k++) { res.out += R->procs[k]->outdata; res.err += R->procs[k]->errdata; res.aborted |= R->procs[k]->aborted; if (code[k] > 0 && !status) status = code[k]; res.faulted += res.faulted ? 0 : 0; }
    if (!res.faulted) for (int k = 0; k < np; k++) res.faulted += fl[k];
    res.killed = kill_hit; res.status = status;
    if (R->trace) tracef("status %d killed %d faulted %d err: %s", status, kill_hit, res.faulted, res.err.substr(0, 300).c_str());
    hashv(mix64(status, res.killed, hash_bytes(res.out.data(), res.out.size())));
    end_phase();
    for (void * r : *rngs) gsl_rng_free(r);
    rngs->clear();
    if (R->v.set) throw Killed();
    R->stat[strf("tool.%s.%s", tool, kill_hit ? "killed" : status ? "error" : "ok")]++;
    return res;
}
// the judgement of the exit status
bool ended_well(const char * tool, const Res & r, bool valid) {
    if (r.killed) return false;
    if (r.status == 0) { if (!valid) fail("accepted", "bigfile-%s of an impossible request ended with status 0", tool); return true; }
    if (valid && !r.faulted) fail("invented-failure", "bigfile-%s ended with status %d although no storage call failed%s: %s", tool, r.status, r.aborted ? " (aborted)" : "", r.err.substr(0, 300).c_str());
    if (r.err.empty() && !r.aborted) fail("no-message", "bigfile-%s ended with status %d and no message", tool, r.status);
    return false;
}
Bytes file_bytes(const string & p) { return FS->content(p); }
// the block as it is on storage, read by an independent decoder
bool load_block(const string & path, TB & t, string & why) {
    HdrFile hf; if (!FS->exists(path + "/header")) { why = "no header"; return false; }
    if (!decode_header(slurp(path + "/header"), hf, why)) { why = "header: " + why; return false; }
    t = TB(); t.h = hf.h; t.ck = hf.ck;
    if (FS->exists(path + "/attr-v2") && !decode_attrs(slurp(path + "/attr-v2"), t.a, why)) { why = "attributes: " + why; return false; }
    for (size_t f = 0; f < hf.h.sizes.size(); f++) {
        string p = path + strf("/%06X", (unsigned) f); u64 len = hf.h.sizes[f] * hf.h.rowlen();
        NodeP n = FS->get(p); if (!n) { why = "data file " + p + " is missing"; return false; }
        if (n->size < len) { why = strf("data file %zu has %llu bytes, the header says %llu", f, (unsigned long long) n->size, (unsigned long long) len); return false; }
        Bytes b = FS->read(n, 0, len); t.rows.insert(t.rows.end(), b.begin(), b.end());
        unsigned s = 0; for (u8 c : b) s += c;
        if (W->nosum.count(path)) hf.ck[f] = hf.red[f] = 0; else if (hf.ck[f] != s) { why = strf("the stored checksum of file %zu is %u, the bytes add up to %u", f, hf.ck[f], s); return false; }
        if (!W->nosum.count(path) && hf.red[f] != fold(hf.ck[f])) { why = strf("reduced checksum of file %zu", f); return false; }
    }
    return true;
}
void check_target(const char * tool, const string & path, const TB & want, i64 nfile, TB & got) {
    string why; if (!load_block(path, got, why)) fail("target-damaged", "bigfile-%s ended with status 0 but %s: %s", tool, path.c_str(), why.c_str());
    if (!(got.h.dt == want.h.dt) || got.h.nm != want.h.nm) fail("target-wrong", "bigfile-%s made %s of %sx%d, expected %sx%d", tool, path.c_str(), got.h.dt.str().c_str(), got.h.nm, want.h.dt.str().c_str(), want.h.nm);
    if (nfile >= 0 && (i64) got.h.sizes.size() != nfile) fail("target-wrong", "bigfile-%s made %zu files, expected %lld", tool, got.h.sizes.size(), (long long) nfile);
    if (!(got.a == want.a)) fail("target-wrong", "bigfile-%s: the attributes of %s are %s, expected %s", tool, path.c_str(), attrs_str(got.a).c_str(), attrs_str(want.a).c_str());
}
void check_rows(const char * tool, const string & path, const TB & got, const Bytes & rows) {
    if (got.rows.size() != rows.size()) fail("target-wrong", "bigfile-%s: %s has %llu bytes of rows, expected %zu", tool, path.c_str(), (unsigned long long) got.rows.size(), rows.size());
    for (size_t i = 0; i < rows.size(); i++) if (rows[i] != got.rows[i]) fail("target-wrong", "bigfile-%s: %s differs in row %zu", tool, path.c_str(), i / got.h.rowlen());
}
string tpath(const string & root, const string & name) { return blkpath(root, name); }
TB * find_block(const string & path) { auto i = W->b.find(path); return i == W->b.end() ? nullptr : &i->second; }
string pick_root(const Op & o, const char * k) { return ROOTS[(size_t) o.i(k) % ROOTS.size()]; }
string pick_name(const Op & o, const char * k) { return TN[(size_t) o.i(k) % TN.size()]; }

void do_plant(const Op & o) {
    string path = tpath(pick_root(o, "root"), pick_name(o, "b"));
    if (W->b.count(path)) return;
    TB t; t.h.dt = parse_dt(o.s("dt", "i8")); t.h.nm = (int) o.i("nm", 1); for (i64 x : o.list("sizes")) t.h.sizes.push_back(x);
    Rng g(o.u("vs"));
    i64 total = (i64) t.h.total();
    for (i64 i = 0; i < total * t.h.nm; i++) { u8 v[32]; gen_value(g, t.h.dt, t.h.dt, v); t.rows.insert(t.rows.end(), v, v + t.h.dt.w); }
    i64 na = o.i("na"); static const vector<string> AT = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "S1"};
    for (i64 k = 0; k < na; k++) {
        AttrV a; a.dt = parse_dt(string(g.below(4) ? "<" : ">") + g.pick(AT)); a.dts = a.dt.str(); a.nm = g.below(12) == 0 ? 100 + (int) g.below(200) : 1 + (int) g.below(6);
        for (int i = 0; i < a.nm; i++) { u8 v[32]; if (a.dt.k == 'S') { v[0] = i + 1 == a.nm ? 0 : (u8) ('!' + g.below(90)); } else gen_value(g, a.dt, a.dt, v); a.v.insert(a.v.end(), v, v + a.dt.w); }
        t.a[g.pick(TA)] = a;
    }
    FS->mkdirs(path); size_t at = 0;
    for (size_t f = 0; f < t.h.sizes.size(); f++) { size_t n = t.h.sizes[f] * t.h.rowlen(); Bytes b(t.rows.begin() + at, t.rows.begin() + at + n); at += n; unsigned s = 0; for (u8 c : b) s += c; t.ck.push_back(s); FS->put(path + strf("/%06X", (unsigned) f), b); }
    FS->put(path + "/header", header_text(t.h, t.ck));
    if (!t.a.empty() || g.below(2)) FS->put(path + "/attr-v2", attrs_text(t.a));
    W->b[path] = t;
}
// a block with more rows than 32 bits count: storage keeps only the rows that are there, the rest reads as zeros
void do_hplant(const Op & o) {
    string path = tpath(pick_root(o, "root"), pick_name(o, "b"));
    if (W->b.count(path)) return;
    TB t; t.huge = true; t.h.dt = parse_dt(o.s("dt", "i8")); t.h.nm = (int) o.i("nm", 1); for (i64 x : o.list("sizes")) t.h.sizes.push_back(x);
    Rng g(o.u("vs")); size_t rl = t.h.rowlen(); FS->mkdirs(path); u64 at = 0;
    for (size_t f = 0; f < t.h.sizes.size(); f++) {
        string p = path + strf("/%06X", (unsigned) f); FS->put(p, string()); NodeP n = FS->get(p); u64 N = t.h.sizes[f]; FS->truncate(n, N * rl);
        for (u64 a : {(u64) 0, N, (u64) 1 << 31, (u64) 1 << 32, ((u64) 1 << 31) / rl, ((u64) 1 << 32) / rl, at < ((u64) 1 << 31) ? ((u64) 1 << 31) - at : N / 2, at < ((u64) 1 << 32) ? ((u64) 1 << 32) - at : N / 3})
            for (int k = -3; k < 5; k++) {
                u64 r = a + k; if (r >= N || (a == 0 && k < 0)) continue;
                Bytes b; for (int i = 0; i < t.h.nm; i++) { u8 v[32]; gen_value(g, t.h.dt, t.h.dt, v); b.insert(b.end(), v, v + t.h.dt.w); }
                t.sp[at + r] = b; FS->write(n, r * rl, b.data(), b.size(), -1);
            }
        at += N; t.ck.push_back((unsigned) g.next());
    }
    FS->put(path + "/header", header_text(t.h, t.ck)); FS->put(path + "/attr-v2", string());
    W->b[path] = t; R->stat["huge.planted"]++;
}
Bytes rows_of(const TB & t, u64 a, u64 b) {
    size_t rl = t.h.rowlen(); if (!t.huge) return Bytes(t.rows.begin() + a * rl, t.rows.begin() + b * rl);
    Bytes r; for (u64 i = a; i < b; i++) { auto x = t.sp.find(i); if (x == t.sp.end()) r.resize(r.size() + rl); else r.insert(r.end(), x->second.begin(), x->second.end()); }
    return r;
}
void do_damage(const Op & o) {
    string path = tpath(pick_root(o, "root"), pick_name(o, "b")); TB * t = find_block(path); if (!t || t->unknown || t->h.sizes.empty()) return;
    size_t f = (size_t) o.i("f") % t->h.sizes.size(); string p = path + strf("/%06X", (unsigned) f); NodeP n = FS->get(p); if (!n || t->h.sizes[f] == 0 || t->h.rowlen() == 0) return;
    if (o.i("keep") < 0) FS->remove(p);
    else { u64 keep = t->h.sizes[f] * t->h.rowlen() * o.i("keep") / 1000; FS->truncate(n, keep); }
    t->damaged = true; R->stat["damaged_sources"]++;
}
// can these rows be read, and is it certain that they cannot
bool rows_there(const string & path, const TB & t, i64 a, i64 b) {
    if (!t.damaged) return true;
    i64 at = 0;
    for (size_t f = 0; f < t.h.sizes.size(); f++) {
        i64 lo = std::max(a, at), hi = std::min(b, at + (i64) t.h.sizes[f]);
        if (lo < hi) { NodeP n = FS->get(path + strf("/%06X", (unsigned) f)); if (!n || (i64) n->size < (hi - at) * t.h.rowlen()) return false; }
        at += t.h.sizes[f];
    }
    return true;
}
void do_copy(const Op & o) {
    string what = o.kind == "tcopy" ? "copy" : o.kind == "tcopympi" ? "copy-mpi" : "sample-mpi"; const char * tool = what.c_str();
    bool mpi = what != "copy", sample = what == "sample-mpi";
    string root = pick_root(o, "root"), nroot = o.has("toroot") ? pick_root(o, "toroot") : root, name = pick_name(o, "b"), to = pick_name(o, "to");
    string src = tpath(root, name), dst = tpath(nroot, to);
    if (src == dst) return;
    TB * s = find_block(src); if (s && s->unknown) return;
    if (!FS->isdir(root) && s) return;
    vector<string> args; i64 N = o.i("N", -1);
    if (N > 0) { args.push_back(o.i("smallN") && mpi ? "-n" : mpi ? "-N" : "-n"); args.push_back(std::to_string(N)); }
    if (o.has("B") && !sample) { args.push_back(mpi ? "-b" : "-B"); args.push_back(o.s("B")); }
    if (o.i("v")) args.push_back("-v");
    string ratio = o.s("r", "");
    if (sample && !ratio.empty()) { args.push_back("-r"); args.push_back(ratio); }
    if (o.has("toroot")) { args.push_back("-f"); args.push_back(nroot); }
    args.push_back(root); args.push_back(name); args.push_back(to);
    int n = mpi ? (int) o.i("n", 2) : 0;
    bool valid = s && rows_there(src, *s, 0, (i64) s->h.total()) && (!mpi || n >= 2);
    take_snap();
    Res r = run_tool(o, tool, n, args, "", sample ? o.i("chunk", 0) : 0);
    check_unchanged(tool, {dst + "/"});
    if (!ended_well(tool, r, valid)) {
        std::map<string, u64> now; walk_files(dst, now); bool touched = false;
        std::map<string, u64> old; for (auto & x : W->snap) if (x.first.compare(0, dst.size() + 1, dst + "/") == 0) old[x.first] = x.second;
        touched = now != old;
        if (touched) W->b[dst].unknown = true;
        return;
    }
    TB got; check_target(tool, dst, *s, N > 0 && !s->h.sizes.empty() ? N : (i64) s->h.sizes.size(), got);
    if (!sample || ratio.empty() || atof(ratio.c_str()) == 1.0) check_rows(tool, dst, got, s->rows);
    else {
        // rows of the source, in its order, each at most once
        size_t rl = s->h.rowlen(), i = 0, ns = rl ? s->rows.size() / rl : 0, ng = rl ? got.rows.size() / rl : 0;
        for (size_t k = 0; k < ng; k++) { while (i < ns && memcmp(&s->rows[i * rl], &got.rows[k * rl], rl)) i++; if (i == ns) fail("sample-wrong", "row %zu of the sample of %s is no row of the source after the ones before it", k, src.c_str()); i++; }
        R->stat["sampled_rows"] += ng;
    }
    if (sample) {
        string key = src + strf("|%llx|", (unsigned long long) hash_bytes(s->rows.data(), s->rows.size())) + (ratio.empty() ? "1.0" : ratio) + "|" + o.s("chunk", "0");
        auto it = W->samples.find(key);
        if (it == W->samples.end()) W->samples[key] = got.rows;
        else { R->stat["samples_compared"]++; if (it->second != got.rows) fail("sample-differs", "the same sample of %s came out differently (%zu and %zu bytes) with %d processes", src.c_str(), it->second.size(), got.rows.size(), n); }
    }
    W->b[dst] = got;
}
// ---- text forms ---------------------------------------------------------------------------
bool num_close(double want, const string & tok, size_t & used, bool is4, double tol) {
    const char * c = tok.c_str() + used; char * e; double v = is4 ? strtof(c, &e) : strtod(c, &e); if (e == c) return false;
    used = e - tok.c_str();
    if (want != want) return v != v;
    if (std::isinf(want) || std::isinf(v)) { return v == want || (std::isinf(v) && std::fabs(want) > 1.797e308) || (is4 && std::isinf(v) && std::fabs(want) > 3.4e38); }
    return std::fabs(v - want) <= tol * std::fabs(want) + (tol > 0 ? 1e-44 : 0);
}
bool text_is(const DT & d, const u8 * p, const string & tok, double tol) {
    u8 n[32]; DT nat(d.k, d.w, false); conv(nat, n, d, p); char * e; const char * c = tok.c_str();
    if (tok.empty()) return false;
    if (d.k == 'b') { long v = strtol(c, &e, 10); return *e == 0 && v == (signed char) n[0]; }
    if (d.k == 'i') { i64 w; if (d.w == 4) { int32_t x; memcpy(&x, n, 4); w = x; } else memcpy(&w, n, 8); errno = 0; i64 v = strtoll(c, &e, 10); return *e == 0 && v == w && !errno; }
    if (d.k == 'u') { u64 w; if (d.w == 4) { uint32_t x; memcpy(&x, n, 4); w = x; } else memcpy(&w, n, 8); if (c[0] == '-') return false; errno = 0; u64 v = strtoull(c, &e, 10); return *e == 0 && v == w && !errno; }
    size_t used = 0;
    if (d.k == 'f') { double w; if (d.w == 4) { float x; memcpy(&x, n, 4); w = x; } else memcpy(&w, n, 8); return num_close(w, tok, used, d.w == 4, tol) && used == tok.size(); }
    if (d.k == 'c') {
        double a, b; if (d.w == 8) { float x; memcpy(&x, n, 4); a = x; memcpy(&x, n + 4, 4); b = x; } else { memcpy(&a, n, 8); memcpy(&b, n + 8, 8); }
        if (!num_close(a, tok, used, d.w == 8, tol) || used >= tok.size() || tok[used] != '+') return false;
        used++; return num_close(b, tok, used, d.w == 8, tol) && tok.substr(used) == "I";
    }
    return false;
}
vector<string> split(const string & s, char c) { vector<string> v; size_t a = 0; while (a <= s.size()) { size_t e = s.find(c, a); if (e == string::npos) e = s.size(); v.push_back(s.substr(a, e - a)); a = e + 1; } return v; }
bool printable(const DT & d) { for (auto & t : NUM_TYPES) if (d.body() == t) return true; return d.body() == "b1"; }
void do_cat(const Op & o) {
    string root = pick_root(o, "root"), name = pick_name(o, "b"), path = tpath(root, name); TB * s = find_block(path); if (s && s->unknown) return;
    bool bin = o.i("bin"); if (s && !printable(s->h.dt)) bin = true;
    bool prec = !bin && s && s->h.dt.k == 'f' && o.i("prec");
    i64 size = s ? (i64) s->h.total() : 0; i64 off = o.has("o") ? o.i("o") * (size + 3) / 1000 : 0, cnt = o.has("c") ? o.i("c") * (size + 3) / 1000 : -1;
    if (s && s->huge) {
        size_t rl = s->h.rowlen(); const u64 A[] = {0, (u64) size, 1ull << 31, 1ull << 32, (1ull << 31) / rl, (1ull << 32) / rl, (u64) size / 2, s->h.sizes[0], s->h.sizes[0] + (1ull << 31), s->h.sizes[0] + (1ull << 32)};
        if (!o.has("o") || !o.has("c")) return;
        off = std::max<i64>(0, (i64) A[(size_t) o.i("o") % 10] + o.i("c") % 9 - 4); cnt = o.i("c") % 60; if (off > size) off = size;
        if (size - off < 60 && o.i("c") % 3 == 0) cnt = 1000;
        if (size - off < 60 && o.i("c") % 7 == 0) cnt = -1;
    } else if (o.i("hugeonly")) return;
    vector<string> args;
    if (bin) args.push_back("-b"); if (o.has("o")) { args.push_back("-o"); args.push_back(std::to_string(off)); }
    if (o.has("c") && cnt >= 0) args.push_back("-c" + std::to_string(cnt)); if (o.has("B")) { args.push_back("-B"); args.push_back(o.s("B")); }
    if (prec) { args.push_back("-f"); args.push_back("%.17g"); }
    args.push_back(root); args.push_back(name);
    i64 a = std::min(off, size), b = cnt < 0 ? size : std::min(size, off + cnt); if (b < a) b = a;
    bool valid = s && rows_there(path, *s, a, b);
    take_snap();
    Res r = run_tool(o, "cat", 0, args, "");
    check_unchanged("bigfile-cat", {});
    bool ok = ended_well("cat", r, valid);
    if (!s || r.killed) return;
    size_t rl = s->h.rowlen(), nm = s->h.nm; Bytes want = rows_of(*s, a, b);
    if (bin) {
        if (ok ? r.out.size() != want.size() : r.out.size() > want.size()) fail("output-wrong", "bigfile-cat wrote %zu bytes for rows %lld to %lld, expected %zu", r.out.size(), (long long) a, (long long) b, want.size());
        if (ok || !r.io) for (size_t i = 0; i < r.out.size(); i++) if ((u8) r.out[i] != want[i]) { if (!ok && r.faulted) return; fail("output-wrong", "bigfile-cat: byte %zu of the output (row %lld) is wrong", i, (long long) (a + i / (rl ? rl : 1))); }
    } else if (ok) {
        vector<string> l = split(r.out, '\n'); if (!l.back().empty()) fail("output-wrong", "the last line of bigfile-cat is not terminated"); l.pop_back();
        if ((i64) l.size() != b - a) fail("output-wrong", "bigfile-cat printed %zu rows, expected %lld (%lld to %lld of %lld)", l.size(), (long long) (b - a), (long long) a, (long long) b, (long long) size);
        for (size_t i = 0; i < l.size(); i++) {
            vector<string> t; for (auto & x : split(l[i], ' ')) if (!x.empty()) t.push_back(x);
            if (t.size() != nm) fail("output-wrong", "row %zu of bigfile-cat has %zu values, expected %zu: %s", i, t.size(), nm, l[i].substr(0, 200).c_str());
            for (size_t k = 0; k < nm; k++) if (!text_is(s->h.dt, &want[i * rl + k * s->h.dt.w], t[k], prec ? 0 : 1e-5)) fail("output-wrong", "bigfile-cat printed `%s' for value %zu of row %lld of %s", t[k].c_str(), k, (long long) (a + i), path.c_str());
        }
    }
    if (ok) R->stat["rows_dumped"] += b - a;
}
void do_create(const Op & o) {
    string root = pick_root(o, "root"), name = pick_name(o, "b"), path = tpath(root, name);
    string dts = o.s("dt", "i8"); DT d = parse_dt(dts); int nm = (int) o.i("nm", 1); i64 rows = o.i("rows"); size_t rl = (size_t) d.w * nm;
    bool badtype = o.i("bad"); if (badtype) { dts = o.s("badtype", "<x9"); rl = 8; }
    string in; Rng g(o.u("vs")); for (size_t i = 0; i < (size_t) rows * rl; i++) in += (char) g.next(); for (i64 i = 0; i < o.i("frag") % (i64) rl; i++) in += 'Z';
    vector<string> args; if (nm != 1 || o.i("expl")) { args.push_back("-n"); args.push_back(std::to_string(nm)); } if (o.has("B")) { args.push_back("-B"); args.push_back(o.s("B")); }
    args.push_back(root); args.push_back(name); args.push_back(dts);
    take_snap();
    Res r = run_tool(o, "create", 0, args, in);
    check_unchanged("bigfile-create", {path + "/"});
    bool ok = ended_well("create", r, !badtype);
    if (!ok) { if (!badtype) W->b[path].unknown = true; else { std::map<string, u64> now, old; walk_files(path, now); for (auto & x : W->snap) if (x.first.compare(0, path.size() + 1, path + "/") == 0) old[x.first] = x.second; if (now != old && W->b.count(path)) W->b[path].unknown = true; } return; }
    TB want; want.h.dt = d; want.h.nm = nm; TB got;
    check_target("create", path, want, 1, got);
    check_rows("create", path, got, Bytes(in.begin(), in.begin() + (size_t) rows * rl));
    R->stat["rows_imported"] += rows; W->b[path] = got;
}
// ---- attributes ------------------------------------------------------------------------------
string gen_text(Rng & g, const DT & d, u8 * native_out) {
    string t; u8 n[32]; memset(n, 0, sizeof n);
    if (d.k == 'i') { i64 v = g.below(2) ? g.range(-1000, 1000) : (i64) g.next(); if (d.w == 4) { int32_t x = (int32_t) v; memcpy(n, &x, 4); t = std::to_string(x); } else { memcpy(n, &v, 8); t = std::to_string(v); } }
    else if (d.k == 'u') { u64 v = g.below(2) ? g.below(1000) : g.next(); if (d.w == 4) { uint32_t x = (uint32_t) v; memcpy(n, &x, 4); t = std::to_string(x); } else { memcpy(n, &v, 8); t = std::to_string(v); } }
    else {
        auto one = [&](int w, u8 * out) { double v = g.below(3) == 0 ? (double) g.range(-50, 50) : g.range(-1000000, 1000000) / 1024.0 * pow(10, (double) g.range(-12, 12)); string s = strf(g.below(2) ? "%.17g" : "%.8e", v); if (w == 4) { float f = strtof(s.c_str(), nullptr); memcpy(out, &f, 4); } else { double f = strtod(s.c_str(), nullptr); memcpy(out, &f, 8); } return s; };
        if (d.k == 'f') t = one(d.w, n); else { t = one(d.w / 2, n); t += g.below(2) ? " + " : "+"; t += one(d.w / 2, n + d.w / 2); t += " I"; }
    }
    DT nat(d.k, d.w, false); conv(d, native_out, nat, n); return t;
}
void do_set(const Op & o) {
    string root = pick_root(o, "root"), name = pick_name(o, "b"), path = tpath(root, name); TB * s = find_block(path); if (s && s->unknown) return;
    string an = TA[(size_t) o.i("name") % TA.size()]; bool force = o.i("f"); string t = o.s("t", ""); i64 nflag = o.i("n", 0);
    Rng g(o.u("vs"));
    AttrV * old = s && s->a.count(an) ? &s->a[an] : nullptr; if (force) old = nullptr;
    DT d; bool valid = s != nullptr;
    if (!t.empty()) d = parse_dt(t); else if (old) d = old->dt; else { valid = false; d = DT('i', 4); }
    i64 nval = std::max<i64>(1, o.i("nval", 1)), nn = nflag; if (nn == 0 && old) nn = old->nm;
    vector<string> vals; AttrV nv; nv.dt = d; nv.dts = d.str();
    if (d.k == 'S') {
        string str; i64 len = o.i("nval", 1) - 1; if (nn > 0 && o.i("match")) len = nn - 1;
        for (i64 i = 0; i < len; i++) str += (char) (i == 0 ? 'A' + g.below(26) : '!' + g.below(90));
        vals.push_back(str); if (nn == 0) nn = (i64) str.size() + 1; if (nn != (i64) str.size() + 1) valid = false;
        nv.v.assign(str.begin(), str.end()); nv.v.push_back(0); nv.nm = (int) nn;
    } else {
        if (nn > 0 && o.i("match")) nval = nn;
        if (nn == 0) nn = nval; if (nn != nval) valid = false;
        for (i64 i = 0; i < nval; i++) { u8 b[32]; vals.push_back(gen_text(g, d, b)); nv.v.insert(nv.v.end(), b, b + d.w); }
        nv.nm = (int) nn;
        if (o.i("junk")) { vals[g.below(vals.size())] = o.i("junk") == 1 ? "abc" : ""; valid = false; }
    }
    // a negative first value would look like an option only before the path
    vector<string> args; if (force) args.push_back("-f"); if (!t.empty()) { args.push_back("-t"); args.push_back(t); } if (nflag) { args.push_back("-n"); args.push_back(std::to_string(nflag)); }
    args.push_back(root); args.push_back(name); args.push_back(an); for (auto & v : vals) args.push_back(v);
    take_snap();
    Res r = run_tool(o, "set-attr", 0, args, "");
    check_unchanged("bigfile-set-attr", valid && s ? vector<string>{path + "/attr-v2"} : vector<string>{});
    bool ok = ended_well("set-attr", r, valid);
    if (!valid || !s) return;
    Attrs want = s->a; want[an] = nv; Attrs got; string why;
    if (FS->exists(path + "/attr-v2") && !decode_attrs(slurp(path + "/attr-v2"), got, why)) fail("metadata-damaged", "the attributes of %s after bigfile-set-attr: %s", path.c_str(), why.c_str());
    if (ok) { if (!(got == want)) fail("attributes-wrong", "bigfile-set-attr: the attributes of %s are %s, expected %s", path.c_str(), attrs_str(got).c_str(), attrs_str(want).c_str()); R->stat["attributes_set"]++; }
    else if (!(got == want) && !(got == s->a)) fail("attributes-wrong", "after a failed bigfile-set-attr the attributes of %s are %s, neither the old nor the new ones", path.c_str(), attrs_str(got).c_str());
    s->a = got;
}
bool shows(const AttrV & a, const string & t) {
    if (a.dt.k == 'S') { string w; for (u8 c : a.v) if (c) w += (char) c; return t == w; }
    vector<string> v; for (auto & x : split(t, ' ')) if (!x.empty()) v.push_back(x);
    if ((int) v.size() != a.nm) return false;
    for (int i = 0; i < a.nm; i++) if (!text_is(a.dt, &a.v[(size_t) i * a.dt.w], v[i], 1e-5)) return false;
    return true;
}
void do_get(const Op & o) {
    string root = pick_root(o, "root"), name = pick_name(o, "b"), path = tpath(root, name); TB * s = find_block(path); if (s && s->unknown) return;
    bool l = o.i("l"); vector<string> names; for (i64 x : o.list("names")) names.push_back(TA[(size_t) x % TA.size()]);
    vector<string> args; if (l) args.push_back("-l"); args.push_back(root); args.push_back(name); for (auto & x : names) args.push_back(x);
    take_snap();
    Res r = run_tool(o, "get-attr", 0, args, "");
    check_unchanged("bigfile-get-attr", {});
    if (!ended_well("get-attr", r, s != nullptr)) return;
    if (r.faulted) return;
    vector<string> want = names; if (names.empty()) for (auto & x : s->a) want.push_back(x.first);
    vector<string> lines = split(r.out, '\n'); if (!lines.back().empty()) fail("output-wrong", "the output of bigfile-get-attr is not terminated"); lines.pop_back();
    if (lines.size() != want.size()) fail("output-wrong", "bigfile-get-attr printed %zu lines for %zu attributes", lines.size(), want.size());
    bool full = l || names.size() != 1; vector<char> used(lines.size(), 0);
    for (size_t i = 0; i < want.size(); i++) {
        auto it = s->a.find(want[i]); bool ok = false;
        for (size_t k = 0; k < lines.size() && !ok; k++) {
            if (used[k]) continue;
            const string & ln = lines[k]; bool m = false;
            if (it == s->a.end()) m = ln.find(want[i]) != string::npos && ln.find('[') == string::npos;
            else if (!full) m = shows(it->second, ln);
            else {
                size_t p = ln.compare(0, want[i].size() + 1, want[i] + " ") == 0 ? want[i].size() : string::npos, q = p == string::npos ? p : ln.find('[', p), e = ln.rfind(']');
                if (q != string::npos && e != string::npos && e >= q + 3) {
                    vector<string> h; for (auto & x : split(ln.substr(p, q - p), ' ')) if (!x.empty()) h.push_back(x);
                    m = h.size() == 2 && h[0] == it->second.dt.str() && h[1] == std::to_string(it->second.nm) && shows(it->second, ln.substr(q + 2, e - 1 - (q + 2)));
                }
            }
            if (m) { used[k] = 1; ok = true; }
        }
        if (!ok) fail("output-wrong", "bigfile-get-attr does not show %s%s of %s as it is stored; it printed: %s", want[i].c_str(), it == s->a.end() ? " (no such attribute)" : strf(" (%s, %d values)", it->second.dt.str().c_str(), it->second.nm).c_str(), path.c_str(), r.out.substr(0, 500).c_str());
        R->stat["attributes_shown"]++;
    }
}
void do_ls(const Op & o) {
    string root = pick_root(o, "root"); bool one = o.i("one"); string name = pick_name(o, "b"); bool l = o.i("l");
    if (!FS->isdir(root)) return;
    vector<string> args; if (l) args.push_back("-l"); args.push_back(root); if (one) args.push_back(name);
    take_snap();
    Res r = run_tool(o, "ls", 0, args, "");
    check_unchanged("bigfile-ls", {});
    if (r.killed) return;
    TB * s = find_block(tpath(root, name)); if (one && s && s->unknown) return;
    if (one && !s) { if (!r.out.empty()) fail("output-wrong", "bigfile-ls shows a block that does not exist: %s", r.out.substr(0, 200).c_str()); return; }
    if (!r.faulted && r.status) fail("invented-failure", "bigfile-ls ended with status %d although no storage call failed: %s", r.status, r.err.substr(0, 200).c_str());
    std::map<string, TB *> want; for (auto & x : W->b) if (x.first.compare(0, root.size() + 1, root + "/") == 0) { string nme = x.first.substr(root.size() + 1); if (!one || nme == name) want[nme] = &x.second; }
    if (r.faulted) { bool stdio = false; for (auto & f : R->faults) if (f.hits && f.op == o.idx && (f.kinds & K_STDIO)) stdio = true; if (stdio) return; }
    vector<string> lines = split(r.out, '\n'); if (!lines.back().empty()) fail("output-wrong", "the output of bigfile-ls is not terminated"); lines.pop_back();
    std::set<string> seen;
    for (auto & ln : lines) {
        vector<string> t; for (auto & x : split(ln, ' ')) if (!x.empty()) t.push_back(x);
        if (t.empty() || !want.count(t[0])) fail("output-wrong", "bigfile-ls shows `%s', which is no block", ln.substr(0, 200).c_str());
        if (!seen.insert(t[0]).second) fail("output-wrong", "bigfile-ls shows %s twice", t[0].c_str());
        TB & b = *want[t[0]]; if (b.unknown) continue;
        if (!l) { if (t.size() != 1) fail("output-wrong", "bigfile-ls: unexpected line `%s'", ln.c_str()); continue; }
        unsigned sum = 0; for (unsigned c : b.ck) sum += c;
        if (t.size() < 7 || t[1] != b.h.dt.str() || atoi(t[2].c_str()) != b.h.nm || strtoull(t[3].c_str(), nullptr, 10) != b.h.total() || strtoul(t[4].c_str(), nullptr, 10) != fold(sum) || atoi(t[5].c_str()) != (int) b.h.sizes.size())
            fail("output-wrong", "bigfile-ls shows `%s' for a block %s with checksum %u", ln.c_str(), b.h.str().c_str(), fold(sum));
    }
    if (!r.faulted) for (auto & x : want) if (!x.second->unknown && !seen.count(x.first)) fail("output-wrong", "bigfile-ls does not show %s", x.first.c_str());
    R->stat["blocks_listed"] += lines.size();
}

// ---- the benchmark: row k of its block holds the number k in every column ----------------------
const vector<string> IROOTS = {"/w/f", "/w/my f", "/w/g", "/w/my", "/w/it's%d", "/w/-g/" + string(200, 'l')};
const vector<string> MODES = {"create", "read", "update", "grow"};
Bytes count_rows(const Hdr & h, i64 from, i64 n) {
    Bytes r; DT i8('i', 8, false);
    for (i64 k = 0; k < n; k++) for (int j = 0; j < h.nm; j++) { i64 v = from + k; u8 b[32]; conv(h.dt, b, i8, (const u8 *) &v); r.insert(r.end(), b, b + h.dt.w); }
    return r;
}
vector<i64> even_split(i64 rows, i64 nf) { vector<i64> v; for (i64 f = 0; f < nf; f++) v.push_back(rows * (f + 1) / nf - rows * f / nf); return v; }
void do_iosim(const Op & o) {
    const string root = IROOTS[(size_t) o.i("root") % IROOTS.size()], path = root + "/TestBlock", mode = MODES[(size_t) o.i("mode") % 4];
    int n = (int) o.i("n", 2); i64 nw = o.i("nw", 0), nf = o.i("f", 0), rows = o.i("s", 1024), w = o.i("w", 1); bool purge = o.i("p");
    TB * s = find_block(path); if (s && s->unknown && mode != "create") return;
    if (mode == "create" && root.find(' ') != string::npos) return; // blocks are not created below such a path
    vector<string> args;
    if (o.i("A")) args.push_back("-A");
    if (o.has("nw")) { args.push_back("-n"); args.push_back(std::to_string(nw)); }
    if (o.has("f")) { args.push_back("-f"); args.push_back(std::to_string(nf)); }
    if (o.has("s")) { args.push_back("-s"); args.push_back(std::to_string(rows)); }
    if (o.has("w")) { args.push_back("-w"); args.push_back(std::to_string(w)); }
    if (purge) args.push_back("-p");
    args.push_back(mode); args.push_back(root);
    if (nw == 0 || nw > n) nw = n;
    if (nf == 0) nf = nw;
    TB want; Hdr old; Bytes oldrows; bool valid = s != nullptr;
    if (s) { want = *s; old = s->h; oldrows = s->rows; }
    if (mode == "create") { want = TB(); want.h.dt = DT('i', 8, false); want.h.nm = (int) w; for (i64 x : even_split(rows, nf)) want.h.sizes.push_back(x); want.rows = count_rows(want.h, 0, rows); valid = true; }
    else if (s && mode == "grow") { Bytes b = count_rows(want.h, (i64) old.total(), rows); for (i64 x : even_split(rows, nf)) want.h.sizes.push_back(x); want.rows.insert(want.rows.end(), b.begin(), b.end()); }
    else if (s && mode == "update") want.rows = count_rows(want.h, 0, (i64) old.total());
    else if (s) valid = s->rows == count_rows(want.h, 0, (i64) old.total());
    const string tl = root + "/" + mode + "-timelog"; Bytes tl0 = FS->content(tl); bool hadroot = FS->isdir(root);
    take_snap();
    // the whole directory may appear with the create
    Res r = run_tool(o, "iosim", n, args, "");
    vector<string> ex = {tl, path + "/"};
    if (mode == "read" && !purge) ex.pop_back();
    check_unchanged("iosim", ex);
    if (r.err.empty() && (r.out.find("Error occured: ") != string::npos || r.out.find("corrupted") != string::npos)) { size_t at = r.out.find("Error occured: "); if (at == string::npos) at = 0; r.err = r.out.substr(at); }
    if (r.err.empty() && r.faulted && !r.killed) r.err = "(standard output failed)";
    if (!ended_well("iosim", r, valid)) {
        if (mode == "grow" && s && !purge) {
            // whatever became of the growth, the rows from before are where they were
            size_t at = 0;
            for (size_t f = 0; f < old.sizes.size(); f++) {
                size_t len = old.sizes[f] * old.rowlen(); Bytes b = FS->content(path + strf("/%06X", (unsigned) f));
                if (b.size() < len || (len && memcmp(&b[0], &oldrows[at], len))) fail("old-rows-lost", "iosim grow of %s failed and data file %zu lost rows", path.c_str(), f);
                at += len;
            }
        }
        if (mode != "read" || purge) { if (s || FS->exists(path)) W->b[path].unknown = true; }
        return;
    }
    (void) hadroot;
    if (!r.faulted) {
        Bytes t = FS->content(tl); if (t.size() < tl0.size() || (tl0.size() && memcmp(&t[0], &tl0[0], tl0.size()))) fail("timelog", "%s lost what it held", tl.c_str());
        string add(t.begin() + tl0.size(), t.end()); vector<string> l = split(add, '\n');
        if ((int) l.size() != n + 4 || l[1].compare(0, mode.size() + 1, mode + "\t") || !l.back().empty()) fail("timelog", "%s got %zu lines for %d processes", tl.c_str(), l.size(), n);
    }
    R->stat["iosim." + mode]++;
    if (purge) {
        if (FS->exists(path)) fail("not-purged", "iosim -p left %s", path.c_str());
        W->b.erase(path); R->stat["iosim.purged"]++; return;
    }
    if (mode == "create") W->nosum.erase(path);
    if (mode == "update") W->nosum.insert(path);
    TB got; check_target("iosim", path, want, (i64) want.h.sizes.size(), got);
    if (got.h.sizes != want.h.sizes) fail("target-wrong", "iosim %s: the rows of %s are not spread evenly over its files", mode.c_str(), path.c_str());
    check_rows("iosim", path, got, want.rows);
    W->b[path] = got;
}
void plant_iosim(const Op & o) {
    string path = IROOTS[(size_t) o.i("root") % IROOTS.size()] + "/TestBlock"; if (W->b.count(path)) return;
    TB t; t.h.dt = parse_dt(o.s("dt", "<i8")); t.h.nm = (int) o.i("w", 1); for (i64 x : o.list("sizes")) t.h.sizes.push_back(x);
    i64 total = (i64) t.h.total(); t.rows = count_rows(t.h, 0, total);
    if (o.has("wrong") && !t.rows.empty()) { size_t el = (size_t) o.i("wrong") % (t.rows.size() / t.h.dt.w), rl = (size_t) t.h.dt.w; u8 b[32]; i64 v = (i64) (el / t.h.nm) + 1 + (i64) (o.i("wrong") % 250); conv(t.h.dt, b, DT('i', 8, false), (const u8 *) &v); memcpy(&t.rows[el * rl], b, rl); }
    FS->mkdirs(path); size_t at = 0;
    for (size_t f = 0; f < t.h.sizes.size(); f++) { size_t n = t.h.sizes[f] * t.h.rowlen(); Bytes b(t.rows.begin() + at, t.rows.begin() + at + n); at += n; unsigned s = 0; for (u8 c : b) s += c; t.ck.push_back(s); FS->put(path + strf("/%06X", (unsigned) f), b); }
    FS->put(path + "/header", header_text(t.h, t.ck)); FS->put(path + "/attr-v2", attrs_text(t.a));
    W->b[path] = t;
}
}
void exec_tools(const Plan & p) {
    TW w; w.p = &p; W = &w;
    struct Clear { ~Clear() { W = nullptr; } } clear;
    for (auto & o : p.ops) {
        if (o.kind == "plant") do_plant(o);
        else if (o.kind == "hplant") do_hplant(o);
        else if (o.kind == "damage") do_damage(o);
        else if (o.kind == "tcopy" || o.kind == "tcopympi" || o.kind == "tsample") do_copy(o);
        else if (o.kind == "tcat") do_cat(o);
        else if (o.kind == "tcreate") do_create(o);
        else if (o.kind == "tset") do_set(o);
        else if (o.kind == "tget") do_get(o);
        else if (o.kind == "tls") do_ls(o);
        else if (o.kind == "tiosim") do_iosim(o);
        else if (o.kind == "piosim") plant_iosim(o);
    }
    // every block that is known is still what it was
    for (auto & x : w.b) {
        if (x.second.unknown || x.second.damaged || x.second.huge) continue;
        TB t; string why; if (!load_block(x.first, t, why)) fail("block-damaged", "%s: %s", x.first.c_str(), why.c_str());
        if (!(t.h == x.second.h) || !(t.a == x.second.a) || t.rows != x.second.rows) fail("block-damaged", "%s is not what it was", x.first.c_str());
    }
}
Plan gen_tools(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x70015, prop[2])); Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next(); c.dtunknown = g.below(3) == 0;
    static const int POL[] = {0, 1, 1, 2, 2, 3}; c.policy = POL[g.below(6)]; c.switch_pm = 20 + (int) g.below(700); c.pct_depth = 1 + (int) g.below(6); c.eager_pm = (int) g.below(1001); c.weak_pm = (int) g.below(1001);
    if (g.below(3) == 0) c.shortio_pm = (int) g.below(600);
    bool mpi = prop == "P26" || (prop == "P23" && g.below(2)), sample = prop == "P26"; int nroot = 1 + (int) g.below(2);
    int np = mpi ? 2 + (int) g.below(scale ? 8 : 5) : 0;
    auto etype = [&] { static const vector<string> ODD = {"S3", "i2", "b1", "S1"}; return string(g.below(4) == 0 ? ">" : "<") + (g.below(7) == 0 ? g.pick(ODD) : g.pick(NUM_TYPES)); };
    int big = scale ? 400 : 60;
    auto plant = [&](i64 root, i64 b) {
        Op & o = p.op("plant").set("root", root).set("b", b).set("dt", etype()).set("nm", g.below(3) ? 1 + g.below(3) : 1 + g.below(9)).setu("vs", g.next()).set("na", g.below(3) == 0 ? 0 : g.below(6));
        vector<i64> v; int nf = g.below(15) == 0 ? 0 : 1 + (int) g.below(4); for (int i = 0; i < nf; i++) v.push_back(g.below(6) == 0 ? 0 : 1 + (i64) g.below(g.below(4) ? 12 : big)); o.set("sizes", v); return o;
    };
    if (prop == "P29") {
        int np0 = 1 + (int) g.below(scale ? 9 : 6), nr = 1 + (int) g.below(2); vector<i64> rts; for (int i = 0; i < nr; i++) rts.push_back(g.below(IROOTS.size()));
        bool planted = g.below(4) == 0;
        if (planted) {
            static const vector<string> IT = {"<i8", ">i8", "<i4", ">u4", "<u8", ">f4", "<f8", ">f8"};
            Op & o = p.op("piosim").set("root", g.pick(rts)).set("dt", g.pick(IT)).set("w", 1 + g.below(4)); vector<i64> v; int nf = (int) g.below(5); for (int i = 0; i < nf; i++) v.push_back(g.below(5) == 0 ? 0 : g.below(big)); o.set("sizes", v);
            if (g.below(2)) o.set("wrong", g.below(100000)); rts.assign(1, o.i("root"));
        }
        int nops = 1 + (int) g.below(5);
        for (int i = 0; i < nops; i++) {
            Op & o = p.op("tiosim"); i64 mode = planted && i == 0 ? g.below(4) : i == 0 && g.below(6) ? 0 : g.below(8); if (mode >= 4) mode = mode >= 6 ? 1 : mode == 5 ? 3 : 0;
            o.set("mode", mode).set("root", g.pick(rts)).set("n", g.below(3) ? np0 : 1 + g.below(8));
            if (g.below(3)) o.set("s", g.below(8) == 0 ? 0 : g.below(4) ? g.below(60) : g.below(scale ? 3000 : 300));
            if (g.below(2)) o.set("w", 1 + g.below(g.below(3) ? 3 : 20)); if (g.below(2)) o.set("f", g.below(7)); if (g.below(3)) o.set("nw", g.below(8)); if (g.below(3) == 0) o.set("A", 1); if (g.below(12) == 0) o.set("p", 1);
        }
    }
    if ((prop == "P24" || prop == "P25") && g.below(8) == 0) {
        int nb = 1 + (int) g.below(2);
        for (int i = 0; i < nb; i++) {
            static const u64 S[] = {3, 1000, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 2, 1ull << 32, (1ull << 32) + 5, 3000000000ull, 20000000000ull};
            Op & o = p.op("hplant").set("root", 0).set("b", i).set("dt", string(g.below(4) == 0 ? ">" : "<") + g.pick(NUM_TYPES)).set("nm", 1 + g.below(3)).setu("vs", g.next()); vector<i64> v; int nf = 1 + (int) g.below(3); for (int k = 0; k < nf; k++) v.push_back(S[g.below(9)]); o.set("sizes", v);
        }
        int n = 1 + (int) g.below(6);
        for (int i = 0; i < n; i++) {
            if (prop == "P25") { Op & o = p.op(g.below(4) ? "tls" : "tget").set("root", 0).set("b", g.below(nb)); o.set("l", 1); if (o.kind == "tls" && g.below(3) == 0) o.set("one", 1); }
            else { Op & o = p.op("tcat").set("root", 0).set("b", g.below(nb)).set("o", g.below(1000)).set("c", g.below(1000)).set("hugeonly", 1); if (g.below(2)) o.set("bin", 1); if (g.below(3)) o.set("B", g.pick(vector<i64>{1, 7, 16, 64, 100, 1000, 4096, 65536})); if (g.below(3) == 0) o.set("prec", 1); }
        }
        return p;
    }
    int nsrc = 1 + (int) g.below(3); vector<std::pair<i64, i64>> srcs;
    if (prop == "P29" || (prop == "P24" && g.below(4) == 0)) nsrc = 0;
    for (int i = 0; i < nsrc; i++) { i64 r = g.below(nroot), b = i == 0 ? (i64) g.below(4) : (i64) g.below(TN.size()); plant(r, b); srcs.push_back({r, b}); }
    if (prop != "P29" && g.below(12) == 0 && !srcs.empty() && prop != "P25") { auto s = g.pick(srcs); p.op("damage").set("root", s.first).set("b", s.second).set("f", g.below(4)).set("keep", g.below(3) == 0 ? -1 : (i64) g.below(1000)); }
    auto source = [&](Op & o) { if (!srcs.empty() && g.below(14)) { auto s = g.pick(srcs); o.set("root", s.first).set("b", s.second); } else o.set("root", g.below(nroot)).set("b", g.below(TN.size())); };
    static const vector<i64> BS = {1, 7, 8, 16, 24, 32, 64, 100, 256, 1000, 4096, 65536};
    int nops = prop == "P29" ? 0 : 1 + (int) g.below(prop == "P25" ? 6 : sample ? 3 : 4);
    vector<string> ratios = {"0.5", "0.1", "0.9", "0.01", "1.0", "1", "0", "0.3333", "1e-6", "0.99"};
    string ratio = g.pick(ratios); i64 chunk = g.below(5) == 0 ? 0 : 1 + (i64) g.below(g.below(2) ? 8 : 40);
    auto s0 = srcs.empty() ? std::make_pair<i64, i64>(0, 0) : srcs[0];
    for (int i = 0; i < nops; i++) {
        if (prop == "P23" || prop == "P26") {
            Op & o = p.op(sample ? "tsample" : (mpi ? g.below(5) != 0 : g.below(12) == 0) ? "tcopympi" : "tcopy");
            if (sample && g.below(5)) { o.set("root", s0.first).set("b", s0.second).set("r", ratio).set("chunk", chunk); } else { source(o); if (sample) { if (g.below(3)) o.set("r", g.pick(ratios)); if (g.below(2)) o.set("chunk", 1 + g.below(20)); } }
            o.set("to", g.below(TN.size())); if (g.below(2)) o.set("toroot", g.below(ROOTS.size()));
            if (o.kind != "tcopy") o.set("n", g.below(25) == 0 ? 1 : g.below(3) ? np ? np : 2 : 2 + g.below(5));
            if (g.below(2)) o.set("N", 1 + g.below(g.below(4) ? 4 : 20)); if (g.below(8)) o.set("B", g.pick(BS)); if (g.below(10) == 0) o.set("v", 1); if (g.below(2)) o.set("smallN", 1);
            if (g.below(2)) srcs.push_back({o.has("toroot") ? o.i("toroot") : o.i("root"), o.i("to")});
        } else if (prop == "P24") {
            if (g.below(2) || srcs.empty()) {
                Op & o = p.op("tcreate").set("root", g.below(ROOTS.size())).set("b", g.below(TN.size())).set("dt", etype()).set("nm", 1 + g.below(4)).set("rows", g.below(8) == 0 ? 0 : g.below(g.below(4) ? 30 : big * 3)).set("frag", g.below(4) == 0 ? g.below(40) : 0).setu("vs", g.next());
                if (g.below(30)) o.set("B", g.pick(BS)); if (g.below(2)) o.set("expl", 1); if (g.below(15) == 0) { static const vector<string> BAD = {"<x9", "i", "q8", "<i-4", "?8", "<i4294967300"}; o.set("bad", 1).set("badtype", g.pick(BAD)); }
                srcs.push_back({o.i("root"), o.i("b")});
            } else {
                Op & o = p.op("tcat"); source(o); if (g.below(2)) o.set("bin", 1); if (g.below(2)) o.set("o", g.below(1001)); if (g.below(2)) o.set("c", g.below(1001)); if (g.below(10)) o.set("B", g.pick(BS)); if (g.below(3) == 0) o.set("prec", 1);
            }
        } else {
            int q = (int) g.below(5); Op & o = p.op(q < 2 ? "tset" : q < 4 ? "tget" : "tls"); source(o);
            if (q < 2) {
                static const vector<string> AT = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "S1", "<i4", ">i8", ">f4", "=f8", ">c16", ">u4", "|S1"};
                o.set("name", g.below(TA.size())).setu("vs", g.next()).set("nval", g.below(12) == 0 ? 50 + g.below(100) : 1 + g.below(5)).set("match", g.below(3) != 0);
                if (g.below(3)) o.set("t", g.pick(AT)); if (g.below(4) == 0) o.set("f", 1); if (g.below(4) == 0) o.set("n", 1 + g.below(6)); if (g.below(10) == 0) o.set("junk", 1 + g.below(2));
            } else if (q < 4) { if (g.below(2)) o.set("l", 1); vector<i64> v; int n = (int) g.below(4); for (int k = 0; k < n; k++) v.push_back(g.below(TA.size())); o.set("names", v); }
            else { if (g.below(3)) o.set("l", 1); if (g.below(4) == 0) o.set("one", 1); }
        }
    }
    // faults
    if (g.below(10) < (prop == "P25" ? 4u : 5u)) {
        vector<Op> run; for (auto & o : p.ops) if (o.kind[0] == 't') run.push_back(o);
        int nf = 1 + (int) g.below(3);
        for (int i = 0; i < nf; i++) {
            Fault f; const Op & o = g.pick(run); f.op = o.idx; static const unsigned KS[] = {K_IO, K_IO, K_OPEN, K_READ, K_READ, K_WRITE, K_WRITE, K_CLOSE, K_RENAME, K_MKDIR, K_STAT, K_DIR, K_STDIO};
            f.kinds = KS[g.below(13)]; f.n = (int) g.below(g.below(2) ? 3 : g.below(2) ? 12 : 60); static const int ER[] = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT, EROFS}; f.err = ER[g.below(6)]; f.cnt = g.below(4) ? 1 : 1000;
            if (o.has("n") && o.kind != "tset" && g.below(2)) f.task = (int) g.below(o.i("n"));
            if (f.kinds & K_CLOSE) { c.closefaults = true; if (f.kinds == K_CLOSE) f.lose = g.below(3) != 0; }
            if (g.below(10) == 0) { f.kill = true; f.err = 0; if (g.below(2)) f.tear = (int) g.below(1001); }
            p.faults.push_back(f);
        }
        if (g.below(15) == 0) c.fdlimit = 1 + (int) g.below(4);
    }
    return p;
}
}

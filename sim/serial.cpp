// Serial histories against the reference model: P01-P13 and the serial half of P20.
#include "model.h"
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <functional>
extern "C" void sim_free(void *);

namespace sim {
static const vector<string> ATTR_NAMES = {"a", "ab", "Time", "%d%s%n", "#HUMANE", "long-name-that-goes-on-and-on-and-on-and-on-0123456789", "z/y.x", "b", "[x]", "\xc3\xa9", "100%"};
static const vector<string> BAD_NAMES = {"", "a b", "a\tb", "a\n", " "};
static const vector<string> BLOCK_NAMES = {"x", "xy", "g/x", "g/x2", "g/h/i/j", "%s%n", "pos.v", "g2", "xy_", "deep/er/b", "000000x", "1/Position", "1/Velocity", "headers", "q=1", "v2.", "g./x."};
// long components and long paths (each within NAME_MAX, the whole below the 1 KiB at which allocations are made to fail)
static string long_name(Rng & g) { static const int LEN[] = {60, 120, 200, 250, 255}; string s; int n = 1 + (int) g.below(5); char c = (char) ('k' + g.below(2)); for (int i = 0; i < n; i++) { string t((size_t) LEN[g.below(5)], c); if (s.size() + t.size() < 700) s += (i ? "/" : "") + t; } return s; }

struct Hand {
    bool open = false; BigBlock bb; string path, name; int f = 0;
    Hdr hd; Attrs at; bool wrote = false, hdirty = false, adirty = false;
    BigBlockPtr ptr; i64 pos = -1;
    bool wild = false;   // opened from damaged metadata
    bool stale = false;  // rows were written through another handle since this one was opened
};
struct Ser {
    const Plan * p; Model M; BigFile bf[2]; bool fopen_[2] = {false, false};
    std::map<string, std::array<Hand, 2>> hs; vector<string> names; size_t next = 0;
    std::function<void()> pend; bool prevfail = false; vector<string> roots; int result = 0;
    bool serial_only_records = false;
    std::set<string> maybe_blocks; // directories a failed creation may have left
    string path(const Op & o) { return blkpath(roots[o.i("f") % 2], name(o)); }
    string name(const Op & o) { i64 b = o.i("b"); return b < 0 ? "." : names[b % names.size()]; }
    int nopen() { int n = 0; for (auto & x : hs) for (auto & h : x.second) n += h.open; return n; }
    int nopen(const string & q) { auto i = hs.find(q); return i == hs.end() ? 0 : i->second[0].open + i->second[1].open; }
};
static Ser * S;

static bool valid_dt(const string & s) {
    DT d = parse_dt(s);
    return strchr("Sbifuc", d.k) && d.w >= 1 && d.w <= 16;
}
// ---- checks of a handle -----------------------------------------------------------
static void check_hand(const char * what, Hand & h) {
    if (h.wild) return;
    if (h.name != ".") check_bb(what, h.bb, h.hd);
    Attrs a = handle_attrs(h.bb, what);
    if (!(a == h.at)) fail("attributes-wrong", "%s: the handle's attributes of %s are %s, expected %s", what, h.path.c_str(), attrs_str(a).c_str(), attrs_str(h.at).c_str());
}
static Hdr cur_hdr(const string & path) { auto & d = S->M.disk[path]; return d.h.empty() ? Hdr() : d.h.back(); }
static Attrs cur_attrs(const string & path) { auto & d = S->M.disk[path]; return d.a.empty() ? Attrs() : d.a.back(); }
static void lost_process() {
    // the process is gone: unflushed state of its handles with it
    for (auto & x : S->hs) for (auto & h : x.second) { if (h.open && h.wrote) S->M.disk[x.first].exact = false; h.open = false; }
    S->hs.clear(); S->fopen_[0] = S->fopen_[1] = false;
}
static bool need_file(int f) {
    if (S->fopen_[f]) return true;
    if (!FS->isdir(S->roots[f])) return false;
    int rt = api()->big_file_open(&S->bf[f], S->roots[f].c_str());
    judge("big_file_open", rt, true);
    S->fopen_[f] = rt == 0;
    return rt == 0;
}
static Hand * new_hand(const string & path, int k) { Hand & h = S->hs[path][k]; h = Hand(); memset(&h.bb, 0xC3, sizeof h.bb); return &h; }
static bool open_block(const Op & o, Hand * h, const string & path, const string & name, bool valid) {
    int f = o.i("f") % 2;
    auto & d = S->M.disk[path];
    int rt = api()->big_file_open_block(&S->bf[f], &h->bb, name.c_str());
    S->result = rt;
    judge("big_file_open_block", rt, valid);
    if (rt) return false;
    h->open = true; h->path = path; h->name = name; h->f = f; h->hd = cur_hdr(path); h->at = cur_attrs(path); h->pos = -1;
    for (auto & g : S->hs[path]) if (&g != h && g.open && g.wrote) h->stale = true;
    if (d.planted) { check_bb("open", h->bb, h->hd); Attrs a = handle_attrs(h->bb, "open"); if (!(a == h->at)) fail("attributes-wrong", "open of %s yields attributes %s, expected %s", path.c_str(), attrs_str(a).c_str(), attrs_str(h->at).c_str()); }
    check_hand("open", *h);
    return true;
}
// the handle an operation works on, opened if necessary
static Hand * need(const Op & o, bool structural, bool autoopen = true) {
    int f = o.i("f") % 2; string path = S->path(o), name = S->name(o); int k = o.i("h") % 2;
    auto & d = S->M.disk[path];
    if (!d.exists || d.unknown) return nullptr;
    if (structural) { for (int q = 0; q < 2; q++) if (S->hs[path][q].open) k = q; if (S->nopen(path) > 1) return nullptr; }
    Hand & h = S->hs[path][k];
    if (h.open) return h.wild ? nullptr : &h;
    if (!autoopen) return nullptr;
    Hand & other = S->hs[path][1 - k];
    if (other.open && (other.hdirty || other.adirty)) return &other;
    if (!need_file(f)) return nullptr;
    Hand * n = new_hand(path, k);
    R->stat["autoopen"]++;
    return open_block(o, n, path, name, true) ? n : nullptr;
}
static void dirty_rows(Hand & h, const string & path) {
    h.wrote = true;
    for (auto & g : S->hs[path]) if (&g != &h && g.open) g.stale = true;
}
// ---- operations ---------------------------------------------------------------------
static void op_fcreate(const Op & o) {
    int f = o.i("f") % 2; if (S->fopen_[f]) return;
    int rt = api()->big_file_create(&S->bf[f], S->roots[f].c_str());
    judge("big_file_create", rt, true); S->result = rt;
    if (!rt) { S->fopen_[f] = true; if (!FS->isdir(S->roots[f])) fail("effect-missing", "big_file_create succeeded but %s does not exist", S->roots[f].c_str()); }
}
static void op_fopen(const Op & o) {
    int f = o.i("f") % 2; if (S->fopen_[f]) return;
    bool ex = FS->isdir(S->roots[f]);
    int rt = api()->big_file_open(&S->bf[f], S->roots[f].c_str());
    judge("big_file_open", rt, ex); S->result = rt;
    S->fopen_[f] = rt == 0;
}
static void op_fclose(const Op & o) {
    int f = o.i("f") % 2; if (!S->fopen_[f]) return;
    for (auto & x : S->hs) for (auto & h : x.second) if (h.open && h.f == f) return;
    judge("big_file_close", api()->big_file_close(&S->bf[f]), true); S->fopen_[f] = false;
}
static void op_create(const Op & o) {
    int f = o.i("f") % 2; string path = S->path(o), name = S->name(o);
    if (!need_file(f) || S->nopen(path)) return;
    auto & d = S->M.disk[path];
    if (d.hasv1) return;
    string bad = o.s("bad"); bool meta = name == ".";
    Hdr hd; vector<i64> sz = o.list("sizes"); string dt = o.s("dt", "i8");
    hd.dt = parse_dt(dt); hd.nm = (int) o.i("nm", 1); for (i64 x : sz) hd.sizes.push_back(x);
    bool nulldt = dt == "NULL"; if (nulldt) { hd.dt = DT('i', 8); hd.sizes.clear(); }
    if (hd.nm == 0) for (auto & x : hd.sizes) x = 0;
    if (meta) { hd = Hdr(); hd.sizes.clear(); }
    vector<size_t> fs(hd.sizes.begin(), hd.sizes.end());
    string cname = name; bool valid = true;
    int nmarg = hd.nm, nfile = (int) fs.size();
    if (bad == "name") { cname = name + " q"; valid = false; }
    else if (!meta && bad == "dtype") { dt = o.s("baddt", "S20"); valid = false; }
    else if (!meta && bad == "nmemb") { nmarg = -1; valid = false; }
    if (meta && bad != "name") valid = true;
    if (bad == "name") path = "";
    DiskBlk old = d; bool existed = d.exists;
    if (valid) S->pend = [path, hd, meta] {
        auto & x = S->M.disk[path];
        if (meta) { x.exists = true; x.h.clear(); x.a.push_back(Attrs()); if (x.a.size() == 1) { x.a.push_back(Attrs()); } }
        else { x.exists = true; x.unknown = true; }
    };
    Hand tmp; Hand * h = &tmp;
    if (valid) h = new_hand(path, 0);
    int rt = api()->big_file_create_block(&S->bf[f], &h->bb, cname.c_str(), nulldt ? nullptr : dt.c_str(), nmarg, nfile, fs.empty() ? nullptr : fs.data());
    S->result = rt;
    judge("big_file_create_block", rt, valid);
    if (!valid) return;
    if (rt) {
        if (meta) { if (!d.a.size()) d.a.push_back(Attrs()); d.a.push_back(Attrs()); d.exists = true; }
        else { d.exists = true; d.unknown = true; }
        return;
    }
    d.exists = true; d.unknown = false; d.planted = false; d.v1.clear(); d.h = {hd}; d.a = {Attrs()};
    if (meta) d.h.clear();
    d.reset(hd);
    h->open = true; h->path = path; h->name = name; h->f = f; h->hd = hd; h->pos = -1;
    for (size_t i = 0; i < hd.sizes.size() && !meta; i++) {
        NodeP n = FS->get(path + strf("/%06X", (unsigned) i));
        if (!n) fail("effect-missing", "create of %s succeeded but data file %zu does not exist", path.c_str(), i);
        if (n->size) fail("stale-data", "data file %zu of the created block %s is not empty", i, path.c_str());
    }
    check_hand("create", *h);
}
static void op_open(const Op & o) {
    int f = o.i("f") % 2; string path = S->path(o), name = S->name(o); int k = o.i("h") % 2;
    if (!need_file(f) || S->hs[path][k].open) return;
    auto & d = S->M.disk[path];
    if (d.unknown) return;
    Hand & other = S->hs[path][1 - k];
    if (other.open && (other.hdirty || other.adirty)) return;
    if (name == "." && !d.exists) { d.exists = true; d.a = {Attrs()}; }
    bool valid = d.exists;
    string real = name;
    if (o.has("miss")) { real = name + ".missing"; valid = false; Hand t; memset(&t.bb, 0, sizeof t.bb); int rt = api()->big_file_open_block(&S->bf[f], &t.bb, real.c_str()); judge("big_file_open_block", rt, false); return; }
    Hand * h = new_hand(path, k);
    open_block(o, h, path, name, valid);
}
static void flushed(Hand & h, const string & path, int rt) {
    auto & d = S->M.disk[path];
    bool meta = h.name == ".";
    if (rt == 0) {
        if (!meta) d.h = {h.hd}; d.a = {h.at}; h.hdirty = h.adirty = false;
        if (!d.planted) { h.wrote = false; }
        else { h.wrote = false; if (!meta) { } }
    } else {
        if (!meta) d.h.push_back(h.hd);
        d.a.push_back(h.at);
    }
}
static void pend_flush(Hand & h, const string & path) {
    Hdr hd = h.hd; Attrs at = h.at; bool meta = h.name == "."; bool wrote = h.wrote;
    S->pend = [path, hd, at, meta, wrote] { auto & d = S->M.disk[path]; if (!meta) d.h.push_back(hd); d.a.push_back(at); if (wrote) d.exact = false; };
}
static void op_flush(const Op & o, bool close) {
    string path = S->path(o); int k = o.i("h") % 2;
    Hand & h = S->hs[path][k]; if (!h.open) return;
    auto & d = S->M.disk[path];
    if (h.wild) { if (close) { api()->big_block_close(&h.bb); h.open = false; } return; }
    bool hadw = h.wrote, other_wrote = false;
    if (d.planted && h.adirty) { d.planted = false; d.v1 = h.at.empty() ? Attrs() : d.v1; }
    pend_flush(h, path);
    if (o.i("setdirty")) { api()->big_block_set_dirty(&h.bb, 1); }
    // a handle that has not seen the rows written through another one stores a sum without them
    if (h.stale) d.exact = false;
    for (auto & g : S->hs[path]) if (&g != &h && g.open && g.wrote) other_wrote = true;
    int rt = close ? api()->big_block_close(&h.bb) : api()->big_block_flush(&h.bb);
    S->result = rt;
    judge(close ? "big_block_close" : "big_block_flush", rt, true);
    flushed(h, path, rt);
    if (rt && close && hadw) d.exact = false;
    if (close) h.open = false;
    if (rt == 0 && h.name != ".") { if (hadw || !d.planted) { S->M.check(path); if (!other_wrote) S->M.check_sums(path, h.hd); } }
}
// operations that are to run out of memory use a buffer that counts as large
static void big_buffer(const Op & o) { if (o.i("bigbuf")) api()->big_file_set_buffer_size(40000); }
static void op_write(const Op & o) {
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp; if (h.name == ".") return;
    string path = h.path; auto & d = S->M.disk[path]; Hdr hd = h.hd; i64 size = (i64) hd.total();
    i64 maxr = o.i("max", 40);
    i64 start = size * o.i("start") / 1000, n = std::min(maxr, (size - start) * o.i("len", 1000) / 1000); bool valid = true;
    if (o.has("once")) { // continue after the rows written so far
        i64 first = 0; while (first < size && d.row(hd, first)->wr) first++;
        start = first; n = std::min(maxr, size - first);
    }
    if (o.i("cont") && h.pos >= 0 && h.pos <= size) { start = h.pos; n = std::min(maxr, (size - start) * o.i("len", 1000) / 1000); }
    else {
        i64 off = start; bool sv = true;
        if (o.has("badseek")) { off = o.i("badseek") > 0 ? size + o.i("badseek") : -size + o.i("badseek"); sv = false; if (size == 0 && off == 0) sv = true; }
        else if (o.i("neg") && start < size) off = start - size;
        BigBlockPtr q = {0};
        int rt = api()->big_block_seek(&h.bb, &q, off);
        judge("big_block_seek", rt, sv);
        if (rt) { S->result = rt; return; }
        h.ptr = q; h.pos = sv && off < 0 ? off + size : off;
        if ((i64) h.bb.foffset[q.fileid] + q.roffset != h.pos || q.aoffset != h.pos) fail("position-wrong", "seek to %lld of %s gives position %lld", (long long) h.pos, path.c_str(), (long long) q.aoffset);
    }
    if (o.i("over")) { n = size - start + o.i("over"); valid = false; if (n > 4000) return; }
    DT sd = o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; sd.be = o.i("be");
    bool unsup = !convertible(sd, hd.dt) && !convertible(hd.dt, sd);
    if (o.has("unsup")) { if (!unsup) sd = hd.dt; } else if (!convertible(hd.dt, sd)) { sd = hd.dt; sd.be = o.i("be"); }
    if (n * hd.nm > 200000) return;
    if (hd.nm == 0) { n = 0; valid = true; }   // no elements: nothing is asked for
    Arr a; a.make(sd, n, hd.nm, (int) o.i("layout"), o.u("vs"), true, false);
    bool bad = !convertible(hd.dt, sd);
    if (bad && n > 0) valid = false;
    Rng g(o.u("vs"));
    for (i64 i = 0; i < n * hd.nm; i++) if (!bad) gen_value(g, sd, hd.dt, a.at(i)); else for (int b = 0; b < sd.w; b++) a.at(i)[b] = (u8) g.next();
    a.snap(); vector<Bytes> rows; if (!bad) arr_rows(a, hd.dt, rows);
    a.init(api());
    if (valid) { dirty_rows(h, path); S->pend = [path, hd, start, rows] { S->M.disk[path].maybe(hd, start, rows); }; }
    big_buffer(o); R->cur->allocs = true; int rt = api()->big_block_write(&h.bb, &h.ptr, &a.ba); S->result = rt; R->cur->allocs = false;
    judge("big_block_write", rt, valid);
    if (!a.unchanged()) fail("source-changed", "writing to %s changed the caller's array", path.c_str());
    if (rt == 0) {
        d.wrote(hd, start, rows); h.pos = start + n;
        i64 at = (i64) h.bb.foffset[h.ptr.fileid] + h.ptr.roffset;
        if (at != h.pos) fail("position-wrong", "after writing %lld rows from %lld of %s the position is %lld", (long long) n, (long long) start, path.c_str(), (long long) at);
        if (n && h.hd.nm) h.wrote = true;
        R->stat["rows_written"] += n;
    } else { if (valid) d.maybe(hd, start, rows); h.pos = -1; }
}
static void op_read(const Op & o) {
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp; if (h.name == ".") return;
    string path = h.path; auto & d = S->M.disk[path]; Hdr hd = h.hd; i64 size = (i64) hd.total();
    i64 maxr = o.i("max", 60); i64 start = size * o.i("start") / 1000, n = std::min(maxr, (size - start) * o.i("len", 1000) / 1000); bool valid = true;
    if (o.i("cont") && h.pos >= 0 && h.pos <= size) { start = h.pos; n = std::min(maxr, (size - start) * o.i("len", 1000) / 1000); }
    else {
        i64 off = start; bool sv = true;
        if (o.has("badseek")) { off = o.i("badseek") > 0 ? size + o.i("badseek") : -size + o.i("badseek"); sv = false; if (size == 0 && off == 0) sv = true; }
        else if (o.i("neg") && start < size) off = start - size;
        BigBlockPtr q = {0};
        int rt = api()->big_block_seek(&h.bb, &q, off);
        judge("big_block_seek", rt, sv);
        if (rt) { S->result = rt; return; }
        h.ptr = q; h.pos = off < 0 ? off + size : off;
        if ((i64) h.bb.foffset[q.fileid] + q.roffset != h.pos) fail("position-wrong", "seek to %lld of %s gives position %lld", (long long) h.pos, path.c_str(), (long long) q.aoffset);
    }
    if (o.i("over")) { n = size - start + o.i("over"); valid = false; if (n > 4000) return; }
    if (n * hd.nm > 200000) return;
    if (hd.nm == 0) { n = 0; valid = true; }   // no elements: nothing is asked for
    Bytes have = disk_rows(path, hd, start, std::min<i64>(n, size - start));
    DT dd = o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; dd.be = o.i("be");
    bool unsup = !convertible(dd, hd.dt);
    if (unsup && !(o.has("unsup") && !convertible(hd.dt, dd))) { dd = hd.dt; dd.be = o.i("be"); unsup = false; }
    if (unsup && n > 0) valid = false;
    if (!unsup && !bytes_defined(dd, hd.dt, have)) { dd = hd.dt; dd.be = o.i("be"); }
    bool sure = d.readable(hd, start, std::min<i64>(n, size - start));
    if (unsup && (n == 0 || !sure)) return;
    Arr a; a.make(dd, n, hd.nm, (int) o.i("layout"), o.u("vs"), false, false); a.snap(); a.init(api());
    big_buffer(o); R->cur->allocs = true; int rt = api()->big_block_read(&h.bb, &h.ptr, &a.ba); S->result = rt; R->cur->allocs = false;
    if (valid && !sure && rt) { h.pos = -1; R->stat["unwritten_read_refused"]++; }
    else judge("big_block_read", rt, valid);
    if (!a.guards_ok()) fail("destination-overrun", "reading from %s changed memory outside the destination elements", path.c_str());
    if (rt == 0) {
        vector<Bytes> rows(n, Bytes(hd.rowlen())); for (i64 i = 0; i < n; i++) if (hd.rowlen()) memcpy(&rows[i][0], &have[i * hd.rowlen()], hd.rowlen());
        i64 w = arr_differs(a, hd.dt, rows);
        if (w >= 0) fail("read-wrong", "reading %lld rows of %s from %lld as %s: element %lld of the result is wrong (row %lld)", (long long) n, path.c_str(), (long long) start, dd.str().c_str(), (long long) w, (long long) (start + w / hd.nm));
        h.pos = start + n; i64 at = (i64) h.bb.foffset[h.ptr.fileid] + h.ptr.roffset;
        if (at != h.pos) fail("position-wrong", "after reading %lld rows from %lld of %s the position is %lld", (long long) n, (long long) start, path.c_str(), (long long) at);
        if (!!api()->big_block_eof(&h.bb, &h.ptr) != (h.pos == size)) fail("eof-wrong", "the end-of-file test at row %lld of %lld is wrong", (long long) h.pos, (long long) size);
        R->stat["rows_read"] += n;
    } else h.pos = -1;
}
static void op_rsimple(const Op & o) {
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp; if (h.name == ".") return;
    string path = h.path; Hdr hd = h.hd; i64 size = (i64) hd.total();
    i64 start = size * o.i("start") / 1000 + o.i("beyond"), want = o.i("n"); bool valid = start <= size;
    i64 n = std::max<i64>(0, std::min(want, size - start));
    if (hd.nm == 0) return;
    Bytes have = disk_rows(path, hd, start, n);
    DT dd = o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; dd.be = o.i("be");
    if (!convertible(dd, hd.dt) || !bytes_defined(dd, hd.dt, have)) { dd = hd.dt; dd.be = o.i("be"); }
    bool sure = S->M.disk[path].readable(hd, start, n);
    BigArray ba; memset(&ba, 0x77, sizeof ba);
    big_buffer(o); R->cur->allocs = true; int rt = api()->big_block_read_simple(&h.bb, start, want, &ba, dd == hd.dt && o.i("nulldt") ? nullptr : dd.str().c_str()); S->result = rt;
    R->cur->allocs = false; if (rt && valid && !sure) return;
    judge("big_block_read_simple", rt, valid);
    if (rt) return;
    if (ba.dims[0] != n || ba.dims[1] != hd.nm) fail("read-wrong", "the convenience read of %lld rows from %lld of %s (%lld rows) returned %lld rows", (long long) want, (long long) start, path.c_str(), (long long) size, (long long) ba.dims[0]);
    Bytes exp((size_t) n * hd.nm * dd.w);
    for (i64 i = 0; i < n * hd.nm; i++) conv(dd, &exp[i * dd.w], hd.dt, &have[i * hd.dt.w]);
    if (exp.size() && memcmp(exp.data(), ba.data, exp.size())) fail("read-wrong", "the convenience read of %lld rows from %lld of %s returned wrong values", (long long) n, (long long) start, path.c_str());
    sim_free(ba.data);
}
static void op_seek(const Op & o) {
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp; if (h.name == ".") return;
    i64 size = (i64) h.hd.total(); i64 off = o.i("off"); bool rel = o.i("rel") && h.pos >= 0;
    i64 target = rel ? h.pos + off : off;
    // a relative seek before the start wraps like an absolute one; only positions in range are claimed
    if (rel && target < 0) return;
    bool valid = target >= -size && target <= size;
    BigBlockPtr q = rel ? h.ptr : BigBlockPtr{0};
    int rt = rel ? api()->big_block_seek_rel(&h.bb, &q, off) : api()->big_block_seek(&h.bb, &q, off);
    judge("big_block_seek", rt, valid); S->result = rt;
    if (rt) return;
    i64 at = target < 0 ? target + size : target;
    h.ptr = q; h.pos = at;
    if ((i64) h.bb.foffset[q.fileid] + q.roffset != at) fail("position-wrong", "seek to %lld of %s gives position %lld", (long long) at, h.path.c_str(), (long long) (h.bb.foffset[q.fileid] + q.roffset));
    if (!!api()->big_block_eof(&h.bb, &h.ptr) != (at == size)) fail("eof-wrong", "the end-of-file test at row %lld of %lld is wrong", (long long) at, (long long) size);
}
static void op_grow(const Op & o) {
    Hand * hp = need(o, true); if (!hp) return; Hand & h = *hp; if (h.name == ".") return;
    string path = h.path; auto & d = S->M.disk[path];
    vector<i64> sz = o.list("sizes"); vector<size_t> fs(sz.begin(), sz.end());
    if (h.hd.nm == 0) for (auto & x : fs) x = 0;
    if (h.hd.nm >= 50) for (auto & x : fs) x %= 9;
    if (h.hd.total() > 6000 || h.hd.sizes.size() > 60) return;
    Hdr n = h.hd; for (size_t x : fs) n.sizes.push_back(x);
    int rt = api()->big_block_grow(&h.bb, (int) fs.size(), fs.data()); S->result = rt;
    judge("big_block_grow", rt, true);
    if (rt == 0) {
        size_t old = h.hd.sizes.size();
        h.hd = n; h.hdirty = true; h.pos = -1; d.layout(n);
        for (size_t i = old; i < n.sizes.size(); i++) {
            NodeP nd = FS->get(path + strf("/%06X", (unsigned) i));
            if (!nd) fail("effect-missing", "growing %s succeeded but data file %zu does not exist", path.c_str(), i);
            if (nd->size) fail("stale-data", "data file %zu of the grown block %s is not empty", i, path.c_str());
            for (auto & r : d.files[i]) r = RowC();
        }
    }
}
static void attr_value(const Op & o, DT & dt, int & nm, Bytes & v) {
    dt = parse_dt(o.s("dt", "i8")); dt.be = o.i("be"); nm = (int) o.i("nm", 1);
    v.resize((size_t) nm * dt.w); Rng g(o.u("vs"));
    for (int i = 0; i < nm; i++) gen_value(g, dt, dt, &v[(size_t) i * dt.w]);
    if (o.i("text")) for (auto & c : v) { static const char T[] = "abc XYZ%d#[]\n\"\\0"; c = (u8) T[g.below(sizeof T)]; }
}
static string attr_name(const Op & o) { return o.has("badname") ? BAD_NAMES[o.i("badname") % BAD_NAMES.size()] : o.has("many") ? strf("k%lld", (long long) o.i("many")) : ATTR_NAMES[o.i("name") % ATTR_NAMES.size()]; }
static void op_setattr(const Op & o) {
    Hand * hp = need(o, true); if (!hp) return; Hand & h = *hp;
    DT dt; int nm; Bytes v; attr_value(o, dt, nm, v); string name = attr_name(o); bool valid = !o.has("badname");
    Bytes keep = v;
    int rt = api()->big_block_set_attr(&h.bb, name.c_str(), v.data(), dt.str().c_str(), nm); S->result = rt;
    judge("big_block_set_attr", rt, valid);
    if (v != keep) fail("source-changed", "setting attribute %s changed the caller's value", name.c_str());
    if (rt == 0) { AttrV a; a.dt = dt; a.dts = dt.str(); a.nm = nm; a.v = v; h.at[name] = a; h.adirty = true; }
    check_hand("set_attr", h);
}
static void op_getattr(const Op & o) {
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp;
    string name = attr_name(o); auto it = h.at.find(name); bool valid = it != h.at.end();
    if (o.has("unset")) { name = "not-there"; valid = false; it = h.at.end(); }
    if (!valid) {
        u8 buf[64]; int rt = api()->big_block_get_attr(&h.bb, name.c_str(), buf, "i8", 1); judge("big_block_get_attr", rt, false);
        if (api()->big_block_lookup_attr(&h.bb, name.c_str())) fail("attributes-wrong", "lookup of the unset attribute `%s' found something", name.c_str());
        S->result = rt; return;
    }
    AttrV a = it->second; DT dt = o.has("dt") ? parse_dt(o.s("dt")) : a.dt; dt.be = o.i("be");
    bool unsup = !convertible(dt, a.dt);
    if (unsup && (!o.has("unsup") || convertible(a.dt, dt) || a.nm == 0)) { dt = a.dt; unsup = false; }
    if (!unsup && !bytes_defined(dt, a.dt, a.v)) dt = a.dt;
    int nm = a.nm + (int) o.i("wrong"); if (nm < 0) nm = a.nm + 1; valid = nm == a.nm && !unsup;
    size_t len = (size_t) std::max(nm, a.nm) * dt.w; Bytes out(len + 32, 0xEE);
    int rt = api()->big_block_get_attr(&h.bb, name.c_str(), out.data() + 16, dt.str().c_str(), nm); S->result = rt;
    judge("big_block_get_attr", rt, valid);
    if (rt == 0) {
        for (int i = 0; i < a.nm; i++) { u8 t[32]; conv(dt, t, a.dt, &a.v[(size_t) i * a.dt.w]); if (memcmp(t, &out[16 + (size_t) i * dt.w], dt.w)) fail("attributes-wrong", "attribute %s[%d] read as %s is wrong", name.c_str(), i, dt.str().c_str()); }
        for (int i = 0; i < 16; i++) if (out[i] != 0xEE || out[out.size() - 1 - i] != 0xEE) fail("destination-overrun", "get_attr of %s wrote outside the destination", name.c_str());
    }
    check_hand("get_attr", h);
}
static void op_rmattr(const Op & o) {
    Hand * hp = need(o, true); if (!hp) return; Hand & h = *hp;
    auto & d = S->M.disk[h.path]; if (d.hasv1) return;
    string name = attr_name(o); bool valid = h.at.count(name);
    int rt = api()->big_block_remove_attr(&h.bb, name.c_str()); S->result = rt;
    judge("big_block_remove_attr", rt, valid);
    if (rt == 0) { h.at.erase(name); h.adirty = true; }
    check_hand("remove_attr", h);
}
static void op_fmtattr(const Op & o) {
    // formatting values must not change them
    Hand * hp = need(o, false); if (!hp) return; Hand & h = *hp;
    size_t n; BigAttr * l = api()->big_block_list_attrs(&h.bb, &n);
    for (size_t i = 0; i < n; i++) for (int k = 0; k < l[i].nmemb && k < 4; k++) { char buf[512]; api()->big_file_dtype_format(buf, l[i].dtype, l[i].data + k * api()->big_file_dtype_itemsize(l[i].dtype), nullptr); hashv(hash_bytes(buf, strlen(buf))); }
    check_hand("format", h);
}
static vector<string> model_list(int f, std::set<string> * maybe) {
    // blocks under the root, not inside the directory of another block
    string root = S->roots[f]; while (root.size() > 1 && root.back() == '/') root.pop_back(); root += "/";
    vector<string> v; std::set<string> all, unk;
    for (auto & x : S->M.disk) {
        if (x.first.compare(0, root.size(), root) || !x.second.exists) continue;
        string n = x.first.substr(root.size()); if (n == ".") continue;
        (x.second.unknown ? unk : all).insert(n);
    }
    auto below = [](const string & a, const std::set<string> & s) { for (size_t i = 0; i < a.size(); i++) if (a[i] == '/' && s.count(a.substr(0, i))) return true; return false; };
    auto hidden = [](const string & a) { if (a[0] == '.') return true; for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == '/' && a[i + 1] == '.') return true; return false; };
    for (auto & n : all) { if (hidden(n) || below(n, all)) continue; if (below(n, unk)) { maybe->insert(n); continue; } v.push_back(n); }
    for (auto & n : unk) if (!hidden(n) && !below(n, all)) maybe->insert(n);
    return v;
}
static void op_list(const Op & o) {
    int f = o.i("f") % 2; if (!need_file(f)) return;
    char ** l = nullptr; int n = -1;
    int rt = api()->big_file_list(&S->bf[f], &l, &n); S->result = rt;
    judge("big_file_list", rt, true);
    if (rt) return;
    std::set<string> maybe; vector<string> exp = model_list(f, &maybe); std::set<string> es(exp.begin(), exp.end()), got;
    vector<string> names(l, l + n);
    for (int i = 0; i < n; i++) sim_free(l[i]); sim_free(l);
    for (string s : names) {
        if (!got.insert(s).second) fail("list-wrong", "`%s' is listed twice", s.c_str());
        // (blocks inside a block that may not be looked into are found)
        if (!es.count(s) && !maybe.count(s)) { auto d = S->M.disk.find(blkpath(S->roots[f], s)); if (!R->cur->denied || d == S->M.disk.end() || !d->second.exists) fail("list-wrong", "`%s' is listed but is no block", s.c_str()); }
    }
    // directories that may not be looked into are passed over
    if (!R->cur->denied) for (auto & s : exp) if (!got.count(s)) fail("list-wrong", "block `%s' is not listed", s.c_str());
    if (o.i("openall")) for (auto & s : exp) {
        if (S->M.disk[blkpath(S->roots[f], s)].unknown) continue;
        Hand t; memset(&t.bb, 0, sizeof t.bb); int r2 = api()->big_file_open_block(&S->bf[f], &t.bb, s.c_str()); judge("big_file_open_block", r2, true);
        if (r2 == 0) { Hdr hd = cur_hdr(blkpath(S->roots[f], s)); check_bb("open of a listed block", t.bb, hd); judge("big_block_close", api()->big_block_close(&t.bb), true); }
    }
}
static void op_foreign(const Op & o) {
    // entries of other software next to the blocks
    int f = o.i("f") % 2; string root = S->roots[f]; if (!FS->isdir(root)) return;
    static const char * D[] = {"/emptydir", "/g/notes", "/.hidden/x", "/deep/er", "/tmp.d/a/b"};
    static const char * F[] = {"/README", "/g/readme.txt", "/emptydir/000000", "/.hidden/x/header", "/tmp.d/attr-v2", "/.header"};
    Rng g(o.u("vs"));
    for (int i = 0; i < 3; i++) { string d = root + D[g.below(5)]; bool ok = true; for (auto & x : S->M.disk) if (x.second.exists && d.compare(0, x.first.size() + 1, x.first + "/") == 0) ok = false; if (ok) FS->mkdirs(d); }
    for (int i = 0; i < 3; i++) { string p = root + F[g.below(6)]; string dir = p.substr(0, p.rfind('/')); if (FS->isdir(dir) && !FS->exists(p)) FS->put(p, string("junk\n")); }
}
static void op_deny(const Op & o) {
    string path = S->path(o); static const char * W[] = {"/header", "/attr-v2", "/000000", "/000001", ""};
    NodeP n = FS->get(path + W[o.i("what") % 5]); if (n) n->unreadable = true;
}
static void op_allow(const Op &) { std::function<void(const NodeP &)> g = [&](const NodeP & n) { n->unreadable = false; for (auto & c : n->ch) g(c.second); }; g(FS->root); }
// a block written by other software
static void op_plant(const Op & o) {
    string path = S->path(o); if (S->name(o) == "." || S->nopen(path)) return;
    auto & d = S->M.disk[path]; if (d.exists) return;
    int f = o.i("f") % 2; if (!FS->isdir(S->roots[f])) return;
    Rng g(o.u("vs")); Hdr hd; hd.dt = parse_dt(o.s("dt")); hd.dt.be = o.i("be"); hd.nm = (int) o.i("nm", 1); for (i64 x : o.list("sizes")) hd.sizes.push_back(x);
    FS->mkdirs(path);
    d = DiskBlk(); d.exists = true; d.planted = true; d.h = {hd}; d.reset(hd);
    vector<unsigned> ck;
    for (size_t i = 0; i < hd.sizes.size(); i++) {
        Bytes b(hd.sizes[i] * hd.rowlen()); for (size_t k = 0; k + hd.dt.w <= b.size(); k += hd.dt.w) gen_value(g, hd.dt, hd.dt, &b[k]);
        unsigned s = 0; for (u8 c : b) s += c; ck.push_back(s);
        FS->put(path + strf("/%06X", (unsigned) i), b);
        for (u64 r = 0; r < hd.sizes[i]; r++) { RowC & c = d.files[i][r]; c.v.assign(b.begin() + r * hd.rowlen(), b.begin() + (r + 1) * hd.rowlen()); c.wr = true; c.nw = 1; }
    }
    int style = (int) o.i("style"); string t;
    auto sp = [&] { static const char * B[] = {"", " ", "  ", "\t", " \t "}; return string(style ? B[g.below(5)] : ""); };
    auto nl = [&] { static const char * B[] = {"\n", "\n\n", "  \n", "\r\n", "\n \t"}; return string(style ? B[g.below(5)] : "\n"); };
    t = (style ? sp() : "") + "DTYPE: " + sp() + hd.dt.str() + nl() + "NMEMB: " + sp() + strf("%d", hd.nm) + nl() + "NFILE: " + sp() + strf("%zu", hd.sizes.size()) + nl();
    vector<int> ord; for (size_t i = 0; i < hd.sizes.size(); i++) ord.push_back((int) i);
    if (style) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
    for (int i : ord) t += strf("%06X: ", (unsigned) i) + sp() + strf("%llu", (unsigned long long) hd.sizes[i]) + sp() + " : " + sp() + strf("%u", ck[i]) + sp() + " : " + sp() + strf("%u", fold(ck[i])) + nl();
    FS->put(path + "/header", t);
    Attrs v1, v2; int na = (int) o.i("na");
    for (int i = 0; i < na; i++) {
        AttrV a; static const vector<string> T = {"i4", "i8", "f8", "u4", "u8", "f4", "c16", "S1", "b1"}; a.dt = parse_dt(g.pick(T)); a.dt.be = g.below(2); a.nm = (int) g.below(5) + (g.below(10) == 0 ? 200 : 0);
        a.dts = a.dt.str(); a.v.resize((size_t) a.nm * a.dt.w); for (int k = 0; k < a.nm; k++) gen_value(g, a.dt, a.dt, &a.v[(size_t) k * a.dt.w]);
        string nm = ATTR_NAMES[g.below(ATTR_NAMES.size())];
        if (o.i("v1") && g.below(2)) { if (a.nm == 0) continue; v1[nm] = a; } else { if (a.nm == 0) continue; v2[nm] = a; }
    }
    if (!v1.empty()) {
        Bytes b; for (auto & x : v1) { int nm = x.second.nm, ln = (int) x.first.size(); char dt[8] = {0}; strncpy(dt, x.second.dt.str().c_str(), 7); auto put = [&](const void * p, size_t n) { b.insert(b.end(), (u8 *) p, (u8 *) p + n); };
            put(&nm, 4); put(&ln, 4); put(dt, 8); put(x.first.data(), ln); put(x.second.v.data(), x.second.v.size()); }
        FS->put(path + "/attr", b); d.hasv1 = true; d.v1 = v1;
    }
    if (!v2.empty() || g.below(2)) {
        string s; for (auto & x : v2) { string b = style && g.below(2) ? "\t" : style && g.below(2) ? "  " : " ", c = style && g.below(3) == 0 ? "\t " : " "; s += x.first + b + x.second.dt.str() + c + strf("%d", x.second.nm) + b; bool low = style && g.below(2); for (u8 q : x.second.v) s += strf(low ? "%02x" : "%02X", q); s += " #HUMANE [ anything % here ]\n"; }
        FS->put(path + "/attr-v2", s);
    }
    Attrs m = v1; for (auto & x : v2) m[x.first] = x.second;
    d.a = {m};
    R->stat["planted"]++;
}
// P13: damage metadata
static void wild_checks(BigBlock & bb, const string & path) {
    Api * A = api();
    if (bb.Nfile < 0 || bb.nmemb < 0) fail("handle-inconsistent", "open of damaged %s gives %d files, width %d", path.c_str(), bb.Nfile, bb.nmemb);
    u64 o = 0; for (int i = 0; i < bb.Nfile; i++) { if (bb.foffset[i] != o) fail("handle-inconsistent", "open of damaged %s: file offsets do not add up", path.c_str()); o += bb.fsize[i]; }
    if (bb.size != o) fail("handle-inconsistent", "open of damaged %s: %zu rows, the files add up to %llu", path.c_str(), bb.size, (unsigned long long) o);
    if (strnlen(bb.dtype, 8) == 8 || !valid_dt(bb.dtype)) fail("handle-inconsistent", "open of damaged %s gives the element type `%.8s'", path.c_str(), bb.dtype);
    size_t n; BigAttr * l = A->big_block_list_attrs(&bb, &n);
    for (size_t i = 0; i < n && i < 50; i++) {
        int w = A->big_file_dtype_itemsize(l[i].dtype); i64 len = (i64) w * l[i].nmemb;
        if (len < 0 || len > 1 << 20) fail("handle-inconsistent", "open of damaged %s gives an attribute of %lld bytes", path.c_str(), (long long) len);
        Bytes out(len + 1); A->big_block_get_attr(&bb, l[i].name, out.data(), l[i].dtype, l[i].nmemb);
        u64 h = 0; for (i64 k = 0; k < len; k++) h += (u8) l[i].data[k]; hashv(h);
        if (!A->big_block_lookup_attr(&bb, l[i].name)) fail("handle-inconsistent", "open of damaged %s: listed attribute `%s' cannot be looked up", path.c_str(), l[i].name);
    }
    BigBlockPtr q = {0};
    for (i64 off : {(i64) 0, (i64) -1, (i64) 3, (i64) bb.size, (i64) bb.size + 1}) { if (A->big_block_seek(&bb, &q, off) == 0) { if (q.fileid < 0 || (bb.Nfile && q.fileid >= bb.Nfile + 0)) fail("handle-inconsistent", "seek gives file %d of %d", q.fileid, bb.Nfile); A->big_block_eof(&bb, &q); } }
    i64 rl = (i64) A->big_file_dtype_itemsize(bb.dtype) * bb.nmemb;
    if (rl > 0 && rl < 100000) { BigArray ba; memset(&ba, 0, sizeof ba); if (A->big_block_read_simple(&bb, 0, 4, &ba, nullptr) == 0) sim_free(ba.data); }
}
static void mangle(Rng & g, Bytes & b, const Bytes & other, int mode, bool binary) {
    static const char * X[] = {"-1", "2147483647", "99999999999999999999", "0", "1000000", "-2147483648", "9223372036854775807", "4294967295", "18446744073709551615"};
    string s(b.begin(), b.end());
    switch (mode) {
    case 0: s.resize(g.below(s.size() + 1)); break;
    case 1: s.clear(); break;
    case 2: for (int k = 1 + (int) g.below(4); k-- && !s.empty();) s[g.below(s.size())] = (char) g.below(256); break;
    case 3: { size_t k = g.below(s.size() + 1); string t(other.begin(), other.end()); s = s.substr(0, k) + (k < t.size() ? t.substr(k) : ""); break; }
    case 4: { // a number becomes extreme
        if (binary) { if (s.size() >= 8) { int v[] = {-1, 0x7fffffff, (int) 0x80000000, 100000000, 0, -1000, 65536}; int x = v[g.below(7)]; memcpy(&s[4 * g.below(2)], &x, 4); } break; }
        vector<std::pair<size_t, size_t>> at; for (size_t i = 0; i < s.size();) { if (isdigit((u8) s[i])) { size_t j = i; while (j < s.size() && isalnum((u8) s[j])) j++; at.push_back({i, j - i}); i = j; } else i++; }
        if (!at.empty()) { auto q = at[g.below(at.size())]; s.replace(q.first, q.second, X[g.below(9)]); } break; }
    case 5: while (!s.empty() && (s.back() == '\n' || g.below(3))) s.pop_back(); break;
    case 6: { size_t i = g.below(s.size() + 1); string t; for (u64 k = g.below(300); k--;) t += g.below(8) ? (char) ('A' + g.below(60)) : ' '; s.insert(i, t); break; }
    case 7: { size_t i = g.below(s.size() + 1), l = g.below(20); s.erase(i, l); break; }
    case 8: s += s.substr(g.below(s.size() + 1)); break;
    case 9: { string t; for (u64 k = g.below(200); k--;) t += (char) g.below(256); s = t; break; }
    case 10: { // one character of the type
        size_t i = s.find(g.below(2) ? '<' : 'D'); if (i != string::npos && i + 3 < s.size()) s[i + g.below(3)] = "<>=|Sabcfiux 0129"[g.below(17)]; break; }
    }
    b.assign(s.begin(), s.end());
}
static void op_damage(const Op & o) {
    string path = S->path(o); bool meta = S->name(o) == "."; if (S->nopen(path)) return;
    auto & d = S->M.disk[path]; if (!d.exists || d.hasv1) return;
    int what = (int) o.i("what") % 3; Rng g(o.u("vs")); if (meta && what == 0) what = 1;
    string file = path + (what == 0 ? "/header" : what == 1 ? "/attr-v2" : "/attr");
    Bytes b, other;
    if (what == 2) {
        d.hasv1 = true; // legacy attributes written by another program, then damaged
        for (u64 k = 1 + g.below(3); k--;) { int nm = 1 + (int) g.below(3), ln = 3; char dt[8] = "<i8"; auto put = [&](const void * p, size_t n) { b.insert(b.end(), (u8 *) p, (u8 *) p + n); }; put(&nm, 4); put(&ln, 4); put(dt, 8); put("abc", 3); for (int i = 0; i < nm; i++) { u64 v = g.next(); put(&v, 8); } }
        other = Bytes(b.rbegin(), b.rend());
    } else {
        b = FS->content(file);
        for (auto & x : S->M.disk) if (x.first != path && x.second.exists && FS->exists(x.first + (what == 0 ? "/header" : "/attr-v2"))) { other = FS->content(x.first + (what == 0 ? "/header" : "/attr-v2")); if (g.below(2)) break; }
    }
    mangle(g, b, other, (int) o.i("mode") % 11, what == 2);
    if (g.below(4) == 0) mangle(g, b, other, (int) g.below(11), what == 2);
    FS->put(file, b); R->stat[strf("damage.%d.mode%d", what, (int) o.i("mode") % 11)]++;
    d.unknown = true;
    // what a reader of the documented format makes of it
    if (!need_file(o.i("f") % 2)) return;
    HdrFile hf; Attrs at; string why; bool strict = what != 2;
    if (!meta) { strict = strict && decode_header(slurp(path + "/header"), hf, why); }
    bool hdok = strict;
    if (hdok && !meta) {
        u64 t = 0; for (u64 s : hf.h.sizes) { if (s >= (1ull << 62)) hdok = false; t += s; if (t >= (1ull << 62)) hdok = false; }
        if (hf.h.nm < 0 || !valid_dt(hf.h.dt.str())) hdok = false;
        for (u64 s : hf.h.sizes) if (s >= 1ull << 31) hdok = false;
    }
    bool atok = hdok && decode_attrs(slurp(path + "/attr-v2"), at, why);
    if (atok) for (auto & x : at) { if (!valid_dt(x.second.dt.str()) || x.second.dts != x.second.dt.str() || x.first.empty() || x.first.find_first_of("\t\r\v\f") != string::npos) atok = false; for (char c : x.first) if (!c) atok = false; }
    if (slurp(path + "/attr-v2").find('\0') != string::npos || slurp(path + "/attr-v2").find('\t') != string::npos || slurp(path + "/header").find('\0') != string::npos) atok = false;
    BigBlock bb; memset(&bb, 0xC3, sizeof bb);
    int f = o.i("f") % 2; string nm = S->name(o);
    int rt = api()->big_file_open_block(&S->bf[f], &bb, nm.c_str()); S->result = rt;
    R->stat[rt ? "damage.refused" : "damage.opened"]++;
    if (rt) {
        if (last_error().empty()) fail("no-message", "open of the damaged block %s failed without a message", path.c_str());
        if (hdok && atok) fail("refused", "open of %s failed although header and attributes are well formed: %s; header: %s", path.c_str(), last_error().c_str(), slurp(path + "/header").c_str());
    } else {
        if (!meta) wild_checks(bb, path);
        if (hdok && !meta) check_bb("open after damage", bb, hf.h);
        if (hdok && atok) { Attrs a = handle_attrs(bb, "open after damage"); if (!(a == at)) fail("attributes-wrong", "open of the altered %s yields attributes %s, the file says %s", path.c_str(), attrs_str(a).c_str(), attrs_str(at).c_str()); }
        R->stat["damage.consistent"]++;
        if (o.i("flush")) { /* a handle of damaged metadata may be written back */ api()->big_block_set_dirty(&bb, 1); int r2 = api()->big_block_flush(&bb); if (r2 && last_error().empty()) fail("no-message", "flush failed without a message"); }
        api()->big_block_close(&bb);
    }
    char ** l; int n; rt = api()->big_file_list(&S->bf[f], &l, &n);
    judge("big_file_list", rt, true);
    if (rt == 0) { for (int i = 0; i < n; i++) sim_free(l[i]); sim_free(l); }
    if (what == 2) { FS->remove(file); d.hasv1 = false; }
    // recovery: created again
    if (o.i("recover") && !meta) {
        size_t sz[2] = {3, 2}; memset(&bb, 0xC3, sizeof bb);
        rt = api()->big_file_create_block(&S->bf[f], &bb, nm.c_str(), "<f8", 2, 2, sz);
        judge("big_file_create_block", rt, true);
        if (rt) return;
        Hdr hd; hd.dt = DT('f', 8); hd.nm = 2; hd.sizes = {3, 2};
        d = DiskBlk(); d.exists = true; d.h = {hd}; d.a = {Attrs()}; d.reset(hd);
        judge("big_block_close", api()->big_block_close(&bb), true);
    }
}
// ---- records -------------------------------------------------------------------------
struct RecF { string name; DT dt; int nm; };
static vector<RecF> rec_fields(const Op & o) {
    vector<RecF> v; vector<i64> nm = o.list("nms"); string t = o.s("dts"); size_t p = 0; vector<i64> b = o.list("bs");
    for (size_t i = 0; i < b.size(); i++) { size_t e = t.find(',', p); if (e == string::npos) e = t.size(); RecF r; r.name = S->names[b[i] % S->names.size()]; r.dt = parse_dt(t.substr(p, e - p)); r.nm = (int) nm[i]; v.push_back(r); p = e + 1; }
    return v;
}
static void rec_type(const vector<RecF> & fs, BigRecordType & rt, u64 seed) {
    memset(&rt, 0, sizeof rt); api()->big_record_type_clear(&rt);
    rec_define(&rt, fs.size(), seed, [&](size_t i) { return fs[i].name; }, [&](size_t i) { return fs[i].dt.str(); }, [&](size_t i) { return fs[i].nm; });
    api()->big_record_type_complete(&rt);
    size_t off = 0;
    for (size_t i = 0; i < fs.size(); i++) { if (rt.fields[i].offset != (int) off || rt.fields[i].elsize != fs[i].dt.w) fail("record-layout", "field %zu is at %d, expected %zu", i, rt.fields[i].offset, off); off += fs[i].dt.w * fs[i].nm; }
    if (rt.itemsize != off || rt.nfield != fs.size()) fail("record-layout", "a record has %zu bytes, expected %zu", rt.itemsize, off);
}
static bool rec_usable(int f, const vector<RecF> & fs) {
    for (auto & x : fs) { string q = blkpath(S->roots[f], x.name); if (S->nopen(q)) return false; auto & d = S->M.disk[q]; if (d.exists && (d.unknown || d.hasv1 || d.planted)) return false; }
    return true;
}
static void op_rcreate(const Op & o) {
    int f = o.i("f") % 2; if (!need_file(f)) return; vector<RecF> fs = rec_fields(o); if (fs.empty()) return;
    for (auto & x : fs) { string q = blkpath(S->roots[f], x.name); if (S->nopen(q) || S->M.disk[q].hasv1) return; if (x.name == ".") return; }
    string mode = o.s("mode", "w+"); vector<i64> sz = o.list("sizes"); vector<size_t> fsz(sz.begin(), sz.end());
    bool valid = mode == "w+" || mode == "a+", app = mode == "a+";
    if (app) { if (!rec_usable(f, fs)) return; for (auto & x : fs) { auto & d = S->M.disk[blkpath(S->roots[f], x.name)]; if (!d.exists) valid = false; else if (d.h.back().total() > 3000) return; } }
    BigRecordType rt; rec_type(fs, rt, o.u("ts"));
    auto effect = [f, fs, app, fsz](bool ok) {
        for (auto & x : fs) {
            string q = blkpath(S->roots[f], x.name); auto & d = S->M.disk[q];
            if (app) { if (!d.exists) { if (ok) continue; break; } Hdr n = d.h.back(); for (size_t z : fsz) n.sizes.push_back(z); if (d.h.back().nm == 0) { } size_t old = d.h.back().sizes.size(); if (ok) d.h = {n}; else d.h.push_back(n); if (ok) d.layout(n); for (size_t z = old; z < n.sizes.size() && z < d.files.size(); z++) for (auto & r : d.files[z]) r = RowC(); }
            else { Hdr n; n.dt = x.dt; n.nm = x.nm; for (size_t z : fsz) n.sizes.push_back(z); d.exists = true; if (ok) { d.unknown = false; d.planted = false; d.h = {n}; d.a = {Attrs()}; d.reset(n); } else d.unknown = true; }
        }
    };
    if (mode == "w+" || app) S->pend = [effect] { effect(false); };
    int r = api()->big_file_create_records(&S->bf[f], &rt, mode.c_str(), (int) fsz.size(), fsz.data()); S->result = r;
    judge("big_file_create_records", r, valid);
    if (mode == "w+" || app) effect(r == 0);
    api()->big_record_type_clear(&rt);
}
static void op_rrw(const Op & o, bool write) {
    int f = o.i("f") % 2; if (!need_file(f)) return; vector<RecF> fs = rec_fields(o); if (fs.empty()) return;
    if (!rec_usable(f, fs)) return;
    i64 total = -1; bool valid = true;
    for (auto & x : fs) { auto & d = S->M.disk[blkpath(S->roots[f], x.name)]; if (!d.exists) { valid = false; continue; } i64 t = (i64) d.h.back().total(); total = total < 0 ? t : std::min(total, t); }
    if (total < 0) total = 10;
    i64 start = total * o.i("start") / 1000, n = std::min<i64>(o.i("max", 20), (total - start) * o.i("len", 1000) / 1000);
    if (o.i("over")) { n = total - start + o.i("over"); if (n > 3000) return; }
    size_t itemsize = 0; bool sure = true;
    for (size_t i = 0; i < fs.size(); i++) {
        auto & x = fs[i]; auto & d = S->M.disk[blkpath(S->roots[f], x.name)];
        if (d.exists) { Hdr hd = d.h.back(); if (hd.nm != x.nm) { x.nm = hd.nm; } if (write ? !convertible(hd.dt, x.dt) : !convertible(x.dt, hd.dt)) { x.dt.k = hd.dt.k; x.dt.w = hd.dt.w; }
            if (start + n > (i64) hd.total()) valid = false; else { if (!write && !bytes_defined(x.dt, hd.dt, disk_rows(blkpath(S->roots[f], x.name), hd, start, n))) { x.dt.k = hd.dt.k; x.dt.w = hd.dt.w; } if (!d.readable(hd, start, n)) sure = false; } if (hd.nm == 0) return; }
        itemsize += x.dt.w * x.nm;
    }
    BigRecordType rt; rec_type(fs, rt, o.u("ts"));
    Bytes buf(itemsize * n + 32); Rng g(o.u("vs")); for (auto & c : buf) c = (u8) g.next();
    u8 * base = &buf[16]; size_t off = 0; vector<vector<Bytes>> rows(fs.size());
    for (size_t i = 0; i < fs.size(); i++) {
        auto & x = fs[i]; auto & d = S->M.disk[blkpath(S->roots[f], x.name)]; DT bd = d.exists ? d.h.back().dt : x.dt; rows[i].assign(n, Bytes((size_t) bd.w * x.nm));
        for (i64 r = 0; r < n; r++) for (int k = 0; k < x.nm; k++) { u8 * p = base + r * itemsize + off + k * x.dt.w; if (write) { gen_value(g, x.dt, bd, p); conv(bd, &rows[i][r][k * bd.w], x.dt, p); } }
        if (write && n) { // the accessors agree with the layout
            Bytes t((size_t) x.dt.w * x.nm); api()->big_record_get(&rt, base, n - 1, (int) i, t.data()); if (memcmp(t.data(), base + (n - 1) * itemsize + off, t.size())) fail("record-layout", "big_record_get of field %zu is wrong", i);
            Bytes z(itemsize * n, 1); api()->big_record_set(&rt, z.data(), n - 1, (int) i, t.data()); for (size_t q = 0; q < z.size(); q++) { bool in = q >= (n - 1) * itemsize + off && q < (n - 1) * itemsize + off + t.size(); if (z[q] != (in ? t[q - (n - 1) * itemsize - off] : 1)) fail("record-layout", "big_record_set of field %zu is wrong", i); }
        }
        off += x.dt.w * x.nm;
    }
    Bytes keep = buf;
    auto maybe = [this_ = S, fs, rows, start, n, f] { for (size_t i = 0; i < fs.size(); i++) { string q = blkpath(this_->roots[f], fs[i].name); auto & d = this_->M.disk[q]; if (d.exists && start + n <= (i64) d.h.back().total()) { d.maybe(d.h.back(), start, rows[i]); d.exact = false; } } };
    if (write) S->pend = maybe;
    int r = write ? api()->big_file_write_records(&S->bf[f], &rt, start, n, base) : api()->big_file_read_records(&S->bf[f], &rt, start, n, base); S->result = r;
    if (!(r && !write && valid && !sure)) judge(write ? "big_file_write_records" : "big_file_read_records", r, valid);
    if (write) {
        if (buf != keep) fail("source-changed", "writing records changed the caller's buffer");
        if (r == 0) for (size_t i = 0; i < fs.size(); i++) { auto & d = S->M.disk[blkpath(S->roots[f], fs[i].name)]; d.wrote(d.h.back(), start, rows[i]); }
        else maybe();
        if (r == 0) for (size_t i = 0; i < fs.size(); i++) { string q = blkpath(S->roots[f], fs[i].name); S->M.check(q); S->M.check_sums(q, cur_hdr(q)); }
    } else {
        for (int i = 0; i < 16; i++) if (buf[i] != keep[i] || buf[buf.size() - 1 - i] != keep[keep.size() - 1 - i]) fail("destination-overrun", "reading records wrote outside the buffer");
        if (r == 0) {
            off = 0;
            for (size_t i = 0; i < fs.size(); i++) {
                auto & x = fs[i]; string q = blkpath(S->roots[f], x.name); Hdr hd = cur_hdr(q); Bytes have = disk_rows(q, hd, start, n);
                for (i64 rr = 0; rr < n; rr++) for (int k = 0; k < x.nm; k++) { u8 t[32]; conv(x.dt, t, hd.dt, &have[(rr * x.nm + k) * hd.dt.w]); if (memcmp(t, base + rr * itemsize + off + k * x.dt.w, x.dt.w)) fail("read-wrong", "record %lld field %s[%d] is wrong", (long long) (start + rr), x.name.c_str(), k); }
                off += x.dt.w * x.nm;
            }
        }
    }
    api()->big_record_type_clear(&rt);
}
// ---- running --------------------------------------------------------------------------
static void run_op(const Op & o) {
    const string & k = o.kind;
    S->result = 0;
    if (k == "fcreate") op_fcreate(o); else if (k == "fopen") op_fopen(o); else if (k == "fclose") op_fclose(o);
    else if (k == "create") op_create(o); else if (k == "open") op_open(o); else if (k == "close") op_flush(o, true); else if (k == "flush") op_flush(o, false);
    else if (k == "write") op_write(o); else if (k == "read") op_read(o); else if (k == "rsimple") op_rsimple(o); else if (k == "seek") op_seek(o);
    else if (k == "grow") op_grow(o); else if (k == "setattr") op_setattr(o); else if (k == "getattr") op_getattr(o); else if (k == "rmattr") op_rmattr(o); else if (k == "fmtattr") op_fmtattr(o);
    else if (k == "list") op_list(o); else if (k == "foreign") op_foreign(o); else if (k == "deny") op_deny(o); else if (k == "allow") op_allow(o);
    else if (k == "plant") op_plant(o); else if (k == "damage") op_damage(o); else if (k == "setbuf") { if (api()->big_file_set_buffer_size(o.i("n"))) fail("invented-failure", "big_file_set_buffer_size failed"); }
    else if (k == "rcreate") op_rcreate(o); else if (k == "rwrite") op_rrw(o, true); else if (k == "rread") op_rrw(o, false);
    else if (k == "closeall") {
        for (auto & x : S->hs) for (int q = 0; q < 2; q++) if (x.second[q].open) { Op c = o; Hand & h = x.second[q]; int b = -1; for (size_t i = 0; i < S->names.size(); i++) if (S->names[i] == h.name) b = (int) i; c.set("b", b).set("f", h.f).set("h", q); op_flush(c, true); }
    }
}
static void verify_all() {
    // a fresh process reads everything back
    for (auto & x : S->M.disk) {
        if (!x.second.exists || x.second.unknown) continue;
        int f = -1; string name; for (int i = 0; i < 2; i++) { string r = blkpath(S->roots[i], ""); if (x.first.compare(0, r.size(), r) == 0) { f = i; name = x.first.substr(r.size()); } }
        if (f < 0 || !need_file(f)) continue;
        Hand t; memset(&t.bb, 0xC3, sizeof t.bb);
        int rt = api()->big_file_open_block(&S->bf[f], &t.bb, name.c_str());
        judge("big_file_open_block", rt, true); if (rt) continue;
        t.open = true; t.path = x.first; t.name = name; t.f = f; t.hd = cur_hdr(x.first); t.at = cur_attrs(x.first);
        check_hand("final open", t);
        Hdr hd = t.hd; i64 n = name == "." ? 0 : (i64) hd.total();
        if (n && hd.nm && x.second.readable(hd, 0, n)) {
            BigArray ba; memset(&ba, 0, sizeof ba); rt = api()->big_block_read_simple(&t.bb, 0, n, &ba, nullptr); judge("big_block_read_simple", rt, true);
            if (rt == 0) { Bytes have = disk_rows(x.first, hd, 0, n); if (ba.dims[0] != n || memcmp(have.data(), ba.data, have.size())) fail("read-wrong", "the final read of %s differs from storage", x.first.c_str()); sim_free(ba.data); R->stat["rows_read"] += n; }
        }
        judge("big_block_close", api()->big_block_close(&t.bb), true);
    }
    for (int f = 0; f < 2; f++) if (S->fopen_[f]) { Op o; o.set("f", f); op_list(o); }
}
void exec_serial(const Plan & p) {
    Ser ser; S = &ser; ser.p = &p;
    { string s = p.par.count("names") ? p.par.at("names") : "x"; size_t a = 0; while (a <= s.size()) { size_t e = s.find('|', a); if (e == string::npos) e = s.size(); ser.names.push_back(s.substr(a, e - a)); a = e + 1; } }
    ser.roots = {p.par.count("root0") ? p.par.at("root0") : "/w/f0", p.par.count("root1") ? p.par.at("root1") : "f1"};
    i64 buf = p.pi("buf", 4096); bool final = false, done = false; int guard = 0;
    while (!done && !R->v.set && guard++ < 200) {
        lib_restore_all();
        Proc * pr = new_proc("libbig", 0);
        bool restart = false;
        add_task(pr, [&] {
            api()->big_file_set_buffer_size(buf); if (p.pi("leak")) audit_start();
            while (ser.next < p.ops.size()) {
                const Op & o = p.ops[ser.next];
                if (o.kind == "restart") { restart = true; ser.next++; return; }
                if (o.i("ifprev") && !ser.prevfail) { ser.next++; continue; }
                set_op(o.idx); ser.pend = nullptr; stale_message();
                if (o.kind == "setbuf") buf = o.i("n");
                run_op(o);
                ser.prevfail = ser.result != 0;
                ser.pend = nullptr; ser.next++;
                if (!R->cur->proc->fds.empty()) fail("fd-leak", "%zu files are still open after %s", R->cur->proc->fds.size(), o.kind.c_str());
                bool any = ser.fopen_[0] || ser.fopen_[1];
                for (auto & x : ser.hs) for (auto & h : x.second) if (h.open) { check_hand(o.kind.c_str(), h); any = true; }
                if (!any) audit("with nothing open");
                ser.M.check_all();
            }
            if (!final) { final = true; restart = true; set_op(1000000); for (auto & x : ser.hs) for (auto & h : x.second) if (h.open && h.wrote) ser.M.disk[x.first].exact = false; return; }
            set_op(1000001); op_allow(Op());
            verify_all(); ser.M.check_all();
            done = true;
        });
        run_tasks();
        bool killed = R->job_killed;
        end_phase();
        if (R->v.set) break;
        if (killed) {
            R->stat["crash"]++;
            if (ser.pend) ser.pend();
            ser.pend = nullptr; ser.next++; ser.prevfail = false;
        }
        if (killed || restart) {
            if (restart) R->stat["restart"]++;
            lost_process();
            // whoever looks next sees one of the allowed states
            Task dummy; Proc dp; dummy.proc = &dp; dummy.op = (int) ser.next; R->cur = nullptr;
            try { ser.M.check_all(); } catch (Killed &) { break; }
        }
    }
    S = nullptr;
}
// ---- generation ----------------------------------------------------------------------------
static const vector<int> ERRNOS = {EIO, ENOSPC, EACCES, EMFILE, ENFILE, EDQUOT, EROFS, ENOMEM, EINTR};
struct W { const char * k; int w; };
Plan gen_serial(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x5e41a1));
    Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next(); c.policy = 0;
    c.shuffle = true; c.dtunknown = g.below(3) == 0;
    bool P01 = prop == "P01", P02 = prop == "P02", P03 = prop == "P03", P04 = prop == "P04", P05 = prop == "P05", P06 = prop == "P06", P07 = prop == "P07", P08 = prop == "P08", P09 = prop == "P09", P10 = prop == "P10", P11 = prop == "P11", P12 = prop == "P12", P13 = prop == "P13", P20 = prop == "P20";
    bool faults = P10 || P11 || P08 || (P20 && g.below(3) == 0);
    if (g.below(2)) c.shortio_pm = (int) g.below(600);
    static const vector<string> ROOT0 = {"/w/f0", "f0", "f0/", "/w/a/b/f0", "f.%d"}; static const vector<string> ROOT1 = {"f1", "/w/f0x", "a/f1", "f0.1"};
    p.par["root0"] = g.pick(ROOT0); p.par["root1"] = g.pick(ROOT1);
    bool bulk = g.below(25) == 0;   // far more blocks, fields or attributes than usual
    int nn = 1 + (int) g.below(P07 ? 10 : 4); if (bulk && P07) nn = 50 + (int) g.below(120); if (bulk && P20) nn = 6 + (int) g.below(20);
    std::set<string> ns; while ((int) ns.size() < nn) { string s = bulk && g.below(4) ? (g.below(2) ? strf("blk%03llu", (unsigned long long) g.below(400)) : strf("m%llu/k%llu", (unsigned long long) g.below(3), (unsigned long long) g.below(90))) : g.below(12) == 0 ? long_name(g) : g.pick(BLOCK_NAMES); if (P07 && g.below(6) == 0) s = g.below(2) ? strf("n%llu/%llu", (unsigned long long) g.below(3), (unsigned long long) g.below(5)) : "g"; ns.insert(s); }
    string nl; vector<string> nv(ns.begin(), ns.end()); for (size_t i = nv.size(); i > 1; i--) std::swap(nv[i - 1], nv[g.below(i)]); for (auto & s : nv) nl += (nl.empty() ? "" : "|") + s; p.par["names"] = nl;
    static const vector<i64> BUFS = {1, 7, 16, 24, 32, 64, 100, 128, 256, 1000, 4096, 65536, 1 << 20};
    i64 buf = g.pick(BUFS); p.par["buf"] = std::to_string(buf);
    int nfiles = 1 + (g.below(3) == 0);
    int nops = 6 + (int) g.below(P07 ? 20 : 30) + (scale ? (int) g.below(40) : 0);
    vector<W> w;
    if (P01) w = {{"write", 10}, {"read", 10}, {"rsimple", 4}, {"seek", 2}, {"open", 3}, {"close", 2}, {"flush", 2}, {"create", 2}, {"restart", 1}, {"setbuf", 1}, {"grow", 1}};
    else if (P02) w = {{"write", 10}, {"read", 12}, {"rsimple", 5}, {"setattr", 4}, {"getattr", 5}, {"fmtattr", 3}, {"create", 2}, {"plant", 2}, {"flush", 1}, {"close", 1}, {"setbuf", 1}};
    else if (P03) w = {{"write", 10}, {"read", 10}, {"seek", 10}, {"rsimple", 6}, {"grow", 2}, {"create", 1}, {"close", 1}, {"restart", 1}};
    else if (P04) w = {{"create", 10}, {"write", 5}, {"open", 5}, {"close", 5}, {"flush", 2}, {"restart", 2}, {"read", 3}, {"setattr", 3}, {"grow", 2}, {"fclose", 1}, {"fopen", 1}, {"fcreate", 1}};
    else if (P05) w = {{"setattr", 14}, {"getattr", 8}, {"rmattr", 6}, {"fmtattr", 2}, {"flush", 3}, {"close", 3}, {"open", 3}, {"restart", 2}, {"create", 1}, {"many", 1}};
    else if (P06) w = {{"grow", 10}, {"write", 10}, {"read", 8}, {"flush", 2}, {"close", 2}, {"open", 1}, {"restart", 1}, {"create", 2}, {"setattr", 1}};
    else if (P07) w = {{"create", 10}, {"list", 8}, {"foreign", 3}, {"close", 4}, {"open", 2}, {"write", 1}, {"restart", 1}, {"fcreate", 1}};
    else if (P08) w = {{"once", 16}, {"flush", 4}, {"close", 4}, {"grow", 2}, {"open", 2}, {"create", 2}, {"setbuf", 1}, {"read", 1}};
    else if (P09) w = {{"plant", 8}, {"create", 4}, {"write", 6}, {"read", 10}, {"open", 4}, {"close", 4}, {"getattr", 6}, {"setattr", 3}, {"list", 2}, {"rsimple", 2}, {"flush", 1}, {"grow", 1}};
    else if (P13) w = {{"damage", 12}, {"create", 6}, {"setattr", 5}, {"close", 5}, {"write", 2}, {"list", 1}, {"read", 1}, {"getattr", 1}};
    else if (P20) w = {{"rcreate", 5}, {"rwrite", 10}, {"rread", 8}, {"write", 2}, {"read", 2}, {"close", 2}, {"restart", 1}};
    else w = {{"write", 10}, {"read", 4}, {"rsimple", 2}, {"create", 6}, {"open", 4}, {"close", 6}, {"flush", 6}, {"grow", 4}, {"setattr", 5}, {"getattr", 1}, {"rmattr", 2}, {"list", 2}, {"setbuf", 1}, {"restart", 1}, {"fclose", 1}, {"fcreate", 1}, {"fopen", 1}, {"rcreate", 1}, {"rwrite", 1}, {"rread", 1}};
    if (P10) w.push_back({"deny", 3});
    int tot = 0; for (auto & x : w) tot += x.w;
    auto tgt = [&](Op & o) { o.set("f", g.below(nfiles)).set("b", g.below(nn)).set("h", g.below(4) == 0); };
    auto sizes = [&](bool grow) { vector<i64> v; int nf = grow ? (int) g.below(3) + (g.below(5) != 0) : g.below(12) == 0 ? 0 : 1 + (int) g.below(g.below(10) == 0 ? 20 : 4); i64 m = g.below(6) == 0 ? 300 : g.below(3) ? 24 : 6; for (int i = 0; i < nf; i++) v.push_back(g.below(5) == 0 ? 0 : (i64) g.below(m)); return v; };
    static const vector<string> ODD = {"S1", "S3", "S16", "i2", "u2", "i1", "u1", "b1", "i4", "f8"};
    static const vector<string> BADDT = {"S20", "a1", "U4", "x8", "f0", "i17", "i-4", "z", "f"};
    auto etype = [&] { return g.below(6) == 0 ? g.pick(ODD) : g.pick(NUM_TYPES); };
    auto mkcreate = [&](i64 f, i64 b) { Op & o = p.op("create"); o.set("f", f).set("b", b); o.set("dt", string(g.below(3) == 0 ? ">" : g.below(2) ? "<" : g.below(2) ? "=" : "") + etype()); if (o.s("dt")[0] == '=') o.set("dt", "<" + o.s("dt").substr(1)); o.set("nm", g.below(25) == 0 ? 0 : g.below(3) ? 1 + g.below(3) : g.below(20) ? 1 + g.below(9) : 50 + g.below(200)); { vector<i64> v = sizes(false); if (o.i("nm") >= 50) for (auto & x : v) x %= 9; o.set("sizes", v); } return o.idx; };
    for (int f = 0; f < nfiles; f++) p.op("fcreate").set("f", f);
    if (!P20) for (int b = 0; b < nn && (b < 3 || bulk); b++) if (!P07 || bulk || g.below(2)) { if (P09 && g.below(2)) continue; mkcreate(g.below(nfiles), b); }
    auto xfer = [&](Op & o) {
        tgt(o); o.setu("vs", g.next()); o.set("start", g.below(3) == 0 ? 0 : g.below(1001)).set("len", g.below(3) == 0 ? 1000 : g.below(1001)).set("layout", g.below(2) ? 0 : g.below(9)).set("max", g.below(8) == 0 ? 400 : 1 + g.below(40));
        if (g.below(P02 ? 2 : 3)) { } else o.set("dt", etype());
        if (P02 && g.below(8) == 0) o.set("unsup", 1);
        o.set("be", g.below(P02 ? 2 : 4) == 0);
        if (g.below(4) == 0) o.set("cont", 1); else if (g.below(5) == 0) o.set("neg", 1);
        if (P03 || g.below(25) == 0) { u64 k = g.below(P03 ? 4 : 2); if (k == 0) o.set("over", g.below(3) ? 1 : 1 + g.below(50)); else if (k == 1) { o.kv.erase("cont"); o.set("badseek", (g.below(2) ? 1 : -1) * (i64) (g.below(3) ? 1 : 1 + g.below(100))); } }
    };
    auto recf = [&](Op & o) { int n = 1 + (int) g.below(bulk ? 24 : 4); if (n > nn) n = nn; vector<i64> bs, nm; string ds; i64 st = g.below(nn); for (int i = 0; i < n; i++) { bs.push_back((st + i) % nn); nm.push_back(1 + g.below(4)); ds += (i ? "," : "") + string(g.below(4) == 0 ? ">" : "<") + g.pick(NUM_TYPES); } o.set("bs", bs).set("nms", nm).set("dts", ds).setu("ts", g.below(2) ? 0 : g.next()).set("f", g.below(nfiles)); };
    Op lastrec; bool haverec = false;
    for (int i = 0; i < nops; i++) {
        int r = (int) g.below(tot); string k; for (auto & x : w) { if (r < x.w) { k = x.k; break; } r -= x.w; }
        if (k == "create") { mkcreate(g.below(nfiles), g.below(P07 ? nn : nn)); Op & o = p.ops.back(); if (P05 && g.below(3) == 0) o.set("b", -1); if (g.below(14) == 0) { u64 z = g.below(3); o.set("bad", z == 0 ? "name" : z == 1 ? "dtype" : "nmemb"); if (z == 1) o.set("baddt", g.pick(BADDT)); } else if (g.below(20) == 0) o.set("dt", "NULL"); }
        else if (k == "write" || k == "read") { Op & o = p.op(k); xfer(o); }
        else if (k == "once") { Op & o = p.op("write"); xfer(o); o.set("once", 1).set("h", 0); o.kv.erase("cont"); o.kv.erase("neg"); }
        else if (k == "rsimple") { Op & o = p.op(k); xfer(o); o.set("n", g.below(4) == 0 ? 0 : g.below(100)).set("nulldt", g.below(2)); if (g.below(P03 ? 3 : 12) == 0) o.set("beyond", g.below(30)); }
        else if (k == "seek") { Op & o = p.op(k); tgt(o); i64 m = g.below(3) ? 30 : 300; o.set("off", g.range(-m, m)).set("rel", g.below(3) == 0); }
        else if (k == "open" || k == "close" || k == "flush") { Op & o = p.op(k); tgt(o); if (P05 && g.below(3) == 0) o.set("b", -1); if (k == "flush" && g.below(8) == 0) o.set("setdirty", 1); if (k == "open" && g.below(12) == 0) o.set("miss", 1); }
        else if (k == "grow") { Op & o = p.op(k); tgt(o); o.set("sizes", sizes(true)); }
        else if (k == "setattr" || k == "getattr" || k == "rmattr" || k == "fmtattr") {
            Op & o = p.op(k); tgt(o); if ((P05 || P10 || P11 || P12) && g.below(3) == 0) o.set("b", -1);
            static const vector<string> AT = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1", "a1", "S1", "S8", "i2"};
            o.set("name", g.below(g.below(2) ? 3 : ATTR_NAMES.size())).set("dt", g.pick(AT)).set("nm", g.below(8) == 0 ? 0 : g.below(10) == 0 ? g.below(g.below(10) ? 700 : 20000) : 1 + g.below(6)).set("be", g.below(4) == 0).setu("vs", g.next());
            if (k == "getattr") { if (g.below(2)) o.kv.erase("dt"); if (g.below(6) == 0) o.set("wrong", g.below(2) ? 1 : -1); if (g.below(8) == 0) o.set("unset", 1); if (g.below(6) == 0) o.set("unsup", 1); }
            if (k == "setattr") { if (g.below(12) == 0) o.set("badname", g.below(BAD_NAMES.size())); if (o.s("dt") == "a1" || o.s("dt") == "S1") o.set("text", g.below(3) != 0); }
        }
        else if (k == "many") { int n = 15 + (int) g.below(30), nk = 60; if (bulk) { n = 100 + (int) g.below(200); nk = 400; } i64 f = g.below(nfiles), b = g.below(nn); for (int q = 0; q < n; q++) p.op("setattr").set("f", f).set("b", b).set("many", g.below(nk)).set("dt", "i8").set("nm", g.below(20)).setu("vs", g.next()); }
        else if (k == "list") p.op(k).set("f", g.below(nfiles)).set("openall", g.below(3) == 0);
        else if (k == "setbuf") p.op(k).set("n", g.pick(BUFS));
        else if (k == "foreign") p.op(k).set("f", g.below(nfiles)).setu("vs", g.next());
        else if (k == "deny") { Op & o = p.op(k); tgt(o); o.set("what", g.below(5)); }
        else if (k == "plant") { Op & o = p.op(k); tgt(o); o.set("dt", etype()).set("be", g.below(2)).set("nm", 1 + g.below(4)).set("sizes", sizes(false)).set("style", g.below(3) != 0).set("na", g.below(5)).set("v1", g.below(3) == 0).setu("vs", g.next()); }
        else if (k == "damage") { p.op("closeall"); Op & o = p.op(k); tgt(o); if (g.below(8) == 0) o.set("b", -1); o.set("what", g.below(7) == 0 ? 2 : g.below(2)).set("mode", g.below(11)).setu("vs", g.next()).set("recover", g.below(4) != 0).set("flush", g.below(3) == 0); }
        else if (k == "rcreate") { Op & o = p.op(k); recf(o); o.set("mode", g.below(12) == 0 ? "r+" : g.below(3) == 0 ? "a+" : "w+").set("sizes", sizes(false)); if (o.s("mode") == "w+" ) { lastrec = o; haverec = true; } else if (haverec) o.set("bs", lastrec.s("bs")).set("nms", lastrec.s("nms")).set("dts", lastrec.s("dts")).set("f", lastrec.s("f")); }
        else if (k == "rwrite" || k == "rread") { Op & o = p.op(k); recf(o); if (haverec && g.below(5)) { o.set("bs", lastrec.s("bs")).set("nms", lastrec.s("nms")).set("f", lastrec.s("f")); if (g.below(2)) o.set("dts", lastrec.s("dts")); else { string d; for (size_t z = 0; z < o.list("bs").size(); z++) d += (z ? "," : "") + string(g.below(2) ? "<" : ">") + g.pick(NUM_TYPES); o.set("dts", d); } } o.setu("vs", g.next()).set("start", g.below(1001)).set("len", g.below(2) ? 1000 : g.below(1001)).set("max", 1 + g.below(30)); if (g.below(10) == 0) o.set("over", 1 + g.below(5)); }
        else p.op(k).set("f", g.below(nfiles));
        if (k == "deny") { string b = p.ops.back().s("b"), f = p.ops.back().s("f"); static const vector<string> Q = {"open", "read", "write", "flush", "close", "grow", "list", "setattr"}; for (int q = 0; q < 1 + (int) g.below(3); q++) { Op & o = p.op(g.pick(Q)); xfer(o); o.set("b", b).set("f", f); if (o.kind == "grow") o.set("sizes", sizes(true)); } p.op("allow"); }
    }
    if (P08) { p.op("closeall"); }
    if (P11) { // the same calls again after a failure
        vector<Op> n; for (auto & o : p.ops) { n.push_back(o); if (o.kind != "restart" && o.kind != "rcreate" && g.below(2)) { int times = 1; for (int q = 0; q < times; q++) { Op d = o; d.set("ifprev", 1); n.push_back(d); } } }
        for (size_t i = 0; i < n.size(); i++) n[i].idx = (int) i; p.ops = n;
    } else if (P08) {
        vector<Op> n; for (auto & o : p.ops) { n.push_back(o); if (o.kind == "write") { Op d = o; d.set("ifprev", 1); n.push_back(d); } }
        for (size_t i = 0; i < n.size(); i++) n[i].idx = (int) i; p.ops = n;
    }
    if (faults) {
        int nf = 1 + (int) g.below(P08 ? 4 : 5);
        static const unsigned KS[] = {K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MKDIR, K_STAT, K_DIR, K_RENAME, K_UNLINK, K_SYNC, K_IO, K_IO, K_WRITE, K_CLOSE, K_OPEN};
        for (int i = 0; i < nf; i++) {
            const Op & o = p.ops[g.below(p.ops.size())]; if (o.i("ifprev")) continue;
            Fault f; f.op = o.idx; f.kinds = KS[g.below(sizeof KS / sizeof *KS)]; f.n = (int) (g.below(3) ? g.below(3) : g.below(15)); f.err = g.pick(ERRNOS); f.cnt = g.below(3) ? 1 : g.below(2) ? 2 : 1000000;
            if ((o.kind == "write" || o.kind == "read" || o.kind == "rsimple") && g.below(6) == 0) { f.kinds = K_ALLOC; f.n = 0; f.err = ENOMEM; p.ops[&o - &p.ops[0]].set("bigbuf", 1); }
            if (f.err == EINTR) f.err = EIO;
            if (f.kinds & K_CLOSE) { c.closefaults = true; if (f.kinds == K_CLOSE) f.lose = g.below(3) != 0; }
            p.faults.push_back(f);
        }
        if (P10 && g.below(8) == 0) c.fdlimit = 1 + (int) g.below(2);
        if ((P10 || P11) && g.below(6) == 0) c.cap = (i64) (4 + g.below(60)) * PG;
    }
    if (P12) {
        int nf = 1 + (int) g.below(4); static const unsigned KS[] = {K_IO, K_IO, K_IO, K_WRITE, K_WRITE, K_OPEN, K_CLOSE, K_RENAME, K_MKDIR, K_UNLINK};
        for (int i = 0; i < nf; i++) { Fault f; f.op = p.ops[g.below(p.ops.size())].idx; f.kinds = KS[g.below(sizeof KS / sizeof *KS)]; f.n = (int) (g.below(3) ? g.below(4) : g.below(20)); f.kill = true; f.tear = g.below(3) ? (int) g.below(1001) : -1; p.faults.push_back(f); }
    }
    return p;
}
}

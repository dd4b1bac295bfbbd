// Blocks with more rows, bytes and files than 32 bits (or three hexadecimal digits) count, against a
// sparse reference model: storage keeps only the pages that were written. Serial and collective.
#include "model.h"
#include <algorithm>
#include <cerrno>
extern "C" void sim_free(void *);

namespace sim {
namespace {
const vector<string> NAMES = {"x", "g/y", "0/Position", "z"};
struct HB {
    string name, path; bool exists = false, open = false, dirty = false;
    Hdr disk, mem; vector<unsigned> dck, mck; vector<char> sumok;      // what the header says, what it will say
    vector<std::map<u64, Bytes>> rows; vector<u64> len;               // by file: rows written, length in bytes
    i64 pos = -1;
};
struct HRec {
    bool init = false, skip = false, fin = false, valid = true, sure = true, autoopen = false, cont = false, recs = false; int done = 0;
    vector<int> rt; string msg; HB * b = nullptr; i64 start = 0, total = 0, off = 0, n = 0; vector<i64> cnt, at; vector<u64> sizes; u64 even = 0;
    vector<std::unique_ptr<Arr>> arr; vector<vector<Bytes>> want;
    vector<vector<Bytes>> fwant; vector<Bytes> buf; Hdr hd;
    vector<std::unique_ptr<vector<double>>> keep;
};
struct HJob {
    const Plan * p; int n = 1; bool mpi = false; std::map<string, HB> blk; vector<HRec> recs; size_t first = 0, next = 0; bool restart = false, made = false;
    vector<BigFile> bf; vector<std::map<string, BigBlock>> h; vector<std::map<string, BigBlockPtr>> ptr;
};
HJob * J;
string dfile(const HB & b, size_t f) { return b.path + strf("/%06X", (unsigned) f); }
// which file a row is in
size_t file_of(const Hdr & h, u64 row, u64 * in) { size_t f = 0; while (f < h.sizes.size() && row >= h.sizes[f]) row -= h.sizes[f++]; *in = row; return f; }
void reset(HB & b, const Hdr & h) {
    b.exists = true; b.disk = b.mem = h; size_t n = h.sizes.size(); b.dck.assign(n, 0); b.mck.assign(n, 0); b.sumok.assign(n, 1);
    if (b.rows.size() < n) { b.rows.resize(n); b.len.resize(n, 0); }
    for (size_t i = 0; i < n; i++) { b.rows[i].clear(); b.len[i] = 0; }
    b.dirty = false;
}
void wrote(HB & b, const Hdr & h, u64 start, const vector<Bytes> & rows) {
    for (size_t i = 0; i < rows.size(); i++) {
        u64 in; size_t f = file_of(h, start + i, &in); auto & m = b.rows[f];
        if (m.count(in)) b.sumok[f] = 0;
        m[in] = rows[i]; b.len[f] = std::max<u64>(b.len[f], (in + 1) * h.rowlen());
        for (u8 c : rows[i]) b.mck[f] += c;
    }
    b.dirty = true;
}
Bytes row_at(const HB & b, const Hdr & h, u64 row) { u64 in; size_t f = file_of(h, row, &in); if (f < b.rows.size()) { auto i = b.rows[f].find(in); if (i != b.rows[f].end()) return i->second; } return Bytes(h.rowlen(), 0); }
bool stored(const HB & b, const Hdr & h, u64 start, u64 n) { for (u64 i = 0; i < n; i++) { u64 in; size_t f = file_of(h, start + i, &in); if (f >= b.len.size() || (in + 1) * h.rowlen() > b.len[f]) return false; } return true; }
void check_block(HB & b) {
    if (!b.exists) return;
    HdrFile hf; string why; string t = slurp(b.path + "/header");
    if (!decode_header(t, hf, why)) fail("header-wrong", "the header of %s cannot be decoded: %s", b.path.c_str(), why.c_str());
    if (!(hf.h == b.disk)) fail("header-wrong", "the header of %s says %s, expected %s", b.path.c_str(), hf.h.str().c_str(), b.disk.str().c_str());
    for (size_t f = 0; f < b.disk.sizes.size(); f++) {
        if (hf.red[f] != fold(hf.ck[f])) fail("checksum-wrong", "file %zu of %s: checksum %u is folded to %u", f, b.path.c_str(), hf.ck[f], hf.red[f]);
        if (b.sumok[f] && hf.ck[f] != b.dck[f]) fail("checksum-wrong", "file %zu of %s: the stored checksum is %u, expected %u", f, b.path.c_str(), hf.ck[f], b.dck[f]);
    }
    u64 rl = b.mem.rowlen(); NodeP dir = FS->get(b.path); size_t nd = 0;
    for (auto & c : dir->ch) { if (c.second->dir || c.first == "header" || c.first == "attr-v2") continue; nd++; u64 v = strtoull(c.first.c_str(), nullptr, 16); if (c.first.size() < 6 || c.first.find_first_not_of("0123456789ABCDEF") != string::npos || v >= b.rows.size()) fail("stray-file", "%s/%s is no part of the block, which never had more than %zu files", b.path.c_str(), c.first.c_str(), b.rows.size()); }
    for (size_t f = 0; f < b.mem.sizes.size(); f++) {
        auto it = dir->ch.find(strf("%06X", (unsigned) f)); if (it == dir->ch.end()) fail("file-missing", "data file %zu of %s is missing", f, b.path.c_str());
        NodeP n = it->second;
        if (n->size != b.len[f]) fail("data-wrong", "data file %zu of %s has %llu bytes, expected %llu", f, b.path.c_str(), (unsigned long long) n->size, (unsigned long long) b.len[f]);
        std::map<u64, std::array<u8, PG>> want;
        for (auto & r : b.rows[f]) for (u64 i = 0; i < rl; i++) { u64 at = r.first * rl + i; auto w = want.find(at / PG); if (w == want.end()) { w = want.emplace(at / PG, std::array<u8, PG>()).first; w->second.fill(0); } w->second[at % PG] = r.second[i]; }
        auto same = [&](u64 pg, const u8 * a, const u8 * e) { for (int i = 0; i < PG; i++) if (a[i] != e[i]) { u64 at = pg * PG + i; fail("data-wrong", "byte %llu (row %llu) of data file %zu of %s is %02x, expected %02x", (unsigned long long) at, (unsigned long long) (at / rl), f, b.path.c_str(), a[i], e[i]); } };
        static const u8 Z[PG] = {0};
        for (auto & w : want) { auto g = n->pg.find(w.first); same(w.first, g == n->pg.end() ? Z : g->second.data(), w.second.data()); }
        for (auto & g : n->pg) if (!want.count(g.first)) same(g.first, g.second.data(), Z);
    }
    R->stat["huge.blocks_checked"]++;
}
// a row worth looking at
i64 pick(const HB & b, const Hdr & h, const Op & o, i64 n) {
    i64 total = (i64) h.total(), at = 0, d = o.i("d"); size_t nf = h.sizes.size(), f = nf ? o.i("k") % nf : 0; i64 fo = 0; for (size_t i = 0; i < f; i++) fo += (i64) h.sizes[i];
    i64 rl = std::max(1, h.rowlen());
    switch (o.i("anchor") % 12) {
    case 0: at = fo; break; case 1: at = 1ll << 31; break; case 2: at = 1ll << 32; break; case 3: at = fo + (1ll << 31) / rl; break; case 4: at = fo + (1ll << 32) / rl; break;
    case 5: at = total - n; break; case 6: at = (i64) ((__int128) total * (o.i("k") % 1001) / 1000); break;
    case 7: { size_t c = 0; for (auto & m : b.rows) c += m.size(); if (c) { c = o.i("k") % c; i64 q = 0; for (size_t i = 0; i < nf && i < b.rows.size(); i++) { if (c < b.rows[i].size()) { auto z = b.rows[i].begin(); std::advance(z, c); at = q + (i64) z->first; break; } c -= b.rows[i].size(); q += (i64) h.sizes[i]; } } break; }
    case 8: at = fo + (1ll << 31); break; case 9: at = fo + (1ll << 32); break; case 10: at = fo - n / 2; break; default: at = 0;
    }
    at += d; if (at > total - n) at = total - n; if (at < 0) at = 0; return at;
}
vector<u64> size_list(const Op & o) {
    vector<u64> v; i64 rep = o.i("nf");
    for (i64 x : o.list("sizes")) v.push_back((u64) x);
    if (rep) { vector<u64> q; for (i64 i = 0; i < rep; i++) q.push_back(v.empty() ? i % 3 : v[i % v.size()]); v = q; }
    return v;
}
vector<u64> even(u64 total, int nf) { vector<u64> v; for (int i = 0; i < nf; i++) v.push_back((u64) ((unsigned __int128) total * (i + 1) / nf - (unsigned __int128) total * i / nf)); return v; }
void share(const Op & o, HRec & r, i64 avail) {
    vector<i64> c = o.list("cnt"); r.cnt.assign(J->n, 0); r.at.assign(J->n, 0); r.total = 0;
    for (int i = 0; i < J->n; i++) { i64 k = i < (int) c.size() ? c[i] : 1; k = std::min(k, avail - r.total); r.cnt[i] = k; r.at[i] = r.total; r.total += k; }
}
void prepare(const Op & o, HRec & r) {
    r.init = true; r.rt.assign(J->n, 0); const string & k = o.kind;
    if (k == "restart") return;
    HB & b = J->blk[NAMES[o.i("b") % NAMES.size()]]; r.b = &b;
    if (k == "create" || k == "plant") {
        if (b.open) { r.skip = true; return; }
        r.hd.dt = parse_dt(o.s("dt", "f8")); r.hd.nm = (int) o.i("nm", 1); r.hd.sizes = size_list(o); r.even = 0;
        if (o.has("even") && J->mpi) { r.even = o.u("even"); r.hd.sizes = even(r.even, (int) o.i("enf", 1)); }
        if (k == "plant") {
            FS->mkdirs(b.path); if (!b.exists) FS->put(b.path + "/attr-v2", string());
            reset(b, r.hd); Rng g(o.u("vs")); for (size_t f = 0; f < r.hd.sizes.size(); f++) { b.dck[f] = b.mck[f] = g.below(3) ? (unsigned) -(i64) (1 + g.below(3000)) : (unsigned) g.next(); FS->put(dfile(b, f), string()); }
            FS->put(b.path + "/header", header_text(r.hd, b.dck)); r.skip = true; R->stat["huge.planted"]++;
        }
        return;
    }
    if (k == "rcreate" || k == "rwrite" || k == "rread") {
        r.recs = true; for (int i = 0; i < 2; i++) if (J->blk[NAMES[i]].open) { r.skip = true; return; }
        if (k == "rcreate") { r.hd.sizes = size_list(o); r.valid = true; if (o.i("app")) for (int i = 0; i < 2; i++) if (!J->blk[NAMES[i]].exists) r.skip = true; return; }
        HB & c = J->blk[NAMES[0]], & d = J->blk[NAMES[1]]; if (!c.exists || !d.exists || !(c.disk.sizes == d.disk.sizes)) { r.skip = true; return; }
        share(o, r, (i64) c.disk.total()); r.start = pick(c, c.disk, o, r.total);
        if (k == "rread") r.sure = stored(c, c.disk, r.start, r.total) && stored(d, d.disk, r.start, r.total);
        r.buf.resize(J->n); r.fwant.resize(2);
        int isz = c.disk.rowlen() + d.disk.rowlen();
        for (int q = 0; q < J->n; q++) { r.buf[q].assign((size_t) isz * r.cnt[q], 0x5a); if (k == "rwrite") { Rng g(mix64(o.u("vs"), q)); for (auto & x : r.buf[q]) x = (u8) g.next(); } }
        for (int i = 0; i < 2; i++) { HB & e = i ? d : c; size_t off = i ? c.disk.rowlen() : 0; for (int q = 0; q < J->n; q++) for (i64 z = 0; z < r.cnt[q]; z++) { if (k == "rwrite") { u8 * p = &r.buf[q][(size_t) z * isz + off]; r.fwant[i].push_back(Bytes(p, p + e.disk.rowlen())); } else r.fwant[i].push_back(row_at(e, e.disk, r.start + r.at[q] + z)); } }
        return;
    }
    static const std::set<string> KNOWN = {"open", "close", "flush", "write", "read", "claim", "seek", "grow", "simple"};
    if (!b.exists || !KNOWN.count(k)) { r.skip = true; return; }
    if (k == "open") { r.skip = b.open; return; }
    if (k == "close" || k == "flush") { r.skip = !b.open; return; }
    r.autoopen = !b.open; if (r.autoopen) { b.mem = b.disk; b.mck = b.dck; b.pos = -1; b.dirty = false; }
    r.hd = b.mem; i64 total = (i64) r.hd.total();
    if (k == "write" || k == "read" || k == "claim") {
        bool w = k == "write"; r.cont = o.i("cont") && b.pos >= 0 && !r.autoopen;
        if (k == "claim") { r.cnt.assign(J->n, 1); r.at.assign(J->n, 0); r.valid = false; r.total = total; r.start = pick(b, r.hd, o, 1); if (r.start < 0) r.start = 0; u64 z = o.u("rows", 1ull << 32); r.off = (i64) z; if ((i64) z + r.start <= total) r.skip = true; r.sure = false; r.cont = false; return; }
        share(o, r, total); r.start = r.cont ? b.pos : pick(b, r.hd, o, r.total);
        if (r.start + r.total > total) { r.valid = false; }
        if (!w && r.valid) r.sure = stored(b, r.hd, r.start, r.total);
        DT dt = r.hd.dt; if (o.i("be")) dt.be = !dt.be;
        r.want.resize(J->n); r.arr.resize(J->n);
        for (int q = 0; q < J->n; q++) {
            r.arr[q] = std::make_unique<Arr>(); Arr & a = *r.arr[q]; a.make(dt, r.cnt[q], r.hd.nm, (int) o.i("layout"), mix64(o.u("vs"), q), w, J->mpi);
            if (w) { Rng g(mix64(o.u("vs"), q, 3)); for (i64 i = 0; i < r.cnt[q] * r.hd.nm; i++) gen_value(g, dt, dt, a.at(i)); a.snap(); arr_rows(a, r.hd.dt, r.want[q]); }
            else { a.snap(); if (r.valid) for (i64 i = 0; i < r.cnt[q]; i++) r.want[q].push_back(row_at(b, r.hd, r.start + r.at[q] + i)); }
        }
    } else if (k == "seek") {
        r.start = pick(b, r.hd, o, 0); int how = (int) o.i("how") % 4; r.off = r.start; r.n = how;
        if (how == 1) { if (r.start >= total) r.start = r.off = total - 1; if (total == 0) { r.skip = true; return; } r.off -= total; }          // from the end
        else if (how == 2) { if (b.pos < 0) { r.skip = true; return; } r.off -= b.pos; if (r.start == 0 && r.off < 0) { r.start = 1 <= total ? 1 : 0; r.off = r.start - b.pos; } }  // from here
        else if (how == 3) { static const i64 B[] = {1, 7, 1ll << 31, 1ll << 32, (1ll << 32) + 1, 1ll << 40, 1ll << 52}; i64 x = B[o.i("k") % 7]; r.valid = false; r.off = o.i("d") < 0 ? -total - x : total + x; r.n = 0; if (o.i("d") < 0 && total == 0 && false) r.skip = true; }
    } else if (k == "grow") {
        r.sizes = size_list(o); r.even = 0; if (r.sizes.size() + r.hd.sizes.size() > 700) { r.skip = true; return; }
        if (o.has("even") && J->mpi) { r.even = o.u("even"); r.sizes = even(r.even, (int) o.i("enf", 1)); }
    } else if (k == "simple") {
        if (J->mpi && false) r.skip = true;
        r.start = pick(b, r.hd, o, 0); static const i64 N[] = {1, 5, 20, 40}; r.n = N[o.i("k") % 4]; i64 rem = total - r.start;
        if (rem <= 200 && o.i("d") % 2) r.n = (1ll << 32) + rem / 2;
        r.off = std::min(r.n, rem); r.sure = stored(b, r.hd, r.start, r.off);
    }
}
int part(const Op & o, HRec & r, int w) {
    Api * A = api(); MPI_Comm c = MPI_COMM_WORLD; const string & k = o.kind; bool mpi = J->mpi; BigFile * bf = &J->bf[w];
    auto & H = J->h[w]; auto & P = J->ptr[w];
    if (k == "create") {
        BigBlock & bb = H[r.b->name]; memset(&bb, 0xC3, sizeof bb); vector<size_t> fs(r.hd.sizes.begin(), r.hd.sizes.end()); fs.push_back(0); P[r.b->name] = {0};
        if (!mpi) return A->big_file_create_block(bf, &bb, r.b->name.c_str(), r.hd.dt.str().c_str(), r.hd.nm, (int) r.hd.sizes.size(), fs.data());
        if (o.has("even")) return A->big_file_mpi_create_block(bf, &bb, r.b->name.c_str(), r.hd.dt.str().c_str(), r.hd.nm, (int) r.hd.sizes.size(), r.even, c);
        return A->_big_file_mpi_create_block(bf, &bb, r.b->name.c_str(), r.hd.dt.str().c_str(), r.hd.nm, (int) r.hd.sizes.size(), fs.data(), c);
    }
    if (r.recs) {
        BigRecordType rt; memset(&rt, 0, sizeof rt); A->big_record_type_clear(&rt); int e;
        string dts[2] = {"<f8", ">i4"}; int nm[2] = {3, 1};
        for (int i = 0; i < 2; i++) { HB & b = J->blk[NAMES[i]]; if (b.exists && k != "rcreate") { dts[i] = b.disk.dt.str(); nm[i] = b.disk.nm; } A->big_record_type_add(&rt, NAMES[i].c_str(), dts[i].c_str(), nm[i]); }
        A->big_record_type_complete(&rt);
        if (k == "rcreate") { vector<size_t> fs(r.hd.sizes.begin(), r.hd.sizes.end()); fs.push_back(0); const char * m = o.i("app") ? "a+" : "w+"; e = mpi ? A->big_file_mpi_create_records(bf, &rt, m, (int) r.hd.sizes.size(), fs.data(), c) : A->big_file_create_records(bf, &rt, m, (int) r.hd.sizes.size(), fs.data()); }
        else {
            Bytes & u = r.buf[w]; Bytes keep = u; u.push_back(0x77); keep.push_back(0x77); size_t n = (size_t) r.cnt[w];
            if (k == "rwrite") { e = mpi ? A->big_file_mpi_write_records(bf, &rt, r.start, n, u.data(), (int) o.i("conc"), c) : A->big_file_write_records(bf, &rt, r.start, n, u.data()); if (u != keep) fail("source-changed", "writing records changed the caller's buffer"); }
            else {
                e = mpi ? A->big_file_mpi_read_records(bf, &rt, r.start, n, u.data(), (int) o.i("conc"), c) : A->big_file_read_records(bf, &rt, r.start, n, u.data());
                if (u.back() != 0x77) fail("destination-overrun", "reading records wrote outside the buffer");
                size_t off = 0; if (e == 0) for (int i = 0; i < 2; i++) { HB & b = J->blk[NAMES[i]]; size_t rl = b.disk.rowlen(); for (size_t z = 0; z < n; z++) if (memcmp(&u[z * rt.itemsize + off], r.fwant[i][(size_t) r.at[w] + z].data(), rl)) fail("read-wrong", "record %lld: field %s is wrong", (long long) (r.start + r.at[w] + (i64) z), b.name.c_str()); off += rl; }
            }
            u.pop_back();
        }
        A->big_record_type_clear(&rt);
        return e;
    }
    HB & b = *r.b; BigBlock & bb = H[b.name]; BigBlockPtr & ptr = P[b.name];
    if (k == "open" || r.autoopen) {
        memset(&bb, 0xC3, sizeof bb); ptr = {0};
        int e = mpi ? A->big_file_mpi_open_block(bf, &bb, b.name.c_str(), c) : A->big_file_open_block(bf, &bb, b.name.c_str());
        if (e) fail("invented-failure", "open of %s failed: %s", b.path.c_str(), last_error().c_str());
        check_bb("open", bb, k == "open" ? b.disk : r.hd);
        if (k == "open") return 0;
    }
    if (k == "flush") return mpi ? A->big_block_mpi_flush(&bb, c) : A->big_block_flush(&bb);
    if (k == "close") return mpi ? A->big_block_mpi_close(&bb, c) : A->big_block_close(&bb);
    auto position = [&](i64 want) {
        i64 at = (i64) bb.foffset[ptr.fileid] + ptr.roffset; bool in = ptr.fileid >= 0 && (ptr.fileid < bb.Nfile || bb.Nfile == 0);
        if (!in || at != want || (bb.Nfile && (size_t) ptr.roffset > bb.fsize[ptr.fileid]) || ptr.roffset < 0) fail("position-wrong", "after %s in %s the position is row %lld of file %d (%lld), expected %lld", k.c_str(), b.path.c_str(), (long long) ptr.roffset, ptr.fileid, (long long) at, (long long) want);
        if (!!A->big_block_eof(&bb, &ptr) != (at == (i64) r.hd.total())) fail("eof-wrong", "the end-of-file test at row %lld of %lld of %s is wrong", (long long) at, (long long) r.hd.total(), b.path.c_str());
    };
    if (k == "seek") {
        BigBlockPtr old = ptr; int e = r.n == 2 ? A->big_block_seek_rel(&bb, &ptr, r.off) : A->big_block_seek(&bb, &ptr, r.off);
        if (e == 0) position(r.start); else if (memcmp(&old, &ptr, sizeof ptr)) fail("position-wrong", "a refused seek moved the position");
        return e;
    }
    if (k == "grow") {
        vector<size_t> fs(r.sizes.begin(), r.sizes.end()); fs.push_back(0);
        if (!mpi) return A->big_block_grow(&bb, (int) r.sizes.size(), fs.data());
        return o.has("even") ? A->big_block_mpi_grow_simple(&bb, (int) r.sizes.size(), r.even, c) : A->big_block_mpi_grow(&bb, (int) r.sizes.size(), fs.data(), c);
    }
    if (k == "simple") {
        BigArray ba; memset(&ba, 0, sizeof ba); int e = A->big_block_read_simple(&bb, r.start, r.n, &ba, nullptr);
        if (e == 0) {
            if ((i64) ba.dims[0] != r.off) fail("read-wrong", "read_simple of %lld rows from %lld of %lld returned %lld", (long long) r.n, (long long) r.start, (long long) r.hd.total(), (long long) ba.dims[0]);
            for (i64 i = 0; i < r.off; i++) { Bytes want = row_at(b, r.hd, r.start + i); if (memcmp((u8 *) ba.data + (size_t) i * r.hd.rowlen(), want.data(), want.size())) fail("read-wrong", "row %lld of %s read with read_simple is wrong", (long long) (r.start + i), b.path.c_str()); }
            sim_free(ba.data);
        }
        return e;
    }
    bool write = k == "write" || (k == "claim" && o.i("w"));
    if (!r.cont) { int e = A->big_block_seek(&bb, &ptr, r.start); if (e) fail("invented-failure", "seek to row %lld of %s (%lld rows) failed: %s", (long long) r.start, b.path.c_str(), (long long) r.hd.total(), last_error().c_str()); position(r.start); }
    BigBlockPtr old = ptr; int conc = (int) o.i("conc");
    if (k == "claim") { // one row of memory, said to be many rows
        Bytes m(256, 0x3c), keep; keep = m; BigArray ba; size_t dims[2] = {w == (int) (o.i("k") % J->n) ? (size_t) r.off : 1, (size_t) r.hd.nm}; ptrdiff_t st[2] = {0, 0};
        if (r.hd.rowlen() > 256) return -1;
        A->big_array_init(&ba, m.data(), r.hd.dt.str().c_str(), 2, dims, st);
        int e = write ? mpi ? A->big_block_mpi_write(&bb, &ptr, &ba, conc, c) : A->big_block_write(&bb, &ptr, &ba) : mpi ? A->big_block_mpi_read(&bb, &ptr, &ba, conc, c) : A->big_block_read(&bb, &ptr, &ba);
        if (m != keep) fail("destination-changed", "a refused read changed the destination");
        if (e && memcmp(&old, &ptr, sizeof ptr)) fail("position-wrong", "a refused request moved the position");
        return e;
    }
    Arr & a = *r.arr[w]; a.init(A);
    int e = write ? mpi ? A->big_block_mpi_write(&bb, &ptr, &a.ba, conc, c) : A->big_block_write(&bb, &ptr, &a.ba) : mpi ? A->big_block_mpi_read(&bb, &ptr, &a.ba, conc, c) : A->big_block_read(&bb, &ptr, &a.ba);
    if (write && !a.unchanged()) fail("source-changed", "writing to %s changed the caller's array", b.path.c_str());
    if (!write && !a.guards_ok()) fail("destination-overrun", "reading %s changed memory outside the destination elements", b.path.c_str());
    if (e == 0 && r.valid) {
        if (!write) { i64 z = arr_differs(a, r.hd.dt, r.want[w]); if (z >= 0) fail("read-wrong", "read of rows %lld+%lld of %s (%lld rows): element %lld is wrong", (long long) (r.start + r.at[w]), (long long) r.cnt[w], b.path.c_str(), (long long) r.hd.total(), (long long) z); R->stat["huge.rows_read"] += r.cnt[w]; }
        position(r.start + r.total);
    }
    return e;
}
void finish(const Op & o, HRec & r) {
    const string & k = o.kind; int bad = 0; for (int e : r.rt) bad += e != 0;
    R->stat[strf("huge.%s.%s", k.c_str(), bad ? "refused" : "ok")]++;
    if (bad && bad != J->n) fail("outcome-differs", "%s returned an error on %d of %d ranks", k.c_str(), bad, J->n);
    if (bad && r.valid && r.sure) fail("invented-failure", "%s of %s failed although no storage call failed: %s", k.c_str(), r.b ? r.b->path.c_str() : "", r.msg.c_str());
    if (!bad && !r.valid) fail("accepted", "%s of an invalid request returned success", k.c_str());
    if (bad && (r.msg.empty() || is_stale(r.msg))) fail("no-message", "%s failed without an error message", k.c_str());
    HB & b = *r.b;
    if (k == "create") { reset(b, r.hd); b.open = true; b.pos = -1; }
    else if (k == "rcreate") { for (int i = 0; i < 2; i++) { HB & e = J->blk[NAMES[i]]; Hdr h; if (o.i("app")) { h = e.disk; size_t q = h.sizes.size(); for (u64 z : r.hd.sizes) h.sizes.push_back(z); e.disk = e.mem = h; size_t n = h.sizes.size(); e.dck.resize(n, 0); e.mck = e.dck; e.sumok.resize(n, 1); if (e.rows.size() < n) { e.rows.resize(n); e.len.resize(n, 0); } for (size_t f = q; f < n; f++) { e.rows[f].clear(); e.len[f] = 0; e.sumok[f] = 1; } } else { h.dt = i ? DT('i', 4, true) : DT('f', 8); h.nm = i ? 1 : 3; h.sizes = r.hd.sizes; reset(e, h); } } }
    else if (k == "rwrite") { for (int i = 0; i < 2; i++) { HB & e = J->blk[NAMES[i]]; e.mem = e.disk; e.mck = e.dck; wrote(e, e.disk, r.start, r.fwant[i]); e.dck = e.mck; e.dirty = false; } }
    else if (k == "rread") { }
    else {
        if (k == "open" || r.autoopen) { b.open = true; if (k == "open") { b.mem = b.disk; b.mck = b.dck; b.pos = -1; b.dirty = false; } }
        if (k == "flush" || k == "close") { b.disk = b.mem; b.dck = b.mck; b.dirty = false; if (k == "close") b.open = false; }
        else if (k == "write") { if (!bad) { vector<Bytes> all; for (auto & v : r.want) for (auto & x : v) all.push_back(x); wrote(b, r.hd, r.start, all); b.pos = r.start + r.total; R->stat["huge.rows_written"] += (long) all.size(); } else b.pos = -1; }
        else if (k == "read") b.pos = bad ? -1 : r.start + r.total;
        else if (k == "seek") { if (!bad) b.pos = r.start; }
        else if (k == "claim") b.pos = r.start;
        else if (k == "grow") { size_t q = b.mem.sizes.size(); for (u64 z : r.sizes) b.mem.sizes.push_back(z); size_t n = b.mem.sizes.size(); b.mck.resize(n, 0); b.dck.resize(n, 0); b.sumok.resize(n, 1); if (b.rows.size() < n) { b.rows.resize(n); b.len.resize(n, 0); } for (size_t f = q; f < n; f++) { b.rows[f].clear(); b.len[f] = 0; b.sumok[f] = 1; b.mck[f] = 0; } b.dirty = true; }
    }
    for (auto & x : J->blk) check_block(x.second);
    r.arr.clear(); r.want.clear(); r.fwant.clear(); r.buf.clear();
}
void rank_main(int w) {
    Api * A = api(); MPI_Comm c = MPI_COMM_WORLD; A->big_file_set_buffer_size(J->p->pi("buf", 4096)); if (J->mpi) A->big_file_mpi_set_aggregated_threshold((size_t) J->p->pi("thr"));
    stale_message();
    bool create = !J->made; int e = J->mpi ? (create ? A->big_file_mpi_create(&J->bf[w], "/w/f", c) : A->big_file_mpi_open(&J->bf[w], "/w/f", c)) : create ? A->big_file_create(&J->bf[w], "/w/f") : A->big_file_open(&J->bf[w], "/w/f");
    if (e) fail("invented-failure", "opening the file failed: %s", last_error().c_str());
    J->made = true;
    if (J->p->pi("leak")) audit_start();
    for (size_t k = J->first; k < J->p->ops.size(); k++) {
        const Op & o = J->p->ops[k]; HRec & r = J->recs[k]; set_op(o.idx);
        if (!r.init) { prepare(o, r); J->next = k + 1; }
        if (o.kind == "restart") { J->restart = true; return; }
        if (r.skip) continue;
        stale_message();
        int rt = part(o, r, w); r.rt[w] = rt; if (rt) { string m = last_error(); if (r.msg.empty() || m.empty() || is_stale(m)) r.msg = m; }
        if (R->trace) tracef("%s -> %d%s%s", o.kind.c_str(), rt, rt ? " " : "", rt ? last_error().c_str() : "");
        if (!R->cur->proc->fds.empty()) fail("fd-leak", "%zu files are still open after %s", R->cur->proc->fds.size(), o.kind.c_str());
        if (++r.done == J->n) { finish(o, r); r.fin = true; } else block_on("the other ranks", [&] { return r.fin; });
        { bool any = false; for (auto & x : J->blk) any |= x.second.open; if (!any && J->n == 1) audit("with nothing open"); }
        for (auto & x : J->blk) if (x.second.open && J->n == 1) check_bb(o.kind.c_str(), J->h[w][x.first], x.second.mem);
        if (J->n > 1 && r.b && !r.recs && r.b->open && (o.kind == "grow" || o.kind == "create" || o.kind == "flush")) { Hdr h = r.hd; if (o.kind == "grow") for (u64 z : r.sizes) h.sizes.push_back(z); if (o.kind != "flush") check_bb(o.kind.c_str(), J->h[w][r.b->name], h); }
    }
    J->next = J->p->ops.size();
}
}
void exec_huge(const Plan & p) {
    HJob job; J = &job; job.p = &p; job.mpi = p.pi("mpi"); job.n = job.mpi ? std::max<int>(1, (int) p.pi("n", 1)) : 1; job.recs.resize(p.ops.size()); FS->mkdirs("/w");
    for (auto & s : NAMES) { job.blk[s].name = s; job.blk[s].path = "/w/f/" + s; }
    for (bool over = false; !over && !R->v.set;) {
        lib_restore_all(); if (job.mpi) mpi_world(job.n);
        job.first = job.next; job.restart = false; job.bf.assign(job.n, BigFile()); job.h.assign(job.n, {}); job.ptr.assign(job.n, {});
        for (int w = 0; w < job.n; w++) { Proc * pr = new_proc("libbig", w, w, job.n); add_task(pr, [w] { rank_main(w); }); }
        run_tasks();
        if (job.mpi && !R->v.set && mpi_pending()) note_violation("message-left", strf("%d messages were never received", mpi_pending()));
        end_phase();
        over = !job.restart || job.next >= p.ops.size();
        if (job.restart) {
            R->stat["restart"]++;
            // what was not flushed is gone with the process; rows it wrote are there, their sums are not
            for (auto & x : job.blk) { HB & b = x.second; if (!b.open) continue; b.open = false; if (b.dirty) for (size_t f = 0; f < b.disk.sizes.size(); f++) if (b.mck[f] != b.dck[f]) b.sumok[f] = 0; b.mem = b.disk; b.mck = b.dck; b.mck.resize(b.disk.sizes.size()); b.dck.resize(b.disk.sizes.size()); b.dirty = false; b.pos = -1; }
        }
    }
    J = nullptr;
}
Plan gen_huge(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x4096e)); p.par["huge"] = "1"; bool mpi = prop == "P16" || prop == "P17" || (prop == "P20" && g.below(2));
    Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next(); c.policy = 0; c.shuffle = true; c.dtunknown = g.below(3) == 0; if (g.below(3) == 0) c.shortio_pm = (int) g.below(500);
    int n = 1; if (mpi) { n = 1 + (int) g.below(5); p.par["mpi"] = "1"; p.par["n"] = std::to_string(n); static const int POL[] = {0, 1, 1, 2, 3}; c.policy = POL[g.below(5)]; c.switch_pm = 20 + (int) g.below(500); c.eager_pm = (int) g.below(1001); c.weak_pm = (int) g.below(1001); static const i64 T[] = {0, 1, 3, 8, 100, 1ll << 33}; p.par["thr"] = std::to_string(T[g.below(6)]); }
    static const i64 BUF[] = {1, 24, 64, 1000, 65536}; p.par["buf"] = std::to_string(BUF[g.below(5)]);
    auto big = [&]() -> i64 {
        static const i64 B[] = {1ll << 31, 1ll << 32, 3000000000ll, 5000000000ll, 1ll << 33, 1ll << 28, 1ll << 29, 1ll << 30, 1ll << 40, 65536, 1ll << 24, 1ll << 20};
        switch (g.below(6)) { case 0: return (i64) g.below(12); case 1: return 0; case 2: return (i64) g.below(4000); default: return std::max<i64>(0, B[g.below(12)] + g.range(-3, 3)); }
    };
    auto sizes = [&](Op & o) {
        vector<i64> v; int nf = g.below(8) == 0 ? 0 : 1 + (int) g.below(5); for (int i = 0; i < nf; i++) v.push_back(big()); o.set("sizes", v);
        if (g.below(6) == 0) { for (auto & x : v) if (x > (1ll << 33)) x = 1ll << 31; o.set("sizes", v).set("nf", 200 + g.below(120)); }
        if (mpi && g.below(2)) o.set("even", big() + big()).set("enf", 1 + g.below(g.below(8) ? 7 : 280));
    };
    auto pos = [&](Op & o) { o.set("b", g.below(3)).set("anchor", g.below(12)).set("k", g.below(1000)).set("d", g.below(3) ? g.range(-4, 4) : 0); };
    static const vector<string> ODD = {"S1", "S7", "S16", "i2", "u1"};
    auto mkcreate = [&](i64 b, const char * kind) { Op & o = p.op(kind); o.set("b", b).set("dt", string(g.below(3) == 0 ? ">" : "<") + (g.below(8) ? g.pick(NUM_TYPES) : g.pick(ODD))).set("nm", g.below(3) ? 1 + g.below(3) : 1 + g.below(9)).setu("vs", g.next()); sizes(o); };
    bool P20 = prop == "P20", P08 = prop == "P08", P09 = prop == "P09", P03 = prop == "P03", P06 = prop == "P06", P17 = prop == "P17", P04 = prop == "P04";
    struct W { const char * k; int w; }; vector<W> w = {{"write", 12}, {"read", 10}, {"seek", P03 ? 14 : 3}, {"claim", P03 ? 6 : 1}, {"simple", 3}, {"grow", P06 || P17 ? 7 : 1}, {"flush", P08 || P17 ? 5 : 2}, {"close", 3}, {"open", P04 ? 6 : 2}, {"create", P04 ? 9 : P17 || P09 ? 4 : 1}, {"plant", P08 || P09 ? 4 : 0}, {"restart", P04 ? 3 : 1}};
    if (P20) w = {{"rcreate", 3}, {"rwrite", 12}, {"rread", 10}, {"write", 2}, {"read", 2}, {"close", 4}, {"restart", 1}};
    int tot = 0; for (auto & x : w) tot += x.w;
    if (P20) { Op & o = p.op("rcreate"); sizes(o); o.kv.erase("even"); } else { mkcreate(0, (P08 || P09) && g.below(2) ? "plant" : "create"); if (g.below(2)) mkcreate(1, "create"); }
    int nops = 5 + (int) g.below(16) + (scale ? (int) g.below(20) : 0);
    auto cnts = [&](Op & o) { vector<i64> v; i64 a = 1 + (i64) g.below(g.below(3) ? 6 : 40); for (int i = 0; i < n; i++) v.push_back((i64) g.below(a + 1) + (n == 1)); o.set("cnt", v).set("conc", g.below(3) == 0 ? 0 : 1 + g.below(n)); };
    for (int i = 0; i < nops; i++) {
        int r = (int) g.below(tot); string k; for (auto & x : w) { if (r < x.w) { k = x.k; break; } r -= x.w; }
        if (k == "create" || k == "plant") { if (k == "plant" && mpi) k = "create"; mkcreate(g.below(3), k.c_str()); }
        else if (k == "rcreate") { Op & o = p.op(k); sizes(o); o.kv.erase("even"); o.set("app", g.below(3) == 0); }
        else if (k == "grow") { Op & o = p.op(k); o.set("b", g.below(3)); sizes(o); }
        else if (k == "restart") p.op(k);
        else { Op & o = p.op(k); pos(o); cnts(o); o.setu("vs", g.next()).set("how", g.below(4)).set("be", g.below(4) == 0).set("layout", g.below(2) ? 0 : g.below(9)); if (g.below(4) == 0) o.set("cont", 1);
            if (k == "claim") { static const i64 C[] = {1ll << 32, (1ll << 32) + 1, (1ll << 31) + 1, 1ll << 33, 1ll << 48}; o.set("rows", C[g.below(5)] + g.below(3)).set("w", g.below(2)); }
            if (k == "write" && g.below(2)) { Op d = o; d.kind = "read"; if (g.below(2)) d.kv.erase("cont"); d.set("be", 0); d.idx = p.ops.back().idx + 1; p.ops.push_back(d); } }
    }
    for (int b = 0; b < 3; b++) p.op("close").set("b", b);
    p.op("restart"); for (int i = 0; i < 4; i++) { Op & o = p.op(P20 ? "rread" : "read"); pos(o); cnts(o); o.set("anchor", 7).setu("vs", g.next()); }
    return p;
}
}

#include "model.h"
#include <algorithm>
extern "C" void sim_free(void *);
namespace sim {
string blkpath(const string & root, const string & name) { string r = root; while (r.size() > 1 && r.back() == '/') r.pop_back(); return r + "/" + name; }
void DiskBlk::layout(const Hdr & hd) {
    rowlen = hd.rowlen();
    if (files.size() < hd.sizes.size()) files.resize(hd.sizes.size());
    maxf = std::max(maxf, files.size());
    for (size_t i = 0; i < hd.sizes.size(); i++) if (files[i].size() < hd.sizes[i]) files[i].resize(hd.sizes[i]);
}
void DiskBlk::reset(const Hdr & hd) { files.clear(); layout(hd); exact = true; unsynced = false; }
RowC * DiskBlk::row(const Hdr & hd, u64 i, int * file, u64 * in) {
    for (size_t f = 0; f < hd.sizes.size(); f++) { if (i < hd.sizes[f]) { if (file) *file = (int) f; if (in) *in = i; return &files[f][i]; } i -= hd.sizes[f]; }
    return nullptr;
}
bool DiskBlk::readable(const Hdr & hd, u64 start, u64 n) {
    u64 o = 0;
    for (size_t f = 0; f < hd.sizes.size(); f++) {
        u64 hi = 0; for (u64 i = 0; i < hd.sizes[f]; i++) if (files[f][i].wr) hi = i + 1;
        u64 a = std::max(o, start), b = std::min(o + hd.sizes[f], start + n);
        if (a < b && b - o > hi) return false;
        o += hd.sizes[f];
    }
    return true;
}
bool DiskBlk::row_ok(RowC & r, const u8 * p, size_t n) const {
    for (size_t i = 0; i < n; i++) {
        u8 base = r.wr ? r.v[i] : 0;
        if (p[i] == base) continue;
        bool ok = false; for (auto & a : r.alts) if (a[i] == p[i]) ok = true;
        if (!ok) return false;
    }
    return true;
}
void DiskBlk::wrote(const Hdr & hd, u64 start, const vector<Bytes> & rows) {
    for (size_t i = 0; i < rows.size(); i++) { RowC * r = row(hd, start + i); r->v = rows[i]; r->alts.clear(); r->wr = true; r->nw++; }
    if (!rows.empty()) unsynced = true;
}
void DiskBlk::maybe(const Hdr & hd, u64 start, const vector<Bytes> & rows) {
    for (size_t i = 0; i < rows.size(); i++) { RowC * r = row(hd, start + i); if (!r) continue; r->alts.push_back(rows[i]); if (r->alts.size() > 6) r->alts.erase(r->alts.begin()); }
    // what of an interrupted write was summed is not determined, and it may since be replaced
}
static string hex(const u8 * p, size_t n) { string s; for (size_t i = 0; i < n && i < 24; i++) s += strf("%02x", p[i]); return s; }
void Model::check(const string & path, bool collapse) {
    DiskBlk & d = disk[path];
    if (d.unknown || !d.exists) return;
    bool meta = path.size() >= 2 && path.substr(path.size() - 2) == "/.";
    string why; Hdr hd;
    if (!meta) {
        HdrFile hf;
        if (!FS->exists(path + "/header")) fail("metadata-lost", "block %s has no header on storage", path.c_str());
        string txt = slurp(path + "/header");
        if (!decode_header(txt, hf, why)) fail("metadata-damaged", "header of %s is not in the documented format (%s): %s", path.c_str(), why.c_str(), txt.substr(0, 300).c_str());
        bool ok = false; for (auto & h : d.h) if (h == hf.h) ok = true;
        if (!ok) fail("metadata-wrong", "header of %s says %s, expected %s", path.c_str(), hf.h.str().c_str(), d.h.empty() ? "?" : d.h.back().str().c_str());
        if (collapse) d.h = {hf.h};
        hd = hf.h;
        for (size_t i = 0; i < hf.ck.size(); i++) if (hf.red[i] != fold(hf.ck[i])) fail("checksum-wrong", "file %zu of %s: reduced checksum %u does not belong to %u", i, path.c_str(), hf.red[i], hf.ck[i]);
    }
    Attrs at = d.v1;
    if (FS->exists(path + "/attr-v2")) {
        Attrs t; string txt = slurp(path + "/attr-v2");
        if (!d.planted && !decode_attrs(txt, t, why)) fail("metadata-damaged", "attributes of %s are not in the documented format (%s): %s", path.c_str(), why.c_str(), txt.substr(0, 300).c_str());
        for (auto & x : t) at[x.first] = x.second;
    }
    if (!d.planted) {
        bool ok = false; for (auto & a : d.a) if (a == at) ok = true;
        if (!ok) fail("attributes-wrong", "attributes of %s on storage are %s, expected %s", path.c_str(), attrs_str(at).c_str(), d.a.empty() ? "?" : attrs_str(d.a.back()).c_str());
        if (collapse) d.a = {at};
    }
    if (meta) return;
    d.layout(hd);
    for (size_t f = 0; f < hd.sizes.size(); f++) {
        string p = path + strf("/%06X", (unsigned) f);
        NodeP n = FS->get(p);
        if (!n) fail("data-lost", "data file %zu of %s does not exist", f, path.c_str());
        Bytes b = FS->read(n, 0, hd.sizes[f] * hd.rowlen());
        int rl = hd.rowlen(); if (!rl) continue;
        for (u64 i = 0; i < hd.sizes[f]; i++) {
            RowC & r = d.files[f][i];
            Bytes t(rl, 0); size_t have = b.size() > i * rl ? std::min<size_t>(rl, b.size() - i * rl) : 0;
            if (r.wr && have < (size_t) rl) fail("data-lost", "row %llu of file %zu of %s is not on storage", (unsigned long long) i, f, path.c_str());
            if (have) memcpy(&t[0], &b[i * rl], have);
            if (!d.row_ok(r, t.data(), rl)) fail("data-wrong", "row %llu of file %zu of %s holds %s, expected %s%s", (unsigned long long) i, f, path.c_str(), hex(t.data(), rl).c_str(), r.wr ? hex(r.v.data(), rl).c_str() : "zeros", r.alts.empty() ? "" : " or an interrupted write");
        }
    }
}
// nothing but what the format documents, when nothing went wrong on the way
static void check_strays(const string & path, const DiskBlk & d) {
    NodeP n = FS->get(path); if (!n || !n->dir) return;
    for (auto & c : n->ch) {
        if (c.second->dir || c.first == "header" || c.first == "attr-v2" || c.first == "attr") continue;
        bool data = c.first.size() >= 6 && c.first.find_first_not_of("0123456789ABCDEF") == string::npos;
        if (data && strtoull(c.first.c_str(), nullptr, 16) < d.maxf) continue;
        fail("stray-file", "%s/%s is no part of the block, which never had more than %zu files", path.c_str(), c.first.c_str(), d.maxf);
    }
    R->stat["directories_without_strays"]++;
}
void Model::check_all() {
    for (auto & p : disk) { check(p.first); if (R->calm && p.second.exists && !p.second.unknown && !p.second.planted) check_strays(p.first, p.second); }
}
void Model::check_sums(const string & path, const Hdr & hd, bool full_only) {
    DiskBlk & d = disk[path];
    if (!d.exact || d.unknown) return;
    for (size_t f = 0; f < hd.sizes.size(); f++) for (u64 i = 0; i < hd.sizes[f]; i++) if (!d.files[f][i].wr || d.files[f][i].nw != 1) return;
    HdrFile hf; string why; if (!decode_header(slurp(path + "/header"), hf, why)) return;
    for (size_t f = 0; f < hd.sizes.size() && f < hf.ck.size(); f++) {
        unsigned s = 0; for (u64 i = 0; i < hd.sizes[f]; i++) for (u8 c : d.files[f][i].v) s += c;
        if (hf.ck[f] != s) fail("checksum-wrong", "file %zu of %s: the stored checksum is %u, the bytes add up to %u", f, path.c_str(), hf.ck[f], s);
    }
    R->stat["checksums_verified"]++;
}
void judge(const char * what, int rt, bool valid) {
    R->stat[strf("call.%s.%s", what, rt ? "error" : "ok")]++;
    if (R->trace) tracef("%s -> %d%s%s", what, rt, rt ? " " : "", rt ? last_error().c_str() : "");
    hashv(mix64(rt != 0, hash_bytes(what, strlen(what))));
    if (rt == 0) {
        if (!valid) fail("accepted", "%s of an invalid request returned success", what);
        return;
    }
    if (last_error().empty()) fail("no-message", "%s failed without an error message", what);
    if (is_stale(last_error())) fail("stale-message", "%s failed and left the message of an earlier call: %s", what, last_error().c_str());
    if (valid && faulted() == 0) fail("invented-failure", "%s failed although no storage call failed: %s", what, last_error().c_str());
    stale_message();
}
bool conv_defined(const DT & dst, const DT & src, const u8 * s) {
    if (dst.same(src)) return true;
    if ((dst.k == 'i' || dst.k == 'u') && src.k == 'f') {
        DT f8('f', 8); u8 t[8]; conv(f8, t, src, s); double v; memcpy(&v, t, 8);
        if (!(v == v)) return false;
        double hi = dst.k == 'i' ? (dst.w == 4 ? 2147483647.0 : 9.2e18) : (dst.w == 4 ? 4294967295.0 : 1.8e19), lo = dst.k == 'i' ? (dst.w == 4 ? -2147483648.0 : -9.2e18) : 0;
        return v >= lo && v <= hi;
    }
    return true;
}
bool bytes_defined(const DT & dst, const DT & src, const Bytes & b) {
    for (size_t i = 0; i + src.w <= b.size(); i += src.w) if (!conv_defined(dst, src, &b[i])) return false;
    return true;
}
void check_bb(const char * what, BigBlock & bb, const Hdr & hd) {
    string d(bb.dtype, strnlen(bb.dtype, 8));
    if (d != hd.dt.str() || bb.nmemb != hd.nm || bb.Nfile != (int) hd.sizes.size() || bb.size != hd.total())
        fail("handle-wrong", "%s: the handle says %sx%d, %d files, %zu rows; expected %s", what, d.c_str(), bb.nmemb, bb.Nfile, bb.size, hd.str().c_str());
    u64 o = 0;
    for (size_t i = 0; i < hd.sizes.size(); i++) {
        if (bb.fsize[i] != hd.sizes[i] || bb.foffset[i] != o) fail("handle-wrong", "%s: file %zu has %zu rows at %zu in the handle, expected %llu at %llu", what, i, bb.fsize[i], bb.foffset[i], (unsigned long long) hd.sizes[i], (unsigned long long) o);
        o += hd.sizes[i];
    }
}
Attrs handle_attrs(BigBlock & bb, const char * what) {
    size_t n = 0; BigAttr * l = api()->big_block_list_attrs(&bb, &n);
    Attrs r; string prev;
    for (size_t i = 0; i < n; i++) {
        AttrV v; v.dts = string(l[i].dtype, strnlen(l[i].dtype, 8)); v.dt = parse_dt(v.dts); v.nm = l[i].nmemb;
        size_t len = (size_t) std::max(0, v.nm) * v.dt.w; v.v.assign((u8 *) l[i].data, (u8 *) l[i].data + len);
        string nm = l[i].name;
        if (i && !(prev < nm)) fail("attributes-wrong", "%s: the attribute list is not sorted or not unique: `%s' then `%s'", what, prev.c_str(), nm.c_str());
        prev = nm; r[nm] = v;
    }
    return r;
}
Bytes disk_rows(const string & path, const Hdr & hd, u64 start, u64 n) {
    Bytes out; int rl = hd.rowlen(); u64 o = 0;
    for (size_t f = 0; f < hd.sizes.size(); f++) {
        u64 a = std::max(o, start), b = std::min(o + hd.sizes[f], start + n);
        if (a < b) { NodeP nd = FS->get(path + strf("/%06X", (unsigned) f)); Bytes t; if (nd) t = FS->read(nd, (a - o) * rl, (b - a) * rl); t.resize((b - a) * rl, 0); out.insert(out.end(), t.begin(), t.end()); }
        o += hd.sizes[f];
    }
    return out;
}
bool model_rows(DiskBlk & d, const Hdr & hd, u64 start, u64 n, Bytes & out) {
    out.clear(); int rl = hd.rowlen(); bool sure = true;
    for (u64 i = 0; i < n; i++) { RowC * r = d.row(hd, start + i); if (!r) return false; if (!r->alts.empty()) sure = false; if (r->wr) out.insert(out.end(), r->v.begin(), r->v.end()); else out.resize(out.size() + rl, 0); }
    return sure;
}
void verify_all(Model & m, const string & root) {
    BigFile bf; int rt = api()->big_file_open(&bf, root.c_str()); judge("big_file_open", rt, FS->isdir(root)); if (rt) return;
    string pre = blkpath(root, "");
    for (auto & x : m.disk) {
        DiskBlk & d = x.second; if (!d.exists || d.unknown || x.first.compare(0, pre.size(), pre)) continue;
        string name = x.first.substr(pre.size()); BigBlock bb; memset(&bb, 0xC3, sizeof bb);
        rt = api()->big_file_open_block(&bf, &bb, name.c_str()); judge("big_file_open_block", rt, true); if (rt) continue;
        Hdr hd = d.h.empty() ? Hdr() : d.h.back();
        if (name != ".") check_bb("final open", bb, hd);
        Attrs a = handle_attrs(bb, "final open"), want = d.a.empty() ? Attrs() : d.a.back();
        if (!(a == want)) fail("attributes-wrong", "after everything the attributes of %s are %s, expected %s", x.first.c_str(), attrs_str(a).c_str(), attrs_str(want).c_str());
        u64 n = name == "." ? 0 : hd.total();
        if (n && hd.nm && d.readable(hd, 0, n)) {
            BigArray ba; memset(&ba, 0, sizeof ba); rt = api()->big_block_read_simple(&bb, 0, n, &ba, nullptr); judge("big_block_read_simple", rt, true);
            if (rt == 0) { Bytes have = disk_rows(x.first, hd, 0, n); if (ba.dims[0] != n || memcmp(have.data(), ba.data, have.size())) fail("read-wrong", "the final read of %s differs from storage", x.first.c_str()); sim_free(ba.data); R->stat["rows_read"] += n; }
        }
        judge("big_block_close", api()->big_block_close(&bb), true);
    }
    judge("big_file_close", api()->big_file_close(&bf), true);
}
}

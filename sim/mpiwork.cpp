// Collective histories against the reference model: P16-P19, the collective halves of P12 and P20.
#include "model.h"
#include <algorithm>
#include <cerrno>
extern "C" void sim_free(void *);

namespace sim {
static const vector<string> ANAMES = {"a", "Time", "%d%s%n", "ab", "#HUMANE", "BoxSize"};
static const vector<string> BNAMES = {"x", "g/x", "g/y", "0/Position", "%s%n", "xy", "v2.", string(255, 'l') + "/" + string(200, 'l') + "/x"};
struct RecField { string name; DT dt; int nm; };
struct Rec {                 // one collective operation
    bool init = false, skip = false, valid = true, sure = true, fin = false;
    int done = 0, conc = 0, who = -1;
    vector<int> rt, faulted; vector<string> msg; vector<char> ran;
    string path, name; i64 start = -1, total = 0; bool autoopen = false, autofile = false, cont = false, close = false;
    vector<i64> cnt, off; vector<std::unique_ptr<Arr>> arr; vector<vector<Bytes>> rows; vector<char> expect_exact;
    Hdr hd; bool usehd = false; vector<Attrs> at; bool checkat = false;
    bool hadw = false; Task * user = nullptr;
    std::map<string, std::pair<Hdr, vector<Attrs>>> snap; // the open handles afterwards
    // records
    vector<RecField> fs; vector<vector<DT>> fdt; vector<Bytes> buf; vector<Bytes> keep;
    std::function<void(bool)> after;  // outcome: success
    std::function<void()> pend;       // the job was killed meanwhile
};
struct RankH { bool open = false; BigBlock bb; BigBlockPtr ptr; };
struct MHand { bool open = false; string name, path; Hdr hd; vector<Attrs> at; bool wrote = false, hdirty = false, adirty = false; i64 pos = -1; };
struct Job {
    const Plan * p; Model M; string root = "/w/f"; int n = 1, members = 1; bool async = false, fopen_ = false;
    vector<string> names; std::map<string, MHand> hs; vector<BigFile> bf; vector<Rec> recs; size_t first = 0, next = 0;
    vector<MPI_Comm> comm; vector<int> me;        // by world rank: communicator and rank in it (-1: not a member)
    vector<i64> bufs; i64 thr = 0; bool restart = false; int done = 0;
    vector<std::map<string, RankH>> rh;           // the handles themselves, by world rank
};
static Job * J;
static Rec * cur_rec;   // of the operation in flight (synchronous jobs)

static MHand * hand(const string & path) { auto i = J->hs.find(path); return i == J->hs.end() || !i->second.open ? nullptr : &i->second; }
static i64 rank_of(const Op & o, const char * k) { return o.i(k) % J->members; }
static void attr_of(const Op & o, int salt, AttrV & a, string & name) {
    a.dt = parse_dt(o.s("dt", "i8")); a.dts = a.dt.str(); a.nm = (int) o.i("nm", 1); a.v.resize((size_t) a.nm * a.dt.w);
    Rng g(mix64(o.u("vs"), salt)); for (int i = 0; i < a.nm; i++) gen_value(g, a.dt, a.dt, &a.v[(size_t) i * a.dt.w]);
    name = ANAMES[o.i("name") % ANAMES.size()];
}
static void share(const Op & o, Rec & r, i64 avail) {
    vector<i64> c = o.list("cnt"); r.cnt.assign(J->members, 0); r.off.assign(J->members, 0); r.total = 0;
    for (int i = 0; i < J->members; i++) { i64 n = i < (int) c.size() ? std::max<i64>(0, c[i]) : 0; n = std::min(n, avail - r.total); r.cnt[i] = n; r.off[i] = r.total; r.total += n; }
    if (o.i("over")) {
        // rows past the end, asked for by one of the ranks
        int w = (int) rank_of(o, "overrank"); i64 more = avail - r.total + o.i("over"); r.cnt[w] += more; r.total = 0;
        for (int i = 0; i < J->members; i++) { r.off[i] = r.total; r.total += r.cnt[i]; }
        r.valid = false;
    }
}
// ---- what an operation will do: decided by the first rank that gets there --------------------
static bool prep_handle(const Op & o, Rec & r) {
    MHand * h = hand(r.path);
    if (h) return true;
    auto & d = J->M.disk[r.path];
    if (!(J->fopen_ || r.autofile) || !d.exists || d.unknown || J->async) return false;
    MHand & m = J->hs[r.path]; m = MHand(); m.name = r.name; m.path = r.path; m.hd = d.h.back(); m.at.assign(J->members, d.a.back());
    r.autoopen = true; R->stat["autoopen"]++;
    return true;
}
static void prepare(const Op & o, Rec & r) {
    r.init = true; int m = J->members; const string & k = o.kind;
    r.rt.assign(m, 0); r.faulted.assign(m, 0); r.msg.assign(m, ""); r.ran.assign(m, 0);
    r.name = J->names[o.i("b") % J->names.size()]; r.path = blkpath(J->root, r.name);
    auto & d = J->M.disk[r.path]; string path = r.path;
    if (!J->fopen_ && !J->async && k[0] != 'f' && k[0] != 's' && k != "close" && FS->isdir(J->root)) r.autofile = true;
    if (k == "fcreate" || k == "fopen") {
        if (J->fopen_) { r.skip = true; return; }
        r.valid = k == "fcreate" || FS->isdir(J->root);
        if (J->async) J->fopen_ = r.valid;
        r.after = [](bool ok) { J->fopen_ = ok; if (ok && !FS->isdir(J->root)) fail("effect-missing", "the file was created but its directory does not exist"); };
    } else if (k == "fclose") {
        bool any = false; for (auto & h : J->hs) any |= h.second.open;
        if (!J->fopen_ || any || J->async) { r.skip = true; return; }
        r.after = [](bool) { J->fopen_ = false; };
    } else if (k == "create") {
        if (!(J->fopen_ || r.autofile) || hand(path)) { r.skip = true; return; }
        Hdr hd; hd.dt = parse_dt(o.s("dt", "i8")); hd.nm = (int) o.i("nm", 1);
        if (o.has("even")) { i64 nf = std::max<i64>(1, o.i("nf", 1)), sz = o.i("even"); for (i64 i = 0; i < nf; i++) hd.sizes.push_back((u64) (sz * (i + 1) / nf - sz * i / nf)); }
        else for (i64 x : o.list("sizes")) hd.sizes.push_back(x);
        string bad = o.s("bad"); r.hd = hd; r.usehd = true;
        if (bad == "dtype" || bad == "nmemb" || bad == "name") { if (J->async) { r.skip = true; return; } r.valid = false; if (bad == "name") path = r.path = ""; }
        r.pend = [path] { if (path.empty()) return; auto & x = J->M.disk[path]; x.exists = true; x.unknown = true; };
        MHand & h = J->hs[path]; h = MHand(); h.name = r.name; h.path = path;
        auto fin = [path, hd, bad, &r](bool ok) {
            auto & d = J->M.disk[path]; MHand & h = J->hs[path];
            if (!ok) { if (bad.empty()) { d.exists = true; d.unknown = true; } J->hs.erase(path); return; }
            d.exists = true; d.unknown = false; d.planted = false; d.h = {hd}; d.a = {Attrs()}; d.reset(hd);
            h.open = true; h.hd = hd; h.at.assign(J->members, Attrs());
        };
        if (J->async) fin(true);
        else r.after = [fin, path, hd](bool ok) {
            fin(ok); if (!ok) return;
            for (size_t i = 0; i < hd.sizes.size(); i++) {
                NodeP n = FS->get(path + strf("/%06X", (unsigned) i));
                if (!n) fail("effect-missing", "collective create of %s succeeded but data file %zu does not exist", path.c_str(), i);
                if (n->size) fail("stale-data", "data file %zu of the created block %s is not empty", i, path.c_str());
            }
        };
        r.checkat = true; r.at.assign(m, Attrs());
    } else if (k == "open") {
        if (!(J->fopen_ || r.autofile) || hand(path) || d.unknown || (J->async && !d.exists)) { r.skip = true; return; }
        r.valid = d.exists && !o.has("miss"); if (J->async && !r.valid) { r.skip = true; return; }
        if (o.has("miss")) { r.name += ".missing"; path = r.path = ""; }
        MHand & h = J->hs[path]; h = MHand(); h.name = r.name; h.path = path;
        if (r.valid) { h.hd = r.hd = d.h.back(); h.at.assign(m, d.a.back()); r.usehd = true; r.checkat = true; r.at = h.at; }
        if (J->async) h.open = true;
        else r.after = [path](bool ok) { if (ok) J->hs[path].open = true; else J->hs.erase(path); };
    } else if (k == "flush" || k == "close") {
        MHand * h = hand(path); if (!h) { r.skip = true; return; }
        r.close = k == "close"; r.hd = h->hd; Hdr hd = h->hd; Attrs at = h->at[0]; bool close = r.close; r.hadw = h->wrote; bool hadw = h->wrote;
        if (!close) { r.usehd = true; r.checkat = true; r.at.assign(m, at); }
        r.pend = [path, hd, at, hadw] { auto & d = J->M.disk[path]; d.h.push_back(hd); d.a.push_back(at); if (hadw) d.exact = false; };
        auto fin = [path, hd, at, close, hadw](bool ok) {
            auto & d = J->M.disk[path]; MHand & h = J->hs[path];
            if (ok) { d.h = {hd}; d.a = {at}; h.wrote = h.hdirty = h.adirty = false; h.at.assign(J->members, at); }
            else { d.h.push_back(hd); d.a.push_back(at); if (close && hadw) d.exact = false; }
            if (close) J->hs.erase(path);
        };
        if (J->async) { fin(true); return; }
        r.after = [fin, path, hd](bool ok) { fin(ok); if (ok) { J->M.check(path); J->M.check_sums(path, hd); } };
    } else if (k == "grow") {
        if (!prep_handle(o, r)) { r.skip = true; return; }
        MHand & h = J->hs[path]; Hdr n = h.hd; vector<u64> add;
        if (o.has("even")) { i64 nf = std::max<i64>(1, o.i("nf", 1)), sz = o.i("even"); for (i64 i = 0; i < nf; i++) add.push_back((u64) (sz * (i + 1) / nf - sz * i / nf)); }
        else for (i64 x : o.list("sizes")) add.push_back(x);
        if (n.total() > 4000 || n.sizes.size() > 60) { r.skip = true; if (r.autoopen) J->hs.erase(path); return; }
        size_t old = n.sizes.size(); for (u64 x : add) n.sizes.push_back(x);
        r.hd = n; r.usehd = true; r.checkat = true; r.at.assign(m, h.at[0]);
        auto fin = [path, n, old](bool ok) {
            MHand & h = J->hs[path]; auto & d = J->M.disk[path];
            if (ok) { h.hd = n; h.hdirty = true; h.pos = -1; d.layout(n); h.at.assign(J->members, h.at[0]); for (size_t i = old; i < n.sizes.size(); i++) for (auto & x : d.files[i]) x = RowC(); }
        };
        if (J->async) { fin(true); return; }
        r.after = [fin, path, n, old](bool ok) {
            fin(ok); if (!ok) return;
            for (size_t i = old; i < n.sizes.size(); i++) {
                NodeP nd = FS->get(path + strf("/%06X", (unsigned) i));
                if (!nd) fail("effect-missing", "growing %s succeeded but data file %zu does not exist", path.c_str(), i);
                if (nd->size) fail("stale-data", "data file %zu of the grown block %s is not empty", i, path.c_str());
            }
        };
    } else if (k == "write" || k == "read") {
        if (!prep_handle(o, r)) { r.skip = true; return; }
        MHand & h = J->hs[path]; r.hd = h.hd; Hdr hd = h.hd; i64 size = (i64) hd.total(); bool write = k == "write";
        r.conc = (int) o.i("conc");
        if (hd.nm == 0) { r.skip = true; if (r.autoopen) J->hs.erase(path); return; }
        r.start = size * o.i("start") / 1000; r.cont = o.i("cont") && h.open && h.pos >= 0;
        if (r.cont) r.start = h.pos;
        if (o.has("once")) { r.cont = false; r.start = 0; while (r.start < size && d.row(hd, r.start)->wr) r.start++; }
        i64 start = r.start; i64 avail = size - start;
        if (o.has("once")) { avail = 0; while (start + avail < size && !d.row(hd, start + avail)->wr) avail++; }
        if (o.i("over") && !J->async) avail = size - start;
        Op oo = o; if (J->async) oo.kv.erase("over");
        if (o.has("fill")) { r.cont = false; r.start = start = 0; vector<i64> v; for (int i = 0; i < m; i++) v.push_back(size * (i + 1) / m - size * i / m); oo.set("cnt", v); avail = size; }
        share(oo, r, avail);
        bool mix = o.i("mix"); r.arr.resize(m); r.rows.resize(m); r.expect_exact.assign(m, 1);
        Bytes have;
        if (!write) {
            i64 n = std::min(r.total, size - start);
            r.sure = d.readable(hd, start, n);
            if (J->async) { if (!r.sure) { r.skip = true; return; } model_rows(d, hd, start, n, have); } else have = disk_rows(path, hd, start, n);
            have.resize((size_t) r.total * hd.rowlen());
        }
        vector<i64> un = J->async ? vector<i64>() : o.list("unsup");
        for (int i = 0; i < m; i++) {
            Rng g(mix64(o.u("vs"), i)); static const vector<string> T = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16"};
            DT t = mix && g.below(2) ? parse_dt(g.pick(T)) : o.has("dt") ? parse_dt(o.s("dt")) : hd.dt; t.be = mix ? g.below(3) == 0 : o.i("be");
            bool wantun = std::find(un.begin(), un.end(), i) != un.end() && r.cnt[i] > 0;
            bool ok = write ? convertible(hd.dt, t) : convertible(t, hd.dt);
            if (wantun) {
                static const vector<string> U = {"S3", "c16", "c8", "S1", "f8"}; ok = true;
                for (auto & u : U) { DT q = parse_dt(u); if (!convertible(hd.dt, q) && !convertible(q, hd.dt)) { t = q; ok = false; break; } }
                if (!ok) r.valid = false; else { t = hd.dt; }
            } else {
                if (ok && !write) { Bytes part(have.begin() + r.off[i] * hd.rowlen(), have.begin() + (r.off[i] + r.cnt[i]) * hd.rowlen()); ok = bytes_defined(t, hd.dt, part); }
                if (!ok) t = hd.dt;
            }
            int lay = o.i("lmix") ? (int) g.below(9) : (int) o.i("layout");
            Arr * a = new Arr(); r.arr[i].reset(a);
            a->make(t, r.cnt[i], hd.nm, lay, mix64(o.u("vs"), i + 1000), write, true);
            bool bad = wantun && !ok;
            if (write) {
                for (i64 q = 0; q < r.cnt[i] * hd.nm; q++) if (bad) for (int b = 0; b < t.w; b++) a->at(q)[b] = (u8) g.next(); else gen_value(g, t, hd.dt, a->at(q));
                if (!bad) arr_rows(*a, hd.dt, r.rows[i]);
            } else { r.rows[i].clear(); for (i64 q = 0; q < r.cnt[i]; q++) r.rows[i].push_back(Bytes(have.begin() + (r.off[i] + q) * hd.rowlen(), have.begin() + (r.off[i] + q + 1) * hd.rowlen())); }
            a->snap();
        }
        if (!write && !r.valid && !r.sure) { r.skip = true; if (r.autoopen) J->hs.erase(path); return; }
        auto maybe = [path, hd, start, &r] { auto & d = J->M.disk[path]; for (int i = 0; i < J->members; i++) d.maybe(hd, start + r.off[i], r.rows[i]); };
        // a request past the end is refused before anything is touched
        bool inrange = start + r.total <= size;
        if (write && inrange) r.pend = [maybe, path] { maybe(); J->M.disk[path].exact = false; };
        auto fin = [path, hd, start, write, maybe, inrange, &r](bool ok) {
            auto & d = J->M.disk[path]; MHand & h = J->hs[path];
            if (ok) {
                if (write) { for (int i = 0; i < J->members; i++) d.wrote(hd, start + r.off[i], r.rows[i]); if (r.total) h.wrote = true; R->stat["rows_written"] += r.total; } else R->stat["rows_read"] += r.total;
                h.pos = start + r.total;
            } else { if (write && inrange) maybe(); h.pos = -1; }
        };
        if (J->async) fin(true); else r.after = fin;
    } else if (k == "swrite" || k == "sread") {
        MHand * h = hand(path); if (!h || J->async || h->hd.nm == 0) { r.skip = true; return; }
        r.who = (int) rank_of(o, "who"); r.hd = h->hd; Hdr hd = h->hd; i64 size = (i64) hd.total(); r.start = size * o.i("start") / 1000; r.total = std::min<i64>(o.i("max", 10), size - r.start);
        i64 start = r.start; bool write = k == "swrite"; r.arr.resize(1); r.rows.resize(1);
        if (o.has("once")) { r.start = 0; while (r.start < size && d.row(hd, r.start)->wr) r.start++; start = r.start; i64 a = 0; while (start + a < size && a < o.i("max", 10) && !d.row(hd, start + a)->wr) a++; r.total = a; }
        Arr * a = new Arr(); r.arr[0].reset(a); a->make(hd.dt, r.total, hd.nm, 0, o.u("vs"), write, false);
        if (write) { Rng g(o.u("vs")); for (i64 q = 0; q < r.total * hd.nm; q++) gen_value(g, hd.dt, hd.dt, a->at(q)); arr_rows(*a, hd.dt, r.rows[0]); }
        else { r.sure = d.readable(hd, start, r.total); Bytes have = disk_rows(path, hd, start, r.total); for (i64 q = 0; q < r.total; q++) r.rows[0].push_back(Bytes(have.begin() + q * hd.rowlen(), have.begin() + (q + 1) * hd.rowlen())); }
        a->snap();
        if (write) r.pend = [path, hd, start, &r] { auto & d = J->M.disk[path]; d.maybe(hd, start, r.rows[0]); d.exact = false; };
        r.after = [path, hd, start, write, &r](bool ok) { auto & d = J->M.disk[path]; if (!write) return; if (ok) { d.wrote(hd, start, r.rows[0]); if (r.total) J->hs[path].wrote = true; } else d.maybe(hd, start, r.rows[0]); };
    } else if (k == "setattr" || k == "rmattr") {
        // local: the root's attributes are the ones that count
        MHand * h = hand(path); if (!h) { r.skip = true; return; }
        i64 w = o.i("who", -1); r.who = w < 0 ? -1 : (int) (w % m);
        for (int i = 0; i < m; i++) if (r.who < 0 || r.who == i) {
            AttrV a; string name; attr_of(o, i == 0 || o.i("same", 1) ? 0 : i, a, name);
            if (k == "setattr") h->at[i][name] = a; else if (h->at[i].count(name)) h->at[i].erase(name); else r.ran[i] = 2;
        }
        if (r.who <= 0) h->adirty = true;
        r.at = h->at; r.checkat = true;
    } else if (k == "setthr") { J->thr = o.i("n"); }
    else if (k == "rcreate" || k == "rwrite" || k == "rread") {
        if (!(J->fopen_ || r.autofile) || J->async) { r.skip = true; return; }
        vector<i64> nm = o.list("nms"), b = o.list("bs"); string t = o.s("dts"); size_t q = 0;
        for (size_t i = 0; i < b.size(); i++) { size_t e = t.find(',', q); if (e == string::npos) e = t.size(); RecField f; f.name = J->names[b[i] % J->names.size()]; f.dt = parse_dt(t.substr(q, e - q)); f.nm = std::max<int>(1, i < nm.size() ? (int) nm[i] : 1); r.fs.push_back(f); q = e + 1; }
        if (r.fs.empty()) { r.skip = true; return; }
        std::set<string> seen; for (auto & f : r.fs) { if (hand(blkpath(J->root, f.name)) || !seen.insert(f.name).second) { r.skip = true; return; } }
        if (k == "rcreate") {
            string mode = o.s("mode", "w+"); bool app = mode == "a+"; r.valid = app || mode == "w+"; vector<u64> fsz; for (i64 x : o.list("sizes")) fsz.push_back(x);
            if (app) for (auto & f : r.fs) { auto & d = J->M.disk[blkpath(J->root, f.name)]; if (!d.exists) r.valid = false; else if (d.unknown || d.h.back().total() > 3000) { r.skip = true; return; } }
            vector<RecField> fs = r.fs; bool known = r.valid || app;
            auto effect = [fs, app, fsz](bool ok) {
                for (auto & f : fs) {
                    auto & d = J->M.disk[blkpath(J->root, f.name)];
                    if (app) { if (!d.exists) { if (ok) continue; break; } Hdr n = d.h.back(); size_t old = n.sizes.size(); for (u64 z : fsz) n.sizes.push_back(z); if (ok) { d.h = {n}; d.layout(n); for (size_t z = old; z < n.sizes.size(); z++) for (auto & x : d.files[z]) x = RowC(); } else d.h.push_back(n); }
                    else { Hdr n; n.dt = f.dt; n.nm = f.nm; n.sizes = fsz; d.exists = true; if (ok) { d.unknown = false; d.h = {n}; d.a = {Attrs()}; d.reset(n); } else d.unknown = true; }
                }
            };
            if (known) r.pend = [effect] { effect(false); };
            r.after = [effect, known](bool ok) { if (known) effect(ok); };
        } else {
            bool write = k == "rwrite"; i64 size = -1; r.conc = (int) o.i("conc");
            for (auto & f : r.fs) { auto & d = J->M.disk[blkpath(J->root, f.name)]; if (!d.exists) { r.valid = false; continue; } if (d.unknown || d.h.back().nm == 0) { r.skip = true; return; } i64 t = (i64) d.h.back().total(); size = size < 0 ? t : std::min(size, t); f.nm = d.h.back().nm; }
            if (size < 0) size = 10;
            r.start = size * o.i("start") / 1000; share(o, r, size - r.start);
            for (auto & f : r.fs) { auto & d = J->M.disk[blkpath(J->root, f.name)]; if (!d.exists) continue; Hdr hd = d.h.back(); if (r.start + r.total > (i64) hd.total()) r.valid = false; else if (!write && !d.readable(hd, r.start, r.total)) r.sure = false; }
            r.fdt.resize(m); r.buf.resize(m); r.keep.resize(m); vector<vector<Bytes>> rows(r.fs.size()); 
            for (size_t i = 0; i < r.fs.size(); i++) rows[i].resize(r.total);
            for (int k2 = 0; k2 < m; k2++) {
                Rng g(mix64(o.u("vs"), k2)); size_t item = 0; r.fdt[k2].resize(r.fs.size());
                for (size_t i = 0; i < r.fs.size(); i++) {
                    auto & f = r.fs[i]; auto & d = J->M.disk[blkpath(J->root, f.name)]; DT t = f.dt; if (g.below(4) == 0) t.be = !t.be;
                    if (d.exists) { Hdr hd = d.h.back(); if (write ? !convertible(hd.dt, t) : !convertible(t, hd.dt)) t = hd.dt; if (!write && r.start + r.total <= (i64) hd.total() && !bytes_defined(t, hd.dt, disk_rows(blkpath(J->root, f.name), hd, r.start + r.off[k2], r.cnt[k2]))) t = hd.dt; }
                    r.fdt[k2][i] = t; item += (size_t) t.w * f.nm;
                }
                r.buf[k2].resize(item * r.cnt[k2] + 32); for (auto & c : r.buf[k2]) c = (u8) g.next();
                size_t off = 0;
                for (size_t i = 0; i < r.fs.size(); i++) {
                    auto & f = r.fs[i]; DT t = r.fdt[k2][i]; auto & d = J->M.disk[blkpath(J->root, f.name)]; DT bd = d.exists ? d.h.back().dt : t;
                    for (i64 x = 0; x < r.cnt[k2]; x++) { Bytes & row = rows[i][r.off[k2] + x]; row.resize((size_t) bd.w * f.nm); for (int e = 0; e < f.nm && write; e++) { u8 * p = &r.buf[k2][16 + x * item + off + (size_t) e * t.w]; gen_value(g, t, bd, p); conv(bd, &row[(size_t) e * bd.w], t, p); } }
                    off += (size_t) t.w * f.nm;
                }
                r.keep[k2] = r.buf[k2];
            }
            r.rows = rows; vector<RecField> fs = r.fs; i64 start = r.start, total = r.total;
            auto maybe = [fs, start, total, &r] { for (size_t i = 0; i < fs.size(); i++) { auto & d = J->M.disk[blkpath(J->root, fs[i].name)]; if (d.exists && start + total <= (i64) d.h.back().total()) { d.maybe(d.h.back(), start, r.rows[i]); d.exact = false; } } };
            if (write) { r.pend = maybe; r.after = [fs, start, maybe, &r](bool ok) { if (!ok) { maybe(); return; } for (size_t i = 0; i < fs.size(); i++) { string q = blkpath(J->root, fs[i].name); auto & d = J->M.disk[q]; d.wrote(d.h.back(), start, r.rows[i]); J->M.check(q); J->M.check_sums(q, d.h.back()); } R->stat["rows_written"] += r.total; }; }
            else r.after = [](bool) {};
        }
    } else r.skip = true;
}
// ---- one rank's part ------------------------------------------------------------------------
static void rec_type(const Op & o, const Rec & r, int me, BigRecordType & rt, size_t & item) {
    memset(&rt, 0, sizeof rt); api()->big_record_type_clear(&rt); item = 0;
    for (size_t i = 0; i < r.fs.size(); i++) { DT t = r.fdt.empty() ? r.fs[i].dt : r.fdt[me][i]; item += (size_t) t.w * r.fs[i].nm; }
    rec_define(&rt, r.fs.size(), o.u("ts") ? o.u("ts") + me : 0, [&](size_t i) { return r.fs[i].name; }, [&](size_t i) { return (r.fdt.empty() ? r.fs[i].dt : r.fdt[me][i]).str(); }, [&](size_t i) { return r.fs[i].nm; });
    api()->big_record_type_complete(&rt);
}
static int part(const Op & o, Rec & r, int w, int me) {
    Api * A = api(); const string & k = o.kind; MPI_Comm c = J->comm[w];
    if (r.autofile) { int e = A->big_file_mpi_open(&J->bf[w], J->root.c_str(), c); if (e) { r.ran[me] = 4; return e; } }
    if (k == "setthr") { A->big_file_mpi_set_aggregated_threshold((size_t) o.i("n")); if (A->big_file_mpi_get_aggregated_threshold() != (size_t) o.i("n")) fail("setting-lost", "the aggregation threshold was not kept"); return 0; }
    if (k == "fcreate") return A->big_file_mpi_create(&J->bf[w], J->root.c_str(), c);
    if (k == "fopen") return A->big_file_mpi_open(&J->bf[w], J->root.c_str(), c);
    if (k == "fclose") return A->big_file_mpi_close(&J->bf[w], c);
    if (k == "rcreate") {
        BigRecordType rt; size_t item; rec_type(o, r, me, rt, item); vector<i64> s = o.list("sizes"); vector<size_t> fs(s.begin(), s.end()); fs.push_back(0);
        int e = A->big_file_mpi_create_records(&J->bf[w], &rt, o.s("mode", "w+").c_str(), (int) s.size(), fs.data(), c); A->big_record_type_clear(&rt); return e;
    }
    if (k == "rwrite" || k == "rread") {
        BigRecordType rt; size_t item; rec_type(o, r, me, rt, item); bool write = k == "rwrite"; u8 * b = &r.buf[me][16];
        int e = write ? A->big_file_mpi_write_records(&J->bf[w], &rt, r.start, r.cnt[me], b, r.conc, c) : A->big_file_mpi_read_records(&J->bf[w], &rt, r.start, r.cnt[me], b, r.conc, c);
        A->big_record_type_clear(&rt);
        Bytes & u = r.buf[me], & p = r.keep[me];
        if (write) { if (u != p) fail("source-changed", "writing records changed the caller's buffer"); return e; }
        for (int i = 0; i < 16; i++) if (u[i] != p[i] || u[u.size() - 1 - i] != p[p.size() - 1 - i]) fail("destination-overrun", "reading records wrote outside the buffer");
        if (e == 0) {
            size_t off = 0;
            for (size_t i = 0; i < r.fs.size(); i++) {
                auto & f = r.fs[i]; DT t = r.fdt[me][i]; string q = blkpath(J->root, f.name); Hdr hd = J->M.disk[q].h.back(); Bytes have = disk_rows(q, hd, r.start + r.off[me], r.cnt[me]);
                for (i64 x = 0; x < r.cnt[me]; x++) for (int y = 0; y < f.nm; y++) { u8 v[32]; conv(t, v, hd.dt, &have[(x * f.nm + y) * hd.dt.w]); if (memcmp(v, b + x * item + off + (size_t) y * t.w, t.w)) fail("read-wrong", "record %lld field %s[%d] is wrong on rank %d", (long long) (r.start + r.off[me] + x), f.name.c_str(), y, me); }
                off += (size_t) t.w * f.nm;
            }
        }
        return e;
    }
    RankH & rh = J->rh[w][r.path];
    if (r.autoopen) {
        memset(&rh.bb, 0xC3, sizeof rh.bb);
        int e = A->big_file_mpi_open_block(&J->bf[w], &rh.bb, r.name.c_str(), c); if (e) { r.ran[me] = 3; return e; }
        rh.open = true; memset(&rh.ptr, 0, sizeof rh.ptr);
    }
    if (k == "create") {
        memset(&rh.bb, 0xC3, sizeof rh.bb); memset(&rh.ptr, 0, sizeof rh.ptr); string bad = o.s("bad"); string nm = bad == "name" ? r.name + " q" : r.name, dt = bad == "dtype" ? o.s("baddt", "S20") : o.s("dt", "i8"); int nmemb = bad == "nmemb" ? -1 : r.hd.nm;
        int e;
        if (o.has("even")) e = A->big_file_mpi_create_block(&J->bf[w], &rh.bb, nm.c_str(), dt.c_str(), nmemb, (int) std::max<i64>(1, o.i("nf", 1)), (size_t) o.i("even"), c);
        else { vector<size_t> fs(r.hd.sizes.begin(), r.hd.sizes.end()); fs.push_back(0); e = A->_big_file_mpi_create_block(&J->bf[w], &rh.bb, nm.c_str(), dt.c_str(), nmemb, (int) r.hd.sizes.size(), fs.data(), c); }
        rh.open = e == 0; return e;
    }
    if (k == "open") { memset(&rh.bb, 0xC3, sizeof rh.bb); memset(&rh.ptr, 0, sizeof rh.ptr); int e = A->big_file_mpi_open_block(&J->bf[w], &rh.bb, r.name.c_str(), c); rh.open = e == 0; return e; }
    if (k == "flush") return A->big_block_mpi_flush(&rh.bb, c);
    if (k == "close") { rh.open = false; return A->big_block_mpi_close(&rh.bb, c); }
    if (k == "grow") {
        if (o.has("even")) return A->big_block_mpi_grow_simple(&rh.bb, (int) std::max<i64>(1, o.i("nf", 1)), (size_t) o.i("even"), c);
        vector<i64> s = o.list("sizes"); vector<size_t> fs(s.begin(), s.end()); fs.push_back(0);
        return A->big_block_mpi_grow(&rh.bb, (int) s.size(), fs.data(), c);
    }
    if (k == "write" || k == "read") {
        bool write = k == "write"; Arr & a = *r.arr[me]; a.init(A);
        if (!r.cont) {
            BigBlockPtr q = {0}; int e = A->big_block_seek(&rh.bb, &q, r.start);
            if (e) fail("invented-failure", "seek to row %lld of %s failed on rank %d: %s", (long long) r.start, r.path.c_str(), me, last_error().c_str());
            rh.ptr = q;
        }
        if (o.i("bigbuf")) A->big_file_set_buffer_size(30000 + me * 1000);
        R->cur->allocs = true; int e = write ? A->big_block_mpi_write(&rh.bb, &rh.ptr, &a.ba, r.conc, c) : A->big_block_mpi_read(&rh.bb, &rh.ptr, &a.ba, r.conc, c);
        R->cur->allocs = false; if (o.i("bigbuf")) A->big_file_set_buffer_size(J->bufs[w]);
        if (write && !a.unchanged()) fail("source-changed", "collective write to %s changed the caller's array on rank %d", r.path.c_str(), me);
        if (!write && !a.guards_ok()) fail("destination-overrun", "collective read of %s changed memory outside the destination elements on rank %d", r.path.c_str(), me);
        if (e == 0) {
            if (!write && !r.rows[me].empty()) { i64 z = arr_differs(a, r.hd.dt, r.rows[me]); if (z >= 0) fail("read-wrong", "collective read of %lld rows of %s from %lld: rank %d (rows %lld+%lld, as %s) got a wrong element %lld", (long long) r.total, r.path.c_str(), (long long) r.start, me, (long long) (r.start + r.off[me]), (long long) r.cnt[me], a.dt.str().c_str(), (long long) z); }
            i64 at = (i64) rh.bb.foffset[rh.ptr.fileid] + rh.ptr.roffset;
            if (at != r.start + r.total) fail("position-wrong", "after a collective %s of %lld rows from %lld of %s the position of rank %d is %lld", k.c_str(), (long long) r.total, (long long) r.start, r.path.c_str(), me, (long long) at);
            if (!!A->big_block_eof(&rh.bb, &rh.ptr) != (at == (i64) r.hd.total())) fail("eof-wrong", "the end-of-file test at row %lld of %s is wrong on rank %d", (long long) at, r.path.c_str(), me);
        }
        return e;
    }
    if (k == "swrite" || k == "sread") {
        if (r.who != me) return 0;
        Arr & a = *r.arr[0]; a.init(A); BigBlockPtr q = {0};
        int e = A->big_block_seek(&rh.bb, &q, r.start); if (e) return e;
        e = k == "swrite" ? A->big_block_write(&rh.bb, &q, &a.ba) : A->big_block_read(&rh.bb, &q, &a.ba);
        if (e == 0 && k == "sread") { i64 z = arr_differs(a, r.hd.dt, r.rows[0]); if (z >= 0) fail("read-wrong", "read of %s on rank %d: element %lld is wrong", r.path.c_str(), me, (long long) z); }
        return e;
    }
    if (k == "setattr" || k == "rmattr") {
        if (r.who >= 0 && r.who != me) return 0;
        AttrV a; string name; attr_of(o, me == 0 || o.i("same", 1) ? 0 : me, a, name); Bytes keep = a.v;
        if (k == "setattr") { int e = A->big_block_set_attr(&rh.bb, name.c_str(), a.v.data(), a.dt.str().c_str(), a.nm); if (a.v != keep) fail("source-changed", "set_attr changed the caller's value"); return e; }
        int e = A->big_block_remove_attr(&rh.bb, name.c_str()); if (!!e != (r.ran[me] == 2)) fail("attributes-wrong", "remove_attr of `%s' on rank %d returned %d", name.c_str(), me, e); return 0;
    }
    return 0;
}
static bool collective(const string & k) { return k != "setattr" && k != "rmattr" && k != "setthr" && k != "swrite" && k != "sread"; }
static void finish(const Op & o, Rec & r) {
    // every rank is back
    int m = J->members, bad = 0, fl = 0; for (int i = 0; i < m; i++) { bad += r.rt[i] != 0; fl += r.faulted[i]; }
    R->stat[strf("call.mpi.%s.%s", o.kind.c_str(), bad ? "error" : "ok")]++; if (fl) R->stat["faulted_collectives"]++;
    hashv(mix64(bad, hash_bytes(o.kind.data(), o.kind.size())));
    auto who = [&] { string s; for (int i = 0; i < m; i++) s += strf("%s%d", i ? "," : "", r.rt[i]); return s; };
    if (!collective(o.kind)) {
        if (bad && !fl && r.sure) fail("invented-failure", "%s failed although no storage call failed", o.kind.c_str());
        if (r.after) r.after(bad == 0); return;
    }
    if (o.kind == "fclose") { if (bad && !fl) fail("invented-failure", "close failed"); if (r.after) r.after(bad == 0); return; }
    if (bad && bad != m) fail("outcome-differs", "collective %s returned %s on the ranks", o.kind.c_str(), who().c_str());
    if (bad) {
        for (int i = 0; i < m; i++) {
            if (r.msg[i].empty()) fail("no-message", "collective %s failed with no error message on rank %d", o.kind.c_str(), i);
            if (is_stale(r.msg[i])) fail("stale-message", "collective %s failed and left the message of an earlier call on rank %d: %s", o.kind.c_str(), i, r.msg[i].c_str());
            if (r.msg[i] != r.msg[0]) fail("message-differs", "collective %s failed with different messages: rank 0 `%s', rank %d `%s'", o.kind.c_str(), r.msg[0].c_str(), i, r.msg[i].c_str());
        }
        if (r.valid && r.sure && !fl) fail("invented-failure", "collective %s failed although no storage call failed: %s", o.kind.c_str(), r.msg[0].c_str());
    } else if (!r.valid) fail("accepted", "collective %s of an invalid request returned success", o.kind.c_str());
    if (r.autofile) {
        J->fopen_ = true; for (int i = 0; i < m; i++) if (r.ran[i] == 4) J->fopen_ = false;
        // nothing else was tried
        if (!J->fopen_) { if (hand(r.path) == nullptr) J->hs.erase(r.path); return; }
    }
    if (r.autoopen) {
        bool opened = true; for (int i = 0; i < m; i++) if (r.ran[i] == 3) opened = false;
        if (!opened) { J->hs.erase(r.path); return; }
        J->hs[r.path].open = true;
    }
    if (r.after) r.after(bad == 0);
}
static void after_rank(const Op & o, Rec & r, int w, int me) {
    // what this rank's handle looks like now
    if (r.rt[me] == 0 && r.usehd && !r.close) {
        RankH & rh = J->rh[w][r.path]; if (!rh.open) return;
        check_bb(o.kind.c_str(), rh.bb, r.hd);
        if (r.checkat) { Attrs a = handle_attrs(rh.bb, o.kind.c_str()); if (!(a == r.at[me])) fail("attributes-wrong", "after %s the attributes of %s on rank %d are %s, expected %s", o.kind.c_str(), r.path.c_str(), me, attrs_str(a).c_str(), attrs_str(r.at[me]).c_str()); }
    }
}
// the life of a file and a block as a process sees it that is not in the communicator
static void null_calls(int how) {
    Api * A = api(); MPI_Comm c = MPI_COMM_NULL; BigFile f = {0}; BigBlock b = {0}; BigBlockPtr ptr = {0}; size_t n = 3, dims[2] = {3, 1}; double v[3] = {0}; BigArray a; int rt = 0;
    A->big_array_init(&a, v, "f8", 2, dims, NULL);
    rt |= how ? A->big_file_mpi_create(&f, J->root.c_str(), c) : A->big_file_mpi_open(&f, J->root.c_str(), c);
    rt |= how == 2 ? A->big_file_mpi_open_block(&f, &b, "x", c) : how ? A->big_file_mpi_create_block(&f, &b, "x", "f8", 1, 1, n, c) : A->_big_file_mpi_create_block(&f, &b, "x", "f8", 1, 1, &n, c);
    rt |= A->big_block_mpi_write(&b, &ptr, &a, 1, c) | A->big_block_mpi_flush(&b, c) | A->big_block_mpi_grow(&b, 1, &n, c) | A->big_block_mpi_grow_simple(&b, 1, n, c) | A->big_block_mpi_read(&b, &ptr, &a, 1, c);
    rt |= A->big_block_mpi_close(&b, c) | A->big_file_mpi_close(&f, c);
    if (rt) fail("null-communicator", "a call on MPI_COMM_NULL failed");
}
static void rank_main(int w, int phase_last) {
    Api * A = api(); A->big_file_set_buffer_size(J->bufs[w]); A->big_file_mpi_set_aggregated_threshold((size_t) J->thr);
    MPI_Comm c = MPI_COMM_WORLD; int kind = (int) J->p->pi("comm");
    if (kind == 1) MPI_Comm_dup(MPI_COMM_WORLD, &c);
    else if (kind == 2) MPI_Comm_split(MPI_COMM_WORLD, 0, J->n - w, &c);
    else if (kind == 3) MPI_Comm_split(MPI_COMM_WORLD, w < J->members ? 0 : MPI_UNDEFINED, w, &c);
    if (J->p->pi("leak")) audit_start();
    J->comm[w] = c; int me = -1; if (c != MPI_COMM_NULL) MPI_Comm_rank(c, &me); J->me[w] = me;
    for (size_t k = J->first; k < J->p->ops.size(); k++) {
        const Op & o = J->p->ops[k]; Rec & r = J->recs[k];
        set_op(o.idx);
        if (me < 0) { // not in the communicator: the call is nothing to this process
            if (o.kind == "restart") return;
            null_calls((int) (k % 3));
            if (!J->async) block_on("the end of the operation", [&] { return r.fin || r.skip; });
            continue;
        }
        if (o.kind == "restart") { if (J->async) continue; J->restart = true; J->next = k + 1; return; }
        if (!r.init) {
            if (o.i("ifprev") && !J->async) { bool pf = false; if (k > J->first && k > 0) { Rec & q = J->recs[k - 1]; for (int e : q.rt) pf |= e != 0; } if (!pf) { r.init = true; r.skip = true; } }
            if (!r.init) prepare(o, r);
            if (!J->async) { J->next = k; cur_rec = r.skip ? nullptr : &r; }
        }
        if (r.skip) continue;
        R->cur->faulted = 0;
        stale_message();
        int rt = part(o, r, w, me);
        r.rt[me] = rt; r.faulted[me] = R->cur->faulted; if (rt) r.msg[me] = last_error();
        if (R->trace) tracef("%s -> %d%s%s", o.kind.c_str(), rt, rt ? " " : "", rt ? r.msg[me].c_str() : "");
        if (!R->cur->proc->fds.empty()) fail("fd-leak", "%zu files are still open after %s on rank %d", R->cur->proc->fds.size(), o.kind.c_str(), me);
        if (J->async) { after_rank(o, r, w, me); if (++r.done == J->members) finish(o, r); continue; }
        if (++r.done == J->members) {
            finish(o, r);
            for (auto & x : J->hs) if (x.second.open) r.snap[x.first] = {x.second.hd, x.second.at};
            J->M.check_all(); cur_rec = nullptr; J->next = k + 1; r.fin = true;
        } else block_on("the other ranks", [&] { return r.fin; });
        after_rank(o, r, w, me);
        if (J->hs.empty() && !J->fopen_) audit("with nothing open");
        // handles not concerned, and all of them after a failure, are as they were
        for (auto & x : r.snap) if (J->rh[w].count(x.first) && J->rh[w][x.first].open) {
            BigBlock & bb = J->rh[w][x.first].bb; check_bb(o.kind.c_str(), bb, x.second.first);
            Attrs a = handle_attrs(bb, o.kind.c_str());
            if (!(a == x.second.second[me])) fail("attributes-wrong", "after %s the attributes of %s on rank %d are %s, expected %s", o.kind.c_str(), x.first.c_str(), me, attrs_str(a).c_str(), attrs_str(x.second.second[me]).c_str());
        }
    }
    J->done++;
}
void exec_mpi(const Plan & p) {
    Job job; J = &job; job.p = &p; job.n = std::max<int>(1, (int) p.pi("n", 1)); job.members = p.pi("comm") == 3 ? std::max(1, job.n - (int) p.pi("out", 1)) : job.n;
    job.async = p.pi("async"); job.thr = p.pi("thr"); job.names = BNAMES;
    Op b; b.kv = p.par; vector<i64> bl = b.list("bufs"); for (int i = 0; i < job.n; i++) job.bufs.push_back(bl.empty() ? 4096 : bl[i % bl.size()]);
    job.recs.resize(p.ops.size()); cur_rec = nullptr; FS->mkdirs("/w");
    int guard = 0; bool over = false;
    while (!over && !R->v.set && guard++ < 100) {
        lib_restore_all(); mpi_world(job.n);
        job.bf.assign(job.n, BigFile()); job.comm.assign(job.n, nullptr); job.me.assign(job.n, -1); job.hs.clear(); job.fopen_ = false; job.restart = false; job.done = 0; job.first = job.next; job.rh.clear(); job.rh.resize(job.n);
        data_file_hook = [](Task * t, OpenFile *, bool open) {
            t->open_data += open ? 1 : -1;
            if (t->op < 0 || t->op >= 1000000) return;
            const Op * o = nullptr; for (auto & x : J->p->ops) if (x.idx == t->op) o = &x;
            if (!o || (o->kind != "write" && o->kind != "read" && o->kind != "rwrite" && o->kind != "rread")) return;
            int n = 0; for (Task * q : R->tasks) if (q->open_data > 0 && q->st != Task::DONE) n++;
            R->stat[strf("data_files_in_use.%d", n)]++;
            i64 conc = o->i("conc");
            // one segment: its leader alone works on the files
            if (open && conc == 1 && (o->kind == "write" || o->kind == "read")) { Rec & r = J->recs[o - &J->p->ops[0]]; if (J->thr >= r.total) { if (r.user && r.user != t) fail("too-many-writers", "two ranks work on data files in a collective %s of one segment", o->kind.c_str()); r.user = t; } }
            if (conc > 0 && n > conc) fail("too-many-writers", "%d ranks work on data files at the same time in a collective %s limited to %lld", n, o->kind.c_str(), (long long) conc);
        };
        for (int w = 0; w < job.n; w++) { Proc * pr = new_proc("libbig", w, w, job.n); add_task(pr, [w] { rank_main(w, 0); }); }
        run_tasks();
        data_file_hook = nullptr;
        bool killed = R->job_killed;
        if (!killed && !R->v.set && mpi_pending()) note_violation("message-left", strf("%d messages were never received", mpi_pending()));
        end_phase();
        if (R->v.set) break;
        if (killed) { R->stat["crash"]++; if (cur_rec && cur_rec->pend) cur_rec->pend(); cur_rec = nullptr; job.next++; }
        else if (job.restart) R->stat["restart"]++;
        else over = true;
        for (auto & x : job.hs) if (x.second.open && x.second.wrote) job.M.disk[x.first].exact = false;
        Task dummy; Proc dp; dummy.proc = &dp; dummy.op = (int) job.next; R->cur = nullptr;
        try { job.M.check_all(); } catch (Killed &) { break; }
        if (job.next >= p.ops.size()) over = true;
    }
    if (!R->v.set) {
        // a new process reads everything
        lib_restore_all(); mpi_world(1); R->faults.clear(); R->cfg.cap = -1; R->cfg.fdlimit = 0;
        Proc * pr = new_proc("libbig", 0);
        add_task(pr, [&] { set_op(1000001); if (FS->isdir(job.root)) verify_all(job.M, job.root); job.M.check_all(); });
        run_tasks(); end_phase();
    }
    J = nullptr;
}
// ---- generation ------------------------------------------------------------------------------
static const vector<int> ERR = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT, EROFS, ENOENT};
struct W { const char * k; int w; };
Plan gen_mpi(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x391a1)); p.par["mpi"] = "1";
    Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next();
    bool P16 = prop == "P16", P17 = prop == "P17", P18 = prop == "P18", P19 = prop == "P19", P20 = prop == "P20", P12 = prop == "P12";
    bool wide = g.below(20) == 0;   // a few runs: many ranks, many files, wide rows, long records; fewer operations
    int n = wide ? 9 + (int) g.below(g.below(3) ? 16 : 40) : g.below(12) == 0 ? 1 : 2 + (int) g.below(scale && g.below(4) == 0 ? 14 : g.below(3) ? 4 : 8);
    p.par["n"] = std::to_string(n);
    int comm = g.below(3) ? 0 : 1 + (int) g.below(3); if (comm == 3 && n < 3) comm = 2; int m = n; if (comm == 3) { int out = 1 + (int) g.below(n - 1); p.par["out"] = std::to_string(out); m = n - out; }
    p.par["comm"] = std::to_string(comm);
    bool faults = P18 || (P20 && g.below(3) == 0), async = (P16 || P17 || P19) && g.below(3) == 0;
    if (async) p.par["async"] = "1";
    static const int POL[] = {0, 1, 1, 1, 2, 2, 3}; c.policy = POL[g.below(7)]; c.switch_pm = 20 + (int) g.below(500); c.pct_depth = 1 + (int) g.below(5);
    c.eager_pm = (int) g.below(1001); c.weak_pm = g.below(3) ? (int) g.below(1001) : 1000; c.shuffle = true; if (g.below(3) == 0) c.shortio_pm = (int) g.below(wide ? 60 : 500);
    if (P19) { c.policy = c.policy ? c.policy : 1; c.switch_pm = 200 + (int) g.below(780); }
    auto pickthr = [&]() -> i64 { static const vector<i64> T = {0, 1, 2, 3, 5, 8, 16, 40, 100, 1000000}; return g.below(5) == 0 ? 0 : g.below(4) == 0 ? 1000000 : g.pick(T); };
    p.par["thr"] = std::to_string(pickthr());
    { vector<i64> b; static const vector<i64> BUFS = {1, 16, 40, 128, 1000, 65536}; if (g.below(2)) b.push_back(g.pick(BUFS)); else for (int i = 0; i < n; i++) b.push_back(g.pick(BUFS)); Op o; o.set("bufs", b); p.par["bufs"] = o.s("bufs"); }
    int nn = 1 + (int) g.below(3), nops = wide ? 3 + (int) g.below(5) : 4 + (int) g.below(P18 || P12 ? 16 : 14) + (scale ? (int) g.below(20) : 0);
    vector<W> w;
    if (P16) w = {{"write", 10}, {"read", 10}, {"once", 3}, {"setthr", 2}, {"grow", 1}, {"flush", 1}, {"swrite", 1}, {"restart", 1}, {"close", 1}};
    else if (P17) w = {{"create", 6}, {"open", 3}, {"close", 5}, {"flush", 5}, {"grow", 5}, {"setattr", 5}, {"rmattr", 1}, {"once", 8}, {"swrite", 1}, {"sonce", 3}, {"restart", 1}, {"read", 1}, {"fclose", 1}, {"fopen", 1}};
    else if (P19) w = {{"write", 10}, {"read", 8}, {"setthr", 3}, {"grow", 1}, {"rwrite", 1}, {"rread", 1}};
    else if (P20) w = {{"rcreate", 5}, {"rwrite", 10}, {"rread", 8}, {"write", 1}, {"close", 1}, {"setthr", 1}, {"restart", 1}};
    else w = {{"write", 8}, {"read", 5}, {"once", 3}, {"create", 5}, {"open", 3}, {"close", 5}, {"flush", 4}, {"grow", 4}, {"setattr", 3}, {"setthr", 1}, {"swrite", 1}, {"restart", 1}, {"rcreate", 1}, {"rwrite", 1}, {"rread", 1}, {"fclose", 1}, {"fcreate", 1}, {"fopen", 1}};
    int tot = 0; for (auto & x : w) tot += x.w;
    auto sizes = [&](Op & o) {
        if (g.below(2)) { o.set("even", g.below(8) == 0 ? 0 : g.below(g.below(4) ? 60 : 300)).set("nf", 1 + g.below(wide && g.below(2) ? 70 : g.below(4) ? 4 : 14)); return; }
        vector<i64> v; int nf = g.below(15) == 0 ? 0 : 1 + (int) g.below(wide && g.below(2) ? 70 : g.below(6) == 0 ? 14 : 4); for (int i = 0; i < nf; i++) v.push_back(g.below(5) == 0 ? 0 : g.below(wide ? 8 : g.below(5) ? 25 : 150)); o.set("sizes", v);
    };
    auto lsizes = [&](Op & o) { vector<i64> v; int nf = 1 + (int) g.below(4); for (int i = 0; i < nf; i++) v.push_back(g.below(6) == 0 ? 0 : g.below(40)); o.set("sizes", v); };
    static const vector<string> ODD = {"S1", "S7", "i2", "u1", "b1"};
    auto etype = [&] { return g.below(8) == 0 ? g.pick(ODD) : g.pick(NUM_TYPES); };
    auto cnts = [&](Op & o) {
        vector<i64> v(m, 0); int d = (int) g.below(6); i64 a = 1 + g.below(wide ? 5 : g.below(4) ? 8 : 60);
        for (int i = 0; i < m; i++) v[i] = d == 0 ? a : d == 1 ? (i64) g.below(a + 1) : d == 2 ? (g.below(3) ? 0 : (i64) g.below(3 * a)) : d == 3 ? i * a / 2 : d == 4 ? (g.below(4) ? 1 : a * 3) : 0;
        if (d == 5) v[g.below(m)] = a * m;
        o.set("cnt", v);
    };
    static const vector<string> BADDT = {"S20", "a1", "U4", "x8", "f0", "z"};
    auto mkcreate = [&](i64 b) { Op & o = p.op("create"); o.set("b", b).set("dt", string(g.below(4) == 0 ? ">" : "<") + etype()).set("nm", g.below(30) == 0 ? 0 : wide && g.below(3) == 0 ? 5 + g.below(40) : g.below(3) ? 1 : 1 + g.below(4)); sizes(o); if (P18 && g.below(10) == 0) { u64 z = g.below(3); o.set("bad", z == 0 ? "name" : z == 1 ? "dtype" : "nmemb"); if (z == 1) o.set("baddt", g.pick(BADDT)); } };
    auto xfer = [&](Op & o) {
        o.set("b", g.below(nn)).setu("vs", g.next()).set("start", g.below(3) ? g.below(1001) : 0); cnts(o);
        o.set("conc", g.below(3) == 0 ? 0 : g.below(8) == 0 ? n + 1 + g.below(4) : 1 + g.below(n)); if (P19) o.set("conc", 1 + g.below(g.below(2) ? 2 : n));
        if (g.below(3) == 0) o.set("cont", 1); if (g.below(4) == 0) o.set("mix", 1); else if (g.below(4) == 0) o.set("dt", etype());
        if (g.below(4) == 0) o.set("lmix", 1); else if (g.below(4) == 0) o.set("layout", g.below(9)); if (g.below(6) == 0) o.set("be", 1);
        if (g.below(P18 ? 8 : 20) == 0) o.set("over", 1 + g.below(g.below(2) ? 2 : 40)).set("overrank", g.below(m));
        if (P18 && g.below(8) == 0) { vector<i64> u; u.push_back(g.below(m)); if (g.below(2)) u.push_back(g.below(m)); o.set("unsup", u); }
    };
    auto recf = [&](Op & o) { int k = 1 + (int) g.below(g.below(6) ? 3 : 6); vector<i64> bs, nm; string ds; i64 st = g.below(6); for (int i = 0; i < k; i++) { bs.push_back((st + i) % 6); nm.push_back(1 + g.below(wide && g.below(2) ? 40 : 3)); ds += (i ? "," : "") + string(g.below(4) == 0 ? ">" : "<") + g.pick(NUM_TYPES); } o.set("bs", bs).set("nms", nm).set("dts", ds).setu("ts", g.below(2) ? 0 : g.next()); };
    p.op("fcreate");
    if (!P20) for (int b = 0; b < nn; b++) mkcreate(b);
    for (int b = 0; b < nn && !P20 && !P17; b++) if (g.below(3)) p.op("write").set("b", b).set("fill", 1).set("conc", g.below(3) ? 0 : 1 + g.below(n)).setu("vs", g.next());
    Op lastrec; bool haverec = false;
    if ((P18 || P19 || P12) && g.below(3) == 0) { Op & o = p.op("rcreate"); recf(o); lsizes(o); o.set("mode", "w+"); lastrec = o; haverec = true; }
    else if (P18 || P19 || P12) { for (auto & x : w) if (x.k[0] == 'r' && (x.k[1] == 'c' || x.k[1] == 'w' || !strcmp(x.k, "rread"))) { tot -= x.w; x.w = 0; } }
    for (int i = 0; i < nops; i++) {
        int r = (int) g.below(tot); string k; for (auto & x : w) { if (r < x.w) { k = x.k; break; } r -= x.w; }
        if (k == "create") mkcreate(g.below(nn));
        else if (k == "write" || k == "read") { Op & o = p.op(k); xfer(o); }
        else if (k == "once") { Op & o = p.op("write"); xfer(o); o.set("once", 1); o.kv.erase("cont"); }
        else if (k == "swrite" || k == "sread") { Op & o = p.op(k); o.set("b", g.below(nn)).set("who", g.below(m)).set("start", g.below(1001)).set("max", 1 + g.below(12)).setu("vs", g.next()); }
        else if (k == "sonce") { Op & o = p.op("swrite"); o.set("b", g.below(nn)).set("who", g.below(m)).set("once", 1).set("max", 1 + g.below(12)).setu("vs", g.next()); }
        else if (k == "open") { Op & o = p.op(k); o.set("b", g.below(nn)); if (P18 && g.below(5) == 0) o.set("miss", 1); }
        else if (k == "close" || k == "flush") p.op(k).set("b", g.below(nn));
        else if (k == "grow") { Op & o = p.op(k); o.set("b", g.below(nn)); sizes(o); }
        else if (k == "setattr" || k == "rmattr") { static const vector<string> AT = {"i4", "i8", "f8", "S1", "c16"}; p.op(k).set("b", g.below(nn)).set("name", g.below(ANAMES.size())).set("dt", g.pick(AT)).set("nm", g.below(8) == 0 ? g.below(300) : 1 + g.below(5)).set("who", g.below(3) == 0 ? (i64) g.below(m) : g.below(2) ? 0 : -1).set("same", g.below(4) != 0).setu("vs", g.next()); }
        else if (k == "setthr") p.op(k).set("n", pickthr());
        else if (k == "rcreate") { Op & o = p.op(k); recf(o); lsizes(o); o.set("mode", g.below(10) == 0 ? "r+" : g.below(3) == 0 ? "a+" : "w+"); if (o.s("mode") == "a+" && haverec && g.below(8)) o.set("bs", lastrec.s("bs")).set("nms", lastrec.s("nms")).set("dts", lastrec.s("dts")); else if (o.s("mode") == "w+") { lastrec = o; haverec = true; } }
        else if (k == "rwrite" || k == "rread") { Op & o = p.op(k); recf(o); cnts(o); if (haverec && g.below(6)) { o.set("bs", lastrec.s("bs")).set("nms", lastrec.s("nms")); if (g.below(2)) o.set("dts", lastrec.s("dts")); else { string d; for (size_t z = 0; z < o.list("bs").size(); z++) d += string(z ? "," : "") + (g.below(2) ? "<" : ">") + g.pick(NUM_TYPES); o.set("dts", d); } } o.setu("vs", g.next()).set("start", g.below(2) ? 0 : g.below(1001)).set("conc", g.below(2) ? 0 : 1 + g.below(n)); if (g.below(10) == 0) o.set("over", 1 + g.below(4)).set("overrank", g.below(m)); }
        else p.op(k);
    }
    if (g.below(2) || P17) for (int b = 0; b < nn; b++) p.op("close").set("b", b);
    if (faults) {
        vector<Op> q; for (auto & o : p.ops) { q.push_back(o); if (o.kind != "restart" && o.kind != "rcreate" && o.kind != "setattr" && o.kind != "rmattr" && g.below(4) == 0) { Op d = o; d.set("ifprev", 1); q.push_back(d); } }
        for (size_t i = 0; i < q.size(); i++) q[i].idx = (int) i; p.ops = q;
        int nf = 1 + (int) g.below(5); static const unsigned KS[] = {K_OPEN, K_OPEN, K_READ, K_WRITE, K_WRITE, K_CLOSE, K_MKDIR, K_STAT, K_RENAME, K_UNLINK, K_IO, K_IO, K_IO};
        for (int i = 0; i < nf; i++) {
            Op & o = p.ops[g.below(p.ops.size())]; if (o.i("ifprev")) continue;
            Fault f; f.op = o.idx; f.task = g.below(3) ? (int) g.below(n) : -1; f.kinds = KS[g.below(sizeof KS / sizeof *KS)]; f.n = g.below(3) ? (int) g.below(2) : (int) g.below(8); f.err = g.pick(ERR); f.cnt = g.below(3) ? 1 : g.below(2) ? 2 : 1000000;
            if (f.err == ENOENT) f.err = EIO;
            if ((o.kind == "write" || o.kind == "read") && !wide && g.below(8) == 0) {
                // memory for large transfers only: the block and the shares grow
                f.kinds = K_ALLOC; f.n = 0; f.err = ENOMEM; i64 each = 100 + (i64) g.below(900); bool have = false;
                for (auto & q2 : p.ops) if (&q2 < &o && q2.kind == "create" && q2.i("b") == o.i("b")) { q2.kv.erase("sizes"); q2.set("even", each * m + (i64) g.below(50)).set("nf", 1 + g.below(4)); have = true; }
                if (!have) continue;
                vector<i64> v = o.list("cnt"); for (auto & x : v) x = g.below(4) ? each : x; o.set("cnt", v); o.kv.erase("cont"); o.set("start", 0); o.set("bigbuf", 1);
            }
            if (f.kinds & K_CLOSE) { c.closefaults = true; if (f.kinds == K_CLOSE) f.lose = g.below(3) != 0; }
            p.faults.push_back(f);
        }
        if (P18 && g.below(8) == 0) c.cap = (i64) (6 + g.below(60)) * PG;
    }
    if (P12) {
        int nf = 1 + (int) g.below(3); static const unsigned KS[] = {K_IO, K_IO, K_WRITE, K_WRITE, K_OPEN, K_CLOSE, K_RENAME, K_MKDIR, K_UNLINK, K_MPI, K_MPI};
        for (int i = 0; i < nf; i++) { Fault f; f.op = p.ops[g.below(p.ops.size())].idx; f.task = g.below(2) ? (int) g.below(n) : -1; f.kinds = KS[g.below(sizeof KS / sizeof *KS)]; f.n = (int) (g.below(3) ? g.below(4) : g.below(30)); f.kill = true; f.tear = g.below(3) ? (int) g.below(1001) : -1; p.faults.push_back(f); }
    }
    return p;
}
}

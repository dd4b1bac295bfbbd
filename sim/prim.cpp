// Exchange primitives and the segmenter on simulated ranks: P21, P22.
#include "engine.h"
#include <algorithm>
#include <cmath>

namespace sim {
struct SegOut { bool has = false; int seg, nseg, gid, ngroup, start, end, gl, sl, isl; vector<int> seg_m, grp_m, lead_m; u64 total, off; vector<u64> all; };
struct PJob { const Plan * p; int n; vector<MPI_Comm> comm; vector<vector<SegOut>> seg; vector<int> done; };
static PJob * Q;

static u8 pay(u64 vs, int i, int j, i64 k) { return (u8) (mix64(vs, (u64) i * 1000003 + j, (u64) k) >> 16); }
static i64 count_of(const Op & o, int i, int j) {
    Rng g(mix64(o.u("vs"), i, j)); i64 mx = o.i("max", 4);
    switch (o.i("dens")) { case 0: return g.below(mx + 1); case 1: return g.below(4) ? 0 : g.below(mx + 1); case 2: return i == j ? 0 : 1 + g.below(mx); case 3: return 0; case 4: return (i + j) % 3 == 0 ? mx : 0; default: return 1 + g.below(mx); }
}
static void type_of(int kind, MPI_Datatype & t, i64 & size, i64 & ext, bool & own) {
    own = false;
    switch (kind % 7) {
    case 0: t = MPI_INT; size = ext = 4; return;
    case 1: t = MPI_DOUBLE; size = ext = 8; return;
    case 2: t = MPI_BYTE; size = ext = 1; return;
    case 3: MPI_Type_contiguous(3, MPI_BYTE, &t); size = ext = 3; break;
    case 4: MPI_Type_contiguous(12, MPI_BYTE, &t); size = ext = 12; break;
    case 5: { MPI_Datatype u; MPI_Type_contiguous(12, MPI_BYTE, &u); MPI_Type_create_resized(u, 0, 20, &t); MPI_Type_free(&u); size = 12; ext = 20; break; }
    default: MPI_Type_contiguous(2, MPI_DOUBLE, &t); size = ext = 16; break;
    }
    MPI_Type_commit(&t); own = true;
}
static void layout(Rng & g, bool gaps, const vector<int> & cnt, vector<int> & displ, i64 & len) {
    size_t n = cnt.size(); displ.assign(n, 0); vector<int> ord(n); for (size_t i = 0; i < n; i++) ord[i] = (int) i;
    if (gaps) for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
    len = 0; for (int i : ord) { if (gaps) len += g.below(3); displ[i] = (int) len; len += cnt[i]; }
    if (gaps) len += g.below(3);
}
static void do_a2a(const Op & o, int w, int n, MPI_Comm c) {
    int me; MPI_Comm_rank(c, &me); u64 vs = o.u("vs");
    MPI_Datatype st, rt; i64 ss, se, rs, re; bool so, ro; int k1 = (int) o.i("t"), k2 = o.i("t2") && (k1 % 7 == 4 || k1 % 7 == 5) ? 9 - k1 % 7 : k1;
    type_of(k1, st, ss, se, so); type_of(k2, rt, rs, re, ro);
    vector<int> sc(n), rc(n), sd, rd; for (int j = 0; j < n; j++) { sc[j] = (int) count_of(o, me, j); rc[j] = (int) count_of(o, j, me); }
    Rng g(mix64(vs, 77, me)); i64 sl, rl; layout(g, o.i("sgap"), sc, sd, sl); layout(g, o.i("rgap"), rc, rd, rl);
    Bytes sb((size_t) (sl * se) + 32, 0x3C), rb((size_t) (rl * re) + 32, 0xA7); 
    for (int j = 0; j < n; j++) for (i64 q = 0; q < sc[j]; q++) for (i64 b = 0; b < ss; b++) sb[16 + (sd[j] + q) * se + b] = pay(vs, me, j, q * ss + b);
    Bytes skeep = sb; vector<int> sck = sc, rck = rc, sdk = sd, rdk = rd;
    bool dfs = !o.i("sgap") && g.below(2), dfr = !o.i("rgap") && g.below(2), norc = o.i("norc"); auto pol = (MPIU_AlltoallvSparsePolicy) (o.i("pol") % 3);
    i64 tot = 0; for (int x : rc) tot += x;
    if (o.i("query")) { int r = api()->MPIU_Alltoallv(&sb[16], &sc[0], dfs ? nullptr : &sd[0], st, nullptr, norc ? nullptr : &rc[0], dfr ? nullptr : &rd[0], rt, c, pol); if (r != tot) fail("count-wrong", "rank %d of %d: the exchange reports %d items to receive, expected %lld", me, n, r, (long long) tot); }
    int r = api()->MPIU_Alltoallv(&sb[16], &sc[0], dfs ? nullptr : &sd[0], st, &rb[16], norc ? nullptr : &rc[0], dfr ? nullptr : &rd[0], rt, c, pol);
    if (r) fail("invented-failure", "the exchange returned %d", r);
    if (sb != skeep) fail("source-changed", "the exchange changed the send buffer of rank %d", me);
    if (sc != sck || rc != rck || sd != sdk || rd != rdk) fail("source-changed", "the exchange changed the counts or displacements of rank %d", me);
    Bytes want((size_t) (rl * re) + 32, 0xA7);
    for (int j = 0; j < n; j++) for (i64 q = 0; q < rc[j]; q++) for (i64 b = 0; b < rs; b++) want[16 + (rd[j] + q) * re + b] = pay(vs, j, me, q * rs + b);
    if (rb != want) { size_t i = 0; while (rb[i] == want[i]) i++; fail("delivery-wrong", "all-to-all (policy %d, %d ranks): byte %lld of the receive buffer of rank %d is wrong", (int) pol, n, (long long) i - 16, me); }
    if (so) MPI_Type_free(&st); if (ro) MPI_Type_free(&rt);
    R->stat[strf("call.alltoallv.policy%d", (int) pol)]++;
}
static void do_gs(const Op & o, int w, int n, MPI_Comm c, bool gather) {
    int me; MPI_Comm_rank(c, &me); u64 vs = o.u("vs"); int root = (int) (o.i("root") % n); i64 es = std::max<i64>(1, o.i("es", 1));
    vector<i64> cn(n), of(n); i64 tot = 0; for (int i = 0; i < n; i++) { cn[i] = count_of(o, i, 0); of[i] = tot; tot += cn[i]; }
    Bytes all(tot * es); for (int i = 0; i < n; i++) for (i64 k = 0; k < cn[i] * es; k++) all[of[i] * es + k] = pay(vs, i, 5, k);
    Bytes mine(all.begin() + of[me] * es, all.begin() + (of[me] + cn[me]) * es);
    bool give = (o.u("give") >> (me % 20)) & 1, wanttot = (o.u("wt") >> (me % 20)) & 1; int t = -77;
    Rng g(mix64(vs, me)); const char * nm = gather ? "gather" : "scatter";
    if (gather) {
        Bytes s = mine, rb((me == root ? tot * es : 0) + 32, 0x5A), keep; s.resize(s.size() + 8, 0x11); keep = s;
        void * out = api()->MPIU_Gather(c, root, s.data(), give ? &rb[16] : nullptr, (int) cn[me], es, wanttot ? &t : nullptr);
        if (s != keep) fail("source-changed", "gather changed the send buffer");
        if (me == root) {
            if (give && out != &rb[16]) fail("buffer-wrong", "gather returned another buffer than the given one");
            if (!out && tot) fail("buffer-wrong", "gather returned no buffer");
            if (tot && memcmp(out, all.data(), tot * es)) fail("delivery-wrong", "gather to rank %d of %d delivered wrong items", root, n);
            if (!give && out) api()->mpiu_free(out, "", 0);
        } else if (give && out != &rb[16]) fail("buffer-wrong", "gather returned another buffer than the given one");
        for (size_t i = 0; i < 16; i++) if (rb[i] != 0x5A || rb[rb.size() - 1 - i] != 0x5A) fail("destination-overrun", "gather wrote outside the buffer of rank %d", me);
        if (wanttot && t != (me == root ? tot : 0)) fail("count-wrong", "gather reports a total of %d on rank %d, expected %lld", t, me, (long long) (me == root ? tot : 0));
    } else {
        Bytes s = all, rb(cn[me] * es + 32, 0x5A), keep; s.resize(s.size() + 8, 0x11); keep = s;
        void * out = api()->MPIU_Scatter(c, root, me == root ? s.data() : nullptr, give ? &rb[16] : nullptr, (int) cn[me], es, wanttot ? &t : nullptr);
        if (s != keep) fail("source-changed", "scatter changed the send buffer");
        if (give && out != &rb[16]) fail("buffer-wrong", "scatter returned another buffer than the given one");
        if (!out && cn[me]) fail("buffer-wrong", "scatter returned no buffer on rank %d", me);
        if (cn[me] && memcmp(out, mine.data(), mine.size())) fail("delivery-wrong", "scatter from rank %d of %d delivered wrong items to rank %d", root, n, me);
        if (!give && out) api()->mpiu_free(out, "", 0);
        for (size_t i = 0; i < 16; i++) if (rb[i] != 0x5A || rb[rb.size() - 1 - i] != 0x5A) fail("destination-overrun", "scatter wrote outside the buffer of rank %d", me);
        if (wanttot && t != (me == root ? tot : 0)) fail("count-wrong", "scatter reports a total of %d on rank %d, expected %lld", t, me, (long long) (me == root ? tot : 0));
    }
    R->stat[strf("call.%s", nm)]++;
}
template<class T> static void getloc(const Op & o, int n, MPI_Comm c, MPI_Datatype t) {
    int me; MPI_Comm_rank(c, &me); bool mx = o.i("mx"); int best = 0; vector<T> v(n);
    for (int i = 0; i < n; i++) { Rng g(mix64(o.u("vs"), i)); i64 x = o.i("few") ? (i64) g.below(3) + 1 : g.range(-1000, 1000); if (!x) x = 1; if ((T) -1 > (T) 0 && x < 0) x = -x; v[i] = (T) x; if (o.i("big")) v[i] = (T) (v[i] * (T) 1000003 * (T) 1000003); if (mx ? v[i] > v[best] : v[i] < v[best]) best = i; }
    T mine = v[me]; int r = api()->MPIU_GetLoc(&mine, t, mx ? MPI_MAX : MPI_MIN, c);
    if (mine != v[me]) fail("source-changed", "the locate helper changed its argument");
    if (r != best) fail("location-wrong", "rank %d: the %s over %d ranks is said to be on rank %d, it is on %d", me, mx ? "maximum" : "minimum", n, r, best);
    R->stat["call.getloc"]++;
}
// ---- the segmenter --------------------------------------------------------------------------
static void sizes_of(const Op & o, int n, vector<u64> & a, vector<u64> & b) {
    vector<i64> c = o.list("sz"), d = o.list("sz2"); a.assign(n, 0); b.assign(n, 0);
    for (int i = 0; i < n; i++) { a[i] = i < (int) c.size() ? std::max<i64>(0, c[i]) : 0; b[i] = i < (int) d.size() ? std::max<i64>(0, d[i]) : 0; }
}
static vector<int> members(MPI_Comm c, int me) { int n; MPI_Comm_size(c, &n); vector<int> v(n); MPI_Allgather(&me, 1, MPI_INT, &v[0], 1, MPI_INT, c); return v; }
static void seg_check(const Op & o, int k);
static void do_seg(const Op & o, int k, int n, MPI_Comm c) {
    int me; MPI_Comm_rank(c, &me); vector<u64> a, b; sizes_of(o, n, a, b); bool two = o.i("two"); SegOut & s = Q->seg[k][me];
    vector<size_t> all(n + 2, 0xABABAB); size_t off = 12345; size_t tot = api()->MPIU_Segmenter_collect_sizes(a[me], &all[1], &off, c);
    u64 po = 0, pt = 0; for (int i = 0; i < n; i++) { if (i < me) po += a[i]; pt += a[i]; if (all[1 + i] != a[i]) fail("sizes-wrong", "rank %d collected %zu for rank %d, which has %llu", me, all[1 + i], i, (unsigned long long) a[i]); }
    if (tot != pt || off != po) fail("sizes-wrong", "rank %d collected the total %zu and the offset %zu, expected %llu and %llu", me, tot, off, (unsigned long long) pt, (unsigned long long) po);
    if (all[0] != 0xABABAB || all[n + 1] != 0xABABAB) fail("destination-overrun", "the collected sizes overrun");
    vector<size_t> b2(b.begin(), b.end()); MPIU_Segmenter g; memset(&g, 0xC3, sizeof g);
    api()->MPIU_Segmenter_init(&g, &all[1], two ? b2.data() : nullptr, (size_t) o.i("avg"), (int) std::max<i64>(1, o.i("ng", 1)), c);
    s.has = a[me] > 0 || (two && b[me] > 0); s.seg = g.ThisSegment; s.nseg = g.Nsegments; s.gid = g.GroupID; s.ngroup = g.Ngroup; s.start = g.segment_start; s.end = g.segment_end; s.gl = g.group_leader_rank; s.sl = g.segment_leader_rank; s.isl = g.is_group_leader;
    s.seg_m = members(g.Segment, me); s.grp_m = members(g.Group, me); s.lead_m = members(g.Leaders, me);
    int gr; MPI_Comm_rank(g.Group, &gr); if (s.isl != (gr == s.gl)) fail("segments-wrong", "rank %d: is-leader %d, leader %d, rank in its group %d", me, s.isl, s.gl, gr);
    api()->MPIU_Segmenter_destroy(&g);
    if (++Q->done[k] == n) seg_check(o, k);
}
static void seg_check(const Op & o, int k) {
    int n = Q->n; vector<SegOut> & S = Q->seg[k]; vector<u64> a, b; sizes_of(o, n, a, b); bool two = o.i("two"); u64 avg = (u64) o.i("avg"); int ng = (int) std::max<i64>(1, o.i("ng", 1));
    auto sorted = [](vector<int> v) { std::sort(v.begin(), v.end()); return v; };
    std::set<int> groups; int prev = -1;
    for (int i = 0; i < n; i++) {
        SegOut & s = S[i];
        if (s.nseg != S[0].nseg) fail("segments-wrong", "ranks disagree about the number of segments: %d and %d", s.nseg, S[0].nseg);
        if (s.grp_m != sorted(s.grp_m) || s.seg_m != sorted(s.seg_m)) fail("segments-wrong", "the ranks of a group or segment are not in rank order");
        for (int q : s.grp_m) { if (S[q].grp_m != s.grp_m || S[q].gl != s.gl || S[q].start != s.start || S[q].end != s.end) fail("segments-wrong", "ranks %d and %d of one group disagree about it", i, q); if (S[q].has != s.has) fail("segments-wrong", "rank %d without data shares a group with rank %d that has data", s.has ? q : i, s.has ? i : q); }
        for (int q : s.seg_m) { if (S[q].seg_m != s.seg_m || S[q].sl != s.sl) fail("segments-wrong", "ranks %d and %d of one segment disagree about it", i, q); if (std::find(s.grp_m.begin(), s.grp_m.end(), q) == s.grp_m.end()) fail("segments-wrong", "rank %d is in the segment but not in the group of rank %d", q, i); }
        if (s.gl < 0 || s.gl >= (int) s.grp_m.size() || s.sl < 0 || s.sl >= (int) s.seg_m.size()) fail("segments-wrong", "rank %d: the leaders are %d of %zu and %d of %zu", i, s.gl, s.grp_m.size(), s.sl, s.seg_m.size());
        for (int q : s.grp_m) if (a[q] > a[s.grp_m[s.gl]]) fail("leader-wrong", "the leader of a group (rank %d) does not hold the most data", s.grp_m[s.gl]);
        for (int q : s.seg_m) if (a[q] < a[s.seg_m[s.sl]]) fail("leader-wrong", "the leader of a segment (rank %d) does not hold the least data", s.seg_m[s.sl]);
        for (int q : s.lead_m) if (!!S[q].isl != !!s.isl) fail("segments-wrong", "the communicator of leaders mixes leaders and others");
        int nl = 0; for (auto & x : S) nl += !!x.isl == !!s.isl; if ((int) s.lead_m.size() != nl) fail("segments-wrong", "the communicator of leaders has %zu members of %d", s.lead_m.size(), nl);
        if (!s.has) continue;
        groups.insert(s.gid);
        if (s.seg < 0 || s.seg >= s.nseg || s.seg < prev) fail("segments-wrong", "rank %d is in segment %d of %d after segment %d", i, s.seg, s.nseg, prev);
        prev = s.seg;
        if (s.seg < s.start || s.seg >= s.end) fail("segments-wrong", "segment %d of rank %d is not in the range %d..%d of its group", s.seg, i, s.start, s.end);
        // who is in it
        vector<int> seg, grp; u64 sa = 0, sb = 0, ma = 0, mb = 0;
        for (int q = 0; q < n; q++) if (S[q].has) { if (S[q].seg == s.seg) { seg.push_back(q); sa += a[q]; sb += b[q]; ma = std::max(ma, a[q]); mb = std::max(mb, b[q]); } if (S[q].gid == s.gid) grp.push_back(q); }
        if (seg != s.seg_m) fail("segments-wrong", "the communicator of segment %d does not hold the ranks of the segment", s.seg);
        if (grp != s.grp_m) fail("segments-wrong", "the communicator of group %d does not hold the ranks of the group", s.gid);
        if (sa > avg + ma || (two && sb > avg + mb)) fail("segment-too-big", "segment %d holds %llu/%llu, requested are %llu and its ranks hold at most %llu/%llu", s.seg, (unsigned long long) sa, (unsigned long long) sb, (unsigned long long) avg, (unsigned long long) ma, (unsigned long long) mb);
        int lo = s.seg, hi = s.seg; for (int q : grp) { lo = std::min(lo, S[q].seg); hi = std::max(hi, S[q].seg); }
        if (lo != s.start || hi + 1 != s.end) fail("segments-wrong", "the group of rank %d has the segments %d..%d and says %d..%d", i, lo, hi, s.start, s.end - 1);
        for (int q = 0; q < n; q++) if (S[q].has && S[q].gid != s.gid && S[q].seg >= lo && S[q].seg <= hi) fail("segments-wrong", "segment %d of another group lies between those of group %d", S[q].seg, s.gid);
    }
    if ((int) groups.size() > ng) fail("too-many-groups", "%zu groups hold data, %d were requested", groups.size(), ng);
    R->stat["call.segmenter"]++;
}
void exec_prim(const Plan & p) {
    PJob job; Q = &job; job.p = &p; job.n = std::max<int>(1, (int) p.pi("n", 1)); job.comm.resize(job.n); job.seg.assign(p.ops.size(), vector<SegOut>(job.n)); job.done.assign(p.ops.size(), 0);
    mpi_world(job.n);
    for (int w = 0; w < job.n; w++) {
        Proc * pr = new_proc("libbig", w % 16, w, job.n);
        add_task(pr, [&job, &p, w] {
            MPI_Comm c = MPI_COMM_WORLD; int kind = (int) p.pi("comm"), n = job.n;
            if (kind == 1) MPI_Comm_dup(MPI_COMM_WORLD, &c); else if (kind == 2) MPI_Comm_split(MPI_COMM_WORLD, 0, n - w, &c);
            if (p.pi("leak")) audit_start();
            for (size_t k = 0; k < p.ops.size(); k++) {
                const Op & o = p.ops[k]; set_op(o.idx); u64 h = R->hash; (void) h; audit("between the calls");
                if (o.kind == "a2a") do_a2a(o, w, n, c); else if (o.kind == "gather") do_gs(o, w, n, c, true); else if (o.kind == "scatter") do_gs(o, w, n, c, false);
                else if (o.kind == "getloc") switch (o.i("ty") % 6) { case 0: getloc<int>(o, n, c, MPI_INT); break; case 1: getloc<long>(o, n, c, MPI_LONG); break; case 2: getloc<double>(o, n, c, MPI_DOUBLE); break; case 3: getloc<float>(o, n, c, MPI_FLOAT); break; case 4: getloc<unsigned long>(o, n, c, MPI_UNSIGNED_LONG); break; default: getloc<long long>(o, n, c, MPI_LONG_LONG); }
                else if (o.kind == "seg") do_seg(o, (int) k, n, c);
            }
            audit("after the last call");
        });
    }
    run_tasks();
    if (!R->v.set && mpi_pending()) note_violation("message-left", strf("%d messages were never received", mpi_pending()));
    end_phase(); Q = nullptr;
}
Plan gen_prim(const string & prop, u64 seed, int scale) {
    Plan p; p.prop = prop; p.seed = seed; Rng g(mix64(seed, 0x9714)); Cfg & c = p.cfg; c.sseed = g.next(); c.mseed = g.next(); c.ioseed = g.next();
    bool seg = prop == "P22"; static const int POL[] = {0, 1, 1, 1, 2, 2, 3}; c.policy = POL[g.below(7)]; c.switch_pm = 20 + (int) g.below(700); c.pct_depth = 1 + (int) g.below(6); c.eager_pm = (int) g.below(1001); c.weak_pm = (int) g.below(1001);
    int n = g.below(15) == 0 ? 1 : 2 + (int) g.below(g.below(3) ? 6 : 15); bool huge = !seg && g.below(scale ? 60 : 150) == 0; if (huge) n = 129 + (int) g.below(8);
    p.par["n"] = std::to_string(n); p.par["comm"] = std::to_string(g.below(3) ? 0 : 1 + g.below(2)); c.maxsteps = 4000000;
    int nops = huge ? 1 + (int) g.below(2) : 1 + (int) g.below(8);
    for (int i = 0; i < nops; i++) {
        if (seg) {
            Op & o = p.op("seg"); vector<i64> a(n), b(n); int d = (int) g.below(6); i64 mx = 1 + g.below(g.below(2) ? 6 : 100); u64 tot = 0;
            for (int k = 0; k < n; k++) { a[k] = d == 0 ? mx : d == 1 ? (i64) g.below(mx + 1) : d == 2 ? (g.below(3) ? 0 : (i64) g.below(mx + 1)) : d == 3 ? k : d == 4 ? (g.below(5) ? (i64) g.below(3) : 10 * mx) : 0; tot += a[k]; b[k] = g.below(3) ? (i64) g.below(mx + 1) : a[k]; }
            if (d == 5 && g.below(2)) a[g.below(n)] = mx;
            // amounts that do not fit into 32 bits
            if (g.below(5) == 0) { i64 f = (i64) 1 << (28 + g.below(8)); tot = 0; for (int k = 0; k < n; k++) { if (a[k]) a[k] = a[k] * f + (i64) g.below(3); if (b[k]) b[k] = b[k] * f + (i64) g.below(3); tot += a[k]; } }
            int ng = 1 + (int) g.below(g.below(3) ? n : 2 * n); u64 z = g.below(5);
            o.set("sz", a).set("ng", ng).set("avg", z == 0 ? 0 : z == 1 ? 1 : z == 2 ? (i64) (tot / ng) : z == 3 ? (i64) g.below(tot + 2) : (i64) tot + 5); if (g.below(3) == 0) o.set("sz2", b).set("two", 1);
            continue;
        }
        u64 z = g.below(8);
        if (z < 4 || huge) { Op & o = p.op("a2a"); o.set("dens", huge ? 2 : g.below(6)).set("max", huge ? 2 : 1 + g.below(6)).set("t", g.below(7)).set("t2", g.below(2)).set("sgap", g.below(2)).set("rgap", g.below(2)).set("norc", g.below(2)).set("pol", g.below(3)).set("query", g.below(4) == 0).setu("vs", g.next()); if (huge && g.below(2)) o.set("pol", 0); }
        else if (z < 6) { Op & o = p.op(z == 4 ? "gather" : "scatter"); o.set("dens", g.below(6)).set("max", 1 + g.below(6)).set("root", g.below(n)).set("es", 1 + g.below(g.below(2) ? 8 : 40)).setu("give", g.next()).setu("wt", g.next()).setu("vs", g.next()); }
        else p.op("getloc").set("ty", g.below(6)).set("mx", g.below(2)).set("few", g.below(2)).set("big", g.below(3) == 0).setu("vs", g.next());
    }
    return p;
}
}

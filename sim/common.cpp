#include "engine.h"
#include <cctype>
#include <cmath>
#include <dlfcn.h>
#include <link.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
// ---- plans ----------------------------------------------------------------
string esc(const string & s) { string r; for (unsigned char c : s) { if (c <= ' ' || c == '%' || c == '=' || c > 126) r += strf("%%%02X", c); else r += c; } return r.empty() ? "%" : r; }
string unesc(const string & s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1])) { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else if (s[i] == '%' && s.size() == 1) return ""; else r += s[i]; } return r; }
vector<i64> Op::list(const string & k) const {
    vector<i64> v; string t = s(k); size_t p = 0;
    while (p < t.size()) { size_t e = t.find(',', p); if (e == string::npos) e = t.size(); v.push_back(strtoll(t.substr(p, e - p).c_str(), nullptr, 10)); p = e + 1; }
    return v;
}
Op & Op::set(const string & k, const vector<i64> & v) { string t; for (size_t i = 0; i < v.size(); i++) t += (i ? "," : "") + std::to_string(v[i]); kv[k] = t; return *this; }
string Plan::text() const {
    string t = strf("prop %s seed %llu\n", prop.c_str(), (unsigned long long) seed);
    t += strf("cfg sseed=%llu mseed=%llu ioseed=%llu policy=%d switch=%d depth=%d shortio=%d fdlimit=%d cap=%lld eager=%d weak=%d shuffle=%d dtunknown=%d closefaults=%d maxsteps=%ld explicit=%d\n",
        (unsigned long long) cfg.sseed, (unsigned long long) cfg.mseed, (unsigned long long) cfg.ioseed, cfg.policy, cfg.switch_pm, cfg.pct_depth, cfg.shortio_pm, cfg.fdlimit, (long long) cfg.cap, cfg.eager_pm, cfg.weak_pm, cfg.shuffle, cfg.dtunknown, cfg.closefaults, cfg.maxsteps, cfg.explicit_sched);
    string p = "par"; for (auto & x : par) p += " " + x.first + "=" + esc(x.second);
    t += p + "\n";
    for (auto & o : ops) { t += strf("op %d %s", o.idx, o.kind.c_str()); for (auto & x : o.kv) t += " " + x.first + "=" + esc(x.second); t += "\n"; }
    for (auto & f : faults) t += strf("fault op=%d task=%d n=%d kinds=%u err=%d cnt=%d kill=%d killone=%d tear=%d lose=%d\n", f.op, f.task, f.n, f.kinds, f.err, f.cnt, f.kill, f.killone, f.tear, f.lose);
    for (auto & d : cfg.forced) t += strf("sched %ld %d\n", d.first, d.second);
    return t;
}
Plan Plan::parse(const string & t) {
    Plan p; size_t a = 0;
    while (a < t.size()) {
        size_t e = t.find('\n', a); if (e == string::npos) e = t.size();
        string line = t.substr(a, e - a); a = e + 1;
        vector<string> w; size_t i = 0;
        while (i < line.size()) { size_t j = line.find(' ', i); if (j == string::npos) j = line.size(); if (j > i) w.push_back(line.substr(i, j - i)); i = j + 1; }
        if (w.empty() || w[0][0] == '#') continue;
        KV kv; for (auto & x : w) { size_t q = x.find('='); if (q != string::npos) kv[x.substr(0, q)] = unesc(x.substr(q + 1)); }
        auto I = [&](const char * k, i64 d) { return kv.count(k) ? strtoll(kv[k].c_str(), nullptr, 10) : d; };
        auto U = [&](const char * k) { return kv.count(k) ? strtoull(kv[k].c_str(), nullptr, 10) : 0ull; };
        if (w[0] == "prop") { p.prop = w[1]; if (w.size() > 3) p.seed = strtoull(w[3].c_str(), nullptr, 10); }
        else if (w[0] == "cfg") {
            Cfg & c = p.cfg; c.sseed = U("sseed"); c.mseed = U("mseed"); c.ioseed = U("ioseed"); c.policy = I("policy", 0); c.switch_pm = I("switch", 0); c.pct_depth = I("depth", 3); c.shortio_pm = I("shortio", 0);
            c.fdlimit = I("fdlimit", 0); c.cap = I("cap", -1); c.eager_pm = I("eager", 500); c.weak_pm = I("weak", 500); c.shuffle = I("shuffle", 1); c.dtunknown = I("dtunknown", 0); c.closefaults = I("closefaults", 0); c.maxsteps = I("maxsteps", 400000); c.explicit_sched = I("explicit", 0);
        } else if (w[0] == "par") p.par = kv;
        else if (w[0] == "op") { Op o; o.idx = atoi(w[1].c_str()); o.kind = w[2]; o.kv = kv; p.ops.push_back(o); }
        else if (w[0] == "fault") { Fault f; f.op = I("op", -1); f.task = I("task", -1); f.n = I("n", 0); f.kinds = I("kinds", 0); f.err = I("err", 5); f.cnt = I("cnt", 1); f.kill = I("kill", 0); f.killone = I("killone", 0); f.tear = I("tear", -1); f.lose = I("lose", 0); p.faults.push_back(f); }
        else if (w[0] == "sched") p.cfg.forced.push_back({atol(w[1].c_str()), atoi(w[2].c_str())});
    }
    return p;
}
// ---- the code under test ------------------------------------------------------
string lib_dir;
int lib_dlflags = RTLD_LOCAL;
static std::map<std::pair<string, int>, Lib *> libs;
static int phdr_cb(struct dl_phdr_info * i, size_t, void * d) {
    auto * a = (std::pair<Lib *, string> *) d;
    if (a->second != i->dlpi_name) return 0;
    ElfW(Addr) relro_a = 0, relro_e = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { relro_a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; relro_e = relro_a + i->dlpi_phdr[k].p_memsz; }
    long ps = sysconf(_SC_PAGESIZE);
    relro_e = (relro_e) / ps * ps;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto & p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
        ElfW(Addr) s = i->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
        if (relro_e > s && relro_a <= s) s = std::min(relro_e, e);
        if (s < e) a->first->segs.push_back({(u8 *) s, (size_t) (e - s), {}});
    }
    return 0;
}
static void rawcopy(u8 * d, const u8 * s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
Lib * lib_get(const string & name, int copy) {
    auto key = std::make_pair(name, copy);
    auto it = libs.find(key); if (it != libs.end()) return it->second;
    string src = lib_dir + "/" + name + ".so", dst = strf("/tmp/bfsim-%d-%s-%d.so", getpid(), name.c_str(), copy);
    FILE * a = fopen(src.c_str(), "r"), * b = fopen(dst.c_str(), "w");
    if (!a || !b) { fprintf(stderr, "cannot load %s\n", src.c_str()); _exit(3); }
    char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, n, b);
    fclose(a); fclose(b);
    Lib * l = new Lib;
    l->h = dlopen(dst.c_str(), RTLD_NOW | lib_dlflags);
    if (!l->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); unlink(dst.c_str()); _exit(3); }
    std::pair<Lib *, string> arg(l, dst);
    dl_iterate_phdr(phdr_cb, &arg);
    unlink(dst.c_str());
#define X(f) l->api.f = (decltype(&::f)) dlsym(l->h, #f);
    API_LIST(X)
#undef X
    l->api.sim_main = (int (*)(int, char **)) dlsym(l->h, "sim_main");
    for (auto & s : l->segs) { s.save.resize(s.n); rawcopy(s.save.data(), s.p, s.n); }
    return libs[key] = l;
}
void lib_restore_all() { for (auto & x : libs) for (auto & s : x.second->segs) rawcopy(s.p, s.save.data(), s.n); }
Proc * new_proc(const string & lib, int copy, int rank, int nrank) { Proc * p = add_proc(copy, rank, nrank); p->api = &lib_get(lib, copy)->api; return p; }
// an error must bring its own message, not leave an old one
static const char STALE[] = "(no error yet)";
void stale_message() { api()->big_file_set_error_message((char *) STALE); }
// what is taken is given back: compares with what the process held in the beginning
void audit_start() { stale_message(); Proc * p = R->cur->proc; p->audit = true; p->base = held_now(p, nullptr); }
void audit(const char * when) {
    Proc * p = R->cur->proc; if (!p->audit) return;
    stale_message(); string w; long n = held_now(p, &w); R->stat["audits"]++;
    if (n > p->base) fail("leak", "%ld objects more than before the first call are still held %s: %s", n - p->base, when, w.c_str());
}
bool is_stale(const string & m) { return m.compare(0, sizeof STALE - 1, STALE) == 0; }
string last_error() { char * s = api()->big_file_get_error_message(); return s ? string(s) : string(); }

// ---- element types -------------------------------------------------------------
const vector<string> NUM_TYPES = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16"};
DT parse_dt(const string & s0) {
    string s = s0; DT d;
    if (!s.empty() && (s[0] == '<' || s[0] == '>' || s[0] == '=' || s[0] == '|')) { d.be = s[0] == '>'; s = s.substr(1); }
    d.k = s.empty() ? '?' : s[0]; d.w = s.size() > 1 ? atoi(s.c_str() + 1) : 0;
    return d;
}
static int cls(const DT & d) {
    if ((d.k == 'i' || d.k == 'u') && (d.w == 4 || d.w == 8)) return 1;
    if (d.k == 'f' && (d.w == 4 || d.w == 8)) return 2;
    if (d.k == 'c' && (d.w == 8 || d.w == 16)) return 3;
    if (d.k == 'b' && d.w == 1) return 4;
    return 0;
}
bool convertible(const DT & dst, const DT & src) {
    if (dst.same(src)) return true;
    int a = cls(dst), b = cls(src);
    if (a == 3 || b == 3) return a == 3 && b == 3;
    return (a == 1 || a == 2) && (b == 1 || b == 2 || b == 4);
}
static void tonative(const DT & d, const u8 * s, u8 * o) {
    if (!d.swaps()) { memcpy(o, s, d.w); return; }
    int part = d.k == 'c' ? d.w / 2 : d.w;
    for (int b = 0; b < d.w; b += part) for (int i = 0; i < part; i++) o[b + i] = s[b + part - 1 - i];
}
static void fromnative(const DT & d, const u8 * s, u8 * o) { tonative(d, s, o); }
struct Num { int cls; __int128 i; double f, f2; };
static Num load(const DT & d, const u8 * s) {
    u8 n[32]; tonative(d, s, n); Num v{cls(d), 0, 0, 0};
    if (v.cls == 1) {
        if (d.k == 'i' && d.w == 4) { int32_t x; memcpy(&x, n, 4); v.i = x; } else if (d.k == 'i') { int64_t x; memcpy(&x, n, 8); v.i = x; }
        else if (d.w == 4) { uint32_t x; memcpy(&x, n, 4); v.i = x; } else { uint64_t x; memcpy(&x, n, 8); v.i = x; }
    } else if (v.cls == 4) v.i = (signed char) n[0];
    else if (v.cls == 2) { if (d.w == 4) { float x; memcpy(&x, n, 4); v.f = x; } else memcpy(&v.f, n, 8); }
    else if (v.cls == 3) { if (d.w == 8) { float x; memcpy(&x, n, 4); v.f = x; memcpy(&x, n + 4, 4); v.f2 = x; } else { memcpy(&v.f, n, 8); memcpy(&v.f2, n + 8, 8); } }
    return v;
}
void conv(const DT & dst, u8 * d, const DT & src, const u8 * s) {
    u8 n[32];
    if (dst.same(src)) { tonative(src, s, n); fromnative(dst, n, d); return; }
    Num v = load(src, s);
    int c = cls(dst);
    if (c == 1) {
        __int128 x = v.cls == 2 ? (__int128) v.f : v.i;
        u64 y = (u64) x; memcpy(n, &y, dst.w);
    } else if (c == 2) {
        bool isint = v.cls != 2;
        bool uns = isint && v.i > (__int128) INT64_MAX;
        if (dst.w == 4) { float x = isint ? (uns ? (float) (u64) v.i : (float) (i64) v.i) : (float) v.f; memcpy(n, &x, 4); }
        else { double x = isint ? (uns ? (double) (u64) v.i : (double) (i64) v.i) : v.f; memcpy(n, &x, 8); }
    } else if (c == 3) {
        if (dst.w == 8) { float x = (float) v.f; memcpy(n, &x, 4); x = (float) v.f2; memcpy(n + 4, &x, 4); } else { memcpy(n, &v.f, 8); memcpy(n + 8, &v.f2, 8); }
    }
    fromnative(dst, n, d);
}
static double fval(Rng & r, int w, bool toint, bool touns, int dw, bool tofloat4) {
    if (toint) {
        double lim = dw == 4 ? 2147483000.0 : 9.0e18;
        if (touns && dw == 4) lim = 4294967000.0;
        double v;
        switch (r.below(4)) { case 0: v = (double) r.below(1000); break; case 1: v = r.below(1000000) / 64.0; break; case 2: v = (double) (r.next() >> 12) / 4503599627370496.0 * lim * 0.99; break; default: v = (double) r.below(1u << 30) + 0.5; }
        if (v > lim * 0.99) v = 7;
        if (w == 4) v = (float) v;
        return touns ? v : (r.below(2) ? v : -v);
    }
    switch (r.below(8)) {
    case 0: return 0; case 1: return (double) r.range(-1000, 1000); case 2: return r.range(-100000, 100000) / 7.0;
    case 3: return w == 4 || tofloat4 ? 3.0e38 : 1.7e308; case 4: return w == 4 || tofloat4 ? 1.5e-38 : 2.5e-308; case 5: return -0.0;
    case 6: return r.below(4) ? 1.0 / 3 : HUGE_VAL; default: return ldexp((double) (r.next() >> 11), (int) r.range(-80, 20)) * (r.below(2) ? 1 : -1);
    }
}
void gen_value(Rng & r, const DT & src, const DT & dst, u8 * out) {
    u8 n[32]; int c = cls(src); bool same = src.same(dst);
    if (c == 1 && !(same && r.below(4) == 0)) {
        static const u64 pool[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~1ull, 0x0102030405060708ull, 16777217, 9007199254740993ull};
        u64 v = r.below(3) == 0 ? pool[r.below(sizeof pool / sizeof *pool)] : r.below(2) ? r.below(100000) : r.next();
        memcpy(n, &v, src.w);
    } else if ((c == 2 || c == 3) && !(same && r.below(4) == 0)) {
        int dc = cls(dst); bool toint = !same && dc == 1; bool tf4 = !same && ((dc == 2 && dst.w == 4) || (dc == 3 && dst.w == 8));
        int parts = c == 3 ? 2 : 1, pw = src.w / parts;
        for (int p = 0; p < parts; p++) { double v = fval(r, pw, toint, toint && dst.k == 'u', dst.w, tf4); if (pw == 4) { float f = (float) v; memcpy(n + 4 * p, &f, 4); } else memcpy(n + 8 * p, &v, 8); }
    } else if (c == 4) n[0] = same ? (u8) r.below(256) : (u8) r.below(2);
    else for (int i = 0; i < src.w; i++) n[i] = (u8) r.next();
    fromnative(src, n, out);
}
void gen_value(u64 seed, const DT & src, const DT & dst, u8 * out) { Rng r(seed); gen_value(r, src, dst, out); }
// ---- caller arrays -----------------------------------------------------------
i64 Arr::off(i64 flat) const {
    i64 o = base; i64 x = flat;
    for (int k = ndim - 1; k >= 0; k--) { i64 q = dims[k] ? x % (i64) dims[k] : 0; x = dims[k] ? x / (i64) dims[k] : 0; o += q * strides[k]; }
    return o;
}
void Arr::make(const DT & d, i64 rows_, int nm_, int layout, u64 seed, bool source, bool mpi) {
    dt = d; rows = rows_; nm = nm_; int w = d.w; Rng r(seed);
    i64 R_ = rows, N = nm; ndim = 2; dims[0] = R_; dims[1] = N; strides[1] = w; strides[0] = w * N;
    if (mpi && layout == 1 && N != 1) layout = 0;
    if (!source && layout == 6) layout = 2;
    switch (layout) {
    default: nullstrides = true; break;
    case 1: ndim = 1; dims[0] = R_ * N; strides[0] = w; nullstrides = r.below(2); break;
    case 2: strides[0] = w * N + w * (1 + r.below(4)); break;
    case 3: strides[1] = w * (1 + r.below(3)); strides[0] = strides[1] * N + w * r.below(3); break;
    case 4: strides[0] = w; strides[1] = w * (R_ ? R_ : 1); break;
    case 5: strides[0] = -(i64) (w * N); if (r.below(2)) strides[1] = w; else { strides[1] = -w; strides[0] = r.below(2) ? w * N : -w * N; } break;
    case 6: strides[0] = 0; if (r.below(2)) strides[1] = 0; break;
    case 7: {
        i64 a = 1; for (i64 q = 2; q <= 4; q++) if (N % q == 0) a = q;
        ndim = 3; dims[0] = R_; dims[1] = a; dims[2] = N / a; strides[2] = w; strides[1] = w * dims[2] + (r.below(2) ? w : 0); strides[0] = strides[1] * a + (r.below(2) ? 2 * w : 0);
        if (!mpi && r.below(2)) { i64 b = 1; for (i64 q = 2; q <= 3; q++) if (R_ % q == 0) b = q; dims[0] = b; dims[1] = R_ / b; dims[2] = N; strides[1] = w * N; strides[0] = strides[1] * dims[1] + w; }
        break; }
    case 8: strides[0] = w * N + 1 + r.below(7); break;
    }
    i64 lo = 0, hi = 0;
    if (R_ * N) { for (int k = 0; k < ndim; k++) { i64 e = ((i64) dims[k] - 1) * strides[k]; if (e < 0) lo += e; else hi += e; } hi += w; }
    int g = 24;
    n = (size_t) (hi - lo) + 2 * g; base = g - lo;
    free(mem); mem = (u8 *) malloc(n);
    for (size_t i = 0; i < n; i++) mem[i] = (u8) (0x5A ^ (i * 37) ^ (seed * 11));
    owned.assign(n, 0);
    for (i64 i = 0; i < R_ * N; i++) { i64 o = off(i); for (int b = 0; b < w; b++) owned[o + b] = 1; }
}
void Arr::init(Api * a) { a->big_array_init(&ba, mem + base, dt.str().c_str(), ndim, dims, nullstrides ? nullptr : strides); }
bool Arr::guards_ok() const { for (size_t i = 0; i < n; i++) if (!owned[i] && mem[i] != before[i]) return false; return true; }
void arr_rows(Arr & a, const DT & d, vector<Bytes> & rows) {
    rows.assign(a.rows, Bytes((size_t) d.w * a.nm));
    for (i64 i = 0; i < a.rows * a.nm; i++) conv(d, &rows[i / a.nm][(i % a.nm) * d.w], a.dt, a.at(i));
}
i64 arr_differs(Arr & a, const DT & d, const vector<Bytes> & rows) {
    u8 t[32];
    for (i64 i = 0; i < a.rows * a.nm; i++) { conv(a.dt, t, d, &rows[i / a.nm][(i % a.nm) * d.w]); if (memcmp(t, a.at(i), a.dt.w)) return i; }
    return -1;
}
// ---- format ------------------------------------------------------------------------
unsigned fold(unsigned s) { unsigned r = (s & 0xffff) + (s >> 16); return (r & 0xffff) + (r >> 16); }
string Hdr::str() const { string s = dt.str() + strf("x%d[", nm); for (u64 z : sizes) s += strf("%llu,", (unsigned long long) z); return s + "]"; }
string slurp(const string & p) { Bytes b = FS->content(p); return string(b.begin(), b.end()); }
static vector<string> tokens(const string & t) { vector<string> v; string c; for (char ch : t + " ") { if (isspace((u8) ch)) { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } return v; }
static bool num(const string & s, i64 & v) { if (s.empty()) return false; char * e; v = strtoll(s.c_str(), &e, 10); return *e == 0; }
bool decode_header(const string & text, HdrFile & h, string & why) {
    // a strict reading of the documented text format; blank space is free
    string t; char prev = ' '; for (char c : text) { if (c == ':') t += isspace((u8) prev) ? " :: " : " : "; else t += c; prev = c; }
    vector<string> v = tokens(t); size_t i = 0; i64 x;
    auto want = [&](const char * s) { if (i < v.size() && v[i] == s) { i++; return true; } why = strf("expected `%s', found `%s'", s, i < v.size() ? v[i].c_str() : "<end>"); return false; };
    if (!want("DTYPE") || !want(":")) return false;
    if (i >= v.size()) { why = "no dtype"; return false; }
    h.h.dt = parse_dt(v[i]); if (v[i][0] != '<' && v[i][0] != '>') { why = "dtype without byte order: " + v[i]; return false; }
    if (v[i] != h.h.dt.str()) { why = "dtype " + v[i]; return false; }
    i++;
    if (!want("NMEMB") || !want(":")) return false;
    if (i >= v.size() || !num(v[i++], x)) { why = "NMEMB"; return false; } h.h.nm = (int) x;
    if (!want("NFILE") || !want(":")) return false;
    if (i >= v.size() || !num(v[i++], x) || x < 0 || x > 100000) { why = "NFILE"; return false; }
    h.h.sizes.assign(x, ~0ull); h.ck.assign(x, 0); h.red.assign(x, 0);
    for (i64 k = 0; k < x; k++) {
        if (i + 6 >= v.size()) { why = "file lines missing"; return false; }
        string id = v[i]; if (id.size() != 6) { why = "file id " + id; return false; }
        char * e; u64 f = strtoull(id.c_str(), &e, 16); if (*e || f >= (u64) x) { why = "file id " + id; return false; }
        i64 s, c, r; if (v[i + 1] != ":" || (v[i + 3] != ":" && v[i + 3] != "::") || (v[i + 5] != ":" && v[i + 5] != "::") || !num(v[i + 2], s) || !num(v[i + 4], c) || !num(v[i + 6], r)) { why = "bad file line"; return false; }
        if (h.h.sizes[f] != ~0ull) { why = "file listed twice"; return false; }
        h.h.sizes[f] = s; h.ck[f] = (unsigned) c; h.red[f] = (unsigned) r; i += 7;
    }
    if (i != v.size()) { why = "text after the last file line"; return false; }
    return true;
}
string header_text(const Hdr & h, const vector<unsigned> & ck) {
    string t = strf("DTYPE: %s\nNMEMB: %d\nNFILE: %zu\n", h.dt.str().c_str(), h.nm, h.sizes.size());
    for (size_t i = 0; i < h.sizes.size(); i++) { unsigned c = i < ck.size() ? ck[i] : 0; t += strf("%06X: %llu : %u : %u\n", (unsigned) i, (unsigned long long) h.sizes[i], c, fold(c)); }
    return t;
}
bool decode_attrs(const string & text, Attrs & a, string & why) {
    size_t p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == string::npos) { why = "last line is not terminated"; return false; }
        string line = text.substr(p, e - p); p = e + 1;
        // the readable rendering may itself contain anything but a newline
        vector<string> v; size_t i = 0;
        while (i < line.size() && v.size() < 4) { size_t j = line.find(' ', i); if (j == string::npos) j = line.size(); v.push_back(line.substr(i, j - i)); i = j + 1; }
        i64 n;
        if (v.size() < 3 || !num(v[2], n) || n < 0) { why = "bad line: " + line; return false; }
        AttrV x; x.dt = parse_dt(v[1]); x.dts = v[1]; x.nm = (int) n; size_t bytes = (size_t) n * x.dt.w;
        string hex = v.size() > 3 ? v[3] : "";
        if (bytes == 0 && (hex.empty() || hex[0] == '#')) hex = "";
        if (hex.size() != 2 * bytes) { why = "value length of " + v[0]; return false; }
        for (size_t k = 0; k < bytes; k++) { if (!isxdigit(hex[2 * k]) || !isxdigit(hex[2 * k + 1])) { why = "hex digits of " + v[0]; return false; } x.v.push_back((u8) strtol(hex.substr(2 * k, 2).c_str(), nullptr, 16)); }
        if (a.count(v[0])) { why = "attribute stored twice: " + v[0]; return false; }
        a[v[0]] = x;
    }
    return true;
}
string attrs_text(const Attrs & a) {
    string t; for (auto & p : a) { t += p.first + " " + p.second.dt.str() + strf(" %d ", p.second.nm); for (u8 b : p.second.v) t += strf("%02X", b); t += " #HUMANE [ x ]\n"; }
    return t;
}
string attrs_str(const Attrs & a) { string t = "{"; for (auto & p : a) { t += p.first + ":" + p.second.dt.str() + strf("x%d ", p.second.nm); } return t + "}"; }
}

// Plans, the code under test, element types and arrays: what the workloads share.
#pragma once
#include "sim.h"
#include <sys/types.h>
#include "bigfile.h"
#include "bigfile-mpi.h"
extern "C" {
#include "mp-mpiu.h"
}

namespace sim {
// ---- plans: a run is a list of text lines ---------------------------------
typedef std::map<string, string> KV;
struct Op {
    int idx = 0; string kind; KV kv;
    bool has(const string & k) const { return kv.count(k); }
    string s(const string & k, const string & d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    i64 i(const string & k, i64 d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
    u64 u(const string & k, u64 d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
    vector<i64> list(const string & k) const;
    Op & set(const string & k, const string & v) { kv[k] = v; return *this; }
    Op & set(const string & k, i64 v) { kv[k] = std::to_string(v); return *this; }
    Op & setu(const string & k, u64 v) { kv[k] = std::to_string(v); return *this; }
    Op & set(const string & k, const vector<i64> & v);
};
struct Plan {
    string prop; u64 seed = 0;
    Cfg cfg; KV par;          // par: parameters of the workload
    vector<Op> ops; vector<Fault> faults;
    Op & op(const string & kind) { Op o; o.idx = ops.empty() ? 0 : ops.back().idx + 1; o.kind = kind; ops.push_back(o); return ops.back(); }
    i64 pi(const string & k, i64 d = 0) const { auto it = par.find(k); return it == par.end() ? d : strtoll(it->second.c_str(), nullptr, 10); }
    string text() const;
    static Plan parse(const string & t);
};
string esc(const string & s);
string unesc(const string & s);

// ---- the code under test -----------------------------------------------------
#define API_LIST(X) \
 X(big_file_set_buffer_size) X(big_file_get_error_message) X(big_file_set_error_message) X(big_file_open) X(big_file_create) X(big_file_list) \
 X(big_file_open_block) X(big_file_create_block) X(big_file_close) X(big_block_close) X(big_block_grow) X(big_block_flush) X(big_block_set_dirty) \
 X(big_block_seek) X(big_block_seek_rel) X(big_block_eof) X(big_block_read) X(big_block_read_simple) X(big_block_write) \
 X(big_block_set_attr) X(big_block_get_attr) X(big_block_remove_attr) X(big_block_lookup_attr) X(big_block_list_attrs) \
 X(big_file_dtype_itemsize) X(big_file_dtype_kind) X(big_file_dtype_format) X(big_file_dtype_parse) X(big_array_init) X(big_array_iter_init) X(big_array_iter_advance) \
 X(big_record_type_clear) X(big_record_type_add) X(big_record_type_set) X(big_record_type_complete) X(big_record_set) X(big_record_get) X(big_record_view_field) \
 X(big_file_write_records) X(big_file_create_records) X(big_file_read_records) \
 X(big_file_mpi_open) X(big_file_mpi_create) X(big_file_mpi_open_block) X(big_file_mpi_create_block) X(_big_file_mpi_create_block) X(big_file_mpi_close) \
 X(big_block_mpi_close) X(big_block_mpi_grow) X(big_block_mpi_grow_simple) X(big_file_mpi_set_aggregated_threshold) X(big_file_mpi_get_aggregated_threshold) \
 X(big_block_mpi_write) X(big_block_mpi_read) X(big_block_mpi_flush) X(big_file_mpi_create_records) X(big_file_mpi_write_records) X(big_file_mpi_read_records) \
 X(mpiu_malloc) X(mpiu_free) X(MPIU_Alltoallv) X(MPIU_GetLoc) X(MPIU_Gather) X(MPIU_Scatter) X(MPIU_Segmenter_collect_sizes) X(MPIU_Segmenter_init) X(MPIU_Segmenter_destroy)
struct Api {
#define X(f) decltype(&::f) f = nullptr;
    API_LIST(X)
#undef X
    int (*sim_main)(int, char **) = nullptr;
};
struct Lib { void * h = nullptr; Api api; struct Seg { u8 * p; size_t n; vector<u8> save; }; vector<Seg> segs; };
extern string lib_dir;
Lib * lib_get(const string & name, int copy);   // name: "libbig", "tool-cat", ...; loads on demand
void lib_restore_all();                         // pristine globals for the next run
inline Api * api() { return (Api *) R->cur->proc->api; }
Proc * new_proc(const string & lib, int copy, int rank = 0, int nrank = 1);

// ---- element types -------------------------------------------------------------
struct DT {
    char k = 'i'; int w = 8; bool be = false;
    DT() {}
    DT(char k_, int w_, bool be_ = false) : k(k_), w(w_), be(be_) {}
    string body() const { return strf("%c%d", k, w); }
    string str() const { return (be ? ">" : "<") + body(); }
    bool same(const DT & o) const { return k == o.k && w == o.w; }
    bool operator==(const DT & o) const { return k == o.k && w == o.w && be == o.be; }
    bool swaps() const { return be && w > 1 && k != 'S' && k != 'a' && k != 'b'; }
};
DT parse_dt(const string & s);
bool convertible(const DT & dst, const DT & src);
void conv(const DT & dst, u8 * d, const DT & src, const u8 * s);
// a value of type src (as stored bytes) whose conversion to dst is defined
void gen_value(Rng & r, const DT & src, const DT & dst, u8 * out);
void gen_value(u64 seed, const DT & src, const DT & dst, u8 * out);
extern const vector<string> NUM_TYPES;

// ---- caller arrays -----------------------------------------------------------
// a rows x nm view in some memory layout, with guard bytes around and between
struct Arr {
    DT dt; i64 rows = 0; int nm = 1;
    u8 * mem = nullptr; size_t n = 0; i64 base = 0;
    int ndim = 0; size_t dims[4]; ptrdiff_t strides[4]; bool nullstrides = false;
    Bytes before; vector<char> owned;
    BigArray ba;
    Arr() {}
    Arr(const Arr &) = delete;
    ~Arr() { free(mem); }
    i64 off(i64 flat) const;
    // layout: 0 contiguous 2d; 1 flat 1d; 2 row stride; 3 row and element strides; 4 transposed; 5 negative; 6 stride 0 rows; 7 3d; 8 unaligned rows
    void make(const DT & d, i64 rows_, int nm_, int layout, u64 seed, bool source, bool mpi);
    u8 * at(i64 flat) { return mem + off(flat); }
    void init(Api * a);
    void snap() { before.assign(mem, mem + n); }
    bool unchanged() const { return !n || memcmp(&before[0], mem, n) == 0; }
    bool guards_ok() const;   // nothing outside the elements changed
};
// the rows a source array stores in a block of type d
void arr_rows(Arr & a, const DT & d, vector<Bytes> & rows);
// does the destination array hold exactly these block rows (type d)?  returns flat index of the first difference or -1
i64 arr_differs(Arr & a, const DT & d, const vector<Bytes> & rows);

string last_error(); void stale_message(); void audit_start(); void audit(const char * when); bool is_stale(const string &);

// defines the fields of a record type: seed 0 one after the other, else in any order, some of them twice
template <class N, class D, class M> void rec_define(BigRecordType * rt, size_t n, u64 seed, N name, D dtype, M nm) {
    if (!seed) { for (size_t i = 0; i < n; i++) { int k = api()->big_record_type_add(rt, name(i).c_str(), dtype(i).c_str(), nm(i)); if (k != (int) i) fail("record-layout", "the field added as number %zu is said to be number %d", i, k); } return; }
    Rng g(seed); vector<size_t> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i;
    for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]);
    for (size_t i : ord) {
        if (g.below(3) == 0) api()->big_record_type_set(rt, (int) i, "something else", "c16", 1 + (int) g.below(9));
        api()->big_record_type_set(rt, (int) i, name(i).c_str(), dtype(i).c_str(), nm(i));
    }
}

// ---- workloads -----------------------------------------------------------------
struct Work { Plan (*gen)(const string & prop, u64 seed, int scale); void (*exec)(const Plan & p); };
extern const std::map<string, Work> & works();
Plan gen_serial(const string &, u64, int); void exec_serial(const Plan &);
Plan gen_procs(const string &, u64, int); void exec_procs(const Plan &);
Plan gen_threads(const string &, u64, int); void exec_threads(const Plan &);
Plan gen_mpi(const string &, u64, int); void exec_mpi(const Plan &);
Plan gen_prim(const string &, u64, int); void exec_prim(const Plan &);
Plan gen_tools(const string &, u64, int); void exec_tools(const Plan &);
Plan gen_huge(const string &, u64, int); void exec_huge(const Plan &);

// ---- the on-disk format, decoded independently -------------------------------------
struct AttrV { DT dt; string dts; int nm = 0; Bytes v; bool operator==(const AttrV & o) const { return dt == o.dt && nm == o.nm && v == o.v; } };
typedef std::map<string, AttrV> Attrs;
struct Hdr {
    DT dt; int nm = 1; vector<u64> sizes;
    bool operator==(const Hdr & o) const { return dt == o.dt && nm == o.nm && sizes == o.sizes; }
    u64 total() const { u64 t = 0; for (u64 s : sizes) t += s; return t; }
    int rowlen() const { return dt.w * nm; }
    string str() const;
};
struct HdrFile { Hdr h; vector<unsigned> ck, red; };
bool decode_header(const string & text, HdrFile & h, string & why);
bool decode_attrs(const string & text, Attrs & a, string & why);
string header_text(const Hdr & h, const vector<unsigned> & ck);
string attrs_text(const Attrs & a);
unsigned fold(unsigned s);
string slurp(const string & path);
string attrs_str(const Attrs & a);
}

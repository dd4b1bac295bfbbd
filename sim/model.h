// The reference model of stored blocks.
#pragma once
#include "engine.h"
namespace sim {
struct RowC { Bytes v; vector<Bytes> alts; bool wr = false; int nw = 0; };
struct DiskBlk {
    bool exists = false;
    bool unknown = false;            // interrupted or damaged: nothing is claimed until it is created again
    vector<Hdr> h;                   // the header is one of these
    vector<Attrs> a;                 // the attributes are one of these
    Attrs v1;                        // legacy attributes below the text attributes
    bool hasv1 = false;
    bool planted = false;
    bool exact = true;               // checksums are determined by the history
    bool unsynced = false;           // rows written since the last successful flush
    int dirtyHandles = 0;
    int rowlen = 0;
    vector<vector<RowC>> files;
    size_t maxf = 0;                 // the most files the block ever had
    void layout(const Hdr & hd);     // make room for the rows of this header (keeps existing ones)
    void reset(const Hdr & hd);
    RowC * row(const Hdr & hd, u64 i, int * file = nullptr, u64 * in = nullptr);
    bool readable(const Hdr & hd, u64 start, u64 n);  // a read of these rows cannot legally fail
    bool row_ok(RowC & r, const u8 * p, size_t n) const;
    void wrote(const Hdr & hd, u64 start, const vector<Bytes> & rows);
    void maybe(const Hdr & hd, u64 start, const vector<Bytes> & rows);
};
struct Model {
    std::map<string, DiskBlk> disk;  // by path of the block directory
    std::set<string> roots;
    void check(const string & path, bool collapse = true);       // storage against the model
    void check_all();
    void check_sums(const string & path, const Hdr & hd, bool full_only = true);
};
string blkpath(const string & root, const string & name);
void set_error_tag(const string & s);
// the judgement of one call
void judge(const char * what, int rt, bool valid);
bool conv_defined(const DT & dst, const DT & src, const u8 * s);
bool bytes_defined(const DT & dst, const DT & src, const Bytes & b);
void check_bb(const char * what, BigBlock & bb, const Hdr & hd);        // a handle against its header
Attrs handle_attrs(BigBlock & bb, const char * what);                    // what a handle says its attributes are
Bytes disk_rows(const string & path, const Hdr & hd, u64 start, u64 n);  // rows as they are on storage
// rows as the history determines them; false when an interrupted write leaves them open
bool model_rows(DiskBlk & d, const Hdr & hd, u64 start, u64 n, Bytes & out);
// a fresh process opens and reads everything (runs inside a task)
void verify_all(Model & m, const string & root);
inline int faulted() { return R->cur->faulted; }
}

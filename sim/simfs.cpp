#include "sim.h"
#include <cerrno>
#include <algorithm>

namespace sim {
Fs * FS = nullptr;
Node::~Node() {}
void Fs::reset() { used = 0; next_ino = 1; root = mk(true); mkdirs("/w"); }
NodeP Fs::mk(bool dir) { auto n = std::make_shared<Node>(); n->dir = dir; n->ino = next_ino++; return n; }
int Fs::walk(const string & path0, NodeP * node, NodeP * parent, string * leaf) {
    if (path0.empty()) return ENOENT;
    string path = path0[0] == '/' ? path0 : "/w/" + path0;
    if (path.size() >= 4096) return ENAMETOOLONG;
    bool trail = path.size() > 1 && path.back() == '/';
    vector<string> parts; string c;
    for (char ch : path + "/") { if (ch == '/') { if (!c.empty()) parts.push_back(c); c.clear(); } else c += ch; }
    vector<NodeP> st{root};
    if (parent) *parent = nullptr;
    if (leaf) leaf->clear();
    for (size_t i = 0; i < parts.size(); i++) {
        NodeP cur = st.back();
        if (!cur->dir) return ENOTDIR;
        const string & s = parts[i];
        if (s.size() > 255) return ENAMETOOLONG;
        if (s == ".") { if (leaf && i + 1 == parts.size()) *leaf = "."; continue; }
        if (s == "..") { if (st.size() > 1) st.pop_back(); continue; }
        auto it = cur->ch.find(s);
        if (i + 1 == parts.size()) { if (parent) *parent = cur; if (leaf) *leaf = s; }
        if (it == cur->ch.end()) { if (node) *node = nullptr; return ENOENT; }
        st.push_back(it->second);
    }
    if (trail && !st.back()->dir) return ENOTDIR;
    if (node) *node = st.back();
    return 0;
}
NodeP Fs::get(const string & p) { NodeP n; return walk(p, &n) == 0 ? n : nullptr; }
Bytes Fs::read(const NodeP & n, u64 off, u64 len) {
    Bytes b;
    if (off >= n->size) return b;
    if (len > n->size - off) len = n->size - off;
    b.assign(len, 0);
    for (u64 o = off; o < off + len;) {
        u64 p = o / PG, in = o % PG, k = std::min<u64>(PG - in, off + len - o);
        auto it = n->pg.find(p);
        if (it != n->pg.end()) memcpy(&b[o - off], &it->second[in], k);
        o += k;
    }
    return b;
}
u64 Fs::write(const NodeP & n, u64 off, const u8 * d, u64 len, i64 cap) {
    u64 done = 0;
    while (done < len) {
        u64 o = off + done, p = o / PG, in = o % PG, k = std::min<u64>(PG - in, len - done);
        auto it = n->pg.find(p);
        if (it == n->pg.end()) {
            if (cap >= 0 && used + PG > cap) break;
            used += PG;
            it = n->pg.emplace(p, std::array<u8, PG>()).first;
            it->second.fill(0);
        }
        memcpy(&it->second[in], d + done, k);
        done += k;
        if (o + k > n->size) n->size = o + k;
    }
    return done;
}
void Fs::truncate(const NodeP & n, u64 len) {
    if (len < n->size) {
        for (auto it = n->pg.begin(); it != n->pg.end();) {
            if (it->first * PG >= len) { used -= PG; it = n->pg.erase(it); } else ++it;
        }
        if (len % PG) { auto it = n->pg.find(len / PG); if (it != n->pg.end()) memset(&it->second[len % PG], 0, PG - len % PG); }
    }
    n->size = len;
}
Bytes Fs::content(const string & p) { NodeP n = get(p); return n && !n->dir ? read(n, 0, std::min<u64>(n->size, 64 << 20)) : Bytes(); }
bool Fs::exists(const string & p) { return get(p) != nullptr; }
bool Fs::isdir(const string & p) { NodeP n = get(p); return n && n->dir; }
void Fs::mkdirs(const string & path) {
    string cur;
    for (char ch : path + "/") {
        if (ch == '/' && !cur.empty()) {
            NodeP par, n; string leaf;
            if (walk(cur, &n, &par, &leaf) == ENOENT && par) par->ch[leaf] = mk(true);
        }
        cur += ch;
    }
}
void Fs::put(const string & path, const Bytes & b) {
    NodeP par, n; string leaf;
    int e = walk(path, &n, &par, &leaf);
    if (e == ENOENT && par) { n = mk(false); par->ch[leaf] = n; }
    if (!n || n->dir) return;
    truncate(n, 0);
    write(n, 0, b.data(), b.size(), -1);
}
void Fs::remove(const string & path) {
    NodeP par, n; string leaf;
    if (walk(path, &n, &par, &leaf) == 0 && par) {
        std::function<void(NodeP)> drop = [&](NodeP x) { for (auto & c : x->ch) drop(c.second); used -= (i64) x->pg.size() * PG; };
        drop(n); par->ch.erase(leaf);
    }
}
vector<string> Fs::list(const string & path) { vector<string> r; NodeP n = get(path); if (n) for (auto & c : n->ch) r.push_back(c.first); return r; }
u64 Fs::digest() {
    std::function<u64(const NodeP &)> h = [&](const NodeP & n) -> u64 {
        u64 v = mix64(n->dir, n->size);
        for (auto & c : n->ch) v = mix64(v, hash_bytes(c.first.data(), c.first.size()), h(c.second));
        for (auto & p : n->pg) v = mix64(v, p.first, hash_bytes(p.second.data(), PG));
        return v;
    };
    return h(root);
}
}

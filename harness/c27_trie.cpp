// C27: the archive's path index against a map from paths to values.
#include <hzip_storage/archive/archive_trie.h>
#include <map>
#include <string>
typedef std::vector<uint8_t> Path;           // token numbers
struct Oracle {
    std::map<Path, uint64_t> files;
    static bool below(const Path &p, const Path &q) { // q is p or below it
        if (q.size() < p.size()) return false;
        for (size_t i = 0; i < p.size(); i++) if (p[i] != q[i]) return false;
        return true;
    }
    bool present(const Path &p) const {
        if (p.empty()) return true;          // the root always exists
        for (auto &f: files) if (below(p, f.first)) return true;
        return false;
    }
    bool isFile(const Path &p) const { return files.count(p); }
    bool canSet(const Path &p) const {
        for (auto &f: files) if (f.first.size() != p.size() && (below(f.first, p) || below(p, f.first))) return false;
        return true;
    }
    void erase(const Path &p) {
        for (auto i = files.begin(); i != files.end();) if (below(p, i->first)) i = files.erase(i); else ++i;
    }
};
static std::string name[3];
static std::string text(const Path &p, uint64_t style) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++) {
        if (i || style != 1) s += '/';
        if (style == 2) s += '/';
        s += name[p[i]];
    }
    if (style == 3 || p.empty()) s += '/';
    return s;
}
static Path pickPath(uint64_t depth, uint64_t names, uint64_t &left) {
    Path p;
    uint64_t d = hz_pick((uint8_t) (depth + 1), "depth");
    for (uint64_t i = 0; i < d; i++) p.push_back((uint8_t) hz_pick((uint8_t) names, "token"));
    return p;
}
static HZ_ArchiveTrie<uint64_t> *trie;
static Oracle o;
static bool threw;                           // an exception object may still own memory
static void probe(const Path &p, uint64_t names) {
    std::string s = text(p, 0);
    int r; uint64_t v = 0;
    HZ_CHECK(trie->contains(s) == o.present(p), "a path is present exactly when it or a path below it is stored");
    HZ_TRY(r, v = trie->get(s));
    HZ_CHECK((r == 0) == o.isFile(p) && r < 2, "a lookup fails with an error exactly for paths that hold no entry");
    if (r == 0 && o.isFile(p)) HZ_CHECK(v == o.files[p], "a lookup returns the last value stored");
    std::vector<HZ_ArchiveTrieListElement> l;
    HZ_TRY(r, l = trie->children(s));
    HZ_CHECK((r == 0) == o.present(p) && r < 2, "listing fails with an error exactly for absent paths");
    if (r) return;
    uint64_t want = 0, got = 0;
    for (uint8_t t = 0; t < names; t++) {
        Path q = p; q.push_back(t);
        if (!o.present(q)) continue;
        want++;
        for (auto &e: l) if (e.entry == name[t]) {
            got++;
            HZ_CHECK(e.is_leaf == o.isFile(q), "a listed child has the right kind");
        }
    }
    HZ_CHECK(want == got && l.size() == want, "a listing has every immediate child exactly once");
}
static void probeAll(Path &p, uint64_t depth, uint64_t names) {
    probe(p, names);
    if (depth) for (uint8_t t = 0; t < names; t++) { p.push_back(t); probeAll(p, depth - 1, names); p.pop_back(); }
}
static void operation(uint64_t depth, uint64_t names, uint64_t styles) {
    uint64_t dummy = 0;
    uint64_t op = hz_pick(2, "operation");
    Path p = pickPath(depth, names, dummy);
    std::string s = text(p, styles > 1 ? hz_pick((uint8_t) styles, "style") : 0);
    int r;
    if (op == 0) {
        uint64_t v = hz_sym<uint32_t>("value");
        HZ_TRY(r, trie->set(s, v));
        HZ_CHECK((r == 0) == o.canSet(p) && r < 2, "inserting fails exactly below a file or at a non-empty directory");
        threw |= r != 0;
        if (o.canSet(p)) o.files[p] = v; else hzs_reach("rejected");
    } else {
        HZ_TRY(r, trie->erase(s));
        HZ_CHECK((r == 0) == o.present(p) && r < 2, "erasing fails exactly for absent paths");
        threw |= r != 0;
        if (o.present(p)) { o.erase(p); hzs_reach("erased"); }
    }
}
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0), depth = hzs_param("depth", 2), names = hzs_param("names", 2), k = hzs_param("k", 3);
    uint64_t base = hzs_live();
    o.files.clear(); threw = false;
    trie = new HZ_ArchiveTrie<uint64_t>();
    if (mode == 0) {
        uint8_t c[3];
        for (uint64_t i = 0; i < names; i++) {
            c[i] = hz_sym<uint8_t>("name");
            hzs_assume(c[i] != '/');
            for (uint64_t j = 0; j < i; j++) hzs_assume(c[i] != c[j]);
            name[i] = std::string(i + 1, (char) c[i]);
        }
        for (uint64_t i = 0; i < k; i++) operation(depth, names, hzs_param("styles", 1));
        if (hzs_param("probe", 1)) { Path p; probeAll(p, depth, names); }
        hzs_reach("history");
    } else {
        // one insertion under any text: only the parts between slashes matter
        uint64_t n = hz_pick((uint8_t) (hzs_param("n", 3) + 1), "length");
        std::string s(n, ' ');
        for (uint64_t i = 0; i < n; i++) s[i] = (char) hz_sym<uint8_t>("byte");
        std::vector<std::string> tok(1);
        for (uint64_t i = 0; i < n; i++) if (s[i] == '/') tok.emplace_back(); else tok.back() += s[i];
        std::string canon;
        uint64_t parts = 0;
        std::string first;
        for (auto &t: tok) if (!t.empty()) { if (!parts++) first = t; canon += "/" + t; }
        uint64_t v = hz_sym<uint64_t>("value"), w = 0;
        int r;
        HZ_TRY(r, trie->set(s, v));
        HZ_CHECK(r == 0, "any path can be inserted into an empty index");
        HZ_TRY(r, w = trie->get(canon + "/"));
        HZ_CHECK(r == 0 && v == w && trie->contains(canon) && trie->contains(s), "and is found under its canonical form");
        auto l = trie->children("/");
        HZ_CHECK(l.size() == (parts ? 1 : 0) && (!parts || (l[0].entry == first && l[0].is_leaf == (parts == 1))), "the root lists its first part");
        HZ_TRY(r, trie->erase(canon));
        HZ_CHECK(r == 0 && trie->children("").empty() && (!parts || !trie->contains(s)), "and can be erased under its canonical form");
        hzs_reach("text");
    }
    delete trie;
    for (auto &x: name) x = std::string();
    o.files.clear();
    if (mode == 1 || (!threw && !hzs_param("probe", 1))) HZ_CHECK(hzs_live() == base, "no memory is leaked");
}

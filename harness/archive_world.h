// A model of what an archive must contain, driven in step with a real HZ_Archive (used by C23 - C26, C31, C35).
#pragma once
#include <hzip_storage/archive/archive.h>
#include <map>
#include <set>
#include <string>
#include <vector>
static uint64_t idCounter; static uint64_t idRepeat;
// block ids: distinct numbers, sometimes (idRepeat) one that was handed out before, which must be rejected while in use
extern "C" unsigned long hz_rand64_source(const char *) {
    if (idRepeat && idCounter) { uint64_t back = idRepeat; idRepeat = 0; return 0x8000000000000000ull + 0x100000001ull * (idCounter > back ? idCounter - back : 0); }
    return 0x8000000000000000ull + 0x100000001ull * idCounter++;
}
struct MState { std::vector<uint8_t> data; uint64_t alg = 0, id = 0; bool named = false, alive = false; uint64_t deps = 0; };
struct Blob { std::vector<uint8_t> header, data; uint64_t osize = 0; int ms = -1; uint64_t id = 0; };
struct World {
    HZ_Archive *a = nullptr;
    std::string file = "/tmp/hz/archive";
    std::map<std::string, std::vector<Blob>> files;
    std::map<std::string, int> names;
    std::vector<MState> ms;
    std::vector<Blob> loose;                  // blobs written but not (yet) part of a file
    int r = 0;

    void open() { a = new HZ_Archive(file); a->load(); }
    void close() { a->close(); delete a; a = nullptr; }
    // ---- oracle helpers
    static std::vector<std::string> parts(const std::string &p) {
        std::vector<std::string> v; std::string t;
        for (char c: p) if (c == '/') { if (!t.empty()) v.push_back(t); t.clear(); } else t += c;
        if (!t.empty()) v.push_back(t);
        return v;
    }
    static bool below(const std::string &p, const std::string &q) { // q is p or below p
        auto a = parts(p), b = parts(q);
        if (b.size() < a.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false;
        return true;
    }
    template<typename M> static bool exists(const M &m, const std::string &p) {
        if (parts(p).empty()) return true;
        for (auto &f: m) if (below(p, f.first)) return true;
        return false;
    }
    template<typename M> static bool canInsert(const M &m, const std::string &p) {
        for (auto &f: m) if (below(p, f.first) || below(f.first, p)) return false;
        return !parts(p).empty();
    }
    static bool valid(const std::string &p) { // only used with the harness' own paths
        if (p.empty() || p[0] != '/') return false;
        for (size_t i = 0; i < p.size(); i++) if (p[i] == ' ' || p[i] == '\\' || p[i] == 0 || (i && p[i] == '/' && p[i - 1] == '/')) return false;
        return true;
    }
    // ---- values
    rainman::ptr<HZ_MState> makeMState(uint64_t n, MState &m) {
        rainman::ptr<HZ_MState> p;
        p->data = rainman::ptr<uint8_t>(n);
        m.data.resize(n);
        for (uint64_t i = 0; i < n; i++) p->data[i] = m.data[i] = hz_sym<uint8_t>("mstate");
        m.alg = hz_sym<uint8_t>("alg") & 1;
        p->alg = (hzcodec::algorithms::ALGORITHM) m.alg;
        return p;
    }
    rainman::ptr<HZ_Blob> makeBlob(uint64_t h, uint64_t d, Blob &b) {
        rainman::ptr<HZ_Blob> p;
        p->header.raw = rainman::ptr<uint8_t>(h);
        p->data = rainman::ptr<uint8_t>(d);
        b.header.resize(h); b.data.resize(d);
        for (uint64_t i = 0; i < h; i++) p->header.raw[i] = b.header[i] = hz_sym<uint8_t>("header");
        for (uint64_t i = 0; i < d; i++) p->data[i] = b.data[i] = hz_sym<uint8_t>("data");
        p->size = d;
        b.osize = hz_sym<uint32_t>("osize");
        hzs_assume(b.osize >= d);
        p->o_size = b.osize;
        p->status = d < b.osize;
        return p;
    }
    static void sameMState(const rainman::ptr<HZ_MState> &p, const MState &m) {
        HZ_CHECK((uint64_t) p->alg == m.alg && p->size() == m.data.size(), "a model state keeps its codec and size");
        for (size_t i = 0; i < m.data.size(); i++) HZ_CHECK(p->data[i] == m.data[i], "a model state keeps its bytes");
    }
    void sameBlob(const HZ_Blob &p, const Blob &b) {
        HZ_CHECK(p.header.size() == b.header.size() && p.size == b.data.size() && p.o_size == b.osize && p.data.size() == b.data.size(), "a blob keeps its sizes");
        for (size_t i = 0; i < b.header.size(); i++) HZ_CHECK(p.header.raw[i] == b.header[i], "a blob keeps its header");
        for (size_t i = 0; i < b.data.size(); i++) HZ_CHECK(p.data[i] == b.data[i], "a blob keeps its data");
        HZ_CHECK(p.status == (b.data.size() < b.osize), "a blob keeps its status");
        HZ_CHECK(p.mstate_id == ms[b.ms].id, "a blob keeps its model state reference");
        sameMState(p.mstate, ms[b.ms]);
    }
    void drop(int m) { // one dependency less
        if (--ms[m].deps == 0 && !ms[m].named) ms[m].alive = false;
    }
    // ---- operations; each checks success or failure against the model
    void install(const std::string &name, uint64_t n) {
        MState m;
        auto p = makeMState(n, m);
        bool ok = valid(name) && canInsert(names, name);
        HZ_TRY(r, a->install_mstate(name, p));
        HZ_CHECK(r == (ok ? 0 : 1), "installing a model state fails with an error exactly when its name cannot be used");
        if (!ok) return;
        m.named = m.alive = true;
        rainman::ptr<HZ_Blob> probe;
        a->inject_mstate(name, probe);
        m.id = probe->mstate_id;
        ms.push_back(m);
        names[name] = (int) ms.size() - 1;
    }
    void uninstall(const std::string &name) {
        auto i = valid(name) ? names.find(name) : names.end();
        bool ok = i != names.end() && ms[i->second].deps == 0;
        HZ_TRY(r, a->uninstall_mstate(name));
        HZ_CHECK(r == (ok ? 0 : 1), "a model state is uninstalled exactly when it exists and nothing depends on it");
        if (i != names.end() && !ok) hzs_reach("dependency");
        if (!ok) return;
        ms[i->second].alive = false;
        names.erase(i);
    }
    // how: 0 anonymous model state, 1 named "name" (when there is none: the injection fails), 2 unknown id
    bool attach(const rainman::ptr<HZ_Blob> &p, Blob &b, uint64_t how, const std::string &name, uint64_t msize) {
        if (how == 0) {
            MState m;
            auto q = makeMState(msize, m);
            a->inject_mstate(q, p);
            m.id = p->mstate_id; m.alive = true;
            for (auto &x: ms) HZ_CHECK(!x.alive || x.id != m.id, "a model state gets an unused id");
            ms.push_back(m);
            b.ms = (int) ms.size() - 1;
            return true;
        }
        if (how == 1) {
            auto i = names.find(name);
            HZ_TRY(r, a->inject_mstate(name, p));
            HZ_CHECK(r == (i != names.end() ? 0 : 1), "a model state is injected by name exactly when it exists");
            if (i == names.end()) return false;
            b.ms = i->second;
            HZ_CHECK(p->mstate_id == ms[b.ms].id, "the named model state is used");
            sameMState(p->mstate, ms[b.ms]);
            return true;
        }
        p->mstate_id = 0x1234567;
        b.ms = -1;
        return true;
    }
    // writes the blobs one by one and adds the file entry afterwards (the streaming way), or all at once
    void create(const std::string &path, const std::vector<rainman::ptr<HZ_Blob>> &ps, std::vector<Blob> &bs, bool streaming) {
        bool ok = canInsert(files, path), known = true;
        for (auto &b: bs) known &= b.ms >= 0 && ms[b.ms].alive;
        if (!streaming) {
            ok = ok && known && valid(path);
            rainman::ptr<HZ_Blob> arr(ps.size());
            for (size_t i = 0; i < ps.size(); i++) arr[i] = *ps[i];
            HZ_TRY(r, a->create_file(path, arr, ps.size()));
            HZ_CHECK(r == (ok ? 0 : 1), "storing a file fails with an error exactly when its path cannot be used or a model state is missing");
            if (!ok) { hzs_reach("rejected"); return; }
            auto e = a->read_file_entry(path);
            for (size_t i = 0; i < bs.size(); i++) bs[i].id = e.blob_ids[i];
        } else {
            HZ_ArchiveFile e;
            e.blob_ids = rainman::ptr<uint64_t>(ps.size());
            for (size_t i = 0; i < ps.size(); i++) {
                bool k = bs[i].ms >= 0 && ms[bs[i].ms].alive;
                HZ_TRY(r, e.blob_ids[i] = a->write_blob(ps[i]));
                HZ_CHECK(r == (k ? 0 : 1), "storing a blob fails exactly when its model state is missing");
                if (!k) { for (size_t j = 0; j < i; j++) { ms[bs[j].ms].deps++; loose.push_back(bs[j]); } return; }
                bs[i].id = e.blob_ids[i];
            }
            HZ_TRY(r, a->create_file_entry(path, e));
            HZ_CHECK(r == (ok ? 0 : 1), "adding a file entry fails with an error exactly when its path cannot be used");
            if (!ok) { for (auto &b: bs) { ms[b.ms].deps++; loose.push_back(b); } hzs_reach("rejected"); return; }
        }
        for (auto &b: bs) ms[b.ms].deps++;
        files[path] = bs;
    }
    void remove(const std::string &path) {
        auto i = valid(path) ? files.find(path) : files.end();
        bool ok = i != files.end();
        HZ_TRY(r, a->remove_file(path));
        HZ_CHECK(r == (ok ? 0 : 1), "removing fails with an error exactly for paths that are not files");
        if (!ok) { hzs_reach("rejected"); return; }
        for (auto &b: i->second) drop(b.ms);
        files.erase(i);
        hzs_reach("removed");
    }
    void absorb(World &o) {                   // what another user of the same archive did
        int n = (int) ms.size();
        for (auto &m: o.ms) { for (auto &x: ms) HZ_CHECK(!m.alive || !x.alive || x.id != m.id, "a model state gets an unused id"); ms.push_back(m); }
        for (auto &f: o.files) { auto v = f.second; for (auto &b: v) b.ms += n; files[f.first] = v; }
        for (auto &x: o.names) names[x.first] = x.second + n;
    }
    void reopen() { close(); open(); hzs_reach("reopened"); }
    // ---- everything readable equals the model
    void listing(const std::string &p, bool mst) {
        auto each = [&](auto &m) {
            std::vector<HZ_ArchiveTrieListElement> l;
            HZ_TRY(r, l = mst ? a->list_mstate_system(p) : a->list_file_system(p));
            HZ_CHECK(r == (exists(m, p) ? 0 : 1), "listing fails exactly for absent paths");
            if (r) return;
            std::map<std::string, bool> want;
            size_t d = parts(p).size();
            for (auto &f: m) if (below(p, f.first) && parts(f.first).size() > d) want[parts(f.first)[d]] = parts(f.first).size() == d + 1;
            HZ_CHECK(l.size() == want.size(), "a listing has every entry once");
            for (auto &e: l) HZ_CHECK(want.count(e.entry) && want[e.entry] == e.is_leaf, "a listing has the right entries");
        };
        if (mst) each(names); else each(files);
    }
    void verify(const std::vector<std::string> &paths, const std::vector<std::string> &mnames) {
        for (auto &p: paths) {
            HZ_CHECK(a->check_file_exists(p) == exists(files, p), "a file exists exactly when it was stored and not removed");
            rainman::ptr<HZ_Blob> b;
            HZ_TRY(r, b = a->read_file(p));
            auto i = files.find(p);
            HZ_CHECK(r == (i != files.end() ? 0 : 1), "reading fails with an error exactly for absent files");
            if (i != files.end() && r == 0) {
                HZ_CHECK(b.size() == i->second.size(), "a file has all of its blobs");
                for (size_t k = 0; k < i->second.size(); k++) sameBlob(b[k], i->second[k]);
                auto e = a->read_file_entry(p);
                HZ_CHECK(e.blob_ids.size() == i->second.size(), "a file entry has all of its blobs");
                for (size_t k = 0; k < i->second.size(); k++) sameBlob(*a->read_blob(e.blob_ids[k]), i->second[k]);
            }
            listing(p, false);
        }
        listing("/", false);
        for (auto &b: loose) sameBlob(*a->read_blob(b.id), b);
        for (auto &n: mnames) {
            HZ_CHECK(a->check_mstate_exists(n) == exists(names, n), "a model state exists exactly when it was installed and not uninstalled");
            rainman::ptr<HZ_MState> m;
            HZ_TRY(r, m = a->read_mstate(n));
            HZ_CHECK(r == (names.count(n) ? 0 : 1), "reading fails with an error exactly for absent model states");
            if (names.count(n) && r == 0) sameMState(m, ms[names[n]]);
            listing(n, true);
        }
        listing("/", true);
    }
    // ---- the raw file after close(): an exact tiling by blocks
    struct Bits {
        const uint8_t *d; uint64_t n, pos = 0;
        uint64_t get(unsigned k) {
            if (pos + k > n) { HZ_CHECK(false, "no block reaches past the end of the file"); hzs_exit(); }
            uint64_t v = 0;
            for (unsigned i = 0; i < k; ) {
                unsigned s = pos & 7, t = 8 - s < k - i ? 8 - s : k - i;
                v = (v << t) | ((d[pos >> 3] >> (8 - s - t)) & ((1u << t) - 1));
                pos += t; i += t;
            }
            return v;
        }
    };
    void tiling() {
        hz_node *f = hz_fs_find(file.c_str());
        HZ_CHECK(f, "the archive file exists");
        Bits b{f->data, f->size * 8};
        std::set<uint64_t> blobs, states;
        std::map<std::string, uint64_t> paths, aux;
        uint64_t versions = 0;
        for (;;) {
            uint64_t marker = b.get(8);
            if (marker == 0xff) break;
            HZ_CHECK(marker <= 3, "every block starts with a marker");
            if (marker > 3) return;
            uint64_t len = b.get(64), start = b.pos;
            HZ_CHECK(len <= b.n - b.pos, "every block ends inside the file");
            if (len > b.n - b.pos) return;
            uint64_t used = len;
            if (marker == 1) {
                uint64_t type = b.get(8);
                if (type == 0) { HZ_CHECK(b.get(24) == HZ_ARCHIVE_VERSION, "the version block holds the version"); versions++; used = 32; }
                else {
                    uint64_t pl = b.get(64);
                    std::string p;
                    HZ_CHECK(pl < 64, "an entry holds its path");
                    for (uint64_t i = 0; i < pl && i < 64; i++) p += (char) b.get(8);
                    if (type == 1) {
                        uint64_t k = b.get(58);
                        HZ_CHECK(!paths.count(p) && files.count(p) && files[p].size() == k, "an entry belongs to a stored file");
                        if (!files.count(p) || files[p].size() != k) return;
                        for (uint64_t i = 0; i < k; i++) HZ_CHECK(b.get(64) == files[p][i].id, "an entry holds the blob ids in order");
                        paths[p] = k;
                        used = 130 + 8 * pl + 64 * k;
                    } else {
                        HZ_CHECK(type == 2 && !aux.count(p) && names.count(p), "an entry belongs to an installed model state");
                        if (!names.count(p)) return;
                        aux[p] = b.get(64);
                        HZ_CHECK(aux[p] == ms[names[p]].id, "an entry holds the model state's id");
                        used = 136 + 8 * pl;
                    }
                }
            } else if (marker == 2) {
                uint64_t id = b.get(64), h = b.get(64);
                HZ_CHECK(h < 64, "a blob holds its header"); if (h >= 64) return;
                b.pos += 8 * h + 64;
                uint64_t m = b.get(64), d = b.get(64);
                bool known = false;
                for (auto &x: ms) known |= x.alive && x.id == m;
                HZ_CHECK(known, "a blob refers to a stored model state");
                HZ_CHECK(blobs.insert(id).second, "blob ids are unique");
                used = 320 + 8 * h + 8 * d;
            } else if (marker == 3) {
                uint64_t id = b.get(64), al = b.get(64), d = b.get(64);
                (void) al;
                HZ_CHECK(states.insert(id).second, "model state ids are unique");
                used = 192 + 8 * d;
            }
            HZ_CHECK(used == len, "a block's contents fill it exactly");
            b.pos = start + len;
        }
        HZ_CHECK(versions == 1, "there is one version block");
        HZ_CHECK(paths.size() == files.size() && aux.size() == names.size(), "every stored entry is in the file");
        uint64_t nb = loose.size();
        for (auto &f: files) for (auto &x: f.second) { nb++; HZ_CHECK(blobs.count(x.id), "every stored blob is in the file"); }
        for (auto &x: loose) HZ_CHECK(blobs.count(x.id), "every written blob is in the file");
        HZ_CHECK(blobs.size() == nb, "no removed blob is left in the file");
        uint64_t nm = 0;
        for (auto &x: ms) if (x.alive) { nm++; HZ_CHECK(states.count(x.id), "every model state in use is in the file"); }
        HZ_CHECK(states.size() == nm, "no removed model state is left in the file");
    }
};

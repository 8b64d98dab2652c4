// C34: every sequence of query messages is answered truthfully or rejected, and changes exactly what it asks for.
#include "net_world.h"
#include "archive_world.h"
#include <hzip_network/api/handlers/query.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_network/errors/api.h>
static World *w;
static const char *ARCH[] = {"/tmp/hz/archive", "/tmp/./hz//archive", "/tmp/none/a", "/tmp/hz/other"};
static const std::vector<std::string> PATHS = {"/a", "/d/b", "/d"}, NAMES = {"/m", "/n/x", "/n"};
static const char *TARGET[] = {"/d", "/a", "/m", "/n/x", "/d/b", "/n", "/", "/zz", "a", "", "/a/", "//a", "/a b", "/d\\"};
enum { UNKNOWN = 9 };
struct Msg { uint8_t word; int arch = -1; std::string target; };
static Msg msg[8];
static void make(uint64_t i, int fixed) {
    Msg &m = msg[i];
    m.word = fixed >= 0 ? (uint8_t) fixed : hz_pick((uint8_t) hzs_param("words", 10), "word");
    if (fixed == 20) m.word = hzapi::QUERY_CTL_ARCHIVE;
    if (m.word == UNKNOWN) { m.word = hz_sym<uint8_t>("unknown"); hzs_assume(m.word > 8); }
    put8(m.word);
    if (m.word == hzapi::QUERY_CTL_ARCHIVE) {
        m.arch = fixed == 20 ? 0 : hz_pick((uint8_t) hzs_param("archs", 4), "archive");
        putText(ARCH[m.arch]);
    } else if (m.word == hzapi::QUERY_CTL_TARGET) {
        uint64_t n = hzs_param("targets", 14), t = hz_pick((uint8_t) (n + (hzs_param("any", 0) != 0)), "target");
        if (t == n) {                                                        // any short text
            std::string s;
            if (hzs_param("any", 0) > 2) s = "/d";
            uint64_t l = hz_pick((uint8_t) (hzs_param("any", 0) > 2 ? 3 : hzs_param("any", 0) + 1), "length");
            for (uint64_t j = 0; j < l; j++) s += hz_sym<char>("target");
            putText(s);
            for (char c: s) { if (hzs_fork(c == 0)) break; m.target += c; }  // texts end at a null
            for (char &c: m.target) {                                        // one path for each kind of character
                if (hzs_fork(c == '/')) c = '/'; else if (hzs_fork(c == ' ')) c = ' '; else if (hzs_fork(c == '\\')) c = '\\';
                else if (hzs_fork(c == 'a')) c = 'a'; else if (hzs_fork(c == 'd')) c = 'd'; else if (hzs_fork(c == 'm')) c = 'm'; else if (hzs_fork(c == 'n')) c = 'n'; else if (hzs_fork(c == 'b')) c = 'b';
                else if (hzs_fork(c == 'x')) c = 'x';
            }
        } else { m.target = TARGET[t]; putText(TARGET[t]); }
    }
}
template<typename M> static auto named(M &m, const std::string &p) { auto i = m.begin(); while (i != m.end() && World::parts(i->first) != World::parts(p)) ++i; return i; }
enum { DONE, REJECT, GONE };
// what the documented protocol says about the messages from i on; checks what was sent to the client
static int expect(uint64_t &i, uint64_t k, uint64_t &used, Reader &c, bool &changes, World *other) {
    bool arch = false, have = false, piggy = false; std::string target; World *at = nullptr;
    auto take = [&](uint64_t n) { c.sync(); if (used + n > input->size()) { used = input->size(); return false; } used += n; return true; };
    while (true) {
        if (i == k) { c.sync(); return GONE; }
        Msg &m = msg[i++];
        if (!take(1)) return GONE;
        switch (m.word) {
            case hzapi::QUERY_CTL_ARCHIVE:
                if (!take(2) || !take(strlen(ARCH[m.arch]))) return GONE;
                if (m.arch == 2) { hzs_reach("no-archive"); return REJECT; }
                arch = true; at = m.arch == 3 ? other : w;
                break;
            case hzapi::QUERY_CTL_TARGET: {
                uint64_t l = (*input)[used < input->size() ? used : 0];
                if (!take(2) || !take(l)) return GONE;
                if (!World::valid(m.target)) { hzs_reach("bad-target"); return REJECT; }
                have = true; target = m.target;
                break;
            }
            case hzapi::QUERY_CTL_PIGGYBACK: piggy = true; break;
            case hzapi::QUERY_CTL_CHECK_IF_FILE_EXISTS: {
                if (!piggy || !arch || !have) { hzs_reach("missing"); return REJECT; }
                uint64_t got = c.value(1);
                HZ_CHECK(c.ok && got == (uint64_t) World::exists(at->files, target), "existence is answered truthfully");
                hzs_reach("existence");
                return DONE;
            }
            case hzapi::QUERY_CTL_LIST_FILE_SYSTEM: case hzapi::QUERY_CTL_LIST_MSTATE_SYSTEM: {
                if (!piggy || !arch || !have) { hzs_reach("missing"); return REJECT; }
                std::map<std::string, bool> want;
                bool there = false; size_t d = World::parts(target).size();
                auto each = [&](auto &mm) { there = World::exists(mm, target); for (auto &f: mm) if (World::below(target, f.first) && World::parts(f.first).size() > d) want[World::parts(f.first)[d]] = World::parts(f.first).size() == d + 1; };
                if (m.word == hzapi::QUERY_CTL_LIST_FILE_SYSTEM) each(at->files); else each(at->names);
                if (!there) { hzs_reach("nothing-to-list"); return REJECT; }
                uint64_t n = c.value(8);
                HZ_CHECK(c.ok && n == want.size(), "a listing announces the number of entries");
                for (uint64_t j = 0; j < n && c.ok; j++) {
                    std::string e = c.message();
                    uint64_t leaf = c.value(1);
                    HZ_CHECK(c.ok && want.count(e) && (uint64_t) want[e] == leaf, "a listing has every entry once, with its kind");
                    want.erase(e);
                }
                hzs_reach("listing");
                return DONE;
            }
            case hzapi::QUERY_CTL_DELETE_FILE: {
                if (!arch || !have) { hzs_reach("missing"); return REJECT; }
                auto f = named(at->files, target);
                if (f == at->files.end()) { hzs_reach("nothing-to-delete"); return REJECT; }
                for (auto &b: f->second) at->drop(b.ms);
                at->files.erase(f); changes = true;
                hzs_reach("deleted");
                return DONE;
            }
            case hzapi::QUERY_CTL_DELETE_MSTATE: {
                if (!arch || !have) { hzs_reach("missing"); return REJECT; }
                auto f = named(at->names, target);
                if (f == at->names.end()) { hzs_reach("nothing-to-delete"); return REJECT; }
                if (at->ms[f->second].deps) { hzs_reach("in-use"); return REJECT; }
                at->ms[f->second].alive = false; at->names.erase(f); changes = true;
                hzs_reach("deleted");
                return DONE;
            }
            case hzapi::QUERY_CTL_GET_MEM_USAGE: c.value(8); return DONE;
            default: hzs_reach("unknown"); return REJECT;
        }
    }
}
static std::vector<uint8_t> image(const char *f) { hz_node *n = hz_fs_find(f); return n ? std::vector<uint8_t>(n->data, n->data + n->size) : std::vector<uint8_t>(); }
extern "C" void hz_main() {
    hz_fs_create("/tmp", true); hz_fs_create("/tmp/hz", true);
    hz_fs_strict = 1;
    netReset();
    idCounter = 1; idRepeat = 0;
    w = new World();
    w->open();
    w->install("/m", 1); w->install("/n/x", 2);
    auto store = [](const char *path, uint64_t how) { Blob b; auto p = w->makeBlob(1, 2, b); w->attach(p, b, how, "/m", 1); std::vector<Blob> bs{b}; w->create(path, {p}, bs, false); };
    store("/a", 1); store("/d/b", 0);
    World *other = new World(); other->file = ARCH[3];
    w->close();
    rainman::ptr<hzapi::ArchiveProvider> prov;
    uint64_t k = hzs_param("k", 3), base = hzs_param("base", 0);
    for (uint64_t i = 0; i < k; i++) make(i, i >= base ? -1 : i == 0 ? 20 : hzapi::QUERY_CTL_PIGGYBACK);
    if (hzs_param("cut", 0)) { uint64_t n = input->size() < 24 ? input->size() : 24; input->resize(input->size() - 1 - hz_pick((uint8_t) n, "cut")); }
    auto before = image(ARCH[0]);
    bool changes = false;
    uint64_t i = 0, used = 0;
    Reader c;
    bool gone = false;
    for (uint64_t q = 0; q <= k && !gone; q++) {
        int got = DONE;
        {
            hzapi::Query query(FD, "1.2.3.4", 80, prov);
            try { query.start(); } catch (ApiErrors::ConnectionError &) { got = GONE; } catch (std::exception &) { got = REJECT; } catch (...) { got = 9; }
        }
        int want = expect(i, k, used, c, changes, other);
        HZ_CHECK(got == want, "a query is carried out, rejected or broken off");
        HZ_CHECK(c.ok && c.end(), "exactly the documented answer is sent");
        HZ_CHECK(inPos == used || want == GONE, "a query takes exactly its messages");
        if (want != got || !c.ok) return;
        gone = want == GONE;
        if (want == DONE) hzs_reach("done");
    }
    HZ_CHECK(gone || i == k, "every message is looked at");
    HZ_CHECK(closes == 0 && badFd == 0, "only the given socket is used");
    w->a = prov->provide(ARCH[0]).pointer();
    if (changes) w->verify(PATHS, NAMES);
    else {
        auto after = image(ARCH[0]);
        bool same = before.size() == after.size();
        for (size_t j = 0; same && j < before.size(); j++) same = before[j] == after[j];
        HZ_CHECK(same, "what is not asked for is not changed");
        for (auto &p: PATHS) HZ_CHECK(w->a->check_file_exists(p), "nothing else is deleted");
        for (auto &p: NAMES) HZ_CHECK(w->a->check_mstate_exists(p), "nothing else is deleted");
    }
    prov->close();
    w->tiling();
    hzs_reach("end");
}

// C23 - C26: histories of archive operations against a model of the archive's contents.
#include "archive_world.h"
static World *w;
static const std::vector<std::string> PATHS = {"/a", "/a/b", "/c"}, NAMES = {"/m", "/m/n"};
static void storeAt(const std::string &path, uint64_t blobs, uint64_t how, bool streaming, const uint64_t *sizes, uint64_t ns) {
    std::vector<rainman::ptr<HZ_Blob>> ps; std::vector<Blob> bs;
    for (uint64_t i = 0; i < blobs; i++) {
        Blob b;
        uint64_t s = ns > 1 ? sizes[hz_pick((uint8_t) ns, "size")] : sizes[0];
        auto p = w->makeBlob(hzs_param("header", 1), s, b);
        if (!w->attach(p, b, i == 0 ? how : how == 2 ? 0 : how, "/m", 1)) return;
        ps.push_back(p); bs.push_back(b);
    }
    if (how == 2 && bs.size() > 1) { std::swap(bs[0], bs[1]); std::swap(ps[0], ps[1]); }      // the missing one last
    w->create(path, ps, bs, streaming);
}
static void step(uint64_t first) {
    static const uint64_t one[] = {2};
    switch (first < 7 ? first : hz_pick((uint8_t) hzs_param("ops", 5), "operation")) {
        case 0: {
            const std::string &p = PATHS[hz_pick((uint8_t) PATHS.size(), "path")];
            uint64_t how = hz_pick((uint8_t) hzs_param("hows", 2), "model");
            storeAt(p, hzs_param("blobs", 1) > 1 ? 1 + hz_pick(2, "blobs") : 1, how, hzs_param("streaming", 0) ? hz_pick(2, "streaming") : false, one, 1);
            break;
        }
        case 1: w->remove(PATHS[hz_pick((uint8_t) PATHS.size(), "path")]); break;
        case 2: w->install(NAMES[hz_pick((uint8_t) NAMES.size(), "name")], 1); break;
        case 3: w->uninstall(NAMES[hz_pick((uint8_t) NAMES.size(), "name")]); break;
        case 4: w->reopen(); break;
        case 5: { // an anonymous model state that no blob uses
            MState m; auto q = w->makeMState(1, m);
            m.id = w->a->install_mstate(q); m.alive = true; w->ms.push_back(m);
            if (hz_pick(2, "again")) { w->a->uninstall_mstate(m.id); w->ms.back().alive = false; }
            break;
        }
        default: { // invalid and directory paths
            static const char *bad[] = {"", "a", "/a//b", "/a b", "/", "\\"};
            std::string p = bad[hz_pick(6, "bad")];
            switch (hz_pick(4, "call")) {
                case 0: storeAt(p, 1, 0, false, one, 1); break;
                case 1: w->remove(p); break;
                case 2: w->install(p, 1); break;
                default: w->uninstall(p); break;
            }
            break;
        }
    }
}
// several threads use one archive, each with its own names; or all with the same name, when exactly one of them succeeds
static World *part[3]; static const char *STORE[] = {"/t0/new", "/t1/new", "/t2/new"}, *OLD[] = {"/t0/old", "/t1/old", "/t2/old"}, *NEWM[] = {"/t0/m", "/t1/m", "/t2/m"}, *OLDM[] = {"/t0/n", "/t1/n", "/t2/n"};
static uint64_t kind[3], won, lost;
static void user(uint64_t i) {
    World *me = part[i];
    switch (kind[i]) {
        case 0: { Blob b; auto p = me->makeBlob(0, 1, b); me->attach(p, b, 0, "", 1); std::vector<Blob> bs{b}; me->create(STORE[i], {p}, bs, false); break; }
        case 1: me->remove(OLD[i]); break;
        case 2: me->install(NEWM[i], 1); break;
        case 3: me->uninstall(OLDM[i]); break;
        case 4: { auto b = me->a->read_file(OLD[i]); me->sameBlob(b[0], me->files[OLD[i]][0]); break; }
        case 5: World::sameMState(me->a->read_mstate(OLDM[i]), me->ms[me->names[OLDM[i]]]); break;
        default: { HZ_CHECK(me->a->check_file_exists(OLD[i]) && me->a->check_mstate_exists(OLDM[i]), "what was stored exists"); me->a->list_file_system("/"); break; }
    }
}
static uint64_t rivalKind; static rainman::ptr<HZ_MState> rivalState[3]; static rainman::ptr<HZ_Blob> rivalBlob[3];
static void rival(uint64_t i) {
    int r = 0;
    switch (rivalKind) {
        case 0: HZ_TRY(r, w->a->create_file("/x", rivalBlob[i], 1)); break;
        case 1: HZ_TRY(r, w->a->remove_file("/c")); break;
        case 2: HZ_TRY(r, w->a->install_mstate("/y", rivalState[i])); break;
        default: HZ_TRY(r, w->a->uninstall_mstate("/m")); break;
    }
    if (r == 0) won++; else lost++;
    HZ_CHECK(r <= 1, "only errors are thrown");
}
static void threads() {
    uint64_t n = hzs_param("threads", 2);
    static const uint64_t two[] = {2};
    w->install("/m", 1);
    storeAt("/c", 1, 0, false, two, 1);
    std::vector<std::string> ps{"/c"}, ns{"/m"};
    if (hzs_param("rivals", 0)) {
        rivalKind = hz_pick(4, "kind");
        for (uint64_t i = 0; i < n; i++) { Blob b; MState m; rivalBlob[i] = w->makeBlob(1, 1, b); w->attach(rivalBlob[i], b, 1, "/m", 1); rivalState[i] = w->makeMState(1, m); }
        std::vector<std::thread> t;
        for (uint64_t i = 0; i < n; i++) t.emplace_back(rival, i);
        for (auto &x: t) x.join();
        HZ_CHECK(won == 1 && lost == n - 1, "exactly one of several users storing or removing the same thing succeeds");
        if (rivalKind == 1) { w->drop(w->files["/c"][0].ms); w->files.erase("/c"); }
        if (rivalKind == 3) { w->ms[w->names["/m"]].alive = false; w->names.erase("/m"); }
        if (rivalKind == 0 || rivalKind == 2) {
            HZ_CHECK(w->a->check_file_exists("/x") == (rivalKind == 0) && w->a->check_mstate_exists("/y") == (rivalKind == 2), "the winner's value is stored");
            if (rivalKind == 0) w->a->remove_file("/x"); else w->a->uninstall_mstate("/y");
        }
        hzs_reach("rivals");
    } else {
        for (uint64_t i = 0; i < n; i++) {
            part[i] = new World(); part[i]->a = w->a;
            kind[i] = i == 0 && hzs_param("split", 9) < 7 ? hzs_param("split", 9) : hz_pick(7, "kind");
            std::swap(w, part[i]); w->install(OLDM[i], 1); storeAt(OLD[i], 1, 0, false, two, 1); std::swap(w, part[i]);
        }
        std::vector<std::thread> t;
        for (uint64_t i = 0; i < n; i++) t.emplace_back(user, i);
        for (auto &x: t) x.join();
        for (uint64_t i = 0; i < n; i++) {
            w->absorb(*part[i]); part[i]->a = nullptr; delete part[i];
            ps.push_back(STORE[i]); ps.push_back(OLD[i]); ns.push_back(NEWM[i]); ns.push_back(OLDM[i]);
        }
        hzs_reach("threads");
    }
    w->verify(ps, ns);
    w->close();
    w->tiling();
    w->open();
    w->verify(ps, ns);
    w->close();
    delete w;
}
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0), k = hzs_param("k", 2);
    w = new World();
    idCounter = 1; idRepeat = 0;
    hz_fs_create("/tmp", true); hz_fs_create("/tmp/hz", true);
    w->open();
    if (mode == 2) { threads(); return; }
    if (mode == 0) {
        // any history, from an empty or a populated archive
        uint64_t start = hzs_param("start", 0);
        static const uint64_t two[] = {2};
        if (start >= 1) { w->install("/m", 1); storeAt("/a", 1, 1, false, two, 1); }
        if (start >= 2) { storeAt("/c", 1, 0, true, two, 1); w->remove("/a"); }
        if (start >= 3) { w->uninstall("/m"); w->reopen(); }
        for (uint64_t i = 0; i < k; i++) {
            idRepeat = hzs_param("repeat", 0) ? hz_pick(3, "repeat") : 0;
            step(i == 0 ? hzs_param("first", 9) : i == 1 ? hzs_param("second", 9) : 9);
            idRepeat = 0;
            if (hzs_param("each", 0)) w->verify(PATHS, NAMES);
        }
        hzs_reach("history");
    } else {
        // reuse of space: files of various sizes are stored, some removed, others stored in their place
        static const uint64_t sizes[] = {12, 3, 0, 21, 13, 4, 11, 30, 7, 22};
        uint64_t ns = hzs_param("sizes", 4), files = hzs_param("files", 2), again = hzs_param("again", 2);
        static const char *first[] = {"/p", "/q", "/r"}, *second[] = {"/s", "/t", "/u"};
        if (hzs_param("named", 0)) w->install("/m", 1);
        for (uint64_t i = 0; i < files; i++) storeAt(first[i], 1, hzs_param("named", 0), false, sizes, i == 0 || hzs_param("allsizes", 0) ? ns : 1);
        for (uint64_t i = 0; i < files; i++) if (i == 0 || hz_pick(2, "remove")) w->remove(first[i]);
        if (hz_pick(2, "reopen")) w->reopen();
        for (uint64_t i = 0; i < again; i++) {
            if (hzs_param("mstates", 0) && hz_pick(2, "kind")) w->install(i ? "/x" : "/y", sizes[hz_pick((uint8_t) ns, "msize")]);
            else storeAt(second[i], 1, hzs_param("named", 0), false, sizes, ns);
        }
        hzs_reach("reuse");
    }
    std::vector<std::string> ps = mode == 0 ? PATHS : std::vector<std::string>{"/p", "/q", "/r", "/s", "/t", "/u"}, ns = mode == 0 ? NAMES : std::vector<std::string>{"/m", "/x", "/y"};
    w->verify(ps, ns);
    w->close();
    w->tiling();
    w->open();
    w->verify(ps, ns);
    w->close();
    w->tiling();
    delete w;
    hzs_reach("verified");
}

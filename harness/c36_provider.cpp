// C36: the archive provider opens every archive once and shares it; failures are reported and block nobody.
#include <hzip_network/api/providers/archive_provider.h>
#include <hzip_core/utils/utils.h>
#include <semaphore.h>
#include <fcntl.h>
static uint64_t idCounter = 1;
extern "C" unsigned long hz_rand64_source(const char *) { return idCounter++; }
static hzapi::ArchiveProvider *prov;
// the same two archives in several spellings; a directory, a missing directory, an archive of another version, nothing
static const char *PATH[] = {"/tmp/hz/a", "/tmp/hz/b", "/tmp//hz/./a", "/cwd/c", "c", "/tmp/hz", "/tmp/none/a", "/tmp/hz/old", ""};
static const int SAME[] = {0, 1, 0, 2, 2, -1, -1, -1, -1};
static const char *FILES[] = {"/tmp/hz/a", "/tmp/hz/b", "/cwd/c"};
enum { N = 9 };
static rainman::ptr<HZ_Archive> got[8]; static int outcome[8], which[8];
static void request(int i) {
    HZ_TRY(outcome[i], got[i] = prov->provide(PATH[which[i]]));
    HZ_CHECK(outcome[i] == (SAME[which[i]] < 0 ? 1 : 0), "a request fails with an error exactly when the archive cannot be opened");
    if (outcome[i]) { hzs_reach("failed"); return; }
    hzs_reach("opened");
}
extern "C" void hz_main() {
    hz_fs_create("/tmp", true); hz_fs_create("/tmp/hz", true); hz_fs_create("/cwd", true);
    hz_fs_strict = 1;
    { HZ_Archive old("/tmp/hz/old"); old.load(); old.close(); }
    hz_node *o = hz_fs_find("/tmp/hz/old");
    uint8_t diff[3]; hzs_symbolic(diff, 3, "version");
    hzs_assume((diff[0] | diff[1] | diff[2]) != 0);
    for (int i = 0; i < 3; i++) o->data[10 + i] ^= diff[i];                  // any other version
    if (hzs_param("existing", 0)) { HZ_Archive a("/tmp/hz/a"); a.load(); a.close(); }
    prov = new hzapi::ArchiveProvider();
    uint64_t k = hzs_param("k", 2), n = hzs_param("paths", N);
    for (uint64_t i = 0; i < k; i++) which[i] = (int) hz_pick((uint8_t) n, "path");
    if (hzs_param("threads", 0)) {
        if (hzs_param("remap", 0)) { static const int m[] = {0, 2, 1, 7, 6}; for (uint64_t i = 0; i < k; i++) which[i] = m[which[i]]; }
        std::vector<std::thread> t;
        for (uint64_t i = 0; i < k; i++) t.emplace_back(request, (int) i);
        for (auto &x: t) x.join();
        hzs_reach("threads");
    } else for (uint64_t i = 0; i < k; i++) request((int) i);
    for (uint64_t i = 0; i < k; i++) for (uint64_t j = 0; j < i; j++) if (!outcome[i] && !outcome[j])
        HZ_CHECK((got[i].pointer() == got[j].pointer()) == (SAME[which[i]] == SAME[which[j]]), "the same archive is shared, different ones are not");
    // what was opened works, and is closed exactly once
    bool used[3] = {};
    for (uint64_t i = 0; i < k; i++) if (!outcome[i]) {
        if (!used[SAME[which[i]]]) { rainman::ptr<HZ_MState> m; got[i]->install_mstate("/m", m); }
        else HZ_CHECK(got[i]->check_mstate_exists("/m"), "the same archive is shared");
        used[SAME[which[i]]] = true;
    }
    prov->close();
    for (int f = 0; f < 3; f++) if (used[f]) {
        sem_t *s = sem_open(("/" + hz_sha512(FILES[f])).c_str(), O_CREAT, 0777, 1);
        HZ_CHECK(sem_trywait(s) == 0, "a closed archive can be opened again");
        HZ_CHECK(sem_trywait(s) != 0, "an archive is closed once");
        sem_post(s);
        HZ_Archive a(FILES[f]);
        a.load();
        HZ_CHECK(a.check_mstate_exists("/m"), "a closed archive holds everything that was stored");
        hzs_reach("closed");
    }
    hzs_reach("end");
}

// C37: the cache pool hands out its caches in turn, each with its own lock and file, also after re-initialisation and from threads.
#include <hzip_core/runtime/cache_provider.h>
using hzruntime::CacheProvider;
static rainman::cache *seen[8]; static std::mutex *lock[8]; static uint64_t N, taken[8];
static void init(uint64_t n) {
    uint64_t page = hz_sym<uint64_t>("page");
    char c = hz_sym<char>("file"); hzs_assume(c != 0);
    std::string f(1, c);
    CacheProvider::init_cache(f, n, page);
    N = n;
    for (uint64_t i = 0; i < n; i++) {
        auto p = CacheProvider::get_cache();
        seen[i] = &p.first; lock[i] = &p.second;
        HZ_CHECK(p.first.hz_page == page, "caches have the configured page size");
        HZ_CHECK(p.first.hz_file.size() > 1 && p.first.hz_file[0] == c, "cache files are named after the configured file");
        for (uint64_t k = 0; k < i; k++) {
            HZ_CHECK(seen[k] != seen[i], "the pool has as many caches as configured");
            HZ_CHECK(lock[k] != lock[i], "every cache has its own lock");
            HZ_CHECK(seen[k]->hz_file != seen[i]->hz_file, "every cache has its own file");
        }
        // the pool must begin with its first cache: its file is the one numbered i
        HZ_CHECK(p.first.hz_file.back() == (char) ('0' + i), "requests begin with the first cache");
    }
}
static uint64_t request() {
    auto p = CacheProvider::get_cache();
    for (uint64_t i = 0; i < N; i++) if (&p.first == seen[i]) { HZ_CHECK(&p.second == lock[i], "a cache always comes with the same lock"); return i; }
    HZ_CHECK(false, "no request gets a cache outside the pool");
    return 0;
}
static uint64_t rounds;
static void user() { for (uint64_t i = 0; i < rounds; i++) { uint64_t k = request(); taken[k]++; } }
extern "C" void hz_main() {
    if (hzs_param("mode", 0) == 0) {
        uint64_t inits = hzs_param("inits", 2);
        for (uint64_t j = 0; j < inits; j++) {
            init(1 + hz_pick((uint8_t) hzs_param("n", 4), "caches"));
            uint64_t k = hz_pick((uint8_t) hzs_param("k", 6), "requests");
            for (uint64_t i = 0; i < k; i++) HZ_CHECK(request() == i % N, "caches are handed out in turn");
        }
        hzs_reach("turns");
    } else {
        init(1 + hz_pick(3, "caches"));
        rounds = hzs_param("rounds", 2);
        uint64_t n = hzs_param("threads", 2);
        std::thread t[4];
        for (uint64_t i = 0; i < n; i++) t[i] = std::thread(user);
        for (uint64_t i = 0; i < n; i++) t[i].join();
        uint64_t total = n * rounds;
        for (uint64_t i = 0; i < N; i++) HZ_CHECK(taken[i] == total / N + (i < total % N), "concurrent requests get the caches in turn");
        HZ_CHECK(request() == total % N, "the turn continues");
        hzs_reach("threads");
    }
}

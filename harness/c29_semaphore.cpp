// C29: Semaphore under every interleaving of small thread groups, and for every initial count.
#include <hzip_core/utils/semaphore.h>
static Semaphore *sem;
static uint64_t count, holders, rounds, finished, releases, initial, extra;
static void worker() {
    for (uint64_t i = 0; i < rounds; i++) {
        sem->acquire();
        holders++;
        HZ_CHECK(holders <= count, "no more holders than permits");
        hzs_sched();
        holders--;
        sem->release();
    }
    finished++;
}
static void taker() {
    sem->acquire();
    extra++;
    HZ_CHECK(extra <= initial + releases, "a permit is handed out only if one was available");
}
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0);
    if (mode == 0) {                       // workers compete for count permits
        uint64_t n = hzs_param("n", 2);
        rounds = hzs_param("rounds", 1);
        count = 1 + hz_pick((uint8_t) hzs_param("counts", 2), "count");
        Semaphore s(count);
        sem = &s;
        std::thread t[8];
        for (uint64_t i = 0; i < n; i++) t[i] = std::thread(worker);
        for (uint64_t i = 0; i < n; i++) t[i].join();
        HZ_CHECK(finished == n && holders == 0, "every thread ran to its end");
        // exactly count permits are left: count acquisitions go through, one more waits for a release
        initial = count; extra = 0;
        for (uint64_t i = 0; i < count; i++) taker();
        std::thread x(taker);
        hzs_sched(); hzs_sched(); hzs_sched();
        HZ_CHECK(extra == count, "an acquisition waits while no permit is available");
        releases++;
        s.release();
        x.join();
        hzs_reach("workers");
    } else if (mode == 1) {                // takers blocked from the start, woken by releases
        uint64_t n = hzs_param("n", 2);
        initial = hz_pick((uint8_t) n, "initial");
        Semaphore s(initial);
        sem = &s;
        std::thread t[8];
        for (uint64_t i = 0; i < n; i++) t[i] = std::thread(taker);
        for (uint64_t i = initial; i < n; i++) { releases++; s.release(); }
        for (uint64_t i = 0; i < n; i++) t[i].join();
        HZ_CHECK(extra == n, "every waiting thread got its permit");
        hzs_reach("takers");
    } else {                               // any 64-bit initial count
        uint64_t c = hz_sym<uint64_t>("count");
        uint64_t k = hzs_param("n", 3);
        hzs_assume(c >= 1 && c <= UINT64_MAX - k);
        Semaphore s(c);
        sem = &s;
        uint64_t avail = c;
        for (uint64_t i = 0; i < k; i++) {
            if (hz_pick(2, "op") == 0) { s.release(); avail++; }
            else if (avail > 0) { s.acquire(); avail--; }          // must not block
            else { initial = 0; releases = 0; extra = 0; std::thread x(taker); hzs_sched(); HZ_CHECK(extra == 0, "an acquisition waits while no permit is available"); releases = 1; s.release(); x.join(); hzs_reach("drained"); }
        }
        hzs_reach("counts");
    }
}

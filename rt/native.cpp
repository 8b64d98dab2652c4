// Native replay of an execution found by the symbolic engine: implements the hzs_* interface by reading recorded inputs and
// choices.  One thread runs at a time (a baton is handed over at scheduling points exactly as the engine did it).
// Exit code: 0 finished, 1 a check failed (violation reproduced), 3 the recorded inputs do not satisfy an assumption,
// 4 bound reached; crashes and sanitizer reports end the process with other codes.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <mutex>
#include <condition_variable>
#include <exception>
#include <pthread.h>
#include <unistd.h>
#include <malloc.h>

extern "C" void hz_main();
static std::deque<std::pair<std::string, uint64_t>> choices;
struct In { std::string name; unsigned bytes; unsigned __int128 v; };
static std::deque<In> inputs;
static std::map<std::string, uint64_t> params;
static std::vector<std::pair<std::string, std::string>> expectObs;
static size_t obsPos = 0;
static bool obsMismatch = false;
static unsigned maxPreempt = 1000000, preempts = 0;
static int fillByte = 0xAA;

[[noreturn]] static void finish(int code) {
    fflush(stdout); fflush(stderr);
    _exit(code);
}
// ------------------------------------------------------------------------------------------------ scheduler
struct Th { bool done = false; const void *waitOn = nullptr; };
static std::mutex &bigLock() { static std::mutex *m = new std::mutex; return *m; }
static std::condition_variable &cv() { static std::condition_variable *c = new std::condition_variable; return *c; }
static std::vector<Th> threads(1);
static unsigned current = 0;
static thread_local unsigned selfId = 0;
static std::vector<unsigned> runnable() {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < threads.size(); i++) if (!threads[i].done && !threads[i].waitOn) r.push_back(i);
    return r;
}
static uint64_t nextChoice(const char *name, uint64_t n) {
    if (choices.empty()) return 0;
    auto c = choices.front();
    choices.pop_front();
    if (c.first != name) { fprintf(stderr, "HZS-DIVERGED: choice %s expected, %s requested\n", c.first.c_str(), name); finish(5); }
    return c.second < n ? c.second : 0;
}
static void switchTo(std::unique_lock<std::mutex> &lk, unsigned t, bool leaving) {
    current = t;
    cv().notify_all();
    if (leaving) return;
    cv().wait(lk, [] { return current == selfId; });
}
static void pickNext(std::unique_lock<std::mutex> &lk, bool leaving) {
    auto r = runnable();
    if (r.empty()) { printf("HZS-VIOLATION: deadlock: no thread can run\n"); finish(1); }
    unsigned k = r.size() == 1 ? 0 : (unsigned) nextChoice("sched", r.size());
    if (r[k] == selfId && !leaving) return;
    switchTo(lk, r[k], leaving);
}
struct Start { void (*fn)(void *); void *arg; unsigned id; };
static void *threadMain(void *p) {
    Start s = *(Start *) p;
    delete (Start *) p;
    selfId = s.id;
    { std::unique_lock<std::mutex> lk(bigLock()); cv().wait(lk, [] { return current == selfId; }); }
    s.fn(s.arg);
    std::unique_lock<std::mutex> lk(bigLock());
    threads[selfId].done = true;
    pickNext(lk, true);
    return nullptr;
}
extern "C" {
unsigned long hzs_thread(void (*fn)(void *), void *arg) {
    std::unique_lock<std::mutex> lk(bigLock());
    unsigned id = (unsigned) threads.size();
    threads.emplace_back();
    pthread_t t;
    pthread_create(&t, nullptr, threadMain, new Start{fn, arg, id});
    pthread_detach(t);
    return id;
}
void hzs_wait(const void *key) {
    std::unique_lock<std::mutex> lk(bigLock());
    threads[selfId].waitOn = key;
    pickNext(lk, false);
}
void hzs_wake(const void *key) {
    std::unique_lock<std::mutex> lk(bigLock());
    for (auto &t: threads) if (t.waitOn == key) t.waitOn = nullptr;
}
void hzs_sched() {
    std::unique_lock<std::mutex> lk(bigLock());
    auto r = runnable();
    if (r.size() <= 1 || preempts >= maxPreempt) return;
    unsigned k = (unsigned) nextChoice("sched", r.size());
    if (r[k] == selfId) return;
    preempts++;
    switchTo(lk, r[k], false);
}
unsigned long hzs_self() { return selfId; }
// ------------------------------------------------------------------------------------------------ harness interface
void hzs_symbolic(void *p, unsigned long n, const char *name) {
    auto one = [&](void *q, unsigned long k) {
        unsigned __int128 v = 0;
        if (!inputs.empty()) { v = inputs.front().v; inputs.pop_front(); }
        memcpy(q, &v, k);
    };
    (void) name;
    if (n <= 8) one(p, n);
    else for (unsigned long i = 0; i < n; i++) one((char *) p + i, 1);
}
void hzs_assume(int c) { if (!c) { fprintf(stderr, "HZS-ASSUME: assumption not satisfied\n"); finish(3); } }
void hzs_check(int c, const char *msg) { if (!c) { printf("HZS-VIOLATION: %s\n", msg); finish(1); } }
void hzs_fail(const char *msg) { printf("HZS-VIOLATION: %s\n", msg); finish(1); }
unsigned long hzs_choose_(unsigned long n, const char *name) {
    if (!n) { finish(0); }
    std::unique_lock<std::mutex> lk(bigLock());
    return nextChoice(name, n);
}
void hzs_observe(const char *name, unsigned long v) {
    char b[40]; snprintf(b, sizeof b, "%lx", v);
    if (obsPos < expectObs.size() && (expectObs[obsPos].first != name || expectObs[obsPos].second != b)) {
        obsMismatch = true;
        printf("HZS-OBSERVE-MISMATCH: %s: engine %s, native %s\n", name, expectObs[obsPos].second.c_str(), b);
    }
    obsPos++;
}
void hzs_reach(const char *) {}
void hzs_note(const char *) {}
static void done() {
    if (obsPos < expectObs.size()) { obsMismatch = true; printf("HZS-OBSERVE-MISMATCH: %zu of %zu observations\n", obsPos, expectObs.size()); }
    printf("HZS-DONE\n");
    finish(obsMismatch ? 6 : 0);
}
void hzs_exit() { done(); }
void hzs_bound(const char *m) { printf("HZS-BOUND: %s\n", m); finish(4); }
unsigned long hzs_param(const char *name, unsigned long def) { auto i = params.find(name); return i == params.end() ? def : i->second; }
unsigned long hzs_concretize(unsigned long x) { return x; }
int hzs_issym(unsigned long) { return 0; }
int hzs_fork(int c) { return c != 0; }
}
// ------------------------------------------------------------------------------------------------ heap
// The program's allocations are tracked so that leaks, double frees and mismatched deallocation are reported the way the engine does.
struct Blk { size_t n; int kind; };
static std::unordered_map<void *, Blk> &blocks() { static auto *m = new std::unordered_map<void *, Blk>; return *m; }
static void *track(size_t n, int kind, bool zero) {
    if (n > (1ull << 34)) { printf("HZS-BOUND: allocation too large\n"); finish(4); }
    void *p = malloc(n ? n : 1);
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if (!n) { extern void hz_poison_zero(void *); hz_poison_zero(p); }
#endif
#endif
    if (n) memset(p, zero ? 0 : fillByte, n);
    std::unique_lock<std::mutex> lk(bigLock());
    blocks()[p] = {n, kind};
    return p;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
void hz_poison_zero(void *p) { __asan_poison_memory_region(p, 1); }
#endif
#endif
static void untrack(void *p, int kind) {
    if (!p) return;
    {
        std::unique_lock<std::mutex> lk(bigLock());
        auto i = blocks().find(p);
        if (i != blocks().end()) {
            if (i->second.kind != kind) { printf("HZS-VIOLATION: mismatched allocation and deallocation functions\n"); finish(1); }
            blocks().erase(i);
        }
    }
    free(p);
}
extern "C" {
unsigned long hzs_live() { std::unique_lock<std::mutex> lk(bigLock()); return blocks().size(); }
unsigned long hzs_objsize(const void *p) { std::unique_lock<std::mutex> lk(bigLock()); auto i = blocks().find((void *) p); return i == blocks().end() ? ~0ul : i->second.n; }
void *hz_malloc(size_t n) { return track(n, 0, false); }
void *hz_calloc(size_t a, size_t b) { return track(a * b, 0, true); }
void *hz_realloc(void *p, size_t n) {
    void *q = track(n, 0, false);
    if (p) { size_t o = hzs_objsize(p); if (o != ~0ul) memcpy(q, p, o < n ? o : n); untrack(p, 0); }
    return q;
}
void hz_free(void *p) { untrack(p, 0); }
void *hz__Znwm(size_t n) { return track(n, 1, false); }
void *hz__Znam(size_t n) { return track(n, 2, false); }
void *hz__ZnwmRKSt9nothrow_t(size_t n, const void *) { return track(n, 1, false); }
void *hz__ZnamRKSt9nothrow_t(size_t n, const void *) { return track(n, 2, false); }
void hz__ZdlPv(void *p) { untrack(p, 1); }
void hz__ZdlPvm(void *p, size_t) { untrack(p, 1); }
void hz__ZdaPv(void *p) { untrack(p, 2); }
void hz__ZdaPvm(void *p, size_t) { untrack(p, 2); }
void hz_exit(int) { printf("HZS-VIOLATION: exit() called\n"); finish(1); }
const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:exitcode=77:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0"; }
const char *__ubsan_default_options() { return "print_stacktrace=1"; }
}
int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: %s file\n", argv[0]); return 2; }
    if (const char *f = getenv("HZS_FILL")) fillByte = atoi(f);
    FILE *fp = fopen(argv[1], "r");
    if (!fp) { fprintf(stderr, "cannot open %s\n", argv[1]); return 2; }
    char line[4096];
    while (fgets(line, sizeof line, fp)) {
        std::vector<std::string> w;
        for (char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t);
        if (w.empty()) continue;
        if (w[0] == "param" && w.size() >= 3) params[w[1]] = strtoull(w[2].c_str(), nullptr, 0);
        else if (w[0] == "option" && w.size() >= 3 && w[1] == "max-preempt") maxPreempt = (unsigned) strtoul(w[2].c_str(), nullptr, 0);
        else if (w[0] == "choice" && w.size() >= 3) choices.push_back({w[1], strtoull(w[2].c_str(), nullptr, 0)});
        else if (w[0] == "input" && w.size() >= 4) {
            unsigned __int128 v = 0;
            for (char c: w[3]) v = v * 16 + (unsigned) (c <= '9' ? c - '0' : c - 'a' + 10);
            inputs.push_back({w[1], (unsigned) atoi(w[2].c_str()), v});
        } else if (w[0] == "observe" && w.size() >= 3) expectObs.push_back({w[1], w[2]});
    }
    fclose(fp);
    std::set_terminate([] {
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); }
            catch (std::exception &x) { printf("HZS-VIOLATION: uncaught exception: %s\n", x.what()); }
            catch (...) { printf("HZS-VIOLATION: uncaught exception\n"); }
        } else printf("HZS-VIOLATION: std::terminate() called\n");
        finish(1);
    });
    hz_main();
    done();
}

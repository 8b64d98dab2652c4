// Interface between harnesses and the symbolic engine (hzsym) / the native replay runtime (rt/native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void hzs_symbolic(void *p, unsigned long n, const char *name);   // n bytes become symbolic
void hzs_assume(int c);
void hzs_check(int c, const char *msg);
void hzs_fail(const char *msg);
unsigned long hzs_choose_(unsigned long n, const char *name);    // forks: 0..n-1, concrete
void hzs_observe(const char *name, unsigned long v);
void hzs_reach(const char *label);
void hzs_note(const char *msg);
void hzs_exit();
void hzs_bound(const char *msg);
unsigned long hzs_param(const char *name, unsigned long def);
unsigned long hzs_concretize(unsigned long x);
unsigned long hzs_objsize(const void *p);                        // size of the heap object starting at p; ~0 if it is not one
int hzs_issym(unsigned long x);
int hzs_fork(int c);                                             // branch on c, result concrete
unsigned long hzs_live();                                        // live heap objects
unsigned long hzs_thread(void (*fn)(void *), void *arg);
void hzs_wait(const void *key);                                  // block until hzs_wake(key)
void hzs_wake(const void *key);
void hzs_sched();                                                // scheduling point
unsigned long hzs_self();
void hz_main();
}
template<typename T> static inline T hz_sym(const char *name) { T v; hzs_symbolic(&v, sizeof v, name); return v; }
template<typename T> static inline T hz_sym_below(const char *name, T n) { T v; hzs_symbolic(&v, sizeof v, name); hzs_assume(v < n); return v; }
static inline uint64_t hz_choose(uint64_t n, const char *name) { return hzs_choose_(n, name); }
// a symbolic number below n, made concrete by forking
static inline uint64_t hz_pick(uint8_t n, const char *name) { uint8_t v; hzs_symbolic(&v, 1, name); hzs_assume(v < n); return hzs_concretize(v); }
#define HZ_CHECK(c, msg) hzs_check((c) ? 1 : 0, msg)
// run expr; r = 0 no exception, 1 std::exception, 2 anything else
#define HZ_TRY(r, stmt) do { r = 0; try { stmt; } catch (const std::exception &) { r = 1; } catch (...) { r = 2; } } while (0)

// Model of the rainman memory library (the submodule is not part of this checkout), reduced to the interface the sources use:
// raw heap blocks without bounds checks, shared pointers with reference counts, value-initialised elements.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <utility>
#include <hzs.h>
namespace rainman {
    namespace hz_detail {
        template<typename T> T *raw(uint64_t n) { return (T *) malloc(n * sizeof(T)); }
        template<typename T> void destroy(T *p, uint64_t n) {
            if constexpr (!std::is_trivially_destructible_v<T>) for (uint64_t i = 0; i < n; i++) p[i].~T();
        }
    }
    class Allocator {
    public:
        Allocator() {}
        Allocator(const Allocator &) {}
        Allocator &operator=(const Allocator &) { return *this; }
        template<typename T> T *rmalloc(uint64_t n = 1) { return hz_detail::raw<T>(n); }
        template<typename T, typename... A> T *rnew(uint64_t n, A &&...args) {
            T *p = hz_detail::raw<T>(n);
            for (uint64_t i = 0; i < n; i++) new((void *) (p + i)) T(args...);
            return p;
        }
        template<typename T> void rfree(T *p) {
            if (!p) return;
            if constexpr (!std::is_void_v<T>) if constexpr (!std::is_trivially_destructible_v<T>) hz_detail::destroy(p, hzs_objsize(p) / sizeof(T));
            free((void *) p);
        }
        template<typename T> T *r_malloc(uint64_t n = 1) { return rmalloc<T>(n); }
        template<typename T> void r_free(T *p) { rfree(p); }
        uint64_t alloc_size() { return 0; }
        uint64_t peak_size() { return 0; }
    };

    template<typename T> class ptr {
        T *p = nullptr;
        uint64_t n = 0;
        uint64_t *rc = nullptr;
        void drop() {
            if (rc && --*rc == 0) {
                delete rc;
                if (p && hzs_objsize(p) != ~0ul) { hz_detail::destroy(p, n); free((void *) p); }
            }
            rc = nullptr; p = nullptr; n = 0;
        }
        struct init {};
        template<typename... A> void make(uint64_t k, A &&...args) {
            n = k;
            if constexpr (sizeof...(A) == 0 && std::is_trivially_default_constructible_v<T>) p = (T *) calloc(k, sizeof(T));
            else { p = hz_detail::raw<T>(k); for (uint64_t i = 0; i < k; i++) new((void *) (p + i)) T(args...); }
            rc = new uint64_t(1);
        }
    public:
        typedef T type;
        ptr() { make(1); }
        explicit ptr(int k) { make((uint64_t) k); }
        ptr(uint64_t k) { make(k); }
        template<typename I, typename... A, typename = std::enable_if_t<std::is_integral_v<std::decay_t<I>> && (sizeof...(A) > 0)>>
        ptr(I k, A &&...args) { make((uint64_t) k, std::forward<A>(args)...); }
        ptr(T *raw, uint64_t k) : p(raw), n(k), rc(new uint64_t(1)) {}
        explicit ptr(T *raw) : p(raw), n(1), rc(new uint64_t(1)) {}
        ptr(std::nullptr_t) {}
        ptr(const ptr &o) : p(o.p), n(o.n), rc(o.rc) { if (rc) ++*rc; }
        ptr &operator=(const ptr &o) {
            if (o.rc) ++*o.rc;
            T *np = o.p; uint64_t nn = o.n, *nr = o.rc;
            drop();
            p = np; n = nn; rc = nr;
            return *this;
        }
        ~ptr() { drop(); }
        T *pointer() const { return p; }
        uint64_t size() const { return n; }
        uint64_t refs() const { return rc ? *rc : 0; }
        T &operator[](uint64_t i) const { return p[i]; }
        T &operator*() const { return *p; }
        T *operator->() const { return p; }
        T *begin() const { return p; }
        T *end() const { return p + n; }
        bool operator==(const ptr &o) const { return p == o.p; }
        bool operator!=(const ptr &o) const { return p != o.p; }
        bool operator==(std::nullptr_t) const { return p == nullptr; }
        bool operator!=(std::nullptr_t) const { return p != nullptr; }
    };
    template<typename T> class ptr2d {
        ptr<ptr<T>> rows;
    public:
        ptr2d() : rows(0) {}
        ptr2d(uint64_t a, uint64_t b) : rows(a) { for (uint64_t i = 0; i < a; i++) rows[i] = ptr<T>(b); }
        ptr<T> &operator[](uint64_t i) const { return rows[i]; }
        uint64_t size() const { return rows.size(); }
        ptr<ptr<T>> inner() const { return rows; }
    };
    template<typename T> class ptr3d {
        ptr<ptr2d<T>> rows;
    public:
        ptr3d() : rows(0) {}
        ptr3d(uint64_t a, uint64_t b, uint64_t c) : rows(a) { for (uint64_t i = 0; i < a; i++) rows[i] = ptr2d<T>(b, c); }
        ptr2d<T> &operator[](uint64_t i) const { return rows[i]; }
        uint64_t size() const { return rows.size(); }
    };
    template<typename T> ptr2d<T> make_ptr2d(uint64_t a, uint64_t b) { return ptr2d<T>(a, b); }
    template<typename T> ptr3d<T> make_ptr3d(uint64_t a, uint64_t b, uint64_t c) { return ptr3d<T>(a, b, c); }

    template<typename T> class option {
        bool some = false;
        T v{};
    public:
        option() {}
        option(const T &x) : some(true), v(x) {}
        option(const option &o) : some(o.some) { if (some) v = o.v; }
        option &operator=(const option &o) { some = o.some; if (some) v = o.v; return *this; }
        option &operator=(const T &x) { some = true; v = x; return *this; }
        bool is_some() const { return some; }
        bool is_none() const { return !some; }
        T &inner() { if (!some) hzs_fail("rainman::option::inner() called on an empty option"); return v; }
        const T &inner() const { if (!some) hzs_fail("rainman::option::inner() called on an empty option"); return v; }
    };
}
#include "cache.h"

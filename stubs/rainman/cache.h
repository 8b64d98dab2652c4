#pragma once
#include "rainman.h"
#include <string>
#include <vector>
#include <cstring>
namespace rainman {
    // disk-backed cache and array: modelled as a named heap block
    class cache {
    public:
        std::string hz_file; uint64_t hz_page = 0;
        cache() {}
        cache(const std::string &file, uint64_t page_size) : hz_file(file), hz_page(page_size) {}
    };
    template<typename T> class virtual_array {
        ptr<T> d;
    public:
        cache *hz_cache = nullptr;
        virtual_array() : d(0) {}
        virtual_array(cache &c, uint64_t n) : d(n), hz_cache(&c) {}
        T operator[](uint64_t i) const { return d[i]; }
        T get(uint64_t i) const { return d[i]; }
        void set(const T &v, uint64_t i) { d[i] = v; }
        uint64_t size() const { return d.size(); }
    };
}

// Model of the bitio bit stream library (the submodule is not part of this checkout): most significant bit first, over a memory
// buffer (unchecked, like the caller's own accesses) or over a file of the model file system.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <hz_os.h>
#include <hzs.h>
namespace bitio {
    class stream {
        uint8_t *buf = nullptr;
        uint64_t len = 0;
        hz_file *f = nullptr;
        uint64_t pos = 0;                          // in bits
        uint8_t *base(uint64_t bits, bool write) {
            if (!f) return buf;
            uint64_t need = (pos + bits + 7) >> 3;
            if (need > f->node->size) {
                if (!write) hzs_fail("bit stream read past the end of the file");
                hz_fs_resize(f->node, need);
            }
            return f->node->data;
        }
    public:
        stream() {}
        stream(uint8_t *b, uint64_t n) : buf(b), len(n) {}
        explicit stream(FILE *fp) : f((hz_file *) fp) {}
        stream(const stream &o) = default;
        uint64_t hz_pos() const { return pos; }
        uint64_t read(uint64_t n) {
            if (n > 64) hzs_fail("bit stream read of more than 64 bits");
            if (!n) return 0;
            const uint8_t *d = base(n, false) + (pos >> 3);
            unsigned s = pos & 7;
            pos += n;
            if (n == 64 && !s) { uint64_t v; memcpy(&v, d, 8); return __builtin_bswap64(v); }
            unsigned nb = (unsigned) ((s + n + 7) >> 3);
            uint64_t r = d[0] & (0xffu >> s);
            if (nb <= 8) {
                for (unsigned i = 1; i < nb; i++) r = (r << 8) | d[i];
                return r >> (8 * nb - s - n);
            }
            for (unsigned i = 1; i < 8; i++) r = (r << 8) | d[i];
            unsigned rest = (unsigned) (s + n - 64);
            return (r << rest) | (d[8] >> (8 - rest));
        }
        void write(uint64_t obj, uint64_t n) {
            if (n > 64) hzs_fail("bit stream write of more than 64 bits");
            if (!n) return;
            if (n < 64) obj &= (1ull << n) - 1;
            uint8_t *d = base(n, true) + (pos >> 3);
            unsigned s = pos & 7;
            pos += n;
            if (n == 64 && !s) { obj = __builtin_bswap64(obj); memcpy(d, &obj, 8); return; }
            while (n) {
                unsigned k = 8 - s < n ? 8 - s : (unsigned) n;      // bits that go into this byte
                unsigned sh = 8 - s - k;
                uint8_t v = (uint8_t) ((obj >> (n - k)) << sh);
                uint8_t m = (uint8_t) (((1u << k) - 1) << sh);
                if (m == 0xff) *d = v;
                else *d = (uint8_t) ((*d & ~m) | (v & m));
                d++; n -= k; s = 0;
            }
        }
        void seek(int64_t rel) { pos += (uint64_t) rel; }
        void seek_to(uint64_t p) { pos = p; if (f) hzs_sched(); }       // other threads may move it before the access that follows
        void flush() {}
        void close() {}
        uint64_t size() const { return f ? f->node->size : len; }
    };
}

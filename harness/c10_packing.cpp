// C10: byte, word and bit packing.
#include <hzip_core/utils/utils.h>
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0);
    uint64_t base = hzs_live();
    if (mode == 0) {                    // 64-bit value <-> 8 bytes, little endian
        uint64_t x = hz_sym<uint64_t>("x");
        rainman::ptr<uint8_t> b(8);
        for (int i = 0; i < 8; i++) b[i] = hz_sym<uint8_t>("earlier");         // a buffer that was used before
        hz_u64_to_u8buf(x, b);
        for (int i = 0; i < 8; i++) HZ_CHECK(b[i] == (uint8_t) (x >> (8 * i)), "64-bit values are stored little-endian");
        HZ_CHECK(hz_u8buf_to_u64(b) == x, "8 bytes convert back to the 64-bit value");
        for (int i = 0; i < 8; i++) b[i] = hz_sym<uint8_t>("b");
        uint64_t y = hz_u8buf_to_u64(b);
        for (int i = 0; i < 8; i++) HZ_CHECK((uint8_t) (y >> (8 * i)) == b[i], "bytes are read little-endian");
        hzs_reach("u64");
    } else if (mode == 1) {             // 32-bit words <-> bytes, big endian
        uint64_t n = hz_pick((uint8_t) (hzs_param("n", 5) + 1), "n");
        rainman::ptr<uint32_t> a(n);
        for (uint64_t i = 0; i < n; i++) a[i] = hz_sym<uint32_t>("w");
        auto b = hz_u32_to_u8ptr(a, n);
        HZ_CHECK(b.size() == 4 * n, "every word becomes four bytes");
        for (uint64_t i = 0; i < 4 * n; i++) HZ_CHECK(b[i] == (uint8_t) (a[i / 4] >> (24 - 8 * (i % 4))), "words are stored big-endian");
        auto c = hz_u8_to_u32ptr(b, 4 * n);
        HZ_CHECK(c.size() == n, "four bytes become one word");
        for (uint64_t i = 0; i < n; i++) HZ_CHECK(c[i] == a[i], "bytes convert back to the words");
        // and the other way round from arbitrary bytes
        for (uint64_t i = 0; i < 4 * n; i++) b[i] = hz_sym<uint8_t>("b");
        auto d = hz_u8_to_u32ptr(b, 4 * n);
        auto e = hz_u32_to_u8ptr(d, n);
        for (uint64_t i = 0; i < 4 * n; i++) HZ_CHECK(e[i] == b[i], "words convert back to the bytes");
        if (n) hzs_reach("u32");
    } else {                            // bit packing
        static const uint8_t some[] = {0, 1, 7, 8, 9, 31, 33, 63, 64};
        uint64_t k = hz_pick((uint8_t) (hzs_param("k", 3) + 1), "items");
        std::vector<bin_t> v;
        uint8_t exp[256]; uint64_t nb = 0;
        for (uint64_t i = 0; i < k; i++) {
            bin_t b;
            b.obj = hz_sym<uint64_t>("obj");
            b.n = mode == 2 ? (unsigned) hz_pick(65, "bits") : some[hz_pick(9, "bits")];
            v.push_back(b);
            for (unsigned j = 0; j < b.n; j++) exp[nb++] = (b.obj >> (b.n - 1 - j)) & 1;
        }
        auto raw = hz_vecbin_to_raw(v);
        HZ_CHECK(raw.size() == (nb + 7) / 8, "the packed size is the bit count rounded up to bytes");
        while (nb & 7) exp[nb++] = 0;
        for (uint64_t i = 0; i < raw.size(); i++) {
            uint8_t e = 0;
            for (int j = 0; j < 8; j++) e = (uint8_t) (e << 1 | exp[i * 8 + j]);
            HZ_CHECK(raw[i] == e, "packing concatenates the low bits of the items, most significant first, zero padded");
        }
        if (k > 1) hzs_reach("bits");
    }
    (void) base;
}

// C09: unary and Elias-gamma codes: decode(encode(n) + any suffix) = n, exactly the code word is consumed.
#include <hzip_core/utils/utils.h>
static uint8_t bits[1024];
static uint64_t nbits, pos;
static uint64_t readBits(uint64_t k) {
    uint64_t r = 0;
    for (uint64_t i = 0; i < k; i++) { if (pos >= 1024) { hzs_fail("the decoder reads past the end of the code"); } r = (r << 1) | bits[pos++]; }
    return r;
}
static void suffix() { for (uint64_t i = 0; i < 8 && nbits < 1024; i++) { uint8_t b = hz_sym<uint8_t>("suffix"); hzs_assume(b < 2); bits[nbits + i] = b; } }
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0);
    if (mode == 0) {                    // Elias gamma, all of 0 .. 2^31-1
        uint64_t n = hz_sym<uint64_t>("n");
        hzs_assume(n < (1ull << 31));
        bin_t b = hz_elias_gamma(n);
        uint64_t len = hzs_concretize(b.n);
        HZ_CHECK(len >= 1 && len <= 64, "the code word fits the 64 bits it is returned in");
        for (uint64_t i = 0; i < len; i++) bits[i] = (b.obj >> (len - 1 - i)) & 1;
        HZ_CHECK(len == 64 || (b.obj >> len) == 0, "the code word has no bits beyond its reported length");
        nbits = len;
        suffix();
        bin_t d = hz_elias_gamma_inv([](uint64_t k) { return readBits(k); });
        HZ_CHECK(d.obj == n, "Elias-gamma decoding returns the encoded value");
        HZ_CHECK(pos == len, "Elias-gamma decoding consumes exactly the reported bit length");
        hzs_reach("gamma");
    } else if (mode == 1) {             // unary
        uint64_t n = hz_sym<uint64_t>("n");
        hzs_assume(n >= 1 && n <= hzs_param("max", 60));
        hz_unary_write(n, [](uint64_t obj, uint8_t k) { for (unsigned i = 0; i < k; i++) { if (nbits >= 1000) hzs_fail("the unary code word is too long"); bits[nbits++] = (obj >> (k - 1 - i)) & 1; } });
        HZ_CHECK(nbits == n, "the unary code word of n has n bits");
        suffix();
        uint64_t d = hz_unary_read([](uint8_t k) { return readBits(k); });
        HZ_CHECK(d == n, "unary decoding returns the encoded value");
        HZ_CHECK(pos == nbits, "unary decoding consumes exactly the code word");
        hzs_reach("unary");
    } else {                            // binary logarithm used by the codes
        uint64_t n = hz_sym<uint64_t>("n");
        hzs_assume(n > 0);
        uint64_t l = hzs_concretize(hz_u64log2(n));
        HZ_CHECK(l < 64 && (n >> l) == 1, "hz_u64log2 is the position of the highest set bit");
        hzs_reach("log2");
    }
}

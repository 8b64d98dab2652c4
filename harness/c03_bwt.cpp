// C03: Burrows-Wheeler transform against its definition (sorted suffixes of the sentinel-terminated text) and its inverse,
// for every text of length n over an alphabet of K symbols.
#include <hzip_core/preprocessor/burrows_wheeler.h>
#ifndef ITYPE
#define ITYPE int16_t
#define MTYPE int32_t
#endif
typedef hztrans::BurrowsWheelerTransformer<ITYPE, MTYPE> BW;
extern "C" void hz_main() {
    uint64_t maxn = hzs_param("n", 5), maxk = hzs_param("k", 3), minn = hzs_param("minn", 0);
    uint64_t n = minn + hz_pick((uint8_t) (maxn - minn + 1), "length");
    uint64_t K = maxk, high = hzs_param("high", 0);
    if (hzs_param("anyk", 0)) K = 1 + hz_pick((uint8_t) maxk, "alphabet");
    uint64_t base = hzs_live();
    {
        rainman::ptr<ITYPE> data(n);
        std::vector<ITYPE> o(n), s(n + 1);      // s: text with sentinel 0 in front (the transform's own convention)
        for (uint64_t i = 0; i < n; i++) {
            uint8_t v = hz_sym<uint8_t>("symbol");
            hzs_assume(v < K);
            if (high) hzs_assume(v == 0 || v >= K - high);
            data[i] = (ITYPE) v; o[i] = (ITYPE) v;
        }
        uint64_t index;
        { BW t(data, K); index = t.transform(); }
        hzs_observe("index", index);
        HZ_CHECK(data.size() == n, "the length stays the same");
        HZ_CHECK(index <= n, "the index denotes a row");
        // text with terminator: o[0..n-1] $ ; row r of the sorted rotations.  rank(i) = number of rotations smaller than the one starting at i
        // the transform works on "$ o[0] .. o[n-1]" read cyclically, which is the same cyclic word.
        auto sym = [&](uint64_t i) -> int64_t { i %= n + 1; return i == n ? -1 : (int64_t) o[i]; };
        for (uint64_t i = 0; i <= n; i++) {
            uint64_t rank = 0;
            for (uint64_t j = 0; j <= n; j++) if (j != i) {
                // rotation j < rotation i, evaluated without branching
                unsigned lt = 0, eq = 1;
                for (uint64_t q = 0; q <= n; q++) {
                    int64_t a = sym(j + q), b = sym(i + q);
                    lt |= eq & (unsigned) (a < b);
                    eq &= (unsigned) (a == b);
                }
                rank += lt;
            }
            // last column at that row is the symbol before i
            if (i == 0) HZ_CHECK(rank == index, "the returned index is the row whose last symbol is the terminator");
            else {
                for (uint64_t r = 0; r <= n; r++) {
                    unsigned hit = (rank == r);
                    // row r of the column without the terminator row
                    if (r == index) { HZ_CHECK(!hit, "only one row ends with the terminator"); continue; }
                    uint64_t pos = r < index ? r : r - 1;
                    HZ_CHECK(!hit | (data[pos] == o[i - 1]), "the output is the last column of the sorted rotations");
                }
            }
        }
        { BW u(data, K); u.invert(index); }
        for (uint64_t i = 0; i < n; i++) HZ_CHECK(data[i] == o[i], "invert() restores the text");
        if (n > 2) hzs_reach("roundtrip");
        if (n == 0) hzs_reach("empty");
    }
    HZ_CHECK(hzs_live() == base, "no memory is leaked");
}

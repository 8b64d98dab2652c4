// C04: move-to-front coding of every sequence of length n over K symbols.
#include <hzip_core/preprocessor/move_to_front.h>
#ifndef ITYPE
#define ITYPE int32_t
#endif
extern "C" void hz_main() {
    uint64_t n = hz_pick((uint8_t) (hzs_param("n", 4) + 1), "length"), base_k = hzs_param("kmin", 1), K = base_k + hz_pick((uint8_t) (hzs_param("k", 4) - base_k + 1), "alphabet");
    uint64_t base = hzs_live();
    {
        rainman::ptr<ITYPE> data(n);
        std::vector<ITYPE> o(n), ranks(n);
        for (uint64_t i = 0; i < n; i++) {
            uint16_t v = hz_sym<uint16_t>("symbol");
            hzs_assume(v < K && v >= hzs_param("smin", 0));
            data[i] = (ITYPE) v; o[i] = (ITYPE) v;
        }
        hztrans::MoveToFrontTransformer<ITYPE> t(data, K);
        t.transform();
        for (uint64_t i = 0; i < n; i++) {
            // position of o[i] in the recency list = number of different symbols that are more recent; never used symbols stay in order:
            // symbol c precedes o[i] iff it was used after the last use of o[i], or (o[i] unused) it was used at all or c < o[i].
            uint64_t rank = 0;
            for (uint64_t c = 0; c < K; c++) {
                int64_t lastc = -1, lasts = -1;
                for (uint64_t j = 0; j < i; j++) { lastc = (uint64_t) o[j] == c ? (int64_t) j : lastc; lasts = o[j] == o[i] ? (int64_t) j : lasts; }
                unsigned before = (unsigned) ((uint64_t) o[i] != c) & ((unsigned) (lastc > lasts) | ((unsigned) (lastc == -1) & (unsigned) (lasts == -1) & (unsigned) (c < (uint64_t) o[i])));
                rank += before;
            }
            HZ_CHECK((uint64_t) data[i] == rank, "each symbol is replaced by its position in the recency list");
            HZ_CHECK((uint64_t) data[i] < K, "ranks are below the alphabet size");
            ranks[i] = data[i];
            hzs_observe("rank", (uint64_t) data[i]);
        }
        if (hz_pick(2, "same-object")) t.invert();
        else { hztrans::MoveToFrontTransformer<ITYPE> u(data, K); u.invert(); }
        for (uint64_t i = 0; i < n; i++) HZ_CHECK(data[i] == o[i], "invert() restores the sequence");
        if (hzs_param("again", 1)) {          // an object that has been used gives the same result again
            t.transform();
            for (uint64_t i = 0; i < n; i++) HZ_CHECK(data[i] == ranks[i], "a second transform() of the same sequence gives the same ranks");
            t.invert();
            for (uint64_t i = 0; i < n; i++) HZ_CHECK(data[i] == o[i], "a second invert() restores the sequence");
        }
        if (n > 2 || hzs_param("n", 4) < 3) hzs_reach("roundtrip");
    }
    HZ_CHECK(hzs_live() == base, "no memory is leaked");
}

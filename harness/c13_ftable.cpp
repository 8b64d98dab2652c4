// C13: normalisation of symbol counts to a coding table.
#include <hzip_core/kernel/hzrans/hzrans64.h>
extern "C" void hz_main() {
    uint64_t n = hzs_param("n", 3), scale = hzs_param("scale", 12), bits = hzs_param("bits", 32);
    uint64_t base = hzs_live();
    uint64_t *freq = (uint64_t *) malloc(n * sizeof(uint64_t)), *keep = (uint64_t *) malloc(n * sizeof(uint64_t));
    for (uint64_t i = 0; i < n; i++) {
        freq[i] = hz_sym<uint64_t>("freq");
        hzs_assume(freq[i] < 1ull << bits);
        keep[i] = freq[i];
    }
    hzrans64_t a, b;
    hzrans64_codec_init(&a, n, scale);
    hzrans64_codec_init(&b, n, scale);
    for (uint64_t i = 0; i < n; i++) { a.ftable[i] = 0; b.ftable[i] = ~i; }
    hzrans64_create_ftable_nf(&a, freq);
    hzrans64_create_ftable_nf(&b, freq);
    uint64_t sum = 0;
    for (uint64_t i = 0; i < n; i++) {
        HZ_CHECK(a.ftable[i] >= 1, "every symbol keeps a frequency of at least one");
        HZ_CHECK(a.ftable[i] <= 1ull << scale, "no frequency exceeds the total");
        HZ_CHECK(a.ftable[i] == b.ftable[i], "normalising twice gives the same table");
        HZ_CHECK(freq[i] == keep[i], "the counts are not modified");
        sum += a.ftable[i];
    }
    if (hzs_param("mono", 0))
        for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++)
            HZ_CHECK(keep[i] < keep[j] || a.ftable[i] + 1 >= a.ftable[j], "a symbol that occurred at least as often gets no smaller frequency, rounding aside");
    HZ_CHECK(sum == 1ull << scale, "the frequencies sum to the total");
    HZ_CHECK(a.size == n && a.scale == scale, "size and scale are unchanged");
    hzs_reach("table");
    hzrans64_destroy(&a); hzrans64_destroy(&b);
    free(freq); free(keep);
    HZ_CHECK(hzs_live() == base, "no memory is leaked");
}

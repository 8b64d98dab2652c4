// C01: DeltaTransformer over every buffer content of length n.
#include <hzip_core/preprocessor/delta.h>
extern "C" void hz_main() {
    uint64_t maxn = hzs_param("n", 8);
    uint64_t n = hz_pick((uint8_t) (maxn + 1), "length");
    int *d = (int *) malloc(n * sizeof(int));
    int *o = (int *) malloc(n * sizeof(int));
    for (uint64_t i = 0; i < n; i++) { d[i] = hz_sym<int>("d"); o[i] = d[i]; }
    {
        hztrans::DeltaTransformer t(d, n);
        t.transform();
        for (uint64_t i = 0; i < n; i++) HZ_CHECK((unsigned) d[i] == (i ? (unsigned) o[i] - (unsigned) o[i - 1] : (unsigned) o[i]), "transform() stores the difference to the preceding element");
        if (n) hzs_observe("last", (unsigned) d[n - 1]);
        if (hz_pick(2, "fresh-object")) {
            hztrans::DeltaTransformer u(d, n);
            u.invert();
        } else t.invert();
        for (uint64_t i = 0; i < n; i++) HZ_CHECK(d[i] == o[i], "invert() restores the original values");
        if (n > 2) hzs_reach("roundtrip");
        // the other order is an identity as well
        t.invert();
        t.transform();
        for (uint64_t i = 0; i < n; i++) HZ_CHECK(d[i] == o[i], "transform() undoes invert()");
    }
    free(d); free(o);
    HZ_CHECK(hzs_live() == 0, "no memory is leaked");
}

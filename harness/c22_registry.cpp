// C22: the codec registry, for every algorithm number.
#include <hzip_codec/codec_provider.h>
#include <hzip_codec/compressors.h>
#include <cstring>
using namespace hzcodec;
static int kind(AbstractCodec *c) { // by dynamic type: the vtable pointer of an object of each class
    Uncompressed u; Victini v; Sharingan s;
    AbstractCodec *k[3] = {&u, &v, &s};
    for (int i = 0; i < 3; i++) if (*(void **) c == *(void **) k[i]) return i;
    return 9;
}
extern "C" void hz_main() {
    static const char *name[] = {"UNCOMPRESSED", "VICTINI", "SHARINGAN"};
    uint64_t k = hzs_param("k", 2);
    AbstractCodec *first[3] = {nullptr, nullptr, nullptr};
    for (uint64_t i = 0; i < k; i++) {
        uint32_t a = hz_sym<uint32_t>("algorithm");
        auto alg = (algorithms::ALGORITHM) a;
        int r; const char *s = nullptr; AbstractCodec *c = nullptr; uint64_t bs = 0;
        uint64_t order = hz_pick(3, "order");
        for (uint64_t o = 0; o < 3; o++) {
            switch ((o + order) % 3) {
                case 0: HZ_TRY(r, s = CodecProvider::algorithm_to_str(alg)); HZ_CHECK((r == 1) == (a > 2) && r < 2, "the name lookup fails with an error exactly for unknown algorithms"); break;
                case 1: HZ_TRY(r, c = CodecProvider::algorithm_to_codec(alg)); HZ_CHECK((r == 1) == (a > 2) && r < 2, "the codec lookup fails with an error exactly for unknown algorithms"); break;
                default: HZ_TRY(r, bs = CodecProvider::algorithm_to_bsize(alg)); HZ_CHECK(r == 0, "the block size lookup never fails"); break;
            }
        }
        if (a > 2) {
            HZ_CHECK(bs == ~0ull, "unknown algorithms have no block size limit");
            hzs_reach("unknown");
        } else {
            HZ_CHECK(s && !strcmp(s, name[a]), "every algorithm has its own name");
            HZ_CHECK(c && kind(c) == (int) a, "every algorithm resolves to its own codec");
            if (first[a]) HZ_CHECK(first[a] == c, "an algorithm always resolves to the same codec");
            first[a] = c;
            HZ_CHECK(bs == (a == 0 ? 0x800000ull : a == 1 ? 0x400000ull : ~0ull), "every algorithm has its own block size");
            hzs_reach("known");
        }
    }
}

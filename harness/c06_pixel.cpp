// C06: pixel colour transformer for several sample types.
#include <hzip_core/preprocessor/color.h>
using namespace hztrans;
template<typename T> static void type() {
    ColorTransformPixel<T> p{hz_sym<T>("x"), hz_sym<T>("y"), hz_sym<T>("z")};
    bool bySpace = hz_pick(2, "constructor");
    RGBColorTransformer<T> f = bySpace ? RGBColorTransformer<T>(YCOCG, false) : RGBColorTransformer<T>(RGB_TO_YCOCG);
    RGBColorTransformer<T> g = bySpace ? RGBColorTransformer<T>(YCOCG, true) : RGBColorTransformer<T>(YCOCG_TO_RGB);
    int r; ColorTransformPixel<T> q{}, s{};
    HZ_TRY(r, q = f.transform(p); s = g.transform(q));
    HZ_CHECK(r == 0, "the implemented conversions succeed");
    HZ_CHECK((s.x == p.x) & (s.y == p.y) & (s.z == p.z), "converting back restores the pixel");
    for (int kind = 0; kind < 4; kind++) {
        RGBColorTransformer<T> u = kind == 0 ? RGBColorTransformer<T>(RGB_TO_YCBCR) : kind == 1 ? RGBColorTransformer<T>(YCBCR_TO_RGB) : RGBColorTransformer<T>(YCBCR, kind == 3);
        HZ_TRY(r, u.transform(p));
        HZ_CHECK(r == 1, "a conversion that is not implemented is an error");
    }
    hzs_reach("pixel");
}
extern "C" void hz_main() {
    switch (hz_pick(6, "type")) {
        case 0: type<uint8_t>(); break;
        case 1: type<uint16_t>(); break;
        case 2: type<uint32_t>(); break;
        case 3: type<uint64_t>(); break;
        case 4: type<int16_t>(); break;
        default: type<int8_t>();
    }
}

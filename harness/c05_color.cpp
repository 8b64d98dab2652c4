// C05: planar 16-bit YCoCg transform: lossless for every bit depth, pixel by pixel, in place and out of place.
#include <hzip_core/preprocessor/color.h>
using hztrans::LinearU16XColorTransformer;
typedef rainman::ptr<uint16_t> Buf;
static uint64_t L;
static Buf copy(const Buf &b) { Buf c(b.size()); for (uint64_t i = 0; i < b.size(); i++) c[i] = b[i]; return c; }
static int equal(const Buf &a, const Buf &b) { int s = 1; for (uint64_t i = 0; i < L; i++) s &= a[i] == b[i]; return s; }
extern "C" void hz_main() {
    uint8_t depth = hz_sym<uint8_t>("depth");
    hzs_assume(depth >= 1 && depth <= 16);
    uint64_t w = hz_pick((uint8_t) (hzs_param("w", 3) + 1), "width"), h = hz_pick((uint8_t) (hzs_param("h", 2) + 1), "height"), lz = w * h;
    L = 3 * lz;
    uint64_t max = (1ull << depth) - 1;
    Buf img(L);
    for (uint64_t i = 0; i < L; i++) { img[i] = hz_sym<uint16_t>("sample"); hzs_assume(img[i] <= max); }
    Buf orig = copy(img);
    bool cpu = hzs_param("cpu", 0) != 0;
    LinearU16XColorTransformer t(w, h, depth);
    Buf a = cpu ? t.cpu_rgb_to_ycocg(img, false) : t.rgb_to_ycocg(img, false);
    HZ_CHECK(a.size() == L && (L == 0 || a.pointer() != img.pointer()), "an out-of-place conversion has its own buffer");
    HZ_CHECK(equal(img, orig), "an out-of-place conversion leaves its input unchanged");
    for (uint64_t i = 0; i < L; i++) HZ_CHECK(a[i] <= max, "converted samples fit the bit depth");
    Buf b = copy(orig);
    Buf c = cpu ? t.cpu_rgb_to_ycocg(b, true) : t.rgb_to_ycocg(b, true);
    HZ_CHECK(c.pointer() == b.pointer(), "an in-place conversion returns its buffer");
    HZ_CHECK(equal(a, b), "in place and out of place agree");
    // every pixel on its own
    for (uint64_t p = 0; p < lz; p++) {
        LinearU16XColorTransformer one(1, 1, depth);
        Buf x(3);
        for (int k = 0; k < 3; k++) x[k] = orig[p + k * lz];
        Buf y = one.rgb_to_ycocg(x, false);
        HZ_CHECK((y[0] == a[p]) & (y[1] == a[p + lz]) & (y[2] == a[p + 2 * lz]), "every pixel is converted independently");
        Buf z = one.ycocg_to_rgb(y, false);
        HZ_CHECK((z[0] == x[0]) & (z[1] == x[1]) & (z[2] == x[2]), "a pixel converts back");
    }
    Buf a2 = copy(a);
    Buf back = cpu ? t.cpu_ycocg_to_rgb(a, false) : t.ycocg_to_rgb(a, false);
    HZ_CHECK(back.size() == L, "converting back keeps the size");
    for (uint64_t p = 0; p < lz; p++) HZ_CHECK((back[p] == orig[p]) & (back[p + lz] == orig[p + lz]) & (back[p + 2 * lz] == orig[p + 2 * lz]), "converting back restores the image");
    HZ_CHECK(equal(a, a2), "an out-of-place conversion leaves its input unchanged");
    Buf d = cpu ? t.cpu_ycocg_to_rgb(b, true) : t.ycocg_to_rgb(b, true);
    HZ_CHECK(d.pointer() == b.pointer(), "an in-place conversion returns its buffer");
    for (uint64_t p = 0; p < lz; p++) HZ_CHECK((b[p] == orig[p]) & (b[p + lz] == orig[p + lz]) & (b[p + 2 * lz] == orig[p + 2 * lz]), "converting back in place restores the image");
    if (lz) hzs_reach("pixels");
}

// C07: Paeth differential filter: raster-order reconstruction recovers the image, samples fit, buffer mode does not matter.
#include <hzip_core/models/paeth.h>
typedef rainman::ptr<uint16_t> Buf;
using hzmodels::LinearU16PaethDifferential;
static uint32_t dist(uint32_t a, uint32_t b) { return a > b ? a - b : b - a; }
extern "C" void hz_main() {
    uint8_t depth = hz_sym<uint8_t>("depth");
    hzs_assume(depth >= 1 && depth <= 16);
    uint64_t w = hz_pick((uint8_t) (hzs_param("w", 3) + 1), "width"), h = hz_pick((uint8_t) (hzs_param("h", 2) + 1), "height"), ch = hz_pick((uint8_t) (hzs_param("ch", 2) + 1), "channels"), n = w * h * ch;
    uint64_t max = (1ull << depth) - 1;
    Buf img(n), orig(n);
    for (uint64_t i = 0; i < n; i++) { img[i] = hz_sym<uint16_t>("sample"); hzs_assume(img[i] <= max); orig[i] = img[i]; }
    bool cpu = hzs_param("cpu", 0) != 0;
    Buf out = cpu ? LinearU16PaethDifferential::cpu_filter(img, w, h, ch, false, depth) : LinearU16PaethDifferential::filter(img, w, h, ch, false, depth);
    HZ_CHECK(out.size() == n && (n == 0 || out.pointer() != img.pointer()), "filtering out of place has its own buffer");
    int unchanged = 1;
    for (uint64_t i = 0; i < n; i++) { unchanged &= img[i] == orig[i]; HZ_CHECK(out[i] <= max, "filtered samples fit the bit depth"); }
    HZ_CHECK(unchanged, "filtering out of place leaves its input unchanged");
    // reconstruction in raster order; the neighbours recovered before are the original ones by induction
    for (uint64_t c = 0; c < ch; c++) for (uint64_t y = 0; y < h; y++) for (uint64_t x = 0; x < w; x++) {
        uint64_t at = (c * h + y) * w + x;
        uint32_t pred = 0;
        if (x && y) {
            uint32_t l = orig[at - 1], u = orig[at - w], d = orig[at - w - 1], e = dist(l + u, d);
            uint32_t dl = dist(l, e), du = dist(u, e), dd = dist(d, e);
            uint32_t m1 = (dl <= du) & (dl <= dd), m2 = du <= dd;
            pred = m1 ? l : m2 ? u : d;
        } else if (x) pred = orig[at - 1];
        else if (y) pred = orig[at - w];
        HZ_CHECK((((uint64_t) out[at] + pred) & max) == orig[at], "the predictor recovers the sample");
    }
    Buf same = LinearU16PaethDifferential::filter(img, w, h, ch, true, depth);
    int eq = 1;
    for (uint64_t i = 0; i < n; i++) eq &= same[i] == out[i];
    HZ_CHECK(same.pointer() == img.pointer() && eq, "filtering in place gives the same result");
    if (n) hzs_reach("filtered");
}

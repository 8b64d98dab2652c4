// C21: PNG import, over a model of libpng that delivers an arbitrary image.
#include <hzip_core/preprocessor/png_bundle.h>
#include <hz_png.h>
static const uint8_t SIG[8] = {137, 80, 78, 71, 13, 10, 26, 10};
extern "C" void hz_main() {
    uint64_t mode = hzs_param("mode", 0), mw = hzs_param("w", 2), mh = hzs_param("h", 2);
    static uint16_t s[256];
    hz_png.samples = s;
    if (mode == 0) {                           // any input that is not a PNG
        uint64_t n = hz_pick(10, "length");
        rainman::ptr<uint8_t> in(n);
        bool same = n >= 8;
        for (uint64_t i = 0; i < n; i++) { in[i] = hz_sym<uint8_t>("byte"); if (i < 8) same = same & (in[i] == SIG[i]); }
        int r;
        HZ_TRY(r, auto b = PNGBundleBuilder(in).read_bundle(); HZ_CHECK(b.ihdr.width == 1, "the image is delivered"));
        HZ_CHECK((r != 0) == !same && r < 2, "data without a PNG signature is rejected, data with one is read");
        hzs_reach(r ? "rejected" : "accepted");
        return;
    }
    static const uint8_t CT[] = {0, 2, 3, 4, 6};
    hz_png.color_type = CT[hz_pick(5, "colour-type")];
    hz_png.width = 1 + (uint32_t) hz_pick((uint8_t) mw, "width");
    hz_png.height = 1 + (uint32_t) hz_pick((uint8_t) mh, "height");
    static const uint8_t D[] = {8, 16, 1, 2, 4};
    uint64_t di = mode == 1 ? 0 : hz_pick(hz_png.color_type == 0 ? 5 : hz_png.color_type == 3 ? 5 : 2, "depth");
    if (hz_png.color_type == 3 && di == 1) di = 2;
    hz_png.bit_depth = D[di];
    hz_png.interlace = (uint8_t) hz_pick(2, "interlace");
    hz_png.compression = hz_sym<uint8_t>("compression"); hz_png.filter = hz_sym<uint8_t>("filter");
    uint64_t ch = (uint64_t) hz_png_channels(hz_png.color_type), n = (uint64_t) hz_png.width * hz_png.height * ch;
    for (uint64_t i = 0; i < n; i++) { s[i] = hz_sym<uint16_t>("sample"); hzs_assume(s[i] <= (1u << hz_png.bit_depth) - 1); }
    if (hz_png.color_type == 3) {
        hz_png.colors = 1 + (int) hz_pick(2, "colours");
        if (mode == 1 && hz_pick(2, "full")) hz_png.colors = 256;
        for (int i = 0; i < (hz_png.colors < 3 ? hz_png.colors : 2); i++) for (int k = 0; k < 3; k++) hz_png.palette[i][k] = hz_sym<uint8_t>("palette");
        for (int i = 2; i < hz_png.colors; i++) for (int k = 0; k < 3; k++) hz_png.palette[i][k] = (uint8_t) (i * 5 + k);
    }
    uint64_t extra = hz_pick(4, "bytes");      // what the reader takes from the input; the input holds 8 + 3 bytes
    hz_png.info_bytes = mode == 1 ? extra : 0; hz_png.data_bytes = mode == 1 ? hz_pick(3, "bytes") : 0;
    hz_png.fail_at = mode == 1 ? (int) hz_pick(3, "fails") : 0;
    rainman::ptr<uint8_t> in(11);
    for (int i = 0; i < 11; i++) in[i] = i < 8 ? SIG[i] : 0;
    bool ok = !hz_png.fail_at && hz_png.info_bytes + hz_png.data_bytes <= 3;
    int r;
    HZ_TRY(r, {
        auto b = PNGBundleBuilder(in).read_bundle();
        HZ_CHECK(ok, "a corrupt or truncated image is rejected");
        HZ_CHECK(b.nchannels == ch, "the number of channels is delivered");
        HZ_CHECK(b.ihdr.width == hz_png.width && b.ihdr.height == hz_png.height, "the dimensions are delivered");
        HZ_CHECK(b.ihdr.bit_depth == hz_png.bit_depth && b.ihdr.color_type == hz_png.color_type, "bit depth and colour type are delivered");
        HZ_CHECK(b.ihdr.interlace_method == hz_png.interlace, "the interlace method is delivered");
        HZ_CHECK(b.ihdr.compression_method == hz_png.compression, "the compression method is delivered");
        HZ_CHECK(b.ihdr.filter_method == hz_png.filter, "the filter method is delivered");
        HZ_CHECK(b.buf.size() >= n, "the bundle has room for every sample");
        for (uint64_t c = 0; c < ch; c++) for (uint64_t y = 0; y < hz_png.height; y++) for (uint64_t x = 0; x < hz_png.width; x++)
            HZ_CHECK(b.buf[(c * hz_png.height + y) * hz_png.width + x] == s[(y * hz_png.width + x) * ch + c], "every sample is delivered in planar order");
        if (hz_png.color_type == 3) {
            HZ_CHECK(b.plte.colors.size() == (uint64_t) hz_png.colors, "the palette size is delivered");
            for (int i = 0; i < hz_png.colors; i++)
                HZ_CHECK(b.plte.colors[i].red == hz_png.palette[i][0] && b.plte.colors[i].green == hz_png.palette[i][1] && b.plte.colors[i].blue == hz_png.palette[i][2], "the palette colours are delivered");
        }
    });
    HZ_CHECK(r < 2, "failures are reported as errors");
    if (r) HZ_CHECK(!ok || hz_png.bit_depth != 8, "an image with 8-bit samples is accepted");
    hzs_reach(r ? "rejected" : "delivered");
}

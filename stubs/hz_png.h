// Model of the libpng reader for one abstract image.
#pragma once
#include <cstdint>
struct hz_png_image {
    uint32_t width = 1, height = 1;
    uint8_t bit_depth = 8, color_type = 0, interlace = 0, compression = 0, filter = 0;
    uint16_t *samples = nullptr;          // width * height * channels, row by row, channels interleaved
    uint8_t palette[256][3]; int colors = 0;
    uint64_t info_bytes = 0, data_bytes = 0;   // bytes the reader takes from the input for the header chunks and for the pixels
    int fail_at = 0;                      // 1: corrupt header, 2: corrupt pixels (the reader reports an error)
};
extern hz_png_image hz_png;
extern int hz_png_live;                   // reader and info objects that exist
static inline int hz_png_channels(uint8_t color_type) { return color_type == 2 ? 3 : color_type == 4 ? 2 : color_type == 6 ? 4 : 1; }

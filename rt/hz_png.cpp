// Model of the libpng interface the sources use (reading).
#include <png.h>
#include <cstring>
#include <cstdlib>
#include <hz_png.h>
#include <hzs.h>
hz_png_image hz_png;
int hz_png_live;
struct png_struct_def {
    png_rw_ptr rd; png_voidp io; png_error_ptr err, warn;
    bool packing, strip16, swap, expand, topal, fill, interlace, updated, info; int sig; uint32_t row;
};
struct png_info_def { int dummy; };
static png_color pal[256];
static void need(bool c, const char *m) { if (!c) hzs_fail(m); }
static void fail(png_structp p, const char *m) {
    if (p->err) p->err(p, m);
    hzs_fail("libpng would abort: no error handler is set, or it returned");
}
static void take(png_structp p, uint64_t n) {
    static png_byte buf[64];
    need(p->rd != nullptr, "libpng reads without a read function");
    while (n) { uint64_t k = n > sizeof buf ? sizeof buf : n; p->rd(p, buf, k); n -= k; }
}
static int depth(png_const_structrp p) {
    int d = hz_png.bit_depth;
    if (!p->updated) return d;
    if (d == 16 && p->strip16) return 8;
    if (d < 8 && (p->packing || (p->expand && hz_png.color_type == 0) || (p->topal && hz_png.color_type == 3))) return 8;
    return d;
}
static int chans(png_const_structrp p) {
    if (p->updated && p->topal && hz_png.color_type == 3) return 3;
    return hz_png_channels(hz_png.color_type);
}
extern "C" {
int png_sig_cmp(png_const_bytep sig, size_t start, size_t n) {
    static const png_byte s[8] = {137, 80, 78, 71, 13, 10, 26, 10};
    if (n > 8) n = 8; else if (n < 1) return -1;
    if (start > 7) return -1;
    if (start + n > 8) n = 8 - start;
    int r = 0;
    for (size_t i = 0; i < n; i++) r |= sig[start + i] ^ s[start + i];
    return r;
}
png_structp png_create_read_struct(png_const_charp, png_voidp, png_error_ptr e, png_error_ptr w) { auto p = (png_structp) calloc(1, sizeof(png_struct_def)); p->err = e; p->warn = w; hz_png_live++; return p; }
png_structp png_create_read_struct_2(png_const_charp v, png_voidp ep, png_error_ptr e, png_error_ptr w, png_voidp, png_malloc_ptr, png_free_ptr) { return png_create_read_struct(v, ep, e, w); }
png_structp png_create_write_struct(png_const_charp v, png_voidp ep, png_error_ptr e, png_error_ptr w) { return png_create_read_struct(v, ep, e, w); }
png_infop png_create_info_struct(png_const_structrp) { hz_png_live++; return (png_infop) calloc(1, sizeof(png_info_def)); }
void png_destroy_info_struct(png_const_structrp, png_infopp i) { if (i && *i) { free(*i); *i = nullptr; hz_png_live--; } }
void png_destroy_read_struct(png_structpp p, png_infopp i, png_infopp e) {
    if (!p || !*p) return;
    if (i) png_destroy_info_struct(*p, i);
    if (e) png_destroy_info_struct(*p, e);
    free(*p); *p = nullptr; hz_png_live--;
}
void png_set_mem_fn(png_structrp, png_voidp, png_malloc_ptr, png_free_ptr) {}
void png_set_error_fn(png_structrp p, png_voidp, png_error_ptr e, png_error_ptr w) { p->err = e; p->warn = w; }
void png_set_read_fn(png_structrp p, png_voidp io, png_rw_ptr f) { p->io = io; p->rd = f; }
png_voidp png_get_io_ptr(png_const_structrp p) { return p->io; }
void png_set_sig_bytes(png_structrp p, int n) { p->sig = n; }
void png_read_info(png_structrp p, png_inforp) {
    need(!p->info, "png_read_info called twice");
    take(p, 8 - p->sig);
    take(p, hz_png.info_bytes);
    if (hz_png.fail_at == 1) fail(p, "bad header");
    p->info = true;
}
png_uint_32 png_get_image_width(png_const_structrp p, png_const_inforp) { return p->info ? hz_png.width : 0; }
png_uint_32 png_get_image_height(png_const_structrp p, png_const_inforp) { return p->info ? hz_png.height : 0; }
png_byte png_get_color_type(png_const_structrp p, png_const_inforp) { return p->info ? (p->updated && p->topal && hz_png.color_type == 3 ? 2 : hz_png.color_type) : 0; }
png_byte png_get_bit_depth(png_const_structrp p, png_const_inforp) { return p->info ? (png_byte) depth(p) : 0; }
png_byte png_get_channels(png_const_structrp p, png_const_inforp) { return p->info ? (png_byte) chans(p) : 0; }
png_byte png_get_interlace_type(png_const_structrp p, png_const_inforp) { return p->info ? hz_png.interlace : 0; }
png_byte png_get_compression_type(png_const_structrp p, png_const_inforp) { return p->info ? hz_png.compression : 0; }
png_byte png_get_filter_type(png_const_structrp p, png_const_inforp) { return p->info ? hz_png.filter : 0; }
png_uint_32 png_get_IHDR(png_const_structrp p, png_const_inforp i, png_uint_32 *w, png_uint_32 *h, int *b, int *c, int *il, int *cm, int *f) {
    if (w) *w = png_get_image_width(p, i); if (h) *h = png_get_image_height(p, i); if (b) *b = png_get_bit_depth(p, i); if (c) *c = png_get_color_type(p, i);
    if (il) *il = hz_png.interlace; if (cm) *cm = hz_png.compression; if (f) *f = hz_png.filter;
    return 1;
}
int png_set_interlace_handling(png_structrp p) { p->interlace = true; return hz_png.interlace ? 7 : 1; }
void png_set_packing(png_structrp p) { need(!p->updated, "a transformation is requested after png_read_update_info"); if (hz_png.bit_depth < 8) p->packing = true; }
void png_set_strip_16(png_structrp p) { need(!p->updated, "a transformation is requested after png_read_update_info"); p->strip16 = true; }
void png_set_swap(png_structrp p) { need(!p->updated, "a transformation is requested after png_read_update_info"); p->swap = true; }
void png_set_expand_gray_1_2_4_to_8(png_structrp p) { p->expand = true; }
void png_set_palette_to_rgb(png_structrp p) { p->topal = true; }
void png_read_update_info(png_structrp p, png_inforp) { need(p->info, "png_read_update_info before png_read_info"); p->updated = true; }
size_t png_get_rowbytes(png_const_structrp p, png_const_inforp) { return p->info ? ((uint64_t) hz_png.width * chans(p) * depth(p) + 7) >> 3 : 0; }
void png_read_image(png_structrp p, png_bytepp rows) {
    need(p->info, "png_read_image before png_read_info");
    p->updated = true;
    take(p, hz_png.data_bytes);
    if (hz_png.fail_at == 2) fail(p, "bad pixels");
    int c = hz_png_channels(hz_png.color_type), d = hz_png.bit_depth, od = depth(p);
    for (uint32_t y = 0; y < hz_png.height; y++) {
        uint64_t n = (uint64_t) hz_png.width * c;
        if (od < 8) for (uint64_t i = 0; i < (n * od + 7) / 8; i++) rows[y][i] = 0;
        for (uint64_t i = 0; i < n; i++) {
            uint16_t s = hz_png.samples[y * n + i];
            if (p->topal && hz_png.color_type == 3) for (int k = 0; k < 3; k++) rows[y][3 * i + k] = hz_png.palette[s][k];
            else if (d == 16 && od == 16) { rows[y][2 * i + (p->swap ? 1 : 0)] = (png_byte) (s >> 8); rows[y][2 * i + (p->swap ? 0 : 1)] = (png_byte) s; }
            else if (d == 16) rows[y][i] = (png_byte) (s >> 8);
            else if (od == 8 && d < 8 && p->expand && hz_png.color_type == 0) rows[y][i] = (png_byte) (s * (255 / ((1 << d) - 1)));
            else if (od == 8) rows[y][i] = (png_byte) s;
            else rows[y][i * d / 8] |= (png_byte) (s << (8 - d - i * d % 8));
        }
    }
}
void png_read_end(png_structrp, png_inforp) {}
png_uint_32 png_get_PLTE(png_const_structrp, png_inforp, png_colorp *c, int *n) {
    if (!hz_png.colors) return 0;
    for (int i = 0; i < hz_png.colors; i++) { pal[i].red = hz_png.palette[i][0]; pal[i].green = hz_png.palette[i][1]; pal[i].blue = hz_png.palette[i][2]; }
    *c = pal; *n = hz_png.colors;
    return PNG_INFO_PLTE;
}
png_uint_32 png_get_valid(png_const_structrp, png_const_inforp, png_uint_32 f) { return f == PNG_INFO_PLTE && hz_png.colors ? f : 0; }
}

// C41: JPEG header and coefficient capture, and restoring the header for the encoder.  libjpeg is replaced by a model that reports
// arbitrary header values, frees everything it owns when the decoder is destroyed, and resets everything its defaults would.
#include <jpeglib.h>
#include <hzip_core/preprocessor/jpeg_codec.h>
struct Comp { uint8_t id, h, v, q; unsigned wb, hb; };
struct Src {
    uint16_t width, height, owidth, oheight; uint8_t comps, cs, minh, minv, prec, ccir;
    bool has[NUM_QUANT_TBLS]; UINT16 q[NUM_QUANT_TBLS][64];
    Comp comp[4];
    int16_t coef[4][4][64];
};
static Src S;
static jpeg_component_info *ci = nullptr; static JQUANT_TBL *qt[NUM_QUANT_TBLS];
static bool destroyed, created, headerRead, std_err;
static void arbitrary(uint64_t ncomp, uint64_t tables) {
    S.width = hz_sym<uint16_t>("width"); S.height = hz_sym<uint16_t>("height"); S.owidth = hz_sym<uint16_t>("output-width"); S.oheight = hz_sym<uint16_t>("output-height");
    hzs_assume((S.width <= 65500) & (S.height <= 65500) & (S.owidth <= 65500) & (S.oheight <= 65500) & (S.width > 0) & (S.height > 0));
    S.cs = hz_sym<uint8_t>("colour-space"); S.minh = hz_sym<uint8_t>("min-h"); S.minv = hz_sym<uint8_t>("min-v"); S.prec = hz_sym<uint8_t>("precision"); S.ccir = hz_sym<uint8_t>("ccir");
    hzs_assume((S.cs <= 5) & (S.minh >= 1) & (S.minh <= 16) & (S.minv >= 1) & (S.minv <= 16) & ((S.prec == 8) | (S.prec == 12)) & (S.ccir <= 1));
    S.comps = (uint8_t) ncomp;
    for (int i = 0; i < NUM_QUANT_TBLS; i++) {
        S.has[i] = (tables >> i) & 1;
        if (S.has[i]) hzs_symbolic(S.q[i], sizeof S.q[i], "quantiser");
    }
    for (uint64_t i = 0; i < ncomp; i++) {
        S.comp[i].id = hz_sym<uint8_t>("component"); S.comp[i].h = hz_sym<uint8_t>("h"); S.comp[i].v = hz_sym<uint8_t>("v"); S.comp[i].q = hz_sym<uint8_t>("table");
        hzs_assume((S.comp[i].h >= 1) & (S.comp[i].h <= 4) & (S.comp[i].v >= 1) & (S.comp[i].v <= 4) & (S.comp[i].q < NUM_QUANT_TBLS));
    }
}
static void fill(jpeg_decompress_struct *d) {
    d->image_width = S.width; d->image_height = S.height; d->num_components = S.comps; d->jpeg_color_space = (J_COLOR_SPACE) S.cs;
    d->output_width = S.owidth; d->output_height = S.oheight; d->data_precision = S.prec; d->CCIR601_sampling = S.ccir;
#if JPEG_LIB_VERSION >= 70
    d->min_DCT_h_scaled_size = S.minh; d->min_DCT_v_scaled_size = S.minv;
#else
    d->min_DCT_scaled_size = S.minh;
#endif
    for (int i = 0; i < NUM_QUANT_TBLS; i++) {
        d->quant_tbl_ptrs[i] = nullptr;
        if (S.has[i]) { qt[i] = new JQUANT_TBL(); for (int k = 0; k < 64; k++) qt[i]->quantval[k] = S.q[i][k]; d->quant_tbl_ptrs[i] = qt[i]; }
    }
    ci = new jpeg_component_info[S.comps ? S.comps : 1]();
    for (int i = 0; i < S.comps; i++) { ci[i].component_id = S.comp[i].id; ci[i].h_samp_factor = S.comp[i].h; ci[i].v_samp_factor = S.comp[i].v; ci[i].quant_tbl_no = S.comp[i].q; ci[i].width_in_blocks = S.comp[i].wb; ci[i].height_in_blocks = S.comp[i].hb; }
    d->comp_info = ci;
}
static void release() { delete[] ci; ci = nullptr; for (auto &q: qt) { delete q; q = nullptr; } }
static JBLOCK row[4][2];
static JBLOCKARRAY access(j_common_ptr, jvirt_barray_ptr a, JDIMENSION by, JDIMENSION n, boolean wr) {
    static JBLOCKROW rows[1];
    uint64_t c = (uint64_t) a - 1;
    HZ_CHECK(c < S.comps && by < S.comp[c].hb && n == 1 && !destroyed, "coefficients are read inside the component");
    for (unsigned bx = 0; bx < S.comp[c].wb; bx++) for (int k = 0; k < 64; k++) row[c][bx][k] = S.coef[c][by * S.comp[c].wb + bx][k];
    rows[0] = row[c];
    return rows;
}
static jpeg_memory_mgr mem;
static jvirt_barray_ptr arrays[4] = {(jvirt_barray_ptr) 1, (jvirt_barray_ptr) 2, (jvirt_barray_ptr) 3, (jvirt_barray_ptr) 4};
extern "C" {
void *hz_fmemopen(void *, size_t, const char *) { hz_fs_create("mem", false); return fopen("mem", "rb"); }
struct jpeg_error_mgr *hz_jpeg_std_error(struct jpeg_error_mgr *e) { std_err = true; return e; }
void hz_jpeg_CreateDecompress(j_decompress_ptr d, int, size_t) { created = true; d->mem = &mem; mem.access_virt_barray = access; }
void hz_jpeg_stdio_src(j_decompress_ptr, FILE *f) { HZ_CHECK(created && f, "the decoder reads the image"); }
int hz_jpeg_read_header(j_decompress_ptr d, boolean) { HZ_CHECK(created && !destroyed, "the decoder exists"); headerRead = true; fill(d); return 1; }
jvirt_barray_ptr *hz_jpeg_read_coefficients(j_decompress_ptr) { HZ_CHECK(headerRead && !destroyed, "the header is read first"); return arrays; }
boolean hz_jpeg_finish_decompress(j_decompress_ptr) { return TRUE; }
void hz_jpeg_destroy_decompress(j_decompress_ptr d) { if (!destroyed) release(); destroyed = true; }
// encoder: defaults overwrite everything, as in libjpeg
static jpeg_component_info out[10];
static int calls;
JQUANT_TBL *hz_jpeg_alloc_quant_table(j_common_ptr) { JQUANT_TBL *q = new JQUANT_TBL(); q->sent_table = FALSE; return q; }
void hz_jpeg_set_colorspace(j_compress_ptr c, J_COLOR_SPACE s) {
    c->jpeg_color_space = s;
    c->num_components = 3;
    for (int i = 0; i < 10; i++) { out[i].component_id = i + 1; out[i].h_samp_factor = out[i].v_samp_factor = 1; out[i].quant_tbl_no = 0; }
}
void hz_jpeg_set_defaults(j_compress_ptr c) {
    c->comp_info = out;
    c->data_precision = 8; c->CCIR601_sampling = FALSE;
    for (int i = 0; i < 2; i++) {
        if (!c->quant_tbl_ptrs[i]) c->quant_tbl_ptrs[i] = hz_jpeg_alloc_quant_table((j_common_ptr) c);
        for (int k = 0; k < 64; k++) c->quant_tbl_ptrs[i]->quantval[k] = 16;
        c->quant_tbl_ptrs[i]->sent_table = TRUE;
    }
    c->JFIF_major_version = 1; c->JFIF_minor_version = 1;
    hz_jpeg_set_colorspace(c, JCS_YCbCr);
    calls++;
}
}
static void checkHeader(hzj_iface::hzj_header &h) {
    HZ_CHECK((h.image_width == S.width) & (h.image_height == S.height), "image size");
    HZ_CHECK((h.output_width == S.owidth) & (h.output_height == S.oheight), "output size");
    HZ_CHECK((h.num_components == S.comps) & (h.jpeg_color_space == S.cs) & (h.data_precision == S.prec) & (h.CCIR601_sampling == S.ccir), "components, colour space, precision, sampling");
    HZ_CHECK((h.min_DCT_h_scaled_size == S.minh) & (h.min_DCT_v_scaled_size == S.minv), "DCT sizes");
    for (int i = 0; i < NUM_QUANT_TBLS; i++) {
        HZ_CHECK(h.qtables[i].is_empty == !S.has[i], "which quantisation tables exist");
        int same = 1;
        if (S.has[i]) for (int k = 0; k < 64; k++) same &= h.qtables[i].cof[k] == S.q[i][k];
        HZ_CHECK(same, "quantisation tables");
    }
    HZ_CHECK(h.comp_specs.size() == S.comps, "one specification per component");
    for (size_t i = 0; i < h.comp_specs.size() && i < S.comps; i++)
        HZ_CHECK((h.comp_specs[i].component_id == S.comp[i].id) & (h.comp_specs[i].h_samp_factor == S.comp[i].h) & (h.comp_specs[i].v_samp_factor == S.comp[i].v) & (h.comp_specs[i].q_table_no == S.comp[i].q), "component specifications");
}
extern "C" void hz_main() {
    uint64_t ncomp = hz_pick(5, "components"), tables = hz_pick(16, "tables");
    if (hzs_param("mode", 0) == 0) {             // capture and restore
        arbitrary(ncomp, tables);
        static jpeg_decompress_struct d;
        fill(&d);
        hzj_iface::hzj_header h(&d);
        release();
        checkHeader(h);
        static jpeg_compress_struct c;
        // the encoder may already own tables and settings
        bool used = hz_pick(2, "used-encoder");
        if (used) for (int i = 0; i < NUM_QUANT_TBLS; i++) { c.quant_tbl_ptrs[i] = hz_jpeg_alloc_quant_table(nullptr); c.quant_tbl_ptrs[i]->sent_table = TRUE; }
        h.create_compress_ptr(&c);
        HZ_CHECK((c.image_width == S.width) & (c.image_height == S.height), "the encoder gets the image size");
        HZ_CHECK((c.input_components == S.comps) & (c.num_components == S.comps), "the encoder gets the component count");
        HZ_CHECK(((int) c.in_color_space == S.cs) & ((int) c.jpeg_color_space == S.cs), "the encoder gets the colour space");
        HZ_CHECK((c.data_precision == S.prec) & (c.CCIR601_sampling == S.ccir), "the encoder gets precision and sampling");
#if JPEG_LIB_VERSION >= 70
        HZ_CHECK((c.jpeg_width == S.owidth) & (c.jpeg_height == S.oheight) & (c.min_DCT_h_scaled_size == S.minh) & (c.min_DCT_v_scaled_size == S.minv), "the encoder gets output and DCT sizes");
#endif
        for (int i = 0; i < NUM_QUANT_TBLS; i++) if (S.has[i]) {
            HZ_CHECK(c.quant_tbl_ptrs[i] != nullptr, "the encoder has every table");
            int same = 1;
            for (int k = 0; k < 64; k++) same &= c.quant_tbl_ptrs[i]->quantval[k] == S.q[i][k];
            HZ_CHECK(same, "the encoder gets the quantisation tables");
            HZ_CHECK(!c.quant_tbl_ptrs[i]->sent_table, "a restored table will be written");
        }
        for (int i = 0; i < S.comps; i++)
            HZ_CHECK((out[i].component_id == S.comp[i].id) & (out[i].h_samp_factor == S.comp[i].h) & (out[i].v_samp_factor == S.comp[i].v) & (out[i].quant_tbl_no == S.comp[i].q), "the encoder gets the component specifications");
        hzs_reach("restored");
    } else {                                     // complete read of an image
        hzs_assume(ncomp <= 3);
        for (uint64_t i = 0; i < ncomp; i++) { S.comp[i].wb = 1 + (unsigned) hz_pick(2, "blocks"); S.comp[i].hb = 1 + (unsigned) hz_pick(2, "blocks"); }
        arbitrary(ncomp, tables & 3);
        hzs_symbolic(S.coef, sizeof S.coef, "coefficients");
        static uint8_t bytes[4];
        hz_fs_create("image.jpg", false);
        hzj_iface io = hz_pick(2, "from-file") ? hzj_iface(std::string("image.jpg")) : hzj_iface(bytes, sizeof bytes);
        auto img = io.read();
        HZ_CHECK(destroyed, "the decoder is released");
        checkHeader(img.header);
        for (uint64_t c = 0; c < ncomp; c++) {
            HZ_CHECK(img.mcus.coeff_arrays[c].size() == S.comp[c].wb * S.comp[c].hb, "every block is captured");
            for (size_t b = 0; b < img.mcus.coeff_arrays[c].size() && b < S.comp[c].wb * S.comp[c].hb; b++) {
                int same = 1;
                for (int k = 0; k < 64; k++) same &= img.mcus.coeff_arrays[c][b][k / 8][k % 8] == S.coef[c][b][k];
                HZ_CHECK(same, "coefficients are captured in raster order");
            }
        }
        hzs_reach("read");
    }
}

// C20: the image codec's pre-coding: every sample gets its interval, and a decoder can follow.
#include <hzip_codec/sharingan/state_transition.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/runtime/config.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hz_cl.h>
typedef rainman::ptr<uint16_t> Buf;
static uint64_t W, H, C, CW, CH, LR; static uint8_t depth, order; static int how;
static uint64_t seed;
static const uint64_t TOTAL = 1ull << 24;
struct Model { rainman::ptr3d<uint64_t> maps; rainman::ptr2d<uint64_t> dists; };
static SharinganStateTransition *make(const Buf &img) {
    PNGBundle bundle(img, (uint8_t) C);
    bundle.ihdr.width = (uint32_t) W; bundle.ihdr.height = (uint32_t) H; bundle.ihdr.bit_depth = depth;
    auto t = new SharinganStateTransition(bundle, CW, CH, order, LR);
    if (how == 1) {
        auto maps = rainman::make_ptr3d<uint64_t>(C, 256, 256);
        auto dists = rainman::ptr2d<uint64_t>(C, 256);
        for (uint64_t c = 0; c < C; c++) {
            for (uint64_t i = 0; i < 256; i++) { dists[c][i] = 0; for (uint64_t j = 0; j < 256; j++) maps[c][i][j] = 0; }
            maps[c][0][seed] = 1000 * (c + 1); maps[c][255][0] = 7; maps[c][seed][255] = 1u << 20; dists[c][seed] = 99; dists[c][255] = 12345 * (c + 1);
        }
        int r = 0;
        HZ_TRY(r, t->inject_model(maps, dists));
        HZ_CHECK(r == 0, "the model is accepted");
    }
    return t;
}
static std::vector<SSTPair> run(SharinganStateTransition *t) {
    std::vector<SSTPair> out;
    auto take = [&](const std::pair<rainman::virtual_array<SSTPair>, std::mutex &> &p) { for (uint64_t i = 0; i < p.first.size(); i++) out.push_back(p.first.get(i)); };
    int r = 0;
    if (how == 1) { HZ_TRY(r, take(t->static_precode())); } else if (how == 0) { HZ_TRY(r, take(t->cpu_dynamic_precode())); }
    else if (how == 2) { HZ_TRY(r, take(t->dynamic_precode())); }
    else { HZ_TRY(r, take(t->opencl_dynamic_precode())); }
    HZ_CHECK(r == 0, "pre-coding ends normally");
    return out;
}
// place of a sample in the documented order of the stream: plane, channel, chunk, line, column
static uint64_t key(uint64_t plane, uint64_t i) {
    uint64_t c = i / (W * H), y = i % (W * H) / W, x = i % W, k = plane * 16 + c;
    if (how == 1) return (k * 64 + y) * 64 + x;
    return (((k * 64 + y / CH) * 64 + x / CW) * 64 + y % CH) * 64 + x % CW;
}
static Buf copy(const Buf &a) { Buf c(a.size()); for (uint64_t i = 0; i < a.size(); i++) c[i] = a[i]; return c; }
static bool same(SSTPair a, SSTPair b) { return a.ls == b.ls && a.bs == b.bs; }
static void valid(const std::vector<SSTPair> &p, uint64_t n) {
    HZ_CHECK(p.size() == n, "one interval per sample and plane");
    for (auto q : p) HZ_CHECK(q.ls >= 1 && (uint64_t) q.ls + q.bs <= TOTAL, "every interval is non-empty and inside the coder's range");
}
extern "C" void hz_main() {
    how = (int) hzs_param("how", 0);
    if (how >= 2) { hz_cl_add_device(0, "gpu"); hzopencl::DeviceProvider::load_devices(); hz_cl_local = 1 + hz_pick((uint8_t) hzs_param("local", 1), "work-group"); hz_cl_backwards = hz_pick(2, "item-order"); }
    hzruntime::CacheProvider::init_cache("f", 2, 64);
    W = 1 + hz_pick((uint8_t) hzs_param("w", 2), "width"); H = 1 + hz_pick((uint8_t) hzs_param("h", 2), "height"); C = 1 + hz_pick((uint8_t) hzs_param("ch", 1), "channels");
    uint64_t full = hzs_param("full", 0);                           // images of exactly the given size
    if (full) hzs_assume(W == hzs_param("w", 2) && H == hzs_param("h", 2) && C == hzs_param("ch", 1));
    CW = 1 + hz_pick((uint8_t) hzs_param("cw", 2), "chunk-width"); CH = 1 + hz_pick((uint8_t) hzs_param("chh", 2), "chunk-height");
    order = (uint8_t) (1 + hz_pick((uint8_t) hzs_param("orders", 3), "order"));
    depth = hzs_param("deep", 0) ? 16 : 8;
    if (hzs_param("odd", 0)) depth = depth == 16 ? 12 : 3;
    static const uint64_t rates[3] = {0x20, 1, 1u << 20};
    LR = rates[hz_pick((uint8_t) hzs_param("rates", 1), "rate")];
    seed = hzs_param("seed", 1);
    uint64_t n = W * H * C, planes = depth > 8 ? 2 : 1;
    uint8_t shift = depth > 8 ? (uint8_t) (depth - 8) : 0;
    uint64_t max = (1ull << depth) - 1, lead = shift ? max >> shift : max;
    uint64_t vals = hzs_param("vals", 2);
    Buf a(n), b(n);
    auto ta = make(a), tb = make(b);
    auto sample = [&](const char *name) {
        // every sample value whose leading part is 0, the largest or 1, and whose low byte is 0, 255 or 1
        uint16_t v = hz_sym<uint16_t>(name);
        uint16_t l = v >> shift, r = v & 0xff;
        hzs_assume((v <= max) & ((l == 0) | (l == lead) | ((l == 1) & (vals > 2))) & ((planes == 1) | (r == 0) | (r == 255) | ((r == 1) & (vals > 2))));
        return (uint16_t) hzs_concretize(v);
    };
    uint64_t j = hz_pick((uint8_t) n, "changed");
    uint64_t mix = n <= hzs_param("all", 4) ? 0 : hz_pick(2, "others") * 5;          // the other samples: all zero, or zero and the largest mixed
    for (uint64_t i = 0; i < n; i++) a[i] = (i == j || n <= hzs_param("all", 4)) ? sample("sample") : (uint16_t) ((i * mix >> 1 & 1) ? max : 0);
    Buf orig = copy(a);
    for (uint64_t i = 0; i < n; i++) b[i] = a[i];
    if (hzs_param("any", 0)) {
        // the other value: any leading part with the same low part, or any low part with the same leading part
        uint16_t v = hz_sym<uint16_t>("other");
        hzs_assume((v <= max) & ((planes == 1) | (depth == 16 && (v >> 8) == (a[j] >> 8)) | (depth == 16 && (v & 0xff) == (a[j] & 0xff))));
        b[j] = (uint16_t) hzs_concretize(v);
    } else b[j] = sample("other");
    hzs_assume(b[j] != a[j]);
    if (how == 2) hzruntime::Config::opencl_support_enabled = hz_pick(2, "opencl");
    if (how == 3) hzruntime::Config::opencl_support_enabled = true;
    auto p = run(ta);
    for (uint64_t i = 0; i < n; i++) HZ_CHECK(a[i] == orig[i], "the image is not changed");
    auto q = run(tb);
    valid(p, n * planes); valid(q, n * planes);
    uint64_t plane = (a[j] >> shift) != (b[j] >> shift) ? 0 : 1;
    uint64_t at = key(plane, j);
    for (uint64_t pl = 0; pl < planes; pl++)
        for (uint64_t i = 0; i < n; i++) {
            uint64_t k = key(pl, i), o = pl * n + i;
            if (k < at) HZ_CHECK(same(p[o], q[o]), "an interval depends only on samples that come earlier");
            else if (k == at) HZ_CHECK(p[o].bs + p[o].ls <= q[o].bs || q[o].bs + q[o].ls <= p[o].bs, "different symbols have disjoint intervals");
        }
    if (how == 2) { how = 0; auto c = run(ta); for (uint64_t i = 0; i < p.size(); i++) HZ_CHECK(i < c.size() && same(p[i], c[i]), "small images give the CPU result, with OpenCL or without"); }
    delete ta; delete tb;
    if (n > 2) hzs_reach("precoded");
    if (planes == 2) hzs_reach("residues");
}

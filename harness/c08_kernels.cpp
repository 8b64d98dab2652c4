// C08: the OpenCL kernels (text registered by the real code, compiled to IR) against the CPU code, for every split of the work.
#include <hzip_core/preprocessor/color.h>
#include <hzip_core/models/paeth.h>
#include <hzip_core/runtime/config.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hz_cl.h>
typedef rainman::ptr<uint16_t> Buf;
#ifndef PAETH
#define PAETH 0
#endif
extern "C" void hz_main() {
    hz_cl_add_device(0, "gpu");
    if (hzs_param("devices", 1) > 1) hz_cl_add_device(0, "gpu two");
    hzopencl::DeviceProvider::load_devices();
    hzruntime::Config::opencl_support_enabled = true;
    uint8_t depth = hz_sym<uint8_t>("depth");
    hzs_assume(depth >= 1 && depth <= 16);
    uint64_t w = 1 + hz_pick((uint8_t) hzs_param("w", 3), "width"), h = 1 + hz_pick((uint8_t) hzs_param("h", 2), "height"), lz = w * h;
    uint64_t ch = PAETH ? 1 + hz_pick((uint8_t) hzs_param("ch", 2), "channels") : 3, n = lz * ch;
    uint64_t max = (1ull << depth) - 1;
    hzruntime::Config::opencl_kernels = 1 + hz_pick((uint8_t) hzs_param("kernels", 4), "kernels");
    hz_cl_local = 1 + hz_pick((uint8_t) hzs_param("local", 3), "work-group");
    hz_cl_backwards = hz_pick(2, "order");
    bool inplace = hz_pick(2, "in-place"), back = !PAETH && hz_pick(2, "direction");
    Buf a(n), b(n), orig(n);
    for (uint64_t i = 0; i < n; i++) { uint16_t v = hz_sym<uint16_t>("sample"); hzs_assume(v <= max); a[i] = b[i] = orig[i] = v; }
    Buf x, y;
    int r;
#if PAETH
    HZ_TRY(r, x = hzmodels::LinearU16PaethDifferential::opencl_filter(a, w, h, ch, inplace, depth));
    y = hzmodels::LinearU16PaethDifferential::cpu_filter(b, w, h, ch, false, depth);
#else
    hztrans::LinearU16XColorTransformer t(w, h, depth);
    if (back) { HZ_TRY(r, x = t.opencl_ycocg_to_rgb(a, inplace)); y = t.cpu_ycocg_to_rgb(b, false); }
    else { HZ_TRY(r, x = t.opencl_rgb_to_ycocg(a, inplace)); y = t.cpu_rgb_to_ycocg(b, false); }
#endif
    HZ_CHECK(r == 0, "the kernel runs");
    if (r) return;
    HZ_CHECK(x.size() == n && (x.pointer() == a.pointer()) == inplace, "the buffer mode is respected");
    for (uint64_t i = 0; i < n; i++) HZ_CHECK(x[i] == y[i], "kernel and CPU produce the same samples");
    if (!inplace) { int u = 1; for (uint64_t i = 0; i < n; i++) u &= a[i] == orig[i]; HZ_CHECK(u, "filtering out of place leaves its input unchanged"); }
    hzs_reach("kernel");
}

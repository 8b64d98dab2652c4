#pragma once
#include <hzip_core/opencl/cl_helper.h>
#include <hz_cl.h>
#include <unistd.h>
int hz_cl_build_result(cl_device_id, const char *src) {
    auto put = [](const char *s) { size_t n = strlen(s); while (n) { long k = ::write(1, s, n); if (k <= 0) break; s += k; n -= (size_t) k; } };
    put("HZ-PROGRAM\n"); put(src); put("\nHZ-END\n");
    return CL_SUCCESS;
}
static void dump_setup() { hz_cl_add_device(0, "gpu"); hzopencl::DeviceProvider::load_devices(); }

// C38: every setting from its own environment variable, or its default; the cache pool is created as configured.
#include <hzip_core/runtime/config.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hz_cl.h>
using hzruntime::Config;
static const char *NUM[] = {"HZIP_CACHE_PAGE_SIZE", "HZIP_CACHE_COUNT", "HZIP_API_THREADS", "HZIP_API_PORT", "HZIP_API_TIMEOUT", "HZIP_PROCESSOR_THREADS", "HZIP_MAX_MEM_USAGE", "HZIP_OPENCL_KERNELS"};
static const uint64_t DEF[] = {131072, 4, 1, 1729, 100, 1, 1073741824, 32};
static char text[8][24], file[8], key[8], pat[8];
// the value of an environment variable of len decimal digits, the first one not zero unless it is the only one
static uint64_t number(int i, uint64_t len) {
    uint64_t v = 0;
    for (uint64_t k = 0; k < len; k++) {
        char c = hz_sym<char>(NUM[i]);
        hzs_assume((c >= (k || len == 1 ? '0' : '1')) & (c <= '9'));
        text[i][k] = c;
        unsigned d = (unsigned) (unsigned char) c - '0';
        v = v * 10 + d;
    }
    text[i][len] = 0;
    hz_env_set(NUM[i], text[i]);
    return v;
}
static std::string word(const char *var, char *buf, uint64_t max) {
    uint64_t n = hz_pick((uint8_t) (max + 1), "length");
    for (uint64_t i = 0; i < n; i++) { buf[i] = hz_sym<char>(var); hzs_assume(buf[i] != 0); }
    buf[n] = 0;
    hz_env_set(var, buf);
    return std::string(buf, n);
}
extern "C" void hz_main() {
    uint64_t want[8];
    uint64_t lenmode = hzs_param("digits", 1), longOne = 9;
    if (lenmode == 0) longOne = hz_pick(8, "long-variable");      // one variable with many digits, the others short or unset
    for (int i = 0; i < 8; i++) {
        want[i] = DEF[i];
        hz_env_set(NUM[i], nullptr);
#ifndef HZIP_ENABLE_OPENCL
        if (i == 7) continue;
#endif
        if (lenmode == 0 && i != (int) longOne) continue;
        if (lenmode && hz_pick(2, "set") == 0) continue;
        if (i == 1) { text[1][0] = (char) ('1' + hz_pick(5, "caches")); text[1][1] = 0; hz_env_set(NUM[1], text[1]); want[1] = (uint64_t) (text[1][0] - '0'); continue; }
        want[i] = number(i, lenmode ? lenmode : i == 4 ? 1 + hz_pick(9, "digits") : 1 + hz_pick(19, "digits"));
    }
    std::string wantFile = "hzip", wantKey = "hybridzip", wantPat = "";
    hz_env_set("HZIP_CACHE_FILE", nullptr); hz_env_set("HZIP_API_KEY", nullptr); hz_env_set("HZIP_OPENCL_DEVICE_REGEX", nullptr);
    uint64_t maxWord = lenmode ? 0 : hzs_param("word", 3);
    if (hz_pick(2, "set")) { wantFile = lenmode ? (hz_env_set("HZIP_CACHE_FILE", "f"), std::string("f")) : word("HZIP_CACHE_FILE", file, maxWord); }
    if (hz_pick(2, "set")) { wantKey = lenmode ? (hz_env_set("HZIP_API_KEY", "k"), std::string("k")) : word("HZIP_API_KEY", key, maxWord); }
#ifdef HZIP_ENABLE_OPENCL
    uint64_t ndev = hz_pick(3, "devices");
    hz_cl_reset_devices();
    hz_cl_platforms = 1;
    if (ndev >= 1) hz_cl_add_device(0, "gpu");
    if (ndev >= 2) hz_cl_add_device(0, "cpu");
    bool filtered = ndev && hz_pick(2, "set");
    if (filtered) { wantPat = "gpu"; hz_env_set("HZIP_OPENCL_DEVICE_REGEX", "gpu"); }
#endif
    int r;
    HZ_TRY(r, Config::configure());
    HZ_CHECK(r == 0, "configuration with valid settings succeeds");
    if (r) return;
    HZ_CHECK(Config::api_threads == want[2], "API threads");
    HZ_CHECK(Config::api_port == want[3], "API port");
    HZ_CHECK(Config::api_timeout == (uint32_t) want[4], "API timeout");
    HZ_CHECK(Config::processor_threads == want[5], "processor threads");
    HZ_CHECK(Config::host_max_memory == want[6], "maximum memory");
    HZ_CHECK(Config::api_key == wantKey, "API key");
    HZ_CHECK(Config::opencl_kernels == want[7], "OpenCL kernels");
    HZ_CHECK(Config::opencl_device_regex == wantPat, "OpenCL device pattern");
#ifdef HZIP_ENABLE_OPENCL
    HZ_CHECK(Config::opencl_support_enabled == (ndev > 0), "OpenCL is used if there is a device");
    if (ndev) HZ_CHECK(hzopencl::DeviceProvider::get_devices().size() == (filtered ? 1 : ndev), "the device pattern is applied");
#else
    HZ_CHECK(!Config::opencl_support_enabled, "no OpenCL without support for it");
#endif
    rainman::cache *seen[8];
    for (uint64_t i = 0; i <= want[1]; i++) {
        auto c = hzruntime::CacheProvider::get_cache();
        if (i == want[1]) { HZ_CHECK(&c.first == seen[0], "exactly the configured number of caches"); break; }
        seen[i] = &c.first;
        for (uint64_t k = 0; k < i; k++) HZ_CHECK(seen[k] != seen[i], "as many different caches as configured");
        HZ_CHECK(c.first.hz_page == want[0], "the cache page size");
        HZ_CHECK(c.first.hz_file.size() >= wantFile.size() && c.first.hz_file.compare(0, wantFile.size(), wantFile) == 0, "the cache file name");
    }
    hzs_reach("configured");
}

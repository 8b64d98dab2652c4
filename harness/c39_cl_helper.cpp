// C39: device, program and kernel providers under histories of loading, filtering, registering, clearing and requesting.
#include <hzip_core/opencl/cl_helper.h>
#include <hz_cl.h>
using namespace hzopencl;
static const int PLAT[4][3] = {{0}, {0}, {1, 0}, {0, 0, 1}};       // platforms of sets of 0..3 devices
static char names[16][3];                                         // device names: two arbitrary letters or digits
static int usedNames;
static char letter(const char *what) { char c = hz_sym<char>(what); hzs_assume(((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9'))); return c; }
static const char *NAMES[3] = {"first", "second", "third"};
// ---- the expected state
static std::vector<cl_device_id> *cur;            // loaded devices, in order
static std::vector<const char *> *curName;
static bool registered[3];
static int generation;
static int next = -1;                             // device expected next, -1: any
static int failCode, failStatus, builds; static uint8_t failAt;      // failCode 0: builds
int hz_cl_build_result(cl_device_id, const char *) { return failCode && builds++ == failAt ? failCode : CL_SUCCESS; }
int hz_cl_build_status() { return failStatus; }
static std::string sourceOf(int name) { return std::string("source of ") + NAMES[name] + (char) ('a' + generation); }
static void dropped() { for (bool &r: registered) r = false; next = -1; }
static void load(int n) {
    hz_cl_reset_devices();
    hz_cl_platforms = 2;
    cur->clear(); curName->clear();
    for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) if (PLAT[n][i] == p) {
        char *nm = names[usedNames++ % 16];
        nm[0] = letter("name"); nm[1] = letter("name"); nm[2] = 0;
        cur->push_back(hz_cl_add_device(p, nm)); curName->push_back(nm);
    }
    int r;
    HZ_TRY(r, DeviceProvider::load_devices());
    HZ_CHECK(r == 0, "devices can be loaded");
    generation++;
    dropped();
}
static void filter() {
    int r;
    static char pattern[2];
    pattern[0] = letter("pattern");
    HZ_TRY(r, DeviceProvider::filter_devices(pattern));
    if (cur->empty()) { HZ_CHECK(r == 1, "filtering no devices is an error"); return; }
    HZ_CHECK(r == 0, "devices can be filtered");
    std::vector<cl_device_id> kept; std::vector<const char *> keptName;
    for (size_t i = 0; i < cur->size(); i++) if (hzs_fork(((*curName)[i][0] == pattern[0]) | ((*curName)[i][1] == pattern[0]))) { kept.push_back((*cur)[i]); keptName.push_back((*curName)[i]); }
    *cur = kept; *curName = keptName;
    generation++;
    dropped();
}
static void checkDevices() {
    HZ_CHECK(DeviceProvider::empty() == cur->empty(), "emptiness of the device provider");
    int r; std::vector<cl::Device> got;
    HZ_TRY(r, got = DeviceProvider::get_devices());
    if (cur->empty()) { HZ_CHECK(r == 1, "requesting devices while there are none is an error"); return; }
    HZ_CHECK(r == 0 && got.size() == cur->size(), "exactly the loaded and kept devices");
    for (size_t i = 0; i < got.size() && i < cur->size(); i++) HZ_CHECK(got[i]() == (*cur)[i], "the loaded devices in order");
}
static void reg(int name, bool fail) {
    failCode = 0; builds = 0; failAt = 255;
    if (fail) { failCode = hz_sym<int>("error"); failStatus = hz_sym<int>("status"); failAt = hz_sym<uint8_t>("failing-device"); hzs_assume(failCode != 0 && failAt < 3); }
    int r;
    HZ_TRY(r, ProgramProvider::register_program(NAMES[name], sourceOf(name)));
    if (registered[name]) { HZ_CHECK(r == 0, "registering a registered program again has no effect"); return; }
    if (cur->empty()) { HZ_CHECK(r == 1, "registering without devices is an error"); return; }
    if (fail && hzs_fork(failAt < cur->size())) { HZ_CHECK(r == 1, "a failed build is reported"); hzs_reach("build-failed"); return; }
    HZ_CHECK(r == 0, "a program that builds can be registered");
    registered[name] = true;
}
static void program(cl_program p, std::mutex *m, int name) {
    HZ_CHECK(hz_cl_program_built(p), "the program was built");
    HZ_CHECK(sourceOf(name) == hz_cl_program_source(p), "the program has the registered source");
    int at = -1;
    for (size_t i = 0; i < cur->size(); i++) if ((*cur)[i] == hz_cl_program_device(p)) at = (int) i;
    HZ_CHECK(at >= 0, "the program's device exists");
    if (at < 0) return;
    if (next >= 0) HZ_CHECK(at == next, "devices are used in turn");
    next = (at + 1) % (int) cur->size();
    HZ_CHECK(m == &DeviceProvider::get_mutex((uint64_t) at), "the device's own lock");
    for (size_t i = 0; i < cur->size(); i++) if ((int) i != at) HZ_CHECK(m != &DeviceProvider::get_mutex(i), "no two devices share a lock");
}
static void get(int name, int kind) {
    int r = 0;
    try {
        if (kind == 0) { auto x = ProgramProvider::get(NAMES[name]); HZ_CHECK(registered[name], "an unknown name is an error"); program(x.first(), &x.second, name); }
        else if (kind == 1) { auto x = KernelProvider::get(NAMES[name]); HZ_CHECK(registered[name], "an unknown name is an error"); program(x.first.getInfo<CL_KERNEL_PROGRAM>()(), &x.second, name); HZ_CHECK(x.first.getInfo<CL_KERNEL_FUNCTION_NAME>() == "run", "the default kernel"); }
        else { auto x = KernelProvider::get(NAMES[name], "task"); HZ_CHECK(registered[name], "an unknown name is an error"); program(x.first.getInfo<CL_KERNEL_PROGRAM>()(), &x.second, name); HZ_CHECK(x.first.getInfo<CL_KERNEL_FUNCTION_NAME>() == "task", "the requested kernel"); }
    } catch (const std::exception &) { r = 1; }
    HZ_CHECK(r == (registered[name] ? 0 : 1), "a registered program is available, any other is an error");
    if (r) hzs_reach("unknown"); else hzs_reach("program");
}
static void clear() { ProgramProvider::clear(); for (bool &r: registered) r = false; generation++; }
extern "C" void hz_main() {
    std::vector<cl_device_id> devs; std::vector<const char *> nms;
    cur = &devs; curName = &nms;
    generation = 0;
    if (hzs_param("mode", 0) == 0) {                  // two rounds of (change, register, request)
        checkDevices();
        load((int) hz_pick(4, "devices"));
        for (int round = 0; round < 2; round++) {
            uint64_t change = hz_pick(round ? 7 : 2, "change");
            if (change == 1) filter();
            else if (change >= 3) load((int) change - 3);
            else if (change == 2) clear();
            checkDevices();
            if (round && hz_pick(2, "fails")) { reg(0, true); if (hz_pick(2, "retry")) reg(0, false); }
            else reg(0, false);
            uint64_t gets = hz_pick(round ? 4 : 3, "requests");
            for (uint64_t i = 0; i < gets; i++) get(0, (int) i % 3);
            get(2, 0);
        }
        checkDevices();
        hzs_reach("rounds");
        return;
    }
    load((int) hz_pick(4, "devices"));
    for (uint64_t k = hzs_param("k", 3); k; k--) {    // any history
        switch (hz_pick(6, "operation")) {
            case 0: load((int) hz_pick(4, "devices")); break;
            case 1: filter(); break;
            case 2: clear(); break;
            case 3: reg((int) hz_pick(2, "name"), false); break;
            case 4: get((int) hz_pick(2, "name"), 0); break;
            default: reg((int) hz_pick(2, "name"), true);
        }
    }
    checkDevices();
    hzs_reach("history");
}

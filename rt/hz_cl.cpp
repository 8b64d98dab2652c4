// Model of the OpenCL C API: platforms and devices set by the harness, programs that are source texts, kernels with recorded
// arguments, buffers that are heap blocks, queues that run every command at once.  Handles are counted and checked.
#include <CL/cl.h>
#include <cstring>
#include <cstdlib>
#include "hz_cl.h"
#define WEAK __attribute__((weak))
struct hz_clobj { int kind, refs; };
struct _cl_platform_id { int index; };
struct _cl_device_id { int platform; const char *name; bool present; };
struct _cl_context { hz_clobj o; cl_device_id dev; };
struct _cl_program { hz_clobj o; cl_context ctx; std::string *src; bool built; int result; };
struct _cl_kernel { hz_clobj o; cl_program prog; std::string *name; unsigned char arg[16][16]; size_t size[16]; bool set[16]; };
struct _cl_mem { hz_clobj o; unsigned char *data; size_t size; };
struct _cl_command_queue { hz_clobj o; cl_device_id dev; };
int hz_cl_platforms = 1, hz_cl_live = 0;
static _cl_platform_id plats[4] = {{0}, {1}, {2}, {3}};
static _cl_device_id devs[8];
static int ndevs = 0;
void hz_cl_reset_devices() { ndevs = 0; }
cl_device_id hz_cl_add_device(int platform, const char *name) { devs[ndevs].platform = platform; devs[ndevs].name = name; devs[ndevs].present = true; return &devs[ndevs++]; }
int hz_cl_device_index(cl_device_id d) { for (int i = 0; i < ndevs; i++) if (d == &devs[i]) return i; return -1; }
cl_device_id hz_cl_program_device(cl_program p) { return p->ctx->dev; }
const char *hz_cl_program_source(cl_program p) { return p->src->c_str(); }
bool hz_cl_program_built(cl_program p) { return p->built; }
WEAK int hz_cl_build_result(cl_device_id, const char *) { return CL_SUCCESS; }      // CL_BUILD_PROGRAM_FAILURE or another error
WEAK int hz_cl_build_status() { return CL_BUILD_ERROR; }
bool hz_cl_backwards = false;
WEAK int hz_cl_run(const char *, void **, size_t *, size_t, size_t, size_t) { hzs_fail("no kernel code"); return 0; }
unsigned long hz_cl_local = 1;
template<typename T> static T *mk(int kind) { T *p = new T(); p->o.kind = kind; p->o.refs = 1; hz_cl_live++; return p; }
static int ret(hz_clobj &o) { if (o.refs <= 0) hzs_fail("OpenCL object retained after its release"); o.refs++; return CL_SUCCESS; }
static bool rel(hz_clobj &o) { if (o.refs <= 0) hzs_fail("OpenCL object released more often than retained"); if (--o.refs) return false; hz_cl_live--; return true; }
static int info(const void *v, size_t n, size_t size, void *out, size_t *rsize) {
    if (rsize) *rsize = n;
    if (out) { if (size < n) return CL_INVALID_VALUE; memcpy(out, v, n); }
    return CL_SUCCESS;
}
extern "C" {
int hz_clGetPlatformIDs(unsigned n, cl_platform_id *p, unsigned *num) {
    if (!hz_cl_platforms) return -1001;
    if (num) *num = (unsigned) hz_cl_platforms;
    if (p) for (int i = 0; i < hz_cl_platforms && i < (int) n; i++) p[i] = &plats[i];
    return CL_SUCCESS;
}
int hz_clGetPlatformInfo(cl_platform_id, unsigned what, size_t size, void *out, size_t *rsize) {
    const char *s = what == CL_PLATFORM_VERSION ? "OpenCL 2.0 model" : "model";
    return info(s, strlen(s) + 1, size, out, rsize);
}
int hz_clGetDeviceIDs(cl_platform_id p, unsigned long, unsigned n, cl_device_id *out, unsigned *num) {
    unsigned k = 0;
    for (int i = 0; i < ndevs; i++) if (devs[i].platform == p->index) { if (out && k < n) out[k] = &devs[i]; k++; }
    if (num) *num = k;
    return k ? CL_SUCCESS : CL_DEVICE_NOT_FOUND;
}
int hz_clGetDeviceInfo(cl_device_id d, unsigned what, size_t size, void *out, size_t *rsize) {
    if (hz_cl_device_index(d) < 0) { hzs_fail("OpenCL call with an unknown device"); return CL_INVALID_DEVICE; }
    if (what == CL_DEVICE_NAME) return info(d->name, strlen(d->name) + 1, size, out, rsize);
    if (what == CL_DEVICE_PLATFORM) { void *p = &plats[d->platform]; return info(&p, 8, size, out, rsize); }
    if (what == CL_DEVICE_VERSION) return info("OpenCL 2.0 model", 17, size, out, rsize);
    unsigned long v = 1;
    return info(&v, size && size < 8 ? size : 8, size, out, rsize);
}
int hz_clRetainDevice(cl_device_id d) { if (hz_cl_device_index(d) < 0) hzs_fail("OpenCL call with an unknown device"); return CL_SUCCESS; }
int hz_clReleaseDevice(cl_device_id d) { return CL_SUCCESS; }
cl_context hz_clCreateContext(const void *, unsigned n, const cl_device_id *d, void *, void *, int *err) {
    if (n != 1 || hz_cl_device_index(*d) < 0) { hzs_fail("OpenCL context for an unknown device"); }
    auto c = mk<_cl_context>(1); c->dev = *d;
    if (err) *err = CL_SUCCESS;
    return c;
}
int hz_clRetainContext(cl_context c) { return ret(c->o); }
int hz_clReleaseContext(cl_context c) { if (rel(c->o)) {} return CL_SUCCESS; }
int hz_clGetContextInfo(cl_context c, unsigned what, size_t size, void *out, size_t *rsize) {
    if (what == CL_CONTEXT_NUM_DEVICES) { unsigned v = 1; return info(&v, 4, size, out, rsize); }
    if (what == CL_CONTEXT_REFERENCE_COUNT) { unsigned v = (unsigned) c->o.refs; return info(&v, 4, size, out, rsize); }
    return info(&c->dev, 8, size, out, rsize);
}
cl_program hz_clCreateProgramWithSource(cl_context c, unsigned n, const char **s, const size_t *len, int *err) {
    auto p = mk<_cl_program>(2); p->ctx = c; c->o.refs++; p->src = new std::string(); p->built = false; p->result = 0;
    for (unsigned i = 0; i < n; i++) if (len && len[i]) p->src->append(s[i], len[i]); else p->src->append(s[i]);
    if (err) *err = CL_SUCCESS;
    return p;
}
int hz_clRetainProgram(cl_program p) { return ret(p->o); }
int hz_clReleaseProgram(cl_program p) { if (rel(p->o)) { hz_clReleaseContext(p->ctx); delete p->src; p->src = nullptr; } return CL_SUCCESS; }
int hz_clBuildProgram(cl_program p, unsigned, const cl_device_id *, const char *, void *, void *) {
    p->result = hz_cl_build_result(p->ctx->dev, p->src->c_str());
    if (p->result == CL_SUCCESS) p->built = true;
    return p->result;
}
int hz_clGetProgramBuildInfo(cl_program p, cl_device_id d, unsigned what, size_t size, void *out, size_t *rsize) {
    if (what == CL_PROGRAM_BUILD_STATUS) { int v = p->built ? CL_BUILD_SUCCESS : hz_cl_build_status(); return info(&v, 4, size, out, rsize); }
    return info("log", 4, size, out, rsize);
}
int hz_clGetProgramInfo(cl_program p, unsigned what, size_t size, void *out, size_t *rsize) {
    if (what == CL_PROGRAM_NUM_DEVICES) { unsigned v = 1; return info(&v, 4, size, out, rsize); }
    if (what == CL_PROGRAM_DEVICES) return info(&p->ctx->dev, 8, size, out, rsize);
    if (what == CL_PROGRAM_SOURCE) return info(p->src->c_str(), p->src->size() + 1, size, out, rsize);
    return info(&p->ctx, 8, size, out, rsize);
}
cl_kernel hz_clCreateKernel(cl_program p, const char *name, int *err) {
    if (!p->built) { hzs_fail("kernel of a program that is not built"); }
    auto k = mk<_cl_kernel>(3); k->prog = p; p->o.refs++; k->name = new std::string(name);
    for (int i = 0; i < 16; i++) k->set[i] = false;
    if (err) *err = CL_SUCCESS;
    return k;
}
int hz_clRetainKernel(cl_kernel k) { return ret(k->o); }
int hz_clReleaseKernel(cl_kernel k) { if (rel(k->o)) { hz_clReleaseProgram(k->prog); delete k->name; k->name = nullptr; } return CL_SUCCESS; }
int hz_clSetKernelArg(cl_kernel k, unsigned i, size_t n, const void *v) {
    if (i >= 16 || n > 16) { hzs_fail("kernel argument out of range"); return CL_INVALID_ARG_INDEX; }
    memcpy(k->arg[i], v, n); k->size[i] = n; k->set[i] = true;
    return CL_SUCCESS;
}
int hz_clGetKernelInfo(cl_kernel k, unsigned what, size_t size, void *out, size_t *rsize) {
    if (what == CL_KERNEL_CONTEXT) return info(&k->prog->ctx, 8, size, out, rsize);
    if (what == CL_KERNEL_PROGRAM) return info(&k->prog, 8, size, out, rsize);
    return info(k->name->c_str(), k->name->size() + 1, size, out, rsize);
}
int hz_clGetKernelWorkGroupInfo(cl_kernel, cl_device_id, unsigned, size_t size, void *out, size_t *rsize) { size_t v = hz_cl_local; return info(&v, 8, size, out, rsize); }
cl_mem hz_clCreateBuffer(cl_context, unsigned long flags, size_t size, void *host, int *err) {
    auto m = mk<_cl_mem>(4);
    if (!size) { if (err) *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
    m->data = (unsigned char *) malloc(size); m->size = size;
    if (flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR)) memcpy(m->data, host, size);
    if (err) *err = CL_SUCCESS;
    return m;
}
int hz_clRetainMemObject(cl_mem m) { return ret(m->o); }
int hz_clReleaseMemObject(cl_mem m) { if (rel(m->o)) { free(m->data); m->data = nullptr; } return CL_SUCCESS; }
cl_command_queue hz_clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const void *, int *err) {
    if (c->dev != d) hzs_fail("command queue for a device outside its context");
    auto q = mk<_cl_command_queue>(5); q->dev = d;
    if (err) *err = CL_SUCCESS;
    return q;
}
cl_command_queue hz_clCreateCommandQueue(cl_context c, cl_device_id d, unsigned long, int *err) { return hz_clCreateCommandQueueWithProperties(c, d, nullptr, err); }
int hz_clRetainCommandQueue(cl_command_queue q) { return ret(q->o); }
int hz_clReleaseCommandQueue(cl_command_queue q) { rel(q->o); return CL_SUCCESS; }
int hz_clEnqueueNDRangeKernel(cl_command_queue, cl_kernel k, unsigned dim, const size_t *off, const size_t *global, const size_t *local, unsigned, const void *, void *ev) {
    if (dim != 1) { hzs_fail("kernel dimension"); return CL_INVALID_WORK_DIMENSION; }
    if (!*global) return CL_INVALID_GLOBAL_WORK_SIZE;
    if (local && *local && *global % *local) return CL_INVALID_WORK_GROUP_SIZE;
    void *args[16]; size_t n = 0;
    for (; n < 16 && k->set[n]; n++) args[n] = k->arg[n];
    return hz_cl_run(k->name->c_str(), args, k->size, n, off ? *off : 0, *global);
}
int hz_clEnqueueFillBuffer(cl_command_queue, cl_mem m, const void *pat, size_t np, size_t off, size_t n, unsigned, const void *, void *) {
    if (off > m->size || n > m->size - off || !np || n % np || off % np) { hzs_fail("buffer fill out of range"); return CL_INVALID_VALUE; }
    bool zero = true;
    for (size_t i = 0; i < np; i++) zero = zero && !((const unsigned char *) pat)[i];
    if (zero) memset(m->data + off, 0, n);
    else for (size_t i = 0; i < n; i++) m->data[off + i] = ((const unsigned char *) pat)[i % np];
    return CL_SUCCESS;
}
int hz_clEnqueueBarrierWithWaitList(cl_command_queue, unsigned, const void *, void *) { return CL_SUCCESS; }
int hz_clEnqueueReadBuffer(cl_command_queue, cl_mem m, unsigned, size_t off, size_t n, void *p, unsigned, const void *, void *) {
    if (off > m->size || n > m->size - off) { hzs_fail("buffer read out of range"); return CL_INVALID_VALUE; }
    memcpy(p, m->data + off, n);
    return CL_SUCCESS;
}
int hz_clEnqueueWriteBuffer(cl_command_queue, cl_mem m, unsigned, size_t off, size_t n, const void *p, unsigned, const void *, void *) {
    if (off > m->size || n > m->size - off) { hzs_fail("buffer write out of range"); return CL_INVALID_VALUE; }
    memcpy(m->data + off, p, n);
    return CL_SUCCESS;
}
int hz_clFlush(cl_command_queue) { return CL_SUCCESS; }
int hz_clFinish(cl_command_queue) { return CL_SUCCESS; }
int hz_clReleaseEvent(void *) { return CL_SUCCESS; }
int hz_clWaitForEvents(unsigned, const void *) { return CL_SUCCESS; }
}
void *hz_cl_mem_data(void *arg) { return (*(cl_mem *) arg)->data; }
size_t hz_cl_mem_size(void *arg) { return (*(cl_mem *) arg)->size; }

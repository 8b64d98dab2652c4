// What harnesses see of the OpenCL model in rt/hz_cl.cpp.
#pragma once
#include <CL/cl.h>
extern int hz_cl_platforms, hz_cl_live;
extern unsigned long hz_cl_local;                        // preferred work group size multiple
void hz_cl_reset_devices();
cl_device_id hz_cl_add_device(int platform, const char *name);
int hz_cl_device_index(cl_device_id d);                  // -1: unknown
cl_device_id hz_cl_program_device(cl_program p);
const char *hz_cl_program_source(cl_program p);
bool hz_cl_program_built(cl_program p);
int hz_cl_build_result(cl_device_id d, const char *src);
int hz_cl_build_status();
int hz_cl_run(const char *kernel, void **args, size_t *sizes, size_t nargs, size_t offset, size_t global);
extern bool hz_cl_backwards;                              // run the work items in reverse order
void *hz_cl_mem_data(void *arg);
size_t hz_cl_mem_size(void *arg);

// Prints the OpenCL program text the Paeth filter registers.
#include <hzip_core/models/paeth.h>
#include "dump_cl.h"
extern "C" void hz_main() { dump_setup(); hzmodels::LinearU16PaethDifferential::register_opencl_program(); }

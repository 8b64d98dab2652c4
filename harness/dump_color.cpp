// Prints the OpenCL program text the colour transformer registers.
#include <hzip_core/preprocessor/color.h>
#include "dump_cl.h"
extern "C" void hz_main() { dump_setup(); hztrans::LinearU16XColorTransformer::register_opencl_program(); }

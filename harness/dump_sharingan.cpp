// Prints the OpenCL program text the image codec registers.
#include <hzip_codec/sharingan/state_transition.h>
#include "dump_cl.h"
extern "C" void hz_main() { dump_setup(); SharinganStateTransition::register_opencl_program(); }

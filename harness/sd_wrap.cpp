/* the SD wrapper of the repository, compiled for the host */
#define ARDUINO 100
#include "stub/sdfatcfg.h"
#include "sdcard_c_iface.cpp"

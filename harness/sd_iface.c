/* the SD-card adaptor of the repository, compiled for the host */
#define ARDUINO 100
#include "SDFileInterface.c"

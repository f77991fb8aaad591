/* the dataflash adaptor, taking its memory from the check; nothing is stored */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
#define malloc vp_malloc
#define calloc vp_calloc
#include "dataflashFileInterface.c"

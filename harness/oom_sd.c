/* the SD-card adaptor, taking its memory from the check; nothing is stored */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define ARDUINO 100
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
#define malloc vp_malloc
#define calloc vp_calloc
#define FILE_READ SD_READ
#define FILE_WRITE SD_WRITE
#define FILE_ERASE SD_ERASE
#define FILE_OPEN SD_OPEN
#define FILE_CLOSE SD_CLOSE
#define FILE_FLUSH SD_FLUSH
#include "SDFileInterface.c"

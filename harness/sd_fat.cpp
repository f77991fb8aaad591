/* the FAT file system of the SdFat library in the repository, compiled for the host */
#define ARDUINO 100
#include "stub/sdfatcfg.h"
#include "FatLib/FatFile.cpp"
#undef DBG_FILE
#include "FatLib/FatFileLFN.cpp"
#undef DBG_FILE
#include "FatLib/FatFileSFN.cpp"
#undef DBG_FILE
#include "FatLib/FatFormatter.cpp"
#undef DBG_FILE
#include "FatLib/FatPartition.cpp"
#undef DBG_FILE
#include "FatLib/FatVolume.cpp"
#undef DBG_FILE
#include "common/FsCache.cpp"
#undef DBG_FILE
#include "common/FsStructs.cpp"
#undef DBG_FILE
#include "common/FsDateTime.cpp"
#undef DBG_FILE
#include "common/FmtNumber.cpp"

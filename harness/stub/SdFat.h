/* the repository's SdFat library without its SPI drivers, over any block device */
#ifndef STUB_SDFAT_H
#define STUB_SDFAT_H
#include "sdfatcfg.h"
#include "common/SysCall.h"
#include "FatLib/FatLib.h"
class SdFat32 : public FatVolume {};
#endif

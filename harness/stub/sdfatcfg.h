/* replaces SdFatConfig.h: as for an ARM board, with a generic block device */
#define SdFatConfig_h
#define SdCard_h
#include <stdint.h>
#include "Arduino.h"
#include "common/BlockDeviceInterface.h"
#define ENABLE_ARDUINO_FEATURES 1
#define ENABLE_ARDUINO_SERIAL 0
#define ENABLE_ARDUINO_STRING 0
#define USE_BLOCK_DEVICE_INTERFACE 1
#define HAS_SDIO_CLASS 0
#define INCLUDE_SDIOS 0
#define USE_FAT_FILE_FLAG_CONTIGUOUS 1
#define SDFAT_FILE_TYPE 1
#define ENABLE_DEDICATED_SPI 1
#define USE_LONG_FILE_NAMES 1
#define FS_DEFAULT_DATE 0x5000
#define FS_DEFAULT_TIME 0
#define CHECK_FLASH_PROGRAMMING 0
#define MAINTAIN_FREE_CLUSTER_COUNT 0
#define USE_SD_CRC 0
#define USE_FCNTL_H 1
#define WDT_YIELD_TIME_MILLIS 0
#define FAT12_SUPPORT 0
#define DESTRUCTOR_CLOSES_FILE 0
#define ENDL_CALLS_FLUSH 0
#define USE_SIMPLE_LITTLE_ENDIAN 1
#define USE_SEPARATE_FAT_CACHE 1
#define USE_MULTI_SECTOR_IO 1

/* stand-in for the Arduino core on the host: what is printed on the serial port is kept, see c39drv.cpp */
#ifndef BOARD_ARDUINO_H
#define BOARD_ARDUINO_H
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" size_t boardSerialWrite(const char *text, size_t length);
#undef printf
class HardwareSerial {
   public:
    void begin(unsigned long) {}
    void end() {}
    void flush() {}
    size_t write(const uint8_t *text, size_t length) { return boardSerialWrite((const char *)text, length); }
    size_t write(uint8_t c) { return write(&c, 1); }
    size_t print(const char *text) { return boardSerialWrite(text, strlen(text)); }
    size_t print(char c) { return write((uint8_t)c); }
    size_t write(const char *text) { return print(text); }
    size_t write(const char *text, size_t length) { return boardSerialWrite(text, length); }
    int availableForWrite() { return 64; }
    operator bool() { return true; }
    size_t println() { return boardSerialWrite("\r\n", 2); }
    size_t println(const char *text) { return print(text) + println(); }
};
extern HardwareSerial Serial;
#else
#ifndef min
#define min(a, b) ((a) < (b) ? (a) : (b))
#endif
#ifndef max
#define max(a, b) ((a) > (b) ? (a) : (b))
#endif
#endif
#endif

/* stand-in for the Arduino core on the host */
#ifndef STUB_ARDUINO_H
#define STUB_ARDUINO_H
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
class __FlashStringHelper;
class Print {
   public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) { return 1; }
    virtual size_t write(const uint8_t *, size_t n) { return n; }
    size_t write(const char *s) { return strlen(s); }
    template <class... T>
    size_t print(T...) { return 0; }
    template <class... T>
    size_t println(T...) { return 0; }
    virtual void flush() {}
};
class Stream : public Print {
   public:
    virtual int available() { return 0; }
    virtual int read() { return -1; }
    virtual int peek() { return -1; }
};
class String {
   public:
    const char *c_str() const { return ""; }
};
inline unsigned long millis() { return 0; }
inline void yield() {}
#endif
#endif

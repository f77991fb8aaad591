// Runs one generated program against the build for the desktop or the one for a board; writes down what can be observed and what was printed, on
// standard output or the serial port.
#define DRIVE drive36
#include "c36drv.cpp"
static const bool board = !strcmp(PBT_VARIANT, "board");
#ifndef DIST
static const bool wrapper = board;
extern "C" size_t boardSerialWrite(const char *text, size_t length) {
    alloc::App app;
    gSerial.append(text, length);
    return length;
}
#include "board/Arduino.h"
HardwareSerial Serial;
extern "C" __attribute__((weak)) int serial_printf_c(const char *format, ...);
#else
static const bool wrapper = false;  // the distribution comes without the serial interface
#define serial_printf_c printf
#endif
// one call with a generated format
static void formats(Ctx &c) {
    Capture cap;
    gCap = &cap;
    size_t longest = 0;
    for (int i = 1 + (int)c.draw(4); i > 0; i--) {
        S fmt;
        auto literal = [&] {
            static const char *parts[] = {"", " ", "ERROR: ", "%%", "\n", "\t[", "100%% of ", ": ", "\"\\", "\x7f\xc3\xa9"};
            fmt += parts[c.draw(10)];
            if (c.chance(1, 12)) fmt += S(c.range(1, 700), 'x');
        };
        auto spec = [&](const char *kinds, const char *length, bool text) {
            literal();
            fmt += '%';
            if (!text) for (const char *f = "-+ 0#"; *f; f++) if ((*f != '#') && c.chance(1, 6)) fmt += *f;
            if (text && c.chance(1, 6)) fmt += '-';
            if (c.chance(1, 3)) fmt += std::to_string(c.range(1, c.chance(1, 10) ? 1500 : 30));
            if (c.chance(1, 4)) fmt += "." + std::to_string(c.draw(c.chance(1, 10) ? 900 : 20));
            fmt += length;
            fmt += kinds[c.draw(strlen(kinds))];
        };
        int n = (int)c.raw64();
        if (c.chance(1, 2)) n %= 1000;
        uint64_t u = c.raw64();
        if (c.chance(1, 2)) u %= 100000;
        S s(c.draw(c.chance(1, 6) ? 3000 : 20), 0), s2 = "%d %s %n";
        for (char &ch : s) ch = (char)c.range(1, 255);
        double d = (double)(int64_t)u / (1 + (double)c.draw(1000));
        int w = (int)c.draw(c.chance(1, 10) ? 1000 : 20);
        char ch = (char)c.range(1, 255);
        spec("diuxXo", "", false);
        spec("uxd", "ll", false);
        spec("s", "", true);
        spec("fgeE", "", false);
        literal();
        fmt += "%*d";
        literal();
        fmt += "%c";
        spec("ux", "l", false);
        literal();
        fmt += "%s";
        literal();
        size_t at = cap.pos();
        int r = wrapper ? serial_printf_c(fmt.c_str(), n, (unsigned long long)u, s.c_str(), d, w, n, ch, (unsigned long)u, s2.c_str()) : printf(fmt.c_str(), n, (unsigned long long)u, s.c_str(), d, w, n, ch, (unsigned long)u, s2.c_str());
        c.log("printf %s -> %d, %zu", hex(Bytes(fmt.begin(), fmt.end())).c_str(), r, (size_t)cap.pos() - at);
        longest = std::max(longest, (size_t)cap.pos() - at);
    }
    if (cap.besideSerial()) c.fail("!the serial wrapper printed to standard output");
    c.tag("calls of printf");
    c.tag("texts of more than 512 characters", longest > 512);
    c.nontrivial();
}
extern "C" __attribute__((visibility("default"))) int drive(Ctx *cp, Shared *sh, std::string *obs, uint8_t junk) {
    gCur = sh;
    gJunk = junk;
    Ctx &c = *cp;
    gShown.clear();
    gSerial.clear();
    gOnSerial = wrapper;
    int r;
    if (c.chance(1, 5)) {
        r = 1;
        try {
            c.obs = obs;
            formats(c);
        } catch (Failure &f) {
            *obs += "FAIL " + f.msg + "\n";
            r = f.msg.find('!') == 0 ? 2 : 1;
        } catch (Discard &) {
            return 3;
        }
    } else {
        r = drive36(cp, sh, obs, junk);
        if (r == 3) return 3;
        if (!gShown.empty()) c.tag("programs during which something was printed");
    }
    c.obs = nullptr;
    *obs += "printed: " + gShown;
    return r;
}

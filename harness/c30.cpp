#include "pbt.hpp"
#include <dlfcn.h>
#include <sanitizer/allocator_interface.h>
using namespace pbt;
// C30: what a program observes does not depend on what memory held before it was set.
// The same program runs with stack variables, fresh allocations and the application's buffers and structures holding other bytes.
static const char *SO[3] = {"zero", "pattern", "pattern"};
static const uint8_t JUNK[3] = {0x00, 0xFF, 0x5A};
typedef int (*Drive)(Ctx *, Shared *, std::string *, uint8_t);
static Drive drives[3];
static uint8_t fill;
static bool filling;
static void onMalloc(const volatile void *p, size_t n) {
    if (filling && p && n <= 60000) memset((void *)p, fill, n);
}
static void onFree(const volatile void *) {}
static void load() {
    if (drives[0]) return;
    for (int i = 0; i < 3; i++) {
        std::string p = std::string(SO_DIR) + "/driver-" + SO[i] + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
        drives[i] = (Drive)dlsym(h, "drive");
        if (!drives[i]) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
    }
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}
static std::string lineAt(const std::string &s, size_t at) {
    size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
    b = b == std::string::npos || at == 0 ? 0 : b + 1;
    if (b >= s.size()) return "nothing more";
    return s.substr(b, std::min<size_t>((e == std::string::npos ? s.size() : e) - b, 400));
}
static int drive(int i, Ctx *k, std::string *obs) {
    fill = JUNK[i];
    filling = true;
    int r = drives[i](k, gCur, obs, JUNK[i]);
    filling = false;
    return r;
}
static void run(Ctx &c) {
    load();
    std::vector<uint64_t> tap;
    std::string obs[3];
    c.tap = &tap;
    int r = drive(0, &c, &obs[0]);
    c.tap = nullptr;
    c.obs = nullptr;
    if (r == 3) throw Discard();
    for (int i = 1; i < 3; i++) {
        Ctx k;
        k.replay = true;
        k.rep = tap.data();
        k.repLen = tap.size();
        int x = drive(i, &k, &obs[i]);
        if (obs[i] == obs[0] && x == r) continue;
        size_t at = 0;
        while (at < obs[0].size() && at < obs[i].size() && obs[0][at] == obs[i][at]) at++;
        c.fail("with memory that held %02x bytes before it was set the program observes \"%s\", with memory that held %02x bytes \"%s\"", JUNK[i], lineAt(obs[i], at).c_str(), JUNK[0], lineAt(obs[0], at).c_str());
    }
    c.tag("observed lines", std::count(obs[0].begin(), obs[0].end(), '\n'));
    c.tagIf(obs[0].find("FAIL ") != std::string::npos, "ended by a failed assertion of the driver");
}
Check pbt::theCheck = {"C30", "programs, run three times over different leftover memory, that wrote more than one page or returned more than two rows or exercised the spline and the bitmaps", run, 16000, 200000};

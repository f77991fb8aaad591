#include "pbt.hpp"
#include <dlfcn.h>
using namespace pbt;
// C25: the single-file distribution behaves like the modular sources.
static const char *NAMES[3] = {"src", "dist", "regen"};
static const char *TEXT[3] = {"the modular sources", "the single-file distribution", "a distribution regenerated from the modular sources"};
typedef int (*Drive)(Ctx *, Shared *, std::string *, uint8_t);
static Drive drives[3];
static void load() {
    if (drives[0]) return;
    for (int i = 0; i < 3; i++) {
        std::string p = std::string(SO_DIR) + "/driver-" + NAMES[i] + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
        drives[i] = (Drive)dlsym(h, "drive");
        if (!drives[i]) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
    }
}
static std::string lineAt(const std::string &s, size_t at) {
    size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
    b = b == std::string::npos || at == 0 ? 0 : b + 1;
    if (b >= s.size()) return "nothing more";
    return s.substr(b, std::min<size_t>((e == std::string::npos ? s.size() : e) - b, 400));
}
static void run(Ctx &c) {
    load();
    std::vector<uint64_t> tap;
    std::string obs[3];
    c.tap = &tap;
    int r = drives[0](&c, gCur, &obs[0], 0xA5);
    c.tap = nullptr;
    c.obs = nullptr;
    if (r == 3) throw Discard();
    for (int i = 1; i < 3; i++) {
        Ctx k;
        k.replay = true;
        k.rep = tap.data();
        k.repLen = tap.size();
        int x = drives[i](&k, gCur, &obs[i], 0xA5);
        if (obs[i] == obs[0] && x == r) continue;
        size_t at = 0;
        while (at < obs[0].size() && at < obs[i].size() && obs[0][at] == obs[i][at]) at++;
        c.fail("%s behave differently from %s: \"%s\" and \"%s\"", TEXT[i], TEXT[0], lineAt(obs[i], at).c_str(), lineAt(obs[0], at).c_str());
    }
    c.tag("observed lines", std::count(obs[0].begin(), obs[0].end(), '\n'));
    c.tagIf(obs[0].find("FAIL ") != std::string::npos, "ended by a failed assertion of the driver");
}
Check pbt::theCheck = {"C25", "programs, run against all three builds, that wrote more than one page or returned more than two rows or exercised the spline and the bitmaps", run, 30000, 300000};

#include "pbt.hpp"
#include <dlfcn.h>
using namespace pbt;
// C36: the library prints nothing unless it is asked to, and what it prints is true.
static const char *NAMES[2] = {"silent", "loud"};
typedef int (*Drive)(Ctx *, Shared *, std::string *, uint8_t);
static Drive drives[2];
static void load() {
    if (drives[0]) return;
    for (int i = 0; i < 2; i++) {
        std::string p = std::string(SO_DIR) + "/driver-" + NAMES[i] + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
        drives[i] = (Drive)dlsym(h, "drive");
        if (!drives[i]) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
    }
}
static std::string lineAt(const std::string &s, size_t at) {
    size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
    b = b == std::string::npos || at == 0 ? 0 : b + 1;
    if (b >= s.size()) return "nothing more";
    return s.substr(b, std::min<size_t>((e == std::string::npos ? s.size() : e) - b, 400));
}
static std::string lastLine(std::string s) {
    while (!s.empty() && s.back() == '\n') s.pop_back();
    size_t b = s.rfind("FAIL !");
    return b == std::string::npos ? s : s.substr(b + 6);
}
static void run(Ctx &c) {
    load();
    std::vector<uint64_t> tap;
    std::string obs[2];
    c.tap = &tap;
    int r = drives[0](&c, gCur, &obs[0], 0xA5);
    c.tap = nullptr;
    c.obs = nullptr;
    if (r == 3) throw Discard();
    if (r == 2) c.fail("%s", lastLine(obs[0]).c_str());
    Ctx k;
    k.replay = true;
    k.sh = c.sh;
    k.rep = tap.data();
    k.repLen = tap.size();
    int x = drives[1](&k, gCur, &obs[1], 0xA5);
    if (x == 2) c.fail("%s", lastLine(obs[1]).c_str());
    if (obs[1] == obs[0] && x == r) return;
    size_t at = 0;
    while (at < obs[0].size() && at < obs[1].size() && obs[0][at] == obs[1][at]) at++;
    c.fail("the build with PRINT_ERRORS behaves differently from the one without: \"%s\" and \"%s\"", lineAt(obs[1], at).c_str(), lineAt(obs[0], at).c_str());
}
Check pbt::theCheck = {"C36", "programs with a call that failed or a state, spline or schema that was printed, or with more than one page written or more than two rows returned", run, 20000, 250000};

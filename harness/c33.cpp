#include "pbt.hpp"
#include <dlfcn.h>
#include <sys/prctl.h>
using namespace pbt;
// C33: the code built for a 32-bit processor gives the same results and the same stored bytes as built for a 64-bit one.
// The 32-bit program runs as a process of its own (x32/server.cpp) that replays the choices this one made.
typedef int (*Drive)(Ctx *, Shared *, std::string *, uint8_t);
static Drive drv64;
static pid_t owner, server;
static int toServer = -1, fromServer = -1;
static void broken(const char *what) {
    fprintf(stderr, "the 32-bit program %s\n", what);
    _exit(2);
}
static void load() {
    if (!drv64) {
        void *h = dlopen((std::string(SO_DIR) + "/driver-m64.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h || !(drv64 = (Drive)dlsym(h, "drive"))) {
            fprintf(stderr, "%s\n", dlerror());
            _exit(2);
        }
    }
    if (owner == getpid()) return;
    if (toServer >= 0) {  // inherited over a fork
        close(toServer);
        close(fromServer);
    }
    owner = getpid();
    int a[2], b[2];
    if (pipe(a) || pipe(b)) broken("has no pipes");
    server = fork();
    if (server == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(a[0], 0);
        dup2(b[1], 1);
        for (int i = 3; i < 256; i++) close(i);
        execl((std::string(SO_DIR) + "/driver32").c_str(), "driver32", (char *)nullptr);
        _exit(127);
    }
    close(a[0]);
    close(b[1]);
    toServer = a[1];
    fromServer = b[0];
}
static bool full(int fd, void *p, size_t n, bool in) {
    for (size_t d = 0; d < n;) {
        ssize_t k = in ? read(fd, (char *)p + d, n - d) : write(fd, (char *)p + d, n - d);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        d += k;
    }
    return true;
}
static std::string lineAt(const std::string &s, size_t at) {
    size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
    b = b == std::string::npos || at == 0 ? 0 : b + 1;
    if (b >= s.size()) return "nothing more";
    return s.substr(b, std::min<size_t>((e == std::string::npos ? s.size() : e) - b, 400));
}
static void run(Ctx &c) {
    load();
    std::vector<uint64_t> tap;
    std::string obs, o32;
    c.tap = &tap;
    int r = drv64(&c, gCur, &obs, 0xA5);
    c.tap = nullptr;
    c.obs = nullptr;
    if (r == 3) throw Discard();
    uint64_t n = tap.size();
    int32_t head[2];
    if (!full(toServer, &n, sizeof n, false) || !full(toServer, tap.data(), n * 8, false) || !full(fromServer, head, sizeof head, true)) broken("does not run or does not answer");
    o32.resize(head[1]);
    if (!full(fromServer, &o32[0], o32.size(), true)) broken("stopped in the middle of an answer");
    if (obs.size() > (48u << 20)) throw Discard();
    if (head[0] == 2) c.fail("the 32-bit build crashed, hung or executed an undefined operation after \"%s\", unlike the 64-bit one", lineAt(o32, o32.empty() ? 0 : o32.size() - 1).c_str());
    if (o32 != obs) {
        size_t at = 0;
        while (at < obs.size() && at < o32.size() && o32[at] == obs[at]) at++;
        c.fail("the 32-bit build behaves differently from the 64-bit one: \"%s\" and \"%s\"", lineAt(o32, at).c_str(), lineAt(obs, at).c_str());
    }
    c.tag("observed lines", std::count(obs.begin(), obs.end(), '\n'));
    c.tagIf(obs.find("FAIL ") != std::string::npos, "ended by a failed assertion of the driver");
}
Check pbt::theCheck = {"C33", "programs, run by both builds, that wrote more than one page or returned more than two rows or exercised the spline and the bitmaps", run, 16000, 200000};

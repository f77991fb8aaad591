#include "pbt.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace pbt;
// C40: what different threads do with the library does not meet.
// Each program is run alone and then all of them at once, each in a thread of its own. One thread runs at a time; at every call from the library to the
// application the schedule may let another go on. The hand-over is made with futexes, which the race detector does not see, so that for it the threads
// are not ordered.
static const int MOST = 3;
typedef int (*Drive)(Ctx *, Shared *, std::string *, uint8_t);
static Drive drives[MOST];
static void load() {
    if (drives[0]) return;
    for (int i = 0; i < MOST; i++) {
        std::string p = std::string(SO_PREFIX) + "-" + std::to_string(i) + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
        drives[i] = (Drive)dlsym(h, "drive");
        auto y = (void (*)(void (*)()))dlsym(h, "setYield");
        auto d = (void (*)(const char *))dlsym(h, "setDir");
        extern void yieldHere();
        y(yieldHere);
        std::string dir = std::string(gTmpDir) + "/t" + std::to_string(getpid()) + "-" + std::to_string(i);
        mkdir(dir.c_str(), 0700);
        d(dir.c_str());
    }
}
static volatile int gTurn = -1;  // the thread that runs, -1: they are not taking turns
static volatile int gDone[MOST];
static int gThreads;
static uint64_t gSchedule;
static int gRunLength;
static volatile uint64_t gSwitches;
static thread_local int me = -1;
static void await(int who) {
    int t;
    for (int i = 0; i < 200 && (t = __atomic_load_n(&gTurn, __ATOMIC_SEQ_CST)) != who; i++) {  // goes on after a while if the others wait for this thread
        struct timespec ts = {0, 10000000};
        syscall(SYS_futex, &gTurn, FUTEX_WAIT, t, &ts, nullptr, 0);
    }
}
static void pass(int to) {
    __atomic_store_n(&gTurn, to, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &gTurn, FUTEX_WAKE, 64, nullptr, nullptr, 0);
}
static int another() {
    int start = (int)(splitmix(gSchedule) % gThreads);
    for (int k = 0; k < gThreads; k++) {
        int t = (start + k) % gThreads;
        if (t != me && !gDone[t]) return t;
    }
    return -1;
}
void yieldHere() {
    if (me < 0 || gTurn != me) return;
    if (splitmix(gSchedule) % gRunLength) return;
    int t = another();
    if (t < 0) return;
    gSwitches = gSwitches + 1;
    pass(t);
    await(me);
}
struct Job {
    int i;
    Ctx c;
    Shared *sh;
    std::string obs;
    int r;
};
static void *work(void *p) {
    Job *j = (Job *)p;
    me = j->i;
    await(me);
    j->r = drives[j->i](&j->c, j->sh, &j->obs, 0xA5);
    gDone[me] = 1;
    int t = another();
    pass(t);
    return nullptr;
}
static std::string lineAt(const std::string &s, size_t at) {
    size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
    b = b == std::string::npos || at == 0 ? 0 : b + 1;
    if (b >= s.size()) return "nothing more";
    return s.substr(b, std::min<size_t>((e == std::string::npos ? s.size() : e) - b, 400));
}
static void run(Ctx &c) {
    load();
    static Shared *spare[MOST];
    int n = 2 + (int)c.draw(MOST - 1);
    gRunLength = c.pick({1, 2, 3, 8, 40});
    uint64_t schedule = c.raw64();
    std::vector<uint64_t> tap[MOST];
    std::string alone[MOST];
    int r[MOST];
    me = -1;
    for (int i = 0; i < n; i++) {
        c.log("program %d:", i);
        c.tap = &tap[i];
        r[i] = drives[i](&c, gCur, &alone[i], 0xA5);
        c.tap = nullptr;
        c.obs = nullptr;
        if (r[i] == 3) throw Discard();
        size_t p = alone[i].rfind("FAIL !");
        if (p != std::string::npos) c.fail("alone: %s", alone[i].substr(p + 6).c_str());
    }
    Job j[MOST];
    pthread_t t[MOST];
    gThreads = n;
    gSchedule = schedule;
    gSwitches = 0;
    for (int i = 0; i < n; i++) gDone[i] = 0;
    gTurn = -2;
    for (int i = 0; i < n; i++) {
        if (!spare[i]) spare[i] = mapShared();
        j[i].i = i;
        j[i].sh = spare[i];
        j[i].c.replay = true;
        j[i].c.sh = spare[i];
        j[i].c.rep = tap[i].data();
        j[i].c.repLen = tap[i].size();
        pthread_create(&t[i], nullptr, work, &j[i]);
    }
    pass((int)(splitmix(gSchedule) % n));
    for (int i = 0; i < n; i++) pthread_join(t[i], nullptr);
    gTurn = -1;
    for (int i = 0; i < n; i++) {
        if (j[i].obs == alone[i] && j[i].r == r[i]) continue;
        const std::string &a = alone[i], &b = j[i].obs;
        size_t at = 0;
        while (at < a.size() && at < b.size() && a[at] == b[at]) at++;
        c.fail("beside %d other threads program %d gives \"%s\", alone \"%s\"", n - 1, i, lineAt(b, at).c_str(), lineAt(a, at).c_str());
    }
    c.tag("programs in threads", n);
    c.tag("switches of thread", gSwitches);
    if (gSwitches < 2 && gRunLength < 3) c.tag("programs without calls of the application");
}
Check pbt::theCheck = {"C40", "two or three programs of which at least one writes more than one page, returns more than two rows, builds a spline or uses files", run, 8000, 100000};

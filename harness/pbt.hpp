// Choice-sequence property-based testing engine.
//
// A test case is a function of a sequence of bounded choices. Random generation draws them from a PRNG seeded by
// (VERIF_SEED, case number); replay and shrinking feed a recorded sequence back. Cases run in worker processes, so that a
// crash, a sanitizer report or an endless loop in the code under test is a failure like any other: it is shrunk
// (every attempt in a child process) and written to a replay file.
#pragma once
// where the library calls the application: another thread may go on there (C40)
#ifndef PBT_YIELD
#define PBT_YIELD() (void)0
#endif
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>

namespace pbt {

struct Failure {
    std::string msg;
};

struct Discard {};  // the generated case turned out to be outside the domain
#ifdef PBT_32
__attribute__((noreturn)) void finish32(const char *failure);  // the driver in a 32-bit process, which has no exceptions
#endif

static const size_t MAXCH = 1 << 20;
static const size_t MAXH = 1 << 22;
static const int MAXTAG = 160;

struct Shared {
    volatile uint64_t curCase;
    volatile uint64_t evaluations;
    volatile uint64_t discarded;
    volatile uint64_t nontrivial;
    volatile uint64_t nHashes;
    volatile uint64_t nChoices;
    volatile int state;     // 0 running, 1 pass, 2 fail, 3 discard
    volatile int sampleLen;
    volatile uint64_t draws;
    char msg[8192];
    struct { char name[56]; uint64_t n; } tags[MAXTAG];
    volatile int nTags;
    char sample[4][16384];
    volatile int nSamples;
    uint64_t hashes[MAXH];
    uint64_t choices[MAXCH];
    uint64_t bounds[MAXCH];
};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

class Ctx {
   public:
    Shared *sh = nullptr;
    bool replay = false;
    const uint64_t *rep = nullptr;
    size_t repLen = 0, pos = 0;
    uint64_t rng = 0;
    bool record = false;
    bool tracing = false;
    std::string trace;
    uint64_t hash = 0x1234567;
    bool isNontrivial = false;
    uint64_t caseNo = 0;
    // byte mode (libFuzzer)
    const uint8_t *bytes = nullptr;
    size_t nbytes = 0, bpos = 0;

    std::vector<uint64_t> *tap = nullptr;  // receives every choice
    std::string *obs = nullptr;            // receives every log line

    uint64_t draw(uint64_t n) {  // uniform in [0, n)
        if (n <= 1) return 0;
        uint64_t v;
        if (bytes) {
            int w = n <= 256 ? 1 : n <= 65536 ? 2 : 8;
            v = 0;
            for (int i = 0; i < w && bpos < nbytes; i++) v = v << 8 | bytes[bpos++];
            v %= n;
        } else if (replay) {
            v = pos < repLen ? rep[pos] : 0;
            if (v >= n) v = n - 1;
        } else {
            v = splitmix(rng) % n;
        }
        if (record && pos < MAXCH) {
            sh->choices[pos] = v;
            sh->bounds[pos] = n;
            sh->nChoices = pos + 1;
        }
        if (tap) tap->push_back(v);
        pos++;
        hash = (hash ^ v) * 0x100000001b3ull + n;
        return v;
    }
    bool exhausted() const { return bytes ? bpos >= nbytes : false; }
    uint64_t raw64() {
        uint64_t hi = draw(1ull << 32), lo = draw(1ull << 32);
        return hi << 32 | lo;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
    // true with probability a/b; shrinks to false
    bool chance(uint64_t a, uint64_t b) { return draw(b) >= b - a; }
    template <class T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // weighted index; shrinks towards index 0
    int weighted(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int v = (int)draw(tot), i = 0;
        for (int x : w) {
            if (v < x) return i;
            v -= x;
            i++;
        }
        return 0;
    }
    // skewed towards small values, at most hi
    int64_t small(int64_t lo, int64_t hi) {
        switch (draw(4)) {
            case 0: return range(lo, std::min(hi, lo + 3));
            case 1: return range(lo, std::min(hi, lo + 12));
            case 2: return range(lo, std::min(hi, lo + 60));
            default: return range(lo, hi);
        }
    }
    __attribute__((format(printf, 2, 3))) void log(const char *fmt, ...) {
        if (!tracing && !obs) return;
        char b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (obs) {
            *obs += b;
            *obs += '\n';
        }
        if (!tracing) return;
        trace += b;
        trace += '\n';
        if (traceFd >= 0) { if (write(traceFd, b, strlen(b)) < 0 || write(traceFd, "\n", 1) < 0) {} }
    }
    int traceFd = -1;
    __attribute__((noreturn, format(printf, 2, 3))) void fail(const char *fmt, ...) {
        char b[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
#ifdef PBT_32
        finish32(b);
#else
        throw Failure{b};
#endif
    }
    void tag(const char *name, uint64_t n = 1) {
        if (!sh) return;
        for (int i = 0; i < sh->nTags; i++)
            if (!strncmp(sh->tags[i].name, name, 55)) {
                sh->tags[i].n += n;
                return;
            }
        if (sh->nTags < MAXTAG) {
            int i = sh->nTags;
            strncpy(sh->tags[i].name, name, 55);
            sh->tags[i].n = n;
            sh->nTags = i + 1;
        }
    }
    void tagIf(bool c, const char *name) {
        if (c) tag(name);
    }
    void nontrivial() { isNontrivial = true; }
};

// implemented by each check
struct Check {
    const char *id;
    const char *rule;
    void (*fn)(Ctx &);
    uint64_t quickCases, thoroughCases;
};
extern Check theCheck;

static Shared *mapShared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *)p;
}

static Shared *gCur = nullptr;
#ifdef PBT_32
__attribute__((noreturn)) inline void hardFail(const char *msg) { finish32(msg); }
}  // namespace pbt
#else
// the storage stub ends the process through this when a call budget is exhausted
__attribute__((noreturn)) inline void hardFail(const char *msg) {
    if (gCur) {
        snprintf(gCur->msg, sizeof gCur->msg, "%s", msg);
        gCur->state = 2;
    }
    _exit(76);
}

static const int CASE_CPU_SECONDS = 60;
inline void armTimer() {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = CASE_CPU_SECONDS;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// runs one case in this process; returns 1 pass, 2 fail, 3 discard
inline int runOne(Ctx &c, std::string &msg) {
    armTimer();
    try {
        theCheck.fn(c);
        return 1;
    } catch (Failure &f) {
        msg = f.msg;
        return 2;
    } catch (Discard &) {
        return 3;
    }
}

inline void quiet(int fdout, int fderr) {
    if (fdout >= 0) dup2(fdout, 1);
    if (fderr >= 0) dup2(fderr, 2);
}

inline uint64_t caseSeed(uint64_t seed, uint64_t n) {
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x51ed270b;
    splitmix(s);
    s ^= n * 0xD1342543DE82EF95ull + 1;
    splitmix(s);
    return s;
}

struct Outcome {
    int state;  // 1 pass 2 fail 3 discard
    std::string msg;
    std::vector<uint64_t> choices, bounds;
};

inline std::string slurp(const char *path, size_t maxn) {
    std::string r;
    FILE *f = fopen(path, "rb");
    if (!f) return r;
    char b[4096];
    size_t n;
    while (r.size() < maxn && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}

// short description of why a child died
inline std::string crashText(int status, const std::string &err) {
    std::string r;
    size_t p = err.find("runtime error: ");
    if (p != std::string::npos) {
        size_t b = err.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        return "sanitizer: " + err.substr(b, err.find('\n', p) - b);
    }
    p = err.find("SUMMARY: ");
    if (p != std::string::npos) {
        size_t e = err.find('\n', p);
        r = err.substr(p, e - p);
        // drop absolute paths of the scratch build
        return "sanitizer: " + r;
    }
    if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGPROF) return "the operation did not terminate (60 s of CPU time in one case)";
        return std::string("the process died: ") + strsignal(WTERMSIG(status));
    }
    return "the process ended unexpectedly with exit code " + std::to_string(WEXITSTATUS(status));
}

#ifdef FUZZ
static char gTmpDir[512] = ".";
#else
static char gTmpDir[512] = "/tmp";
#endif

inline Outcome runChild(Shared *sh, const std::vector<uint64_t> *choices, uint64_t rngSeed, bool wantTrace = false, std::string *trace = nullptr) {
    sh->state = 0;
    sh->nChoices = 0;
    sh->msg[0] = 0;
    char errp[600], trp[600];
    snprintf(errp, sizeof errp, "%s/err.%d", gTmpDir, (int)getpid());
    snprintf(trp, sizeof trp, "%s/trace.%d", gTmpDir, (int)getpid());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int e = open(errp, O_CREAT | O_TRUNC | O_WRONLY, 0600), n = open("/dev/null", O_WRONLY);
        quiet(n, e);
        gCur = sh;
        Ctx c;
        c.sh = sh;
        c.record = true;
        c.tracing = wantTrace;
        if (wantTrace) c.traceFd = open(trp, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (choices) {
            c.replay = true;
            c.rep = choices->data();
            c.repLen = choices->size();
        } else {
            c.rng = rngSeed;
        }
        std::string msg;
        int r = runOne(c, msg);
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        sh->state = r;
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (sh->state != 0 && (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 76))) {
        o.state = sh->state;
        o.msg = sh->msg;
    } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        o.state = 3;  // ended from outside (memory guard): inconclusive
    } else {
        o.state = 2;
        o.msg = crashText(status, slurp(errp, 200000));
    }
    size_t n = sh->nChoices;
    o.choices.assign(sh->choices, sh->choices + n);
    o.bounds.assign(sh->bounds, sh->bounds + n);
    if (trace) *trace = slurp(trp, 60000);
    unlink(errp);
    unlink(trp);
    return o;
}

inline double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline bool shortlexLess(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

// integrated shrinking: delete spans, zero and lower choices
inline Outcome shrink(Shared *sh, Outcome best, double budget, int &attempts) {
    double t0 = now();
    auto tryIt = [&](const std::vector<uint64_t> &cand) {
        if (now() - t0 > budget) return false;
        attempts++;
        Outcome o = runChild(sh, &cand, 0);
        if (o.state != 2) return false;
        if (!shortlexLess(o.choices, best.choices)) return false;
        best = o;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t len : {256, 64, 32, 16, 8, 5, 4, 3, 2, 1}) {
            if (len > best.choices.size()) continue;
            size_t step = std::max<size_t>(1, len / 2);
            for (size_t i = best.choices.size() >= len ? best.choices.size() - len : 0;; ) {
                if (i + len <= best.choices.size()) {
                    std::vector<uint64_t> c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (tryIt(c)) {
                        progress = true;
                    } else {
                        // deleting with a lowered count just before the span (loop counters)
                        for (size_t back = 1; back <= 2 && back <= i && len <= 8; back++) {
                            std::vector<uint64_t> d = best.choices;
                            if (d[i - back] == 0) continue;
                            d[i - back]--;
                            d.erase(d.begin() + i, d.begin() + i + len);
                            if (tryIt(d)) { progress = true; break; }
                        }
                    }
                }
                if (i == 0 || now() - t0 > budget) break;
                i = i > step ? i - step : 0;
            }
        }
        for (size_t i = 0; i < best.choices.size() && now() - t0 < budget; i++) {
            if (best.choices[i] == 0) continue;
            std::vector<uint64_t> c = best.choices;
            c[i] = 0;
            if (tryIt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.choices[i];
            int guard = 0;
            while (hi - lo > 1 && guard++ < 40 && now() - t0 < budget && i < best.choices.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best.choices;
                c[i] = mid;
                if (tryIt(c)) { progress = true; hi = mid; if (i >= best.choices.size() || best.choices[i] != mid) break; }
                else lo = mid;
            }
        }
    }
    return best;
}

inline std::string jsonEsc(const std::string &s) {
    std::string r;
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}

inline void worker(Shared *sh, uint64_t seed, uint64_t first, uint64_t end, uint64_t stride, double deadline) {
    int n = open("/dev/null", O_WRONLY);
    quiet(n, n);
    gCur = sh;
    for (uint64_t i = first; i < end; i += stride) {
        if (now() > deadline) break;
        sh->curCase = i;
        sh->state = 0;
        Ctx c;
        c.sh = sh;
        c.caseNo = i;
        c.rng = caseSeed(seed, i);
        bool wantSample = sh->nSamples < 2 && i / stride % 37 == 3;
        c.tracing = wantSample;
        std::string msg;
        int r = runOne(c, msg);
        if (r == 2) {
            snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
            sh->state = 2;
            _exit(75);
        }
        sh->evaluations++;
        if (r == 3) { sh->discarded++; continue; }
        if (c.isNontrivial) {
            sh->nontrivial++;
            uint64_t k = sh->nHashes;
            if (k < MAXH) { sh->hashes[k] = c.hash; sh->nHashes = k + 1; }
            if (wantSample) {
                snprintf(sh->sample[sh->nSamples], sizeof sh->sample[0], "case %llu: %s", (unsigned long long)i, c.trace.c_str());
                sh->nSamples++;
            }
        }
    }
    sh->state = 1;
    _exit(0);
}

struct Options {
    uint64_t seed = 1, cases = 1000, first = 0;
    int jobs = 4;
    double maxSeconds = 600, shrinkSeconds = 60;
    std::string replayOut, jsonOut, replayIn, corpus;
};

inline std::vector<uint64_t> readChoices(const std::string &path) {
    std::vector<uint64_t> v;
    FILE *f = fopen(path.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); }
    char line[1 << 16];
    bool in = false;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "choices:", 8)) in = true;
        if (!in) continue;
        if (line[0] == '#') break;
        char *p = line;
        if (!strncmp(p, "choices:", 8)) p += 8;
        char *e;
        for (;;) {
            uint64_t x = strtoull(p, &e, 10);
            if (e == p) break;
            v.push_back(x);
            p = e;
        }
    }
    fclose(f);
    return v;
}

// exit: 0 ok, 1 violation found, 2 internal error
inline int mainLoop(int argc, char **argv) {
    Options o;
    bool replayMode = false;
    for (int i = 1; i < argc; i++) {
        auto arg = [&](const char *n) -> const char * {
            size_t l = strlen(n);
            return !strncmp(argv[i], n, l) && argv[i][l] == '=' ? argv[i] + l + 1 : nullptr;
        };
        const char *v;
        if ((v = arg("--seed"))) o.seed = strtoull(v, 0, 10);
        else if ((v = arg("--cases"))) o.cases = strtoull(v, 0, 10);
        else if ((v = arg("--first"))) o.first = strtoull(v, 0, 10);
        else if ((v = arg("--jobs"))) o.jobs = atoi(v);
        else if ((v = arg("--max-seconds"))) o.maxSeconds = atof(v);
        else if ((v = arg("--shrink-seconds"))) o.shrinkSeconds = atof(v);
        else if ((v = arg("--replay-out"))) o.replayOut = v;
        else if ((v = arg("--json"))) o.jsonOut = v;
        else if ((v = arg("--tmp"))) snprintf(gTmpDir, sizeof gTmpDir, "%s", v);
        else if ((v = arg("--replay"))) { o.replayIn = v; replayMode = true; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (replayMode) {
        Shared *sh = mapShared();
        std::vector<uint64_t> ch = readChoices(o.replayIn);
        std::string tr;
        Outcome r = runChild(sh, &ch, 0, true, &tr);
        printf("%s\n", tr.c_str());
        if (r.state == 2) { printf("FAILS: %s\n", r.msg.c_str()); return 1; }
        printf(r.state == 3 ? "DISCARDED\n" : "HOLDS\n");
        return 0;
    }
    double t0 = now(), deadline = t0 + o.maxSeconds;
    std::vector<Shared *> shs;
    std::vector<pid_t> pids;
    std::vector<uint64_t> nextFirst;
    for (int j = 0; j < o.jobs; j++) {
        shs.push_back(mapShared());
        pids.push_back(0);
        nextFirst.push_back(o.first + j);
    }
    uint64_t end = o.first + o.cases;
    auto spawn = [&](int j) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) worker(shs[j], o.seed, nextFirst[j], end, o.jobs, deadline);
        pids[j] = p;
    };
    for (int j = 0; j < o.jobs; j++) spawn(j);
    int alive = o.jobs;
    bool failed = false;
    uint64_t failCase = 0;
    std::string failMsg;
    uint64_t skippedKilled = 0;
    while (alive > 0) {
        int status;
        pid_t p = waitpid(-1, &status, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int j = -1;
        for (int k = 0; k < o.jobs; k++) if (pids[k] == p) j = k;
        if (j < 0) continue;
        pids[j] = 0;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shs[j]->state == 1) { alive--; continue; }
        uint64_t cn = shs[j]->curCase;
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
            // ended by the memory guard or by us: inconclusive, go on with the next case
            if (failed) { alive--; continue; }
            skippedKilled++;
            nextFirst[j] = cn + o.jobs;
            if (skippedKilled > 50) { alive--; continue; }
            spawn(j);
            continue;
        }
        // a failure candidate: confirm in a child of its own
        if (!failed || cn < failCase) { failCase = cn; failMsg = shs[j]->state == 2 ? std::string(shs[j]->msg) : "status " + std::to_string(status); }
        failed = true;
        alive--;
        for (int k = 0; k < o.jobs; k++) if (pids[k]) kill(pids[k], SIGKILL);
    }
    double tRun = now() - t0;
    int rc = 0;
    std::string vmsg, vtrace;
    int attempts = 0;
    bool violation = false;
    if (failed) {
        Shared *sh = mapShared();
        Outcome r = runChild(sh, nullptr, caseSeed(o.seed, failCase));
        // the recorded sequence must fail again
        if (r.state == 2) {
            Outcome b = shrink(sh, r, o.shrinkSeconds, attempts);
            int again = 0;
            for (int k = 0; k < 3; k++) again += runChild(sh, &b.choices, 0).state == 2;
            if (again < 3) {
                b = r;
                again = 0;
                for (int k = 0; k < 3; k++) again += runChild(sh, &b.choices, 0).state == 2;
            }
            if (again == 3) {
                violation = true;
                Outcome fin = runChild(sh, &b.choices, 0, true, &vtrace);
                vmsg = fin.msg;
                if (!o.replayOut.empty()) {
                    FILE *f = fopen(o.replayOut.c_str(), "w");
                    if (f) {
                        fprintf(f, "property: %s\nseed: %llu case: %llu\nfailure: %s\nchoices:", theCheck.id, (unsigned long long)o.seed, (unsigned long long)failCase, vmsg.c_str());
                        for (size_t i = 0; i < b.choices.size(); i++) fprintf(f, "%s%llu", i % 40 == 39 ? "\n" : " ", (unsigned long long)b.choices[i]);
                        fprintf(f, "\n# trace of the minimal case\n%s\n# FAILS: %s\n", vtrace.c_str(), vmsg.c_str());
                        fclose(f);
                    }
                }
                rc = 1;
            }
        }
        if (!violation) printf("NOTE: case %llu failed in a worker but not when replayed: inconclusive (%s)\n", (unsigned long long)failCase, failMsg.c_str());
    }
    // aggregate
    uint64_t ev = 0, disc = 0, nt = 0;
    std::vector<uint64_t> hs;
    std::vector<std::pair<std::string, uint64_t>> tags;
    std::vector<std::string> samples;
    for (auto *s : shs) {
        ev += s->evaluations;
        disc += s->discarded;
        nt += s->nontrivial;
        hs.insert(hs.end(), s->hashes, s->hashes + s->nHashes);
        for (int i = 0; i < s->nTags; i++) {
            bool f = false;
            for (auto &t : tags) if (t.first == s->tags[i].name) { t.second += s->tags[i].n; f = true; }
            if (!f) tags.push_back({s->tags[i].name, s->tags[i].n});
        }
        for (int i = 0; i < s->nSamples && samples.size() < 3; i++) samples.push_back(s->sample[i]);
    }
    if (failed) ev++;
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    std::sort(tags.begin(), tags.end());
    if (!o.jsonOut.empty()) {
        FILE *f = fopen(o.jsonOut.c_str(), "w");
        if (!f) return 2;
        fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"inconclusive\": %llu, \"wall_s\": %.2f, \"violation\": %s, \"message\": \"%s\", \"shrink_attempts\": %d, \"rule\": \"%s\",\n \"hashes_file\": \"\", \"tags\": {",
                (unsigned long long)ev, (unsigned long long)disc, (unsigned long long)nt, hs.size(), (unsigned long long)(skippedKilled + (failed && !violation ? 1 : 0)), tRun, violation ? "true" : "false", jsonEsc(vmsg).c_str(), attempts, jsonEsc(theCheck.rule).c_str());
        for (size_t i = 0; i < tags.size(); i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jsonEsc(tags[i].first).c_str(), (unsigned long long)tags[i].second);
        fprintf(f, "}, \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jsonEsc(samples[i].substr(0, 3000)).c_str());
        fprintf(f, "]}\n");
        fclose(f);
        // distinct hashes, so that the two flavours can be merged
        FILE *g = fopen((o.jsonOut + ".hashes").c_str(), "wb");
        if (g) { fwrite(hs.data(), 8, hs.size(), g); fclose(g); }
    }
    if (violation) printf("FAIL case=%llu %s\n", (unsigned long long)failCase, vmsg.c_str());
    return rc;
}

}  // namespace pbt

#ifndef FUZZ
int main(int argc, char **argv) { return pbt::mainLoop(argc, argv); }
#else
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static pbt::Shared *sh = nullptr;
    if (!sh) sh = pbt::mapShared();
    sh->nTags = 0;
    pbt::gCur = nullptr;
    pbt::Ctx c;
    c.sh = sh;
    c.record = true;
    c.bytes = data;
    c.nbytes = size;
    std::string msg;
    int r = 0;
    auto save = [&]() {
        const char *p = getenv("PBT_FUZZ_OUT");
        if (!p) return;
        FILE *f = fopen(p, "w");
        if (!f) return;
        fprintf(f, "property: %s\nfailure: %s\nchoices:", pbt::theCheck.id, msg.c_str());
        for (size_t i = 0; i < sh->nChoices; i++) fprintf(f, " %llu", (unsigned long long)sh->choices[i]);
        fprintf(f, "\n#\n");
        fclose(f);
    };
    sh->nChoices = 0;
    try {
        pbt::theCheck.fn(c);
    } catch (pbt::Failure &f) {
        msg = f.msg;
        save();
        fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str());
        abort();
    } catch (pbt::Discard &) {
        r = -1;
    }
    return r;
}
#endif
#endif  // PBT_32

#include "hist.hpp"
#include <sys/stat.h>
#include <sys/resource.h>
extern "C" {
#include "desktopFileInterface.h"
void tearDownFile(void *file);
embedDBFileInterface *getMockEraseFileInterface();
}
using namespace pbt;
// C23: the desktop file adaptor behaves as a persistent array of pages.
struct Scratch {
    char dir[600];
    std::vector<std::string> names;
    Scratch() {
        snprintf(dir, sizeof dir, "%s/files.%d", gTmpDir, (int)getpid());
        mkdir(dir, 0700);
        for (int i = 0; i < 4; i++) {
            names.push_back(std::string(dir) + "/f" + std::to_string(i) + (i == 2 ? "-with a longer name, so that it does not fit into a few bytes" : ""));
            unlink(names[i].c_str());
        }
    }
    ~Scratch() {
        for (auto &n : names) unlink(n.c_str());
        rmdir(dir);
    }
};
struct PF {
    std::string name;
    void *h = nullptr;
    bool open = false, exists = false;
    std::map<uint64_t, Bytes> pages;  // an empty vector: contents not determined
    uint64_t len = 0;                 // pages up to the last one written or erased
};
static uint8_t *exact(const Bytes &b) {
    uint8_t *p = (uint8_t *)malloc(b.size());
    memcpy(p, b.data(), b.size());
    return p;
}
static bool bigFilesWork(const char *dir) {
    static int known = -1;
    if (known < 0) {
        std::string n = std::string(dir) + "/probe";
        int fd = open(n.c_str(), O_CREAT | O_RDWR, 0600);
        known = fd >= 0 && pwrite(fd, "x", 1, 70ll << 30) == 1;
        close(fd);
        unlink(n.c_str());
    }
    return known;
}

static void raw(Ctx &c) {
    Scratch sc;
    uint32_t ps = c.pick<uint32_t>({512, 16, 64, 1, 7, 128, 513, 1024, 4095, 4096, 5000, 16384, 32768, 65536});
    bool mock = c.chance(1, 3);
    bool big = c.chance(1, 3) && bigFilesWork(sc.dir);
    int n = (int)c.range(1, 3);
    embedDBFileInterface *fi = mock ? getMockEraseFileInterface() : getFileInterface();
    std::vector<PF> fs(n);
    struct Guard { std::vector<PF> &fs; embedDBFileInterface *fi; ~Guard() { for (auto &f : fs) if (f.h) tearDownFile(f.h); free(fi); } } guard{fs, fi};
    auto setup = [&](PF &f) {
        char *nm = strdup(f.name.c_str());
        f.h = setupFile(nm);
        memset(nm, 'z', strlen(nm));  // the name is only lent
        free(nm);
        f.open = false;
    };
    for (int i = 0; i < n; i++) { fs[i].name = sc.names[i]; setup(fs[i]); }
    c.log("%d files, pages of %u bytes, %s", n, ps, mock ? "mock erase" : "no erase");
    uint64_t maxPage = std::min<uint64_t>(0xFFFFFFFFull, (64ull << 30) / ps - 1);
    auto pageNo = [&](PF &f) -> uint32_t {
        int k = c.weighted({5, 3, 2, big ? 4 : 0});
        if (k == 0) return (uint32_t)c.draw(12);
        if (k == 1 && !f.pages.empty()) {
            auto it = f.pages.begin();
            std::advance(it, c.draw(f.pages.size()));
            return (uint32_t)it->first;
        }
        if (k <= 2) return (uint32_t)std::min<uint64_t>(f.len + c.draw(3), maxPage);
        uint64_t b = c.pick<uint64_t>({1ull << 32, 1ull << 31, 1ull << 33, 3ull << 32}) / ps;
        if (c.chance(1, 4)) b = c.draw(maxPage);
        else b = b + c.draw(6) - std::min<uint64_t>(b, 2);
        return (uint32_t)std::min(b, maxPage);
    };
    auto readCheck = [&](PF &f, uint32_t p, const char *when) {
        uint8_t *b = exact(Bytes(ps, 0xEE));
        int8_t r = fi->read(b, p, ps, f.h);
        Bytes got(b, b + ps);
        free(b);
        c.log("%sread page %u of %d -> %d", when, p, (int)(&f - fs.data()), r);
        if (r != 0 && r != 1) c.fail("read of page %u returned %d", p, r);
        auto it = f.pages.find(p);
        if (p >= f.len) {
            if (r != 0) c.fail("%sread of page %u reported success, the file has %llu pages of %u bytes", when, p, (unsigned long long)f.len, ps);
        } else if (it != f.pages.end()) {
            if (r != 1) c.fail("%sread of page %u of %u bytes, which was written, reported failure", when, p, ps);
            if (!it->second.empty() && got != it->second) c.fail("%spage %u of %u bytes was read back wrongly: %s instead of %s", when, p, ps, hex(Bytes(got.begin(), got.begin() + std::min<size_t>(got.size(), 16))).c_str(), hex(Bytes(it->second.begin(), it->second.begin() + std::min<size_t>(ps, 16))).c_str());
        }
    };
    int ops = (int)c.range(4, 50), reopened = 0, highRead = 0, writes = 0, sparse = 0, reads = 0;
    for (int o = 0; o < ops; o++) {
        int fx = (int)c.draw(n);
        PF &f = fs[fx];
        if (!f.open) {
            int k = c.weighted({4, 4, 1, 1});
            int mode = k == 0 ? EMBEDDB_FILE_MODE_W_PLUS_B : k == 1 ? EMBEDDB_FILE_MODE_R_PLUS_B : k == 2 ? (int)c.pick<int>({2, 5, 77, 255}) : -1;
            if (mode < 0) { tearDownFile(f.h); setup(f); continue; }
            int8_t r = fi->open(f.h, (uint8_t)mode);
            c.log("open %d mode %d -> %d", fx, mode, r);
            int8_t want = mode == EMBEDDB_FILE_MODE_W_PLUS_B ? 1 : mode == EMBEDDB_FILE_MODE_R_PLUS_B ? f.exists : 0;
            if (r != want) c.fail("open in mode %d of a file that %s returned %d", mode, f.exists ? "exists" : "does not exist", r);
            if (!r) continue;
            f.open = true;
            if (f.exists && mode == EMBEDDB_FILE_MODE_R_PLUS_B && !f.pages.empty()) {
                reopened++;
                if (c.chance(1, 2))
                    for (auto &p : f.pages) readCheck(f, (uint32_t)p.first, "after reopening, ");
            }
            f.exists = true;
            if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
                f.pages.clear();
                f.len = 0;
            }
            continue;
        }
        switch (c.weighted({8, 6, 1, 2, 2, 1})) {
            case 0: {
                uint32_t p = pageNo(f);
                Bytes d(ps);
                uint64_t s = c.raw64();
                for (auto &x : d) x = (uint8_t)(splitmix(s) >> 13);
                uint8_t *b = exact(d);
                int8_t r = fi->write(b, p, ps, f.h);
                bool same = !memcmp(b, d.data(), ps);
                free(b);
                c.log("write page %u of %d -> %d", p, fx, r);
                if (r != 1) c.fail("write of page %u of %u bytes returned %d", p, ps, r);
                if (!same) c.fail("a write changed the caller's buffer");
                f.pages[p] = d;
                if (p > f.len) sparse++;
                f.len = std::max<uint64_t>(f.len, p + 1ull);
                writes++;
                break;
            }
            case 1: {
                uint32_t p = pageNo(f);
                readCheck(f, p, "");
                reads++;
                if ((uint64_t)p * ps >= 1ull << 32) highRead++;
                break;
            }
            case 2: {
                uint32_t p = pageNo(f), len = 1 + (uint32_t)c.draw(8);
                if (p + (uint64_t)len > maxPage) break;
                int8_t r = fi->erase(p, p + len, ps, f.h);
                c.log("erase pages %u to %u of %d -> %d", p, p + len, fx, r);
                if (r != 1) c.fail("erase of pages %u to %u returned %d", p, p + len, r);
                for (uint32_t q = p; q < p + len; q++) {
                    if (mock || f.pages.count(q)) f.pages[q] = Bytes();
                }
                if (mock) f.len = std::max<uint64_t>(f.len, (uint64_t)p + len);
                for (int64_t q : {(int64_t)p - 1, (int64_t)p + len})
                    if (q >= 0 && f.pages.count(q)) readCheck(f, (uint32_t)q, "next to an erased range, ");
                break;
            }
            case 3: {
                int8_t r = fi->flush(f.h);
                c.log("flush %d -> %d", fx, r);
                if (r != 1) c.fail("flush returned %d", r);
                // what is flushed is in the file, whatever happens to the process
                int fd = open(f.name.c_str(), O_RDONLY);
                if (fd < 0) c.fail("an opened and flushed file does not exist under its name");
                Bytes got(ps);
                std::string bad;
                for (auto &p : f.pages) {
                    if (p.second.empty()) continue;
                    ssize_t x = pread(fd, got.data(), ps, (off_t)p.first * ps);
                    if (x != (ssize_t)ps || got != p.second) { bad = std::to_string(p.first); break; }
                }
                close(fd);
                if (!bad.empty()) c.fail("after a successful flush page %s of %u bytes is not in the file at its place", bad.c_str(), ps);
                break;
            }
            case 4: {
                int8_t r = fi->close(f.h);
                c.log("close %d -> %d", fx, r);
                if (r != 1) c.fail("close returned %d", r);
                f.open = false;
                break;
            }
            case 5:  // the owner gives the file up without closing it
                c.log("tear down %d", fx);
                tearDownFile(f.h);
                setup(f);
                break;
        }
    }
    for (auto &f : fs) {
        if (!f.open) {
            int8_t r = fi->open(f.h, EMBEDDB_FILE_MODE_R_PLUS_B);
            if (r != f.exists) c.fail("open for update of a file that %s returned %d", f.exists ? "exists" : "does not exist", r);
            f.open = r;
        }
        if (f.open) for (auto &p : f.pages) readCheck(f, (uint32_t)p.first, "at the end, ");
    }
    c.tagIf(reopened, "raw: files reopened for update");
    c.tagIf(highRead, "raw: page beyond 4 GiB read");
    c.tagIf(sparse, "raw: gaps written");
    c.tagIf(mock, "raw: mock erase");
    c.tagIf(n > 1, "raw: several files");
    if (writes >= 3 && reads >= 2) c.nontrivial();
}

// failing storage: a full device, a directory, a missing directory
static void faulty(Ctx &c) {
    Scratch sc;
    embedDBFileInterface *fi = c.chance(1, 2) ? getMockEraseFileInterface() : getFileInterface();
    struct Guard { embedDBFileInterface *fi; void *h = nullptr; ~Guard() { if (h) tearDownFile(h); free(fi); } } g{fi};
    if (c.chance(1, 3)) {
        std::string nm = c.chance(1, 2) ? sc.dir : std::string(sc.dir) + "/missing/file";
        g.h = setupFile((char *)nm.c_str());
        for (int m : {EMBEDDB_FILE_MODE_W_PLUS_B, EMBEDDB_FILE_MODE_R_PLUS_B}) {
            int8_t r = fi->open(g.h, (uint8_t)m);
            c.log("open %s mode %d -> %d", nm.c_str(), m, r);
            if (r != 0) c.fail("open of a file that cannot be created or opened returned %d", r);
        }
        c.tag("faulty: cannot be opened");
        return;
    }
    if (symlink("/dev/full", sc.names[3].c_str())) throw Discard();
    g.h = setupFile((char *)sc.names[3].c_str());
    if (fi->open(g.h, EMBEDDB_FILE_MODE_W_PLUS_B) != 1) throw Discard();
    uint32_t ps = c.pick<uint32_t>({512, 16, 4096, 5000, 1});
    int k = (int)c.range(1, 4);
    bool failed = false, closes = c.chance(1, 2);
    for (int i = 0; i < k; i++) {
        uint8_t *b = exact(Bytes(ps, 7));
        int8_t r = fi->write(b, (uint32_t)c.draw(5), ps, g.h);
        free(b);
        c.log("write -> %d", r);
        if (r != 0 && r != 1) c.fail("write returned %d", r);
        failed |= r == 0;
    }
    int8_t r = closes ? fi->close(g.h) : fi->flush(g.h);
    c.log("%s -> %d", closes ? "close" : "flush", r);
    if (r != 0 && r != 1) c.fail("%s returned %d", closes ? "close" : "flush", r);
    failed |= r == 0;
    if (!failed) c.fail("%d writes to a full device and the %s after them all reported success", k, closes ? "close" : "flush");
    c.tag("faulty: full device");
    c.nontrivial();
}

static void database(Ctx &c) {
    Scratch sc;
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    cfg.flash = false;
    bool mock = c.chance(1, 2);
    cfg.eraseFill = mock ? 1 : -1;
    cfg.settle();
    mock = cfg.eraseFill == 1;
    if (!mock) cfg.eraseFill = -1;
    embedDBFileInterface *fi = mock ? getMockEraseFileInterface() : getFileInterface();
    struct Guard { embedDBFileInterface *fi; void *h[3]; ~Guard() { for (void *p : h) tearDownFile(p); free(fi); } } gd{fi, {}};
    for (int i = 0; i < 3; i++) gd.h[i] = setupFile((char *)sc.names[i].c_str());
    Hist h(c, cfg, false, [&](Db &db) {
        for (int i = 0; i < 3; i++) {
            db.file(i).mirror = fi;
            db.file(i).mirrorFile = gd.h[i];
        }
    });
    int ops = (int)c.range(3, 25);
    for (int i = 0; i < ops; i++) {
        switch (c.weighted({6, 2, 2, 2, 2})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 100))); break;
            case 1: h.flush(); break;
            case 2: h.lookup(h.someKey()); break;
            case 3: h.full("scan"); break;
            case 4: {
                h.reopen(0);
                if (c.chance(1, 2)) {  // other handles on the same files
                    for (int j = 0; j < 3; j++)
                        if (!h.db->file(j).isOpen) {
                            tearDownFile(gd.h[j]);
                            gd.h[j] = setupFile((char *)sc.names[j].c_str());
                            h.db->file(j).mirrorFile = gd.h[j];
                        }
                }
                break;
            }
        }
        checkProblems(c, *h.db, "database over files");
        if (h.exhausted) break;
    }
    h.db->close();
    checkProblems(c, *h.db, "database over files, at the end");
    c.tag("database over files");
    c.tagIf(h.nReopen, "database over files reopened");
    c.tagIf(mock, "database over files with mock erase");
    c.tagIf(h.wrapped(), "database over files, wrapped");
    if (h.m.h.size() > h.m.maxRec) c.nontrivial();
}

static void run(Ctx &c) {
    switch (c.weighted({12, 1, 4})) {
        case 0: raw(c); break;
        case 1: faulty(c); break;
        default: database(c);
    }
}
Check pbt::theCheck = {"C23", "histories in which at least three pages were written and two read back through the adaptor, a full device was written, or a database on real files wrote more than one page", run, 24000, 300000};

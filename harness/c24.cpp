#define ARDUINO 100
#include "stub/SdFat.h"
#undef ARDUINO
#include <array>
#include <unordered_map>
#include "hist.hpp"
extern "C" {
embedDBFileInterface *getSDInterface();
void *setupSDFile(char *filename);
void tearDownSDFile(void *file);
void init_sdcard(void *sd);
embedDBFileInterface *getDataflashInterface();
void *setupDataflashFile(uint32_t startPage, uint32_t numPages);
void tearDownDataflashFile(void *file);
}
using namespace pbt;
// C24: the SD-card and dataflash adaptors behave as arrays of pages.

// ---------------------------------------------------------------- SD card: the repository's FAT library over a modelled block device
typedef std::array<uint8_t, 512> Sector;
typedef std::unordered_map<uint32_t, Sector> Sectors;
struct Disk : BlockDeviceInterface {
    Sectors s;
    uint32_t n = 0;
    bool armed = false;
    bool failReads = false, failWrites = false;
    uint64_t ops = 0, failFrom = 0, failLen = ~0ull, hits = 0, calls = 0;
    std::string problem;
    bool fault(bool wr) {
        if (++calls > 3000000) hardFail("one adaptor call issued more device calls than its budget: it does not terminate");
        if (!armed || !(wr ? failWrites : failReads)) return false;
        if (ops++ < failFrom || ops - 1 - failFrom >= failLen) return false;
        hits++;
        return true;
    }
    bool isBusy() override { return false; }
    uint32_t sectorCount() override { return n; }
    bool syncDevice() override { return true; }
    bool readSector(uint32_t x, uint8_t *d) override { return readSectors(x, d, 1); }
    bool writeSector(uint32_t x, const uint8_t *d) override { return writeSectors(x, d, 1); }
    bool readSectors(uint32_t x, uint8_t *d, size_t k) override {
        alloc::App app;
        if (fault(false)) return false;
        for (size_t i = 0; i < k; i++, d += 512) {
            if (x + i >= n) return false;
            auto it = s.find(x + (uint32_t)i);
            if (it == s.end()) memset(d, 0, 512);
            else memcpy(d, it->second.data(), 512);
        }
        return true;
    }
    bool writeSectors(uint32_t x, const uint8_t *d, size_t k) override {
        alloc::App app;
        if (fault(true)) return false;
        for (size_t i = 0; i < k; i++, d += 512) {
            if (x + i >= n) return false;
            bool zero = true;
            for (int j = 0; j < 512 && zero; j++) zero = d[j] == 0;
            if (zero) s.erase(x + (uint32_t)i);
            else memcpy(s[x + (uint32_t)i].data(), d, 512);
        }
        return true;
    }
};
static const Sectors &formatted(uint32_t n) {
    static std::map<uint32_t, Sectors> made;
    auto it = made.find(n);
    if (it != made.end()) return it->second;
    Disk d;
    d.n = n;
    FatFormatter f;
    uint8_t buf[512];
    if (!f.format(&d, buf, nullptr)) throw Discard();
    return made[n] = d.s;
}
struct PF {
    std::string name;
    void *h = nullptr;
    bool open = false, exists = false, dirty = false, lenKnown = true;
    std::map<uint64_t, Bytes> pages;
    uint64_t len = 0;
};
static uint8_t *exact(const Bytes &b) {
    uint8_t *p = (uint8_t *)malloc(b.size());
    memcpy(p, b.data(), b.size());
    return p;
}
static const char *NAMES[] = {"data.bin", "indexFile.bin", "a longer name of a file.var"};

static void sdRaw(Ctx &c) {
    Disk disk;
    bool fat32 = c.chance(1, 5), tiny = !fat32 && c.chance(1, 4);
    disk.n = fat32 ? 5u << 21 : c.pick<uint32_t>({20480, 60000});
    disk.s = formatted(disk.n);
    SdFat32 sd;
    if (!sd.begin(&disk)) c.fail("the modelled card cannot be mounted");
    init_sdcard(&sd);
    uint32_t ps = c.pick<uint32_t>({512, 16, 64, 1, 6, 128, 511, 513, 1024, 4096, 5000, 16384, 32767, 32768, 40000, 65535});
    bool faults = c.chance(1, 3);
    int n = (int)c.range(1, 3);
    embedDBFileInterface *fi = getSDInterface();
    std::vector<PF> fs(n);
    struct Guard { std::vector<PF> &fs; embedDBFileInterface *fi; ~Guard() { for (auto &f : fs) if (f.h) tearDownSDFile(f.h); free(fi); } } guard{fs, fi};
    auto setup = [&](PF &f) {
        char *nm = strdup(f.name.c_str());
        f.h = setupSDFile(nm);
        memset(nm, 'z', strlen(nm));
        free(nm);
        f.open = false;
    };
    for (int i = 0; i < n; i++) { fs[i].name = NAMES[i]; setup(fs[i]); }
    c.log("%s card, %d files, pages of %u bytes", fat32 ? "FAT32" : "FAT16", n, ps);
    uint64_t cap = tiny ? (uint64_t)disk.n * 512 / ps + 50 : std::max<uint64_t>(4, std::min<uint64_t>(60, 400000 / ps));
    // returns true when the device failed during the call: it has to be reported, and nothing more is known afterwards
    auto guarded = [&](const char *what, int8_t r) {
        if (!disk.hits) return false;
        c.log("the device failed during %s", what);
        if (r != 0) c.fail("the device failed during %s, which returned %d", what, r);
        return true;
    };
    auto pageNo = [&](PF &f) -> uint32_t {
        int k = c.weighted({5, 3, 2, 1, tiny ? 2 : 0});
        if (k == 1 && !f.pages.empty()) {
            auto it = f.pages.begin();
            std::advance(it, c.draw(f.pages.size()));
            return (uint32_t)it->first;
        }
        if (k == 0) return (uint32_t)c.draw(std::min<uint64_t>(12, cap));
        if (k <= 2) return (uint32_t)std::min<uint64_t>(f.len + c.draw(3), cap);
        if (k == 3 && ps > 1) return (uint32_t)std::min<uint64_t>(0xFFFFFFFFull, (1ull << 32) / ps + c.draw(6));  // beyond what a FAT file can hold
        return (uint32_t)c.draw(cap);
    };
    bool dead = false;
    int failed = 0;
    auto readCheck = [&](PF &f, uint32_t p, const char *when) {
        uint8_t *b = exact(Bytes(ps, 0xEE));
        disk.calls = 0;
        int8_t r = fi->read(b, p, ps, f.h);
        Bytes got(b, b + ps);
        free(b);
        c.log("%sread page %u -> %d", when, p, r);
        if (guarded("a read", r)) { dead = true; return; }
        if (r != 0 && r != 1) c.fail("read of page %u returned %d", p, r);
        auto it = f.pages.find(p);
        if (it != f.pages.end()) {
            if (r != 1) c.fail("%sread of page %u of %u bytes, which was written, reported failure", when, p, ps);
            if (!it->second.empty() && got != it->second) c.fail("%spage %u of %u bytes was read back wrongly: %s instead of %s", when, p, ps, hex(Bytes(got.begin(), got.begin() + std::min<size_t>(got.size(), 16))).c_str(), hex(Bytes(it->second.begin(), it->second.begin() + std::min<size_t>(ps, 16))).c_str());
        } else if (p >= f.len && f.lenKnown && r != 0) {
            c.fail("%sread of page %u reported success, the file has %llu pages of %u bytes", when, p, (unsigned long long)f.len, ps);
        }
    };
    int ops = (int)c.range(4, 40), reopened = 0, writes = 0, reads = 0, gaps = 0, remounts = 0, full = 0, wraps = 0;
    for (int o = 0; o < ops && !dead; o++) {
        PF &f = fs[c.draw(n)];
        disk.calls = 0;
        if (faults && !disk.armed && c.chance(1, 6)) {
            disk.armed = true;
            int k = c.weighted({2, 1, 1});
            disk.failWrites = k != 1;
            disk.failReads = k != 0;
            disk.ops = 0;
            disk.failFrom = c.small(0, 40);
            disk.failLen = c.chance(1, 2) ? ~0ull : c.range(1, 3);
            c.log("the device fails from call %llu on (%s)%s", (unsigned long long)disk.failFrom, k == 0 ? "writes" : k == 1 ? "reads" : "both", disk.failLen > 3 ? "" : ", for a few calls");
        }
        if (!f.open) {
            int k = c.weighted({4, 4, 1, 1});
            int mode = k == 0 ? EMBEDDB_FILE_MODE_W_PLUS_B : k == 1 ? EMBEDDB_FILE_MODE_R_PLUS_B : k == 2 ? (int)c.pick<int>({2, 5, 77, 255}) : -1;
            if (mode < 0) { tearDownSDFile(f.h); setup(f); if (disk.hits) break; continue; }
            int8_t r = fi->open(f.h, (uint8_t)mode);
            c.log("open %s mode %d -> %d", f.name.c_str(), mode, r);
            if (guarded("an open", r)) break;
            int8_t want = mode == EMBEDDB_FILE_MODE_W_PLUS_B ? 1 : mode == EMBEDDB_FILE_MODE_R_PLUS_B ? f.exists : 0;
            if (r != want) c.fail("open in mode %d of a file that %s returned %d", mode, f.exists ? "exists" : "does not exist", r);
            if (!r) continue;
            f.open = true;
            if (f.exists && mode == EMBEDDB_FILE_MODE_R_PLUS_B && !f.pages.empty()) {
                reopened++;
                if (c.chance(1, 2))
                    for (auto &p : f.pages) if (!dead) readCheck(f, (uint32_t)p.first, "after reopening, ");
            }
            f.exists = true;
            if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
                f.pages.clear();
                f.len = 0;
                f.lenKnown = true;
                f.dirty = true;
            }
            continue;
        }
        switch (c.weighted({8, 6, 1, 2, 2, 1})) {
            case 0: {
                uint32_t p = pageNo(f);
                Bytes d(ps);
                uint64_t s = c.raw64();
                for (auto &x : d) x = (uint8_t)(splitmix(s) >> 13);
                uint8_t *b = exact(d);
                int8_t r = fi->write(b, p, ps, f.h);
                bool same = !memcmp(b, d.data(), ps);
                free(b);
                c.log("write page %u of %s -> %d", p, f.name.c_str(), r);
                if (guarded("a write", r)) { dead = true; break; }
                f.dirty = true;
                if (!same) c.fail("a write changed the caller's buffer");
                if ((uint64_t)p * ps + ps > 0xFFFFFFFFull) {
                    wraps++;
                    if (r != 0) c.fail("write of page %u of %u bytes, which a FAT file cannot hold, returned %d", p, ps, r);
                    break;
                }
                if (r == 0 && tiny) {  // the card is full
                    full++;
                    f.lenKnown = false;
                    f.pages[p] = Bytes();
                    f.pages.erase(p);
                    break;
                }
                if (r != 1) c.fail("write of page %u of %u bytes returned %d", p, ps, r);
                f.pages[p] = d;
                if (p > f.len) gaps++;
                f.len = std::max<uint64_t>(f.len, p + 1ull);
                writes++;
                break;
            }
            case 1: {
                readCheck(f, pageNo(f), "");
                reads++;
                break;
            }
            case 2: {
                uint32_t p = pageNo(f), len = 1 + (uint32_t)c.draw(8);
                if (p > 0xFFFFFF00u) break;
                int8_t r = fi->erase(p, p + len, ps, f.h);
                c.log("erase pages %u to %u of %s -> %d", p, p + len, f.name.c_str(), r);
                if (guarded("an erase", r)) { dead = true; break; }
                if (r != 1) c.fail("erase of pages %u to %u returned %d", p, p + len, r);
                for (uint32_t q = p; q < p + len; q++)
                    if (f.pages.count(q)) f.pages[q] = Bytes();
                break;
            }
            case 3: {
                int8_t r = fi->flush(f.h);
                c.log("flush %s -> %d", f.name.c_str(), r);
                if (guarded("a flush", r)) { dead = true; break; }
                if (r != 1) c.fail("flush returned %d", r);
                f.dirty = false;
                break;
            }
            case 4: {
                int8_t r = fi->close(f.h);
                c.log("close %s -> %d", f.name.c_str(), r);
                if (guarded("a close", r)) { dead = true; f.open = false; break; }
                if (r != 1) c.fail("close returned %d", r);
                f.open = false;
                f.dirty = false;
                break;
            }
            case 5:
                c.log("tear down %s", f.name.c_str());
                tearDownSDFile(f.h);
                setup(f);
                f.dirty = false;
                if (disk.hits) dead = true;
                break;
        }
        // what was flushed or closed is on the card
        if (!dead && !disk.armed && c.chance(1, 8)) {
            Disk copy;
            copy.n = disk.n;
            copy.s = disk.s;
            SdFat32 sd2;
            if (!sd2.begin(&copy)) c.fail("the card cannot be mounted any more");
            init_sdcard(&sd2);
            remounts++;
            std::string bad;
            for (auto &g : fs) {
                if (!g.exists || g.dirty) continue;
                void *h = setupSDFile((char *)g.name.c_str());
                if (fi->open(h, EMBEDDB_FILE_MODE_R_PLUS_B) != 1) bad = g.name + " is missing";
                else
                    for (auto &p : g.pages) {
                        Bytes got(ps);
                        if (p.second.empty()) continue;
                        if (fi->read(got.data(), (uint32_t)p.first, ps, h) != 1) bad = "page " + std::to_string(p.first) + " of " + g.name + " cannot be read";
                        else if (got != p.second) bad = "page " + std::to_string(p.first) + " of " + g.name + " has other contents";
                    }
                tearDownSDFile(h);
            }
            init_sdcard(&sd);
            sd.chvol();
            if (!bad.empty()) c.fail("on the card as it is after a successful flush or close, %s", bad.c_str());
        }
    }
    failed = disk.hits > 0;
    if (!dead && !failed) {
        disk.armed = false;
        for (auto &f : fs) {
            disk.calls = 0;
            if (!f.open) {
                int8_t r = fi->open(f.h, EMBEDDB_FILE_MODE_R_PLUS_B);
                if (r != f.exists) c.fail("open for update of a file that %s returned %d", f.exists ? "exists" : "does not exist", r);
                f.open = r;
            }
            if (f.open) for (auto &p : f.pages) readCheck(f, (uint32_t)p.first, "at the end, ");
        }
    }
    disk.calls = 0;
    c.tagIf(reopened, "SD: files reopened for update");
    c.tagIf(gaps, "SD: gaps written");
    c.tagIf(failed, "SD: device failure during a call");
    c.tagIf(remounts, "SD: card remounted without closing");
    c.tagIf(full, "SD: card full");
    c.tagIf(wraps, "SD: page beyond 4 GiB");
    c.tagIf(n > 1, "SD: several files");
    if ((writes >= 3 && reads >= 2) || failed) c.nontrivial();
}

// ---------------------------------------------------------------- dataflash: a modelled device behind dfread and dfwrite
static struct Flash {
    std::map<uint32_t, Bytes> pages;
    uint32_t lo = 0, hi = 0xFFFFFFFFu;  // the range of the file being used
    uint32_t lo0 = 0, hi0 = 0;
    bool fail = false;
    int32_t failValue = 0;
    int calls = 0;
    std::string problem;
    void check(uint32_t p, const char *what) {
        calls++;
        if (p < lo || p >= hi) problem = std::string(what) + " of device page " + std::to_string(p) + ", outside of the range of the file [" + std::to_string(lo) + "," + std::to_string(hi) + ")";
    }
} flash;
extern "C" int32_t dfread(int32_t p, void *ptr, int32_t size) {
    alloc::App app;
    flash.check((uint32_t)p, "read");
    if (flash.fail) return flash.failValue;
    auto it = flash.pages.find((uint32_t)p);
    memset(ptr, 0xFF, size);
    if (it != flash.pages.end()) memcpy(ptr, it->second.data(), std::min<size_t>(size, it->second.size()));
    return size;
}
extern "C" int32_t dfwrite(int32_t p, void *ptr, int32_t size) {
    alloc::App app;
    flash.check((uint32_t)p, "write");
    if (flash.fail) return flash.failValue;
    flash.pages[(uint32_t)p] = Bytes((uint8_t *)ptr, (uint8_t *)ptr + size);
    return size;
}
static void dfRaw(Ctx &c) {
    flash = Flash();
    uint32_t ps = c.pick<uint32_t>({512, 264, 528, 16, 1, 4096});
    int n = (int)c.range(1, 4);
    struct DF { uint32_t start, num; void *h; std::map<uint32_t, Bytes> pages; };
    std::vector<DF> fs;
    embedDBFileInterface *fi = getDataflashInterface();
    struct Guard { std::vector<DF> &fs; embedDBFileInterface *fi; ~Guard() { for (auto &f : fs) tearDownDataflashFile(f.h); free(fi); } } guard{fs, fi};
    uint32_t at = c.chance(1, 6) ? 0x7FFFF000u : (uint32_t)c.draw(20);
    for (int i = 0; i < n; i++) {
        uint32_t num = (uint32_t)c.small(1, 300);
        fs.push_back({at, num, setupDataflashFile(at, num), {}});
        c.log("file %d: pages %u to %u", i, at, at + num);
        at += num + (c.chance(1, 2) ? 0 : (uint32_t)c.draw(5));
    }
    int ops = (int)c.range(4, 50), writes = 0, reads = 0, out = 0, fails = 0;
    for (int o = 0; o < ops; o++) {
        DF &f = fs[c.draw(n)];
        flash.lo = f.start;
        flash.hi = f.start + f.num;
        flash.fail = c.chance(1, 8);
        flash.failValue = (int32_t)c.pick<int32_t>({0, -1, (int32_t)ps - 1, 1, (int32_t)ps + 1});
        if (flash.failValue == (int32_t)ps) flash.failValue = 0;
        flash.calls = 0;
        uint32_t p;
        switch (c.weighted({5, 3, 2, 1})) {
            case 0: p = (uint32_t)c.draw(f.num); break;
            case 1: p = f.pages.empty() ? 0 : f.pages.rbegin()->first; break;
            case 2: p = f.num - 1 + (uint32_t)c.draw(4); break;
            default: p = (uint32_t)c.pick<uint64_t>({0xFFFFFFFFu, 0x80000000u, 0u - f.start, f.num * 2}); break;
        }
        bool inside = p < f.num;
        int8_t want = inside && !flash.fail, r;
        switch (c.weighted({6, 5, 1, 1})) {
            case 0: {
                Bytes d(ps);
                uint64_t s = c.raw64();
                for (auto &x : d) x = (uint8_t)(splitmix(s) >> 13);
                uint8_t *b = exact(d);
                r = fi->write(b, p, ps, f.h);
                bool same = !memcmp(b, d.data(), ps);
                free(b);
                c.log("write page %u of the file at %u%s -> %d", p, f.start, flash.fail ? " with a failure" : "", r);
                if (!same) c.fail("a write changed the caller's buffer");
                if (r != want) c.fail("write of page %u of %u%s returned %d", p, f.num, flash.fail ? ", which the device did not complete," : "", r);
                if (r) { f.pages[p] = d; writes++; }
                break;
            }
            case 1: {
                uint8_t *b = exact(Bytes(ps, 0xEE));
                r = fi->read(b, p, ps, f.h);
                Bytes got(b, b + ps);
                free(b);
                c.log("read page %u of the file at %u%s -> %d", p, f.start, flash.fail ? " with a failure" : "", r);
                if (r != want) c.fail("read of page %u of %u%s returned %d", p, f.num, flash.fail ? ", which the device did not complete," : "", r);
                if (r && f.pages.count(p) && got != f.pages[p]) c.fail("page %u of a dataflash file was read back wrongly", p);
                reads++;
                break;
            }
            case 2: {
                flash.fail = false;
                r = fi->erase(p % f.num, p % f.num + 1, ps, f.h);
                if (r != 1) c.fail("erase returned %d", r);
                f.pages.erase(p % f.num);
                inside = true;
                break;
            }
            default:
                flash.fail = false;
                inside = true;
                if (fi->flush(f.h) != 1) c.fail("flush reported failure");
                if (c.chance(1, 2) && (fi->close(f.h) != 1 || fi->open(f.h, EMBEDDB_FILE_MODE_R_PLUS_B) != 1)) c.fail("close and open for update reported failure");
        }
        out += !inside;
        fails += flash.fail && inside;
        if (!flash.problem.empty()) c.fail("%s", flash.problem.c_str());
        if (!inside && flash.calls) c.fail("an access to page %u of a file of %u pages reached the device", p, f.num);
    }
    flash.fail = false;
    for (auto &f : fs) {
        flash.lo = f.start;
        flash.hi = f.start + f.num;
        for (auto &p : f.pages) {
            Bytes got(ps);
            if (fi->read(got.data(), p.first, ps, f.h) != 1) c.fail("page %u of a dataflash file cannot be read at the end", p.first);
            if (got != p.second) c.fail("page %u of a dataflash file has other contents at the end", p.first);
        }
    }
    c.tagIf(out, "dataflash: page outside of the file");
    c.tagIf(fails, "dataflash: device failure");
    c.tagIf(n > 1, "dataflash: several files");
    if (writes >= 3 && reads >= 2) c.nontrivial();
}

// ---------------------------------------------------------------- a database over the adaptors
static void database(Ctx &c) {
    bool sdc = c.chance(1, 2);
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    cfg.eraseFill = sdc ? -1 : 0xFF;
    cfg.flash = !sdc;
    cfg.settle();
    if (sdc) { cfg.eraseFill = -1; cfg.flash = false; }
    Disk disk;
    SdFat32 sd;
    disk.n = 20480;
    flash = Flash();
    embedDBFileInterface *fi = sdc ? getSDInterface() : getDataflashInterface();
    struct Guard { bool sdc; embedDBFileInterface *fi; void *h[3]; ~Guard() { for (void *p : h) if (p) { if (sdc) tearDownSDFile(p); else tearDownDataflashFile(p); } free(fi); } } gd{sdc, fi, {}};
    if (sdc) {
        disk.s = formatted(disk.n);
        if (!sd.begin(&disk)) c.fail("the modelled card cannot be mounted");
        init_sdcard(&sd);
    }
    uint32_t num[3] = {cfg.numData, cfg.numIndex, cfg.numVar}, at = 3;
    for (int i = 0; i < 3; i++) {
        gd.h[i] = sdc ? setupSDFile((char *)NAMES[i]) : setupDataflashFile(at, num[i]);
        at += num[i];
    }
    Hist h(c, cfg, false, [&](Db &db) {
        for (int i = 0; i < 3; i++) {
            db.file(i).mirror = fi;
            db.file(i).mirrorFile = gd.h[i];
        }
    });
    int ops = (int)c.range(3, 25);
    for (int i = 0; i < ops; i++) {
        disk.calls = 0;
        switch (c.weighted({6, 2, 2, 2, 2})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 100))); break;
            case 1: h.flush(); break;
            case 2: h.lookup(h.someKey()); break;
            case 3: h.full("scan"); break;
            case 4: h.reopen(0); break;
        }
        checkProblems(c, *h.db, sdc ? "database on an SD card" : "database on dataflash");
        if (h.exhausted) break;
    }
    h.db->close();
    checkProblems(c, *h.db, sdc ? "database on an SD card, at the end" : "database on dataflash, at the end");
    c.tag(sdc ? "database on an SD card" : "database on dataflash");
    c.tagIf(h.nReopen, "database reopened");
    c.tagIf(h.wrapped(), "database wrapped");
    if (h.m.h.size() > h.m.maxRec) c.nontrivial();
}

static void run(Ctx &c) {
    switch (c.weighted({8, 4, 3})) {
        case 0: sdRaw(c); break;
        case 1: dfRaw(c); break;
        default: database(c);
    }
}
Check pbt::theCheck = {"C24", "histories in which at least three pages were written and two read back through an adaptor or the device failed during a call, or a database on the adaptor wrote more than one page", run, 24000, 300000};

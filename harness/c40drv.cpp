// Runs one generated program in a thread; there is one copy of this library for every thread.
static void (*gYield)();
#define PBT_YIELD() (gYield ? gYield() : (void)0)
#define drive drive25
#include "c25drv.cpp"
#undef drive
extern "C" {
#include "desktopFileInterface.h"
}
static S gDir;
// pages in a file of the desktop interface
static void desktopFile(Ctx &c) {
    S path = gDir + "/pages";
    unlink(path.c_str());
    uint32_t size = (uint32_t)c.range(16, 600), pages = (uint32_t)c.range(1, 40);
    embedDBFileInterface *fi = c.chance(1, 3) ? getMockEraseFileInterface() : getFileInterface();
    void *f = setupFile(&path[0]);
    c.log("open -> %d", fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B));
    Bytes b(size);
    std::vector<Bytes> m(pages);
    for (int i = (int)c.range(1, 40); i > 0; i--) {
        uint32_t p = (uint32_t)c.draw(pages);
        PBT_YIELD();
        switch (c.weighted({4, 5, 1, 1})) {
            case 0: {
                uint8_t x = (uint8_t)c.draw(256);
                for (size_t k = 0; k < size; k++) b[k] = (uint8_t)(x + k * p);
                int r = fi->write(b.data(), p, size, f);
                c.log("write %u -> %d", p, r);
                if (r) m[p] = b;
                break;
            }
            case 1: {
                int r = fi->read(b.data(), p, size, f);
                c.log("read %u -> %d %016llx", p, r, r ? (unsigned long long)digest(b) : 0);
                if (r && !m[p].empty() && m[p] != b) c.fail("!a page that was read is not what was written");
                break;
            }
            case 2: c.log("flush -> %d", fi->flush(f)); break;
            default: {
                int x = fi->close(f), y = fi->open(f, EMBEDDB_FILE_MODE_R_PLUS_B);
                c.log("close and open -> %d %d", x, y);
            }
        }
    }
    c.log("close -> %d", fi->close(f));
    tearDownFile(f);
    free(fi);
    unlink(path.c_str());
    c.nontrivial();
    c.tag("programs with files of the desktop");
}
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void setYield(void (*f)()) { gYield = f; }
EXPORT void setDir(const char *d) { gDir = d; }
EXPORT int drive(Ctx *cp, Shared *sh, std::string *obs, uint8_t junk) {
    gCur = sh;
    gJunk = junk;
    if (!cp->chance(1, 8)) return drive25(cp, sh, obs, junk);
    cp->obs = obs;
    try {
        desktopFile(*cp);
    } catch (Failure &f) {
        *obs += "FAIL " + f.msg + "\n";
    } catch (Discard &) {
        return 3;
    }
    return 1;
}

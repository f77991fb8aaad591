#include "crash.hpp"
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "desktopFileInterface.h"
void tearDownFile(void *file);
}
using namespace pbt;
// C37: on storage that keeps writes in a cache, what was flushed survives.

// the repository's desktop files: what a process that ends leaves in them is the cached part missing
struct Files : Hist::Disk {
    char dir[600];
    std::string names[3];
    embedDBFileInterface *fi = getFileInterface();
    void *h[3];
    Bytes now[3];
    bool there[3] = {};
    Files() {
        snprintf(dir, sizeof dir, "%s/files.%d", gTmpDir, (int)getpid());
        mkdir(dir, 0700);
        for (int i = 0; i < 3; i++) {
            names[i] = std::string(dir) + "/f" + std::to_string(i);
            unlink(names[i].c_str());
            h[i] = setupFile((char *)names[i].c_str());
        }
    }
    ~Files() {
        for (int i = 0; i < 3; i++) {
            tearDownFile(h[i]);
            unlink(names[i].c_str());
        }
        rmdir(dir);
        free(fi);
    }
    size_t kept(int f, const std::vector<FileImage> &states, size_t from) override {
        FILE *in = fopen(names[f].c_str(), "rb");
        now[f].clear();
        there[f] = in != nullptr;
        if (in) {
            uint8_t buf[4096];
            size_t n;
            while ((n = fread(buf, 1, sizeof buf, in)) > 0) now[f].insert(now[f].end(), buf, buf + n);
            fclose(in);
        }
        for (size_t k = states.size(); k-- > 0;) {
            const FileImage &x = states[k];
            if (x.exists != there[f]) continue;
            size_t n = (size_t)x.highWater * x.pageSize;
            if (n == now[f].size() && std::equal(now[f].begin(), now[f].end(), x.bytes.begin())) return from + k;
        }
        return (size_t)-1;
    }
    void restore() override {
        for (int i = 0; i < 3; i++) {
            unlink(names[i].c_str());
            if (!there[i]) continue;
            FILE *out = fopen(names[i].c_str(), "wb");
            if (!out || fwrite(now[i].data(), 1, now[i].size(), out) != now[i].size() || fclose(out)) hardFail("the scratch directory can not be written");
        }
    }
};
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = 6;
    Cfg cfg = genCfg(c, g);
    if (!c.chance(1, 12)) return crashHistory(c, cfg, 40, 0, true);
    if (4096 % cfg.pageSize) throw Discard();  // the C library could write a part of a page
    cfg.flash = false;
    cfg.eraseFill = -1;
    cfg.settle();
    Files files;
    c.tag("real files");
    crashHistory(c, cfg, 40, 0, true, &files, [&](Db &db) {
        for (int i = 0; i < 3; i++) {
            db.file(i).mirror = files.fi;
            db.file(i).mirrorFile = files.h[i];
        }
    });
}
Check pbt::theCheck = {"C37", "histories with up to five crashes in each of which every file loses some of the operations since it was last flushed; non-trivial: a recovery returned records, compared with the history", run, 24000, 300000};

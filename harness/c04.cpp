#include "hist.hpp"
using namespace pbt;
// C04: wrap-around drops only the oldest records, and not too many of them.
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 6);
    g.maxBlocks = 5;
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg);
    uint64_t laps = 1 + c.draw(5);
    uint64_t total = std::min<uint64_t>(3000, (uint64_t)h.m.maxRec * cfg.numData * laps + c.draw(30));
    int checks = 0, wrappedChecks = 0;
    size_t prev = 0;
    auto look = [&](const char *when) {
        size_t off = h.full(when);
        if (off < prev) c.fail("%s: record %zu is back although records before %zu had been dropped", when, off, prev);
        prev = off;
        checks++;
        if (h.wrapped()) wrappedChecks++;
        // every record a scan returns is found by lookups, nothing older is
        for (int i = 0; i < 4 && h.m.has(); i++) {
            size_t k = off + c.draw(h.m.h.size() - off + 1);
            if (k < h.m.h.size()) h.lookup(h.m.h[k].key, off);
        }
        if (off < h.m.h.size()) h.lookup(h.m.h[off].key, off);
    };
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({12, 4, 2, 1});
        if (op == 0) h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 150)), 15);
        else if (op == 1) look("during the history");
        else if (op == 2) {
            int n = c.chance(1, 6) ? (int)c.draw(2 * cfg.eraseSize + 2) : 1;  // many nearly empty pages
            for (int i = 0; i < n; i++) { h.flush(); if (i + 1 < n) h.insert(15); }
        } else if (c.chance(1, 3)) { h.full("before reopening"); prev = h.reopen(prev); }
    }
    look("at the end");
    h.commonTags();
    c.tag("suffix checks", checks);
    c.tag("suffix checks after wrap-around", wrappedChecks);
    if (wrappedChecks > 0) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C04", "histories of up to five laps around the data file; non-trivial: the retained records were compared with the history after storage had wrapped around", run, 20000, 250000};

#include "hist.hpp"
using namespace pbt;
// C06: values overwritten by wrap-around are reported as deleted, never as other bytes, and only the oldest are lost.
static void run(Ctx &c) {
    GenOpts g;
    g.var = 2;
    g.bigPages = c.chance(1, 4);
    g.maxBlocks = 7;
    Cfg cfg = genCfg(c, g);
    cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 5);
    cfg.settle();
    Hist h(c, cfg);
    uint64_t total = c.small(20, 500);
    int read = 0, deleted = 0, scans = 0;
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({10, 4, 1, 1, 1});
        if (op == 0) h.insertMany(1 + c.draw(25), 80);
        else if (op == 1) {
            if (h.m.has()) for (int i = 0; i < 4; i++) { int r = h.lookupVar(h.someKey()); read += r == 0; deleted += r == 1; }
        } else if (op == 2) h.flush();
        else if (op == 3) {
            size_t off = h.full("before a variable scan");
            h.scanVar(c.chance(1, 2) ? Filter() : genFilter(c, cfg, h.m), off, "during the history", &read, &deleted);
            scans++;
        } else if (c.chance(1, 3)) h.reopen(h.full("before reopening"));
    }
    size_t off = h.full("at the end");
    // once a value is lost, every older one is too, and lookups and scans agree
    bool lost = false;
    for (size_t i = h.m.h.size(); i-- > off;) {
        int r = h.lookupVar(h.m.h[i].key);
        if (r == 3) c.fail("variable lookup of the retained key %llu failed", (unsigned long long)h.m.h[i].key);
        if (r == 0 && lost) c.fail("the value of key %llu is readable although that of a newer record was reported as deleted", (unsigned long long)h.m.h[i].key);
        if (r == 1) { lost = true; deleted++; }
        if (r == 0) read++;
    }
    h.scanVar(Filter(), off, "at the end", &read, &deleted);
    h.commonTags();
    c.tag("values read", read);
    c.tag("values reported deleted", deleted);
    c.tagIf(h.varTotal() > cfg.numVar, "variable file wrapped");
    if (read && deleted) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C06", "histories that wrap a small variable-data file one or more times; non-trivial: some values were read back exactly and some were reported as deleted", run, 20000, 250000};

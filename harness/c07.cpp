#include "hist.hpp"
using namespace pbt;
// C07: flush, close, reopen: same answers, and life goes on.
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 5);
    g.maxBlocks = 6;
    Cfg cfg = genCfg(c, g);
    if (c.chance(1, 2)) cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 4);
    cfg.settle();
    Hist h(c, cfg);
    int cycles = 1 + (int)c.draw(5);
    bool answers = false;
    for (int cy = 0; cy < cycles && !h.exhausted; cy++) {
        // stop on or near interesting page counts
        uint64_t target;
        switch (c.draw(4)) {
            case 0: target = c.draw(4); break;
            case 1: target = h.m.curPage + c.draw(cfg.numData + 2); break;
            case 2: target = (h.m.curPage / cfg.numData + 1) * cfg.numData + c.range(-1, 1); break;
            default: target = h.m.curPage + c.draw(2 * cfg.eraseSize + 2); break;
        }
        uint64_t cap = 700;
        while (h.m.curPage < target && cap-- && !h.exhausted) {
            if (c.chance(1, 25)) h.flush();
            h.insert(40);
        }
        if (c.chance(1, 3)) h.insertMany(c.draw(h.m.maxRec + 1), 40);
        // a record of the answers before: full scan, filtered scan, values
        size_t off = h.full("before reopening");
        Filter f = genFilter(c, cfg, h.m);
        h.filtered(f, off, "before reopening");
        off = h.reopen(off);
        answers |= h.m.h.size() > off && h.m.has();
        h.filtered(f, off, "after reopening");
        for (int i = 0; i < 6 && h.m.has(); i++) h.lookup(h.someKey());
        for (size_t i = off; i < h.m.h.size() && i < off + 4; i++) h.lookup(h.m.h[i].key, off);
        if (h.m.has()) h.lookup(h.m.last(), off);
        if (cfg.var) h.scanVar(c.chance(1, 2) ? Filter() : f, off, "after reopening");
        if (cfg.var && h.m.has()) for (int i = 0; i < 3; i++) h.lookupVar(h.someKey());
    }
    if (!h.exhausted) h.insertMany(c.draw(3 * h.m.maxRec), 40);
    size_t off = h.full("at the end");
    if (cfg.var) h.scanVar(Filter(), off, "at the end");
    h.filtered(genFilter(c, cfg, h.m), off, "at the end");
    h.commonTags();
    c.tag("reopens", h.nReopen);
    if (answers) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C07", "histories cut by flush, close and reopen at random and boundary page counts; non-trivial: a reopened database held records and its answers were compared with those before closing", run, 24000, 300000};

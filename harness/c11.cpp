#include "hist.hpp"
using namespace pbt;
// C11: page ranges, erase blocks, erase before rewrite, over whole lives of a database.
static void run(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 5;
    Cfg cfg = genCfg(c, g);
    if (c.chance(1, 2)) cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 4);
    cfg.settle();
    Hist h(c, cfg, true);
    h.db->dev->checkDiscipline = true;
    auto ok = [&](const char *when) { checkProblems(c, *h.db, when); };
    int steps = 3 + (int)c.draw(25);
    uint64_t writes = 0;
    bool rewrote = false;
    for (int s = 0; s < steps && !h.exhausted && h.m.h.size() < 1200; s++) {
        switch (c.weighted({12, 4, 2, 2, 1, 2})) {
            case 0: {
                uint64_t n = 1 + c.draw(std::min<uint64_t>(120, 3 * h.m.maxRec));
                for (uint64_t i = 0; i < n && h.insert(35); i++) if (!h.db->dev->problems.empty()) ok("after an insert");
                break;
            }
            case 1: {
                int n = c.chance(1, 4) ? (int)c.draw(2 * cfg.eraseSize + 2) : 1;
                for (int i = 0; i < n; i++) { h.flush(); ok("after a flush"); if (i + 1 < n) h.insert(35); }
                break;
            }
            case 2: h.full("during the history"); ok("after a scan"); break;
            case 3:
                if (h.m.has()) {
                    h.lookup(h.someKey());
                    if (cfg.var) h.lookupVar(h.someKey());
                    h.filtered(genFilter(c, cfg, h.m), h.full("before a query"), "during the history");
                    h.note();
                    ok("after queries");
                }
                break;
            case 4: writes += h.db->fd.writes; h.reopen(h.full("before reopening")); ok("after reopening"); break;
            case 5: {
                size_t n = h.crashPoints();
                writes += h.db->fd.writes;
                h.crash(c.chance(1, 3) ? n : n - c.draw(std::min<size_t>(n, 2 * cfg.eraseSize + 8) + 1));
                ok("after recovering from a crash");
                break;
            }
        }
        rewrote |= h.m.curPage > cfg.numData;
    }
    ok("at the end");
    h.commonTags();
    if (rewrote || h.varTotal() > cfg.numVar) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C11", "histories with flushes, queries, reopens and crashes on storage that tracks the state of every page; non-trivial: a file wrapped around, so that written pages were written again", run, 20000, 250000};

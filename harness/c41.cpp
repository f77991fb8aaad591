#include "hist.hpp"
using namespace pbt;
// C41: a database is opened again with other options; the data does not depend on them.
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 5);
    g.maxBlocks = c.chance(1, 4) ? 12 : 6;
    bool indexed = c.chance(3, 4);
    Cfg cfg;
    g.index = indexed ? 2 : 0;
    cfg = genCfg(c, g);
    if (!indexed && cfg.dataSize) cfg.bmap = c.chance(1, 3);
    if (c.chance(1, 2)) cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 4);
    if (cfg.bmap && !cfg.index) cfg.pageSize = std::max(cfg.pageSize, cfg.header() + cfg.recordSize() + (cfg.pageSize & 1));
    cfg.pageSize += cfg.pageSize & 1;
    if (c.chance(1, 3)) cfg.dataProfile = 2;
    cfg.settle();
    bool crashes = c.chance(1, 2);
    if (crashes && cfg.eraseFill == -1 && c.chance(1, 2)) cfg.eraseFill = 0xFF;
    bool startOff = indexed && c.chance(1, 3);
    if (startOff) cfg.index = false;
    Hist h(c, cfg, crashes);
    int search = 0, on = 0, off2 = 0, lost = 0, err = 0;
    bool pts = false;
    h.between = [&] {
        Cfg &f = h.cfg;
        if (c.chance(1, 3)) { f.binary = !f.binary; search++; }
        if (c.chance(1, 2)) { int p = (int)c.pick({4, 5, 6, 8, 12, 30, 120}); pts |= p != f.splinePts; f.splinePts = p; }
        if (c.chance(1, 3)) { uint32_t e = (uint32_t)c.pick({0, 1, 2, 4, 8, 16}); err += e != f.maxErr; f.maxErr = e; }
        if (c.chance(1, 6)) f.noclean = !f.noclean;
        if (indexed && c.chance(1, 2)) {
            f.index = !f.index;
            f.index ? on++ : off2++;
        }
        if (indexed && c.chance(1, 8)) {
            h.indexLost = true;
            lost++;
            if (c.chance(1, 2)) f.numIndex = f.eraseSize * (uint32_t)c.range(2, 4);
        }
        f.bufBlocks = 2 + 2 * f.index + 2 * f.var;
        if (f.index && f.bufBlocks < 4) f.bufBlocks = 4;
        f.bufBlocks += c.chance(1, 6);
        f.settle();
        c.log("now %s%s", f.str().c_str(), h.indexLost ? ", the index file was removed" : "");
    };
    int cycles = 2 + (int)c.draw(6);
    int answers = 0;
    uint64_t budget = 1500;
    for (int cy = 0; cy < cycles && !h.exhausted; cy++) {
        uint64_t pages;
        switch (c.draw(4)) {
            case 0: pages = c.draw(4); break;
            case 1: pages = c.draw(h.cfg.numData + 2); break;
            case 2: pages = (h.m.curPage / h.cfg.numData + 1) * h.cfg.numData - h.m.curPage + c.draw(3); break;
            default: pages = c.draw(2 * h.cfg.eraseSize + 2); break;
        }
        uint64_t recs = std::min<uint64_t>(budget, pages * h.m.maxRec + c.draw(h.m.maxRec + 1));
        budget -= recs;
        for (uint64_t i = 0; i < recs && !h.exhausted; i++) {
            h.insert(40);
            if (c.chance(1, 40)) h.flush();
        }
        size_t off = h.full("before reopening");
        if (c.chance(1, 2)) h.filtered(genFilter(c, h.cfg, h.m), off, "before reopening");
        Filter f = genFilter(c, h.cfg, h.m);
        if (crashes && c.chance(1, 2)) {
            size_t n = h.crashPoints();
            off = h.crash(c.chance(1, 2) ? n : n - c.draw(std::min<size_t>(n, 2 * h.cfg.eraseSize + 6) + 1));
        } else off = h.reopen(off);
        if (h.m.has()) answers++;
        h.filtered(f, off, "after reopening with other options");
        h.filtered(genFilter(c, h.cfg, h.m), off, "after reopening with other options");
        for (int i = 0; i < 6 && h.m.has(); i++) h.lookup(h.someKey());
        for (size_t i = off; i < h.m.h.size() && i < off + 4; i++) h.lookup(h.m.h[i].key, off);
        if (h.m.has()) h.lookup(h.m.last(), off);
        if (h.cfg.var) h.scanVar(c.chance(1, 2) ? Filter() : f, off, "after reopening");
        if (h.cfg.var && h.m.has()) for (int i = 0; i < 3; i++) h.lookupVar(h.someKey());
    }
    if (!h.exhausted) h.insertMany(c.draw(3 * h.m.maxRec), 40);
    size_t off = h.full("at the end");
    if (h.cfg.var) h.scanVar(Filter(), off, "at the end");
    for (int i = 0; i < 2; i++) h.filtered(genFilter(c, h.cfg, h.m), off, "at the end");
    h.commonTags();
    c.tag("reopens", h.nReopen);
    c.tag("changes between binary search and the spline", search);
    c.tag("other numbers of spline points", pts);
    c.tag("other error bounds of the spline", err);
    c.tag("index switched on", on);
    c.tag("index switched off", off2);
    c.tag("index file removed", lost);
    if (answers && search + on + off2 + lost + err + pts) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C41", "histories cut by reopenings, orderly or after a crash, at each of which options that the stored data does not depend on may change: search method, spline points and error bound, number of buffers, the index switched on or off, its file removed; non-trivial: a database with records was opened with other options and its answers compared", run, 24000, 300000};

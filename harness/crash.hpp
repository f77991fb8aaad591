// driver shared by the crash checks
#include "hist.hpp"
inline void crashHistory(pbt::Ctx &c, Cfg cfg, int varPct, int mode, bool buffered = false, Hist::Disk *disk = nullptr, std::function<void(Db &)> prepare = nullptr) {
    Hist h(c, cfg, true, prepare);
    h.disk = disk;
    h.buffered = h.db->dev->logFlush = buffered;
    int cycles = 1 + (int)c.draw(5);
    bool dataCrash = false, wrappedCrash = false, valueChecked = false, lossy = false;
    uint64_t budgetRecs = 900;
    int deleted = 0, read = 0;
    for (int cy = 0; cy < cycles && !h.exhausted; cy++) {
        uint64_t pages;
        switch (c.draw(4)) {
            case 0: pages = c.draw(3); break;
            case 1: pages = c.draw(cfg.numData + 2); break;
            case 2: { uint64_t lap = (h.m.curPage / cfg.numData + 1) * cfg.numData; pages = lap - h.m.curPage + c.draw(3); break; }
            default: pages = c.draw(2 * cfg.eraseSize + 2); break;
        }
        uint64_t recs = std::min<uint64_t>(budgetRecs, pages * h.m.maxRec + c.draw(h.m.maxRec + 1));
        if (c.chance(1, 8)) recs = c.draw(3);
        budgetRecs -= recs;
        for (uint64_t i = 0; i < recs && !h.exhausted; i++) {
            h.insert(varPct);
            if (c.chance(1, 30)) h.flush();
            if (mode == 1 && c.chance(1, 12) && h.m.has()) { if (cfg.var) h.lookupVar(h.someKey()); else h.lookup(h.someKey()); }
        }
        if (c.chance(1, 4)) h.flush();
        if (buffered && c.chance(1, 6)) {
            h.flushFailing();
            if (c.chance(2, 3)) h.flush();
        }
        if (buffered && c.chance(1, 2)) h.filtered(genFilter(c, cfg, h.m), h.full("before a crash"), "before a crash");
        if (c.chance(1, 12)) { h.reopen(h.full("before an orderly reopen")); }
        // crash point: usually near the end of the log, sometimes anywhere
        size_t n = h.crashPoints();
        size_t j;
        if (disk) j = n;
        else switch (c.draw(4)) {
            case 0: j = n; break;
            case 1: j = c.draw(n + 1); break;
            default: j = n - c.draw(std::min<size_t>(n, 2 * cfg.eraseSize + 6) + 1); break;
        }
        size_t before = h.m.h.size();
        size_t a = h.crash(j);
        lossy |= h.m.h.size() < before;
        dataCrash |= !h.m.h.empty() && a < h.m.h.size();
        wrappedCrash |= h.wrapped();
        // the recovered database answers like one that holds exactly h[a..)
        h.filtered(genFilter(c, cfg, h.m), a, "after the crash");
        for (int i = 0; i < 4 && h.m.has(); i++) h.lookup(h.someKey());
        if (h.m.has()) { h.lookup(h.m.last(), a); h.lookup(h.m.h[a].key, a); }
        if (cfg.var) {
            h.scanVar(Filter(), a, "after the crash", &read, &deleted);
            for (int i = 0; i < 2 && h.m.has(); i++) h.lookupVar(h.someKey());
            for (size_t i = a; i < h.m.h.size(); i++) valueChecked |= h.m.h[i].hasVar;
        }
    }
    if (!h.exhausted) {
        h.insertMany(c.draw(2 * h.m.maxRec + 1), varPct);
        size_t off = h.full("after the last recovery");
        if (cfg.var) h.scanVar(Filter(), off, "after the last recovery", &read, &deleted);
        if (buffered) h.filtered(genFilter(c, cfg, h.m), off, "after the last recovery");
    }
    h.commonTags();
    c.tagIf(wrappedCrash, "crash after wrap-around");
    if (buffered) c.tag("files that lost operations in a crash", h.nLost);
    c.tagIf(lossy, "crash that lost buffered records");
    if (cfg.var) { c.tag("values read after crashes", read); c.tag("values reported deleted after crashes", deleted); }
    if (mode == 2 ? valueChecked : dataCrash) c.nontrivial();
    h.db->close();
}

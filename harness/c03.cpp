#include "hist.hpp"
using namespace pbt;
// C03: filtered scans equal the retained records that match, exactly once and in order.
static void run(Ctx &c) {
    GenOpts g;
    g.index = c.chance(1, 3) ? 1 : 2;
    Cfg cfg = genCfg(c, g);
    if (c.chance(1, 6)) ownFunctions(c, cfg);
    Hist h(c, cfg);
    uint64_t total = c.small(1, h.wrapTarget(900));
    int scans = 0, rows = 0, dataScans = 0;
    auto scan = [&](const char *when) {
        size_t off = h.full(when);
        int n = 1 + (int)c.draw(4);
        for (int i = 0; i < n; i++) {
            Filter f = genFilter(c, cfg, h.m);
            c.log("scan %s", f.str().c_str());
            h.filtered(f, off, when);
            if (cfg.var && c.chance(1, 3)) h.scanVar(f, off, when);
            scans++;
            if (f.hasMinD || f.hasMaxD) dataScans++;
            for (size_t k = off; k < h.m.h.size(); k++) rows += f.match(h.m.h[k].key, h.m.h[k].val);
        }
        return off;
    };
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({10, 3, 2, 1});
        if (op == 0) h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 80)));
        else if (op == 1) scan("during the history");
        else if (op == 2) h.flush();
        else if (c.chance(1, 2)) h.reopen(h.full("before reopening"));
        else if (h.m.has()) h.lookup(h.someKey());
    }
    scan("at the end");
    scan("at the end");
    if (c.chance(1, 2)) { h.flush(); scan("after a final flush"); }
    h.commonTags();
    c.tag("scans", scans);
    c.tag("scans with a data filter", dataScans);
    c.tag("matching rows", rows);
    if (h.m.curPage > 0 && rows > 0 && scans > 0) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C03", "histories with random inclusive key and data filters, mostly with bitmaps and an index; non-trivial: at least one data page was written and at least one filtered scan had matching records", run, 24000, 300000};

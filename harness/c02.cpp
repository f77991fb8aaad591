#include "hist.hpp"
using namespace pbt;
// C02: keys are accepted iff greater than every key accepted before; a rejected insert has no effect.
static void tryReject(Ctx &c, Hist &h, size_t off) {
    if (!h.m.has()) return;
    uint64_t last = h.m.last(), k;
    switch (c.draw(6)) {
        case 0: k = last; break;
        case 1: k = last - std::min<uint64_t>(last, 1 + c.draw(3)); break;
        case 2: k = h.m.h[c.draw(h.m.h.size())].key; break;
        case 3: k = h.m.h[h.m.h.size() - 1 - c.draw(std::min<size_t>(h.m.h.size(), h.m.maxRec + 2))].key; break;
        case 4: k = 0; break;
        default: k = c.draw(last + 1); break;
    }
    if (k > last) k = last;
    Rec r = genRec(c, h.cfg, k);
    int x;
    if (h.cfg.var && c.chance(1, 2)) {
        bool with = c.chance(2, 3);
        Bytes v = genVarBytes(c, h.cfg, k);
        x = h.db->putVar(k, r.data, with ? &v : nullptr);
    } else x = h.db->put(k, r.data);
    c.log("put %llu (last accepted %llu) -> %d", (unsigned long long)k, (unsigned long long)last, x);
    if (x == 0) c.fail("insert of key %llu was accepted although key %llu had been accepted before (%u of %u records on the current page, %u pages written)", (unsigned long long)k, (unsigned long long)last, h.m.curCount, h.m.maxRec, h.m.curPage);
    // the answers stay as if it had never been attempted
    if (c.chance(1, 4)) {
        h.lookup(k);
        size_t o = h.full("after a rejected insert");
        if (o != off) c.fail("a rejected insert changed the first retained record from %zu to %zu", off, o);
    } else if (c.chance(1, 3)) h.lookup(k);
}
static void run(Ctx &c) {
    GenOpts g;
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg);
    uint64_t total = c.small(1, h.wrapTarget(600));
    int rejected = 0, atEmpty = 0, afterReopen = 0;
    int spice = 1 + (int)c.draw(4);
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({10, 5, 2, 1});
        if (op == 0) {
            // go exactly to a page boundary now and then
            uint64_t n = c.chance(1, 3) ? h.m.maxRec - std::min(h.m.curCount, h.m.maxRec) + c.draw(2) : 1 + c.draw(std::min<uint64_t>(2 * h.m.maxRec, 40));
            for (uint64_t i = 0; i < n && !h.exhausted; i++) {
                h.insert();
                if (c.chance(1, 3 * spice)) { tryReject(c, h, 0 == 1 ? 0 : h.full("before a rejected insert")); rejected++; }
            }
        } else if (op == 1) {
            size_t off = h.full("before a rejected insert");
            int n = 1 + (int)c.draw(4);
            for (int i = 0; i < n && h.m.has(); i++) {
                tryReject(c, h, off);
                rejected++;
                if (h.m.curCount == 0) atEmpty++;
                if (h.m.curCount == 0 && h.nReopen) afterReopen++;
            }
        } else if (op == 2) h.flush();
        else if (h.m.has()) {
            size_t off = h.full("before reopening");
            h.reopen(off);
            if (c.chance(2, 3)) { tryReject(c, h, h.full("after reopening")); rejected++; afterReopen++; }
        }
    }
    if (h.m.has()) for (int i = 0; i < 3; i++) { tryReject(c, h, h.full("at the end")); rejected++; }
    // the next greater key is still accepted
    if (!h.exhausted && h.insert()) h.lookup(h.m.last());
    h.full("at the end");
    h.commonTags();
    c.tag("rejected inserts", rejected);
    c.tag("rejected with an empty buffer", atEmpty);
    c.tag("rejected after reopening", afterReopen);
    if (rejected && h.m.curPage > 0) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C02", "histories of ascending inserts mixed with inserts of keys that are not greater than the last accepted one, at empty, partial and full buffers, after flushes, wraps and reopens; non-trivial: at least one insert had to be rejected and at least one data page had been written", run, 24000, 300000};

#include "hist.hpp"
using namespace pbt;
// C22: I/O statistics match the storage traffic.
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 6);
    g.maxBlocks = 5;
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg);
    struct { uint64_t dr, dw, ir, iw, vr, vw, pages; } z{};
    auto mark = [&] { z = {h.db->fd.reads, h.db->fd.writes, h.db->fi.reads, h.db->fi.writes, h.db->fv.reads, h.db->fv.writes, h.m.curPage}; };
    auto check = [&](const char *when) {
        embedDBState *s = h.db->st;
        uint64_t r = h.db->fd.reads - z.dr + h.db->fv.reads - z.vr, ir = h.db->fi.reads - z.ir, iw = h.db->fi.writes - z.iw;
        uint64_t pages = cfg.rlc ? h.m.curPage - z.pages : h.db->fd.writes - z.dw;
        uint64_t w = pages + h.db->fv.writes - z.vw;
        if (s->numReads != r) c.fail("%s: numReads is %u, but %llu pages of data and variable data were read", when, s->numReads, (unsigned long long)r);
        if (s->numWrites != w) c.fail("%s: numWrites is %u, but %llu pages of data and %llu of variable data were written", when, s->numWrites, (unsigned long long)pages, (unsigned long long)(w - pages));
        if (s->numIdxReads != ir) c.fail("%s: numIdxReads is %u, but %llu index pages were read", when, s->numIdxReads, (unsigned long long)ir);
        if (s->numIdxWrites != iw) c.fail("%s: numIdxWrites is %u, but %llu index pages were written", when, s->numIdxWrites, (unsigned long long)iw);
    };
    auto zero = [&](const char *when) {
        embedDBState *s = h.db->st;
        if (s->numReads || s->numWrites || s->numIdxReads || s->numIdxWrites || s->bufferHits)
            c.fail("%s the counters are %u %u %u %u %u instead of zero", when, s->numReads, s->numWrites, s->numIdxReads, s->numIdxWrites, s->bufferHits);
    };
    zero("after initialization");
    mark();
    int ops = (int)c.range(4, 60), hits = 0, resets = 0, traffic = 0;
    for (int i = 0; i < ops; i++) {
        const char *when = "";
        uint64_t before = h.db->st->numReads + (uint64_t)h.db->st->numWrites;
        switch (c.weighted({8, 2, 4, 2, 2, 1, 1})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(2 * h.m.maxRec, 80)), 50); when = "after inserts"; break;
            case 1: h.flush(); when = "after a flush"; break;
            case 2: {
                uint64_t k = h.someKey();
                embedDBState *s = h.db->st;
                uint64_t r0 = s->numReads, h0 = s->bufferHits;
                h.lookup(k);
                uint64_t pages = s->numReads - r0 + s->bufferHits - h0;
                when = "after a lookup";
                if (pages == 1) {  // the one page needed is in the read buffer now
                    check(when);
                    uint64_t real = h.db->fd.reads;
                    r0 = s->numReads;
                    h0 = s->bufferHits;
                    h.lookup(k);
                    if (h.db->fd.reads != real) c.fail("a repeated lookup of key %llu, which needs one page, read the storage again", (unsigned long long)k);
                    // (a spline search may recognize the buffered page without asking for it)
                    if (s->numReads != r0 || s->bufferHits > h0 + 1 || (cfg.binary && s->bufferHits != h0 + 1)) c.fail("a repeated lookup of key %llu, which needs one page, counted %llu reads and %llu buffer hits", (unsigned long long)k, (unsigned long long)(s->numReads - r0), (unsigned long long)(s->bufferHits - h0));
                    hits++;
                }
                break;
            }
            case 3:
                if (cfg.var && c.chance(1, 2)) h.lookupVar(h.someKey());
                else {
                    // every page of a scan is either read or found in the buffer; without an index no page is looked at twice
                    uint64_t r0 = h.db->st->numReads, p0 = r0 + h.db->st->bufferHits;
                    size_t off = h.full("scan");
                    uint64_t r = h.db->st->numReads - r0, p = h.db->st->numReads + (uint64_t)h.db->st->bufferHits - p0;
                    uint32_t need = off < h.m.h.size() && h.m.h[off].page < h.m.curPage ? h.m.curPage - h.m.h[off].page : 0;
                    if (p < need) c.fail("a full scan over %u pages of records counted %llu page reads and buffer hits", need, (unsigned long long)p);
                    if (r + 1 < need || r > need) c.fail("a full scan over %u pages of records read %llu pages", need, (unsigned long long)r);
                }
                when = "after a scan";
                break;
            case 4: {
                Filter f = genFilter(c, cfg, h.m);
                scanAll(c, *h.db, f, h.m.h.size());
                when = "after a filtered scan";
                break;
            }
            case 5: {
                check("before the reset");
                std::vector<uint8_t> a((uint8_t *)h.db->st, (uint8_t *)h.db->st + sizeof(embedDBState));
                Bytes buf(h.db->buffer, h.db->buffer + (size_t)cfg.bufBlocks * cfg.pageSize);
                embedDBResetStats(h.db->st);
                zero("after a reset");
                embedDBState *o = (embedDBState *)a.data();
                o->numReads = o->numWrites = o->numIdxReads = o->numIdxWrites = o->bufferHits = 0;
                if (memcmp(o, h.db->st, sizeof(embedDBState))) c.fail("resetting the statistics changed other parts of the state");
                if (memcmp(buf.data(), h.db->buffer, buf.size())) c.fail("resetting the statistics changed the page buffers");
                mark();
                when = "after a reset";
                resets++;
                break;
            }
            default:
                if (!c.chance(1, 3)) break;
                check("before reopening");
                h.flush();
                check("after the last flush");
                h.db->close();
                if (h.db->open(false)) c.fail("reopening failed");
                h.varBase += 0;
                h.epoch++;
                zero("after reopening");
                mark();
                when = "after reopening";
        }
        check(when);
        traffic += h.db->st->numReads + (uint64_t)h.db->st->numWrites != before;
    }
    h.commonTags();
    c.tag("repeated lookups answered from the buffer", hits);
    c.tag("resets", resets);
    c.tagIf(cfg.rlc, "record-level consistency");
    if (traffic >= 3) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C22", "a history with at least three operations that moved pages between memory and storage", run};

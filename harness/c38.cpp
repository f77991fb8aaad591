#include "hist.hpp"
using namespace pbt;
// C38: comparators and bitmap functions of the application's own.
// the headers of the pages in storage agree with the records on them
static void headers(Ctx &c, const Cfg &f, Hist &h) {
    const FileImage &im = h.db->fd.im;
    for (uint32_t p = 0; p < im.st.size() && p < f.numData; p++) {
        if (im.st[p] != PG_WRITTEN) continue;
        const uint8_t *b = im.bytes.data() + (size_t)p * f.pageSize;
        int n = b[4] | b[5] << 8;
        int64_t lo = INT64_MAX, hi = INT64_MIN;
        Bytes bm(f.bitmapSize);
        for (int i = 0; i < n; i++) {
            int64_t v = f.value(b + f.header() + i * f.recordSize() + f.keySize);
            lo = std::min(lo, v);
            hi = std::max(hi, v);
            int k = ownBucket(v);
            bm[k / 8] |= (uint8_t)(1 << k % 8);
        }
        if (f.maxmin && (f.value(b + 14 + 2 * f.keySize) != lo || f.value(b + 14 + 2 * f.keySize + f.dataSize) != hi))
            c.fail("the header of page %u has the smallest and largest value %lld and %lld, its records have %lld to %lld", p, (long long)f.value(b + 14 + 2 * f.keySize), (long long)f.value(b + 14 + 2 * f.keySize + f.dataSize), (long long)lo, (long long)hi);
        if (f.bmap && memcmp(b + 6, bm.data(), bm.size())) c.fail("the bitmap of page %u is not that of its records", p);
    }
}
static void run(Ctx &c) {
    GenOpts g;
    g.index = c.chance(1, 3) ? 2 : 1;
    g.bigPages = c.chance(1, 6);
    Cfg cfg = genCfg(c, g);
    ownFunctions(c, cfg);
    Hist h(c, cfg);
    int ops = (int)c.range(4, 20), scans = 0, refused = 0;
    size_t off = 0;
    for (int i = 0; i < ops && !h.exhausted; i++) {
        switch (c.weighted({6, 1, 3, 4, 1, 2, 1})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(4 * h.m.maxRec, 120))); break;
            case 1: h.flush(); break;
            case 2:
                for (int j = 0; j < 4 && h.m.has(); j++) {
                    h.lookup(h.someKey());
                    if (cfg.var) h.lookupVar(h.someKey());
                }
                break;
            case 3: {
                off = h.full("scan");
                for (int j = 0; j < 3; j++) { h.filtered(genFilter(c, cfg, h.m), off, "scan"); scans++; }
                break;
            }
            case 4:
                off = h.full("before reopening");
                h.reopen(off);
                break;
            case 5:
                if (!h.m.has()) break;
                for (int j = 0; j < 2; j++) {
                    uint64_t k = h.m.last() - std::min<uint64_t>(h.m.last(), c.draw(5));
                    Rec r = genRec(c, cfg, k);
                    int x = c.chance(1, 2) || !cfg.var ? h.db->put(k, r.data) : h.db->putVar(k, r.data, nullptr);
                    c.log("put %llu again -> %d", (unsigned long long)k, x);
                    if (x == 0) c.fail("key %llu was accepted although %llu had been inserted", (unsigned long long)k, (unsigned long long)h.m.last());
                    refused++;
                }
                break;
            default: if (cfg.var) h.scanVar(Filter(), h.full("scan"), "scan of values");
        }
    }
    off = h.full("at the end");
    h.filtered(genFilter(c, cfg, h.m), off, "at the end");
    headers(c, cfg, h);
    h.commonTags();
    static const char *names[] = {"data compared: signed", "data compared: descending", "data compared: without the low bits", "data compared: floating point", "data compared: unsigned", "data compared: bytes in order"};
    c.tag(names[cfg.order]);
    c.tagIf(cfg.loud, "results other than -1, 0 and 1");
    c.tagIf(cfg.hashBm, "bitmaps without an order");
    c.tag("filtered scans", scans);
    c.tag("keys out of order refused", refused);
    if (scans && h.m.h.size() > h.m.maxRec) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C38", "histories over more than one page with filtered scans, compared with the model, through comparators and bitmap functions other than the bundled ones", run, 24000, 300000};

#include "hist.hpp"
#include <set>
#ifndef DIST
extern "C" {
#include "spline.h"
}
#endif
using namespace pbt;
// C32: the storage work of every operation is bounded, and the index structures save the reads they exist to save.
namespace {
uint32_t log2floor(uint64_t n) { uint32_t r = 0; while (n > 1) { n >>= 1; r++; } return r; }
struct Work {
    Ctx &c;
    Cfg cfg;
    Hist h;
    struct IdxPage { uint32_t from, to; };  // data pages whose bitmaps an index page holds
    std::vector<IdxPage> idx;
    uint32_t idxFrom = 0;  // first data page of the bitmaps in the index write buffer
    struct Count { uint64_t r[3], w[3], e[3]; };
    Count z;
    uint64_t bounded = 0, skippedPages = 0, searches = 0, scans = 0, prefixSaved = 0, longSearches = 0;
    Work(Ctx &ctx, const Cfg &f) : c(ctx), cfg(f), h(ctx, f) { h.db->dev->logReads = true; }
    Count now() {
        Count x;
        for (int i = 0; i < 3; i++) { PageFile &f = h.db->file(i); x.r[i] = f.reads; x.w[i] = f.writes; x.e[i] = f.erases; }
        return x;
    }
    void mark() { z = now(); h.db->dev->readLog.clear(); }
    Count used() { Count x = now(); for (int i = 0; i < 3; i++) { x.r[i] -= z.r[i]; x.w[i] -= z.w[i]; x.e[i] -= z.e[i]; } return x; }
    void most(const char *what, const char *op, uint64_t n, uint64_t limit) {
        if (n > limit) c.fail("%s took %llu %s, expected are at most %llu", op, (unsigned long long)n, what, (unsigned long long)limit);
    }
    // a data page has been written: its bitmap goes to the index buffer, which is written first when it is full
    void pageWritten(uint32_t page) {
        if (!cfg.index) return;
        if (page - idxFrom >= h.db->st->maxIdxRecordsPerPage) { idx.push_back({idxFrom, page}); idxFrom = page; }
    }
    void indexFlushed() {
        if (!cfg.index || idxFrom == h.m.curPage) return;
        idx.push_back({idxFrom, h.m.curPage});
        idxFrom = h.m.curPage;
    }
    // writes and erases of one insert or flush
    void wrote(const char *op, uint64_t pagesOfValue, bool insert) {
        Count u = used();
        uint64_t e = cfg.eraseSize;
        most("writes of data pages", op, u.w[0], 1 + (insert && cfg.rlc ? 1 : 0));
        most("erases of data blocks", op, u.e[0], cfg.rlc ? 5 : 1);
        most("reads of data pages", op, u.r[0], 1);  // the newest page, to compare the key with its last
        most("writes of index pages", op, u.w[1], 1 + (insert ? 0 : 1));
        most("erases of index blocks", op, u.e[1], 1 + (insert ? 0 : 1));
        most("reads of index pages", op, u.r[1], 0);
        most("writes of pages of values", op, u.w[2], pagesOfValue);
        most("erases of blocks of values", op, u.e[2], pagesOfValue / e + 1);
        most("reads of pages of values", op, u.r[2], u.e[2]);
        bounded++;
    }
    bool insert() {
        mark();
        uint32_t p = h.m.curPage;
        if (!h.insert()) return false;
        const Rec &r = h.m.h.back();
        if (h.m.curPage != p) pageWritten(p);
        size_t payload = cfg.pageSize - cfg.keySize - 4;
        // the value itself, the page it began on, the values that are flushed before a full page of records
        uint64_t v = r.hasVar ? (r.var.size() + 4) / payload + 2 : 0;
        if (cfg.var && (h.m.curPage != p || cfg.rlc)) v += 1;
        wrote("an insert", cfg.var ? v + 1 : 0, true);
        return true;
    }
    void flush() {
        mark();
        uint32_t p = h.m.curPage;
        h.flush();
        if (h.m.curPage != p) { pageWritten(p); indexFlushed(); }
        wrote("a flush", cfg.var ? 1 : 0, false);
        if (h.m.curPage == p) { Count u = used(); most("writes of data pages", "a flush without records", u.w[0], 0); most("writes of index pages", "a flush without records", u.w[1], 0); }
    }
    uint32_t firstPage(size_t off) { return off < h.m.h.size() ? h.m.h[off].page : h.m.curPage; }
    // the pages read from the data file, as page numbers of the retained pages [lo, curPage)
    std::vector<uint32_t> dataPages(uint32_t lo, const char *op) {
        std::vector<uint32_t> v;
        for (auto &r : h.db->dev->readLog) {
            if (r.first != 0) continue;
            uint32_t p = lo + (r.second + cfg.numData - lo % cfg.numData) % cfg.numData;
            if (p >= h.m.curPage) c.fail("%s read page %u of the data file, which holds none of the pages %u to %u", op, r.second, lo, h.m.curPage - 1);
            v.push_back(p);
        }
        return v;
    }
    void once(std::vector<uint32_t> v, const char *op) {
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); i++)
            if (v[i] == v[i - 1]) c.fail("%s read data page %u twice", op, v[i]);
    }
    // the spline still covers the key: no points before it were given up
    bool covered(uint64_t k) {
        if (cfg.binary || h.db->st->spl->count < 2) return false;
        uint64_t a = 0, b = 0;
        memcpy(&a, splinePointLocation(h.db->st->spl, 0), cfg.keySize);
        memcpy(&b, splinePointLocation(h.db->st->spl, h.db->st->spl->count - 1), cfg.keySize);
        return k >= a && k <= b;
    }
    void lookup(uint64_t k, size_t off) {
        mark();
        bool cov = covered(k);
        h.lookup(k, off);
        Count u = used();
        uint32_t lo = firstPage(off), n = h.m.curPage - lo;
        std::vector<uint32_t> v = dataPages(lo, "a lookup");
        once(v, "a lookup");
        for (int i = 0; i < 3; i++) { most("writes", "a lookup", u.w[i], 0); most("erases", "a lookup", u.e[i], 0); }
        most("reads of index pages", "a lookup", u.r[1], 0);
        most("reads of pages of values", "a lookup", u.r[2], 0);
        long i = h.m.find(k);
        if (i >= 0 && h.m.h[i].page == h.m.curPage) most("reads of data pages", "a lookup of a buffered record", v.size(), 0);
        if (h.m.has() && k > h.m.last() && h.m.curCount) most("reads of data pages", "a lookup of a key above the buffered ones", v.size(), 0);
        if (cfg.binary) most("reads of data pages", "a binary search", v.size(), n ? log2floor(n) + 1 : 0);
        else if (cov) most("reads of data pages", "a search around an estimate", v.size(), 2 * (uint64_t)cfg.maxErr + 1);
        searches++;
        if (n > 4 && (cfg.binary || cov)) longSearches++;
        bounded++;
    }
    void lookupVar(uint64_t k, size_t off) {
        mark();
        h.lookupVar(k);
        Count u = used();
        long i = h.m.find(k);
        size_t payload = cfg.pageSize - cfg.keySize - 4;
        uint64_t bytes = i >= 0 ? h.m.h[i].var.size() : 0;
        most("writes of data pages", "a value lookup", u.w[0], 0);
        most("writes of pages of values", "a value lookup", u.w[2], 1);
        // reading a value needs its own pages and the newest key of the block that is erased by a flush
        most("reads of pages of values", "a value lookup", u.r[2], (bytes + 4) / payload + 2 + 1 + u.e[2]);
        if (cfg.binary) { uint32_t n = h.m.curPage - firstPage(off); most("reads of data pages", "a value lookup with a binary search", u.r[0], n ? log2floor(n) + 1 : 0); }
        bounded++;
    }
    void scan(const Filter &f, size_t off, bool drainAll) {
        mark();
        bool cov = f.hasMinK && covered(f.minK);
        Cursor cur(*h.db, f);
        Row r;
        size_t limit = drainAll ? SIZE_MAX : c.draw(40), got = 0;
        bool ended = false;
        while (got < limit) {
            if (!cur.next(r)) { ended = true; break; }
            got++;
        }
        Count u = used();
        uint32_t lo = firstPage(off);
        std::vector<uint32_t> v = dataPages(lo, "a scan");
        for (int i = 0; i < 3; i++) { most("writes", "a scan", u.w[i], 0); most("erases", "a scan", u.e[i], 0); }
        most("reads of pages of values", "a scan", u.r[2], 0);
        once(v, "a scan");
        for (size_t i = 1; i < v.size(); i++)
            if (v[i] < v[i - 1]) c.fail("a scan read data page %u after page %u", v[i], v[i - 1]);
        // it ends with the page that holds the first key above the range
        uint32_t end = h.m.curPage;
        if (f.hasMaxK)
            for (size_t i = off; i < h.m.h.size(); i++)
                if (h.m.h[i].key > f.maxK && (!f.hasMinK || h.m.h[i].key >= f.minK)) { end = h.m.h[i].page; break; }
        if (!ended && got) end = std::min(end, h.m.h[h.m.find(r.key)].page);  // and reads no page before its records are asked for
        if (!ended && !got) end = 0;
        bool filtered = cfg.index && cfg.bmap && (f.hasMinD || f.hasMaxD);
        // (with an index the page that ends the scan may be excluded by its bitmap; then the next one that is read ends it)
        if (filtered && ended && v.size() >= 2 && v[v.size() - 2] >= end) c.fail("a scan %s read data pages %u and %u, but page %u already ends it", f.str().c_str(), v[v.size() - 2], v.back(), end);
        if (!v.empty() && ((v.back() > end && !(filtered && ended)) || (!ended && !got))) c.fail("a scan %s read data page %u, but the last page it needs is page %u", f.str().c_str(), v.back(), end);
        // and begins near the first key of the range
        uint32_t start = lo;
        if (cov) {
            size_t i = off;
            while (i + 1 < h.m.h.size() && h.m.h[i + 1].key <= f.minK) i++;
            uint32_t p = i < h.m.h.size() ? h.m.h[i].page : h.m.curPage;
            uint32_t slack = 2 * cfg.maxErr + 1;
            start = p > lo + slack ? p - slack : lo;
            if (!v.empty() && v.front() < start) c.fail("a scan %s began to read at data page %u, but the first key of the range belongs to page %u and the maximum error is %u", f.str().c_str(), v.front(), p, cfg.maxErr);
            if (start > lo) prefixSaved++;
        }
        // pages whose bitmaps exclude every match are not read
        if (filtered) {
            Bytes q(8), bm(8), md = encodeValue(cfg, f.minD, 1), xd = encodeValue(cfg, f.maxD, 2);
            h.db->st->buildBitmapFromRange(f.hasMinD ? md.data() : nullptr, f.hasMaxD ? xd.data() : nullptr, q.data());
            size_t keep = cfg.numIndex - cfg.eraseSize, first = idx.size() > keep ? idx.size() - keep : 0;
            std::set<uint32_t> wasRead(v.begin(), v.end());
            size_t i = off;
            for (size_t j = first; j < idx.size(); j++)
                for (uint32_t p = std::max(idx[j].from, lo); p < idx[j].to; p++) {
                    while (i < h.m.h.size() && h.m.h[i].page < p) i++;
                    std::fill(bm.begin(), bm.end(), 0);
                    for (size_t k = i; k < h.m.h.size() && h.m.h[k].page == p; k++) { Bytes d = h.m.h[k].data; h.db->st->updateBitmap(d.data(), bm.data()); }
                    bool overlap = false;
                    for (int b = 0; b < cfg.bitmapSize; b++) overlap |= (bm[b] & q[b]) != 0;
                    if (!overlap && wasRead.count(p)) c.fail("a scan %s read data page %u, whose bitmap in index page %zu of %zu excludes it", f.str().c_str(), p, j, idx.size());
                    if (!overlap && p >= start && p <= end) skippedPages++;
                }
            uint64_t visited = h.m.curPage - start + 1;
            most("reads of index pages", "a scan", u.r[1], visited * (log2floor(std::max<uint64_t>(1, std::min<uint64_t>(idx.size(), cfg.numIndex))) + 2));
        } else {
            most("reads of index pages", "a scan without a data filter", u.r[1], 0);
        }
        scans++;
        bounded++;
    }
    void reopen(size_t off) {
        flush();
        h.db->close();
        mark();
        h.db->dev->logReads = false;
        int r = h.db->open(false);
        h.db->dev->logReads = true;
        c.log("close and reopen");
        if (r) c.fail("reopening returned %d", r);
        h.nReopen++;
        h.epoch++;
        Count u = used();
        // each page is looked at to find the newest and the oldest, and once more for the spline
        most("reads of data pages", "recovery", u.r[0], 2 * (uint64_t)cfg.numData + 3 * cfg.eraseSize + 12);
        most("reads of index pages", "recovery", u.r[1], cfg.numIndex + 6);
        most("reads of pages of values", "recovery", u.r[2], cfg.numVar + 6);
        for (int i = 0; i < 3; i++) most("writes", "recovery", u.w[i], 0);
        most("erases of data blocks", "recovery", u.e[0], cfg.rlc ? 3 : 1);
        most("erases of index blocks", "recovery", u.e[1], 1);
        most("erases of blocks of values", "recovery", u.e[2], 1);
        idxFrom = h.m.curPage;
        bounded++;
        (void)off;
    }
};
}  // namespace
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = c.chance(1, 4) ? 40 : 9;
    Cfg cfg = genCfg(c, g);
    if (cfg.index && c.chance(1, 2)) cfg.numIndex = cfg.eraseSize * (uint32_t)c.range(2, 12);
    if (c.chance(1, 2)) cfg.splinePts = 300;
    cfg.settle();
    Work w(c, cfg);
    Hist &h = w.h;
    uint64_t total = c.small(1, h.wrapTarget(1500));
    int probes = 0;
    auto probe = [&](const char *when) {
        size_t off = h.full(when);
        int n = 1 + (int)c.draw(6);
        for (int i = 0; i < n; i++) {
            switch (c.weighted({4, 3, 1, cfg.var ? 2 : 0})) {
                case 0: if (h.m.has()) w.lookup(h.someKey(), off); break;
                case 1: { Filter f = genFilter(c, cfg, h.m); c.log("scan %s", f.str().c_str()); w.scan(f, off, true); break; }
                case 2: { Filter f = genFilter(c, cfg, h.m); c.log("part of a scan %s", f.str().c_str()); w.scan(f, off, false); break; }
                default: if (h.m.has()) w.lookupVar(h.someKey(), off); break;
            }
            probes++;
        }
    };
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({14, 3, 2, 1});
        if (op == 0) { uint64_t n = 1 + c.draw(std::min<uint64_t>(4 * h.m.maxRec, 120)); while (n-- && w.insert()) {} }
        else if (op == 1) probe("during the history");
        else if (op == 2) w.flush();
        else if (c.chance(1, 2)) w.reopen(0);
    }
    probe("at the end");
    probe("at the end");
    h.commonTags();
    c.tag("operations with bounded work", w.bounded);
    c.tag("lookups over more than four pages", w.longSearches);
    c.tag("pages a scan had to skip by their bitmaps", w.skippedPages);
    c.tag("scans that had to skip earlier pages by the spline", w.prefixSaved);
    if (h.m.curPage > 3 && (w.longSearches || w.skippedPages || w.prefixSaved)) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C32", "histories in which the pages read, written and erased by every operation are counted; non-trivial: more than three data pages were written and a lookup over more than four pages, a scan that had to skip pages by their bitmaps, or one that had to start late by the spline", run, 16000, 250000};

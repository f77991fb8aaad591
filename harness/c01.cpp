#include "dbkit.hpp"
using namespace pbt;
// C01: point lookups against the history model, interleaved with inserts, flushes, scans.
static void lookup(Ctx &c, Db &db, const Model &m, uint64_t k) {
    Bytes d;
    int r = db.get(k, d);
    long i = m.find(k);
    if (i < 0) {
        if (r == 0) c.fail("lookup of key %llu, which was never inserted, succeeded with data %s", (unsigned long long)k, hex(d).c_str());
        return;
    }
    bool required = (size_t)i >= m.firstRequired();
    if (r != 0 && required) c.fail("lookup of key %llu returned %d although the record is retained (record %ld of %zu, page %u, next page %u)", (unsigned long long)k, r, i, m.h.size(), m.h[i].page, m.curPage);
    if (r == 0 && d != m.h[i].data) c.fail("lookup of key %llu returned data %s, inserted was %s", (unsigned long long)k, hex(d).c_str(), hex(m.h[i].data).c_str());
}
// pages of up to 64 KiB with up to 32764 records
static void large(Ctx &c) {
    Cfg cfg;
    cfg.keySize = (int)c.pick({2, 4, 3, 8});
    cfg.dataSize = cfg.valBytes = (int)c.pick({1, 2, 4});
    if (cfg.keySize == 2 && c.chance(2, 3)) cfg.dataSize = cfg.valBytes = 0;
    cfg.pageSize = c.chance(1, 2) ? (int)c.range(20000, 65535) : (int)c.pick({65535, 65534, 32768, 32767, 65533});
    cfg.maxmin = cfg.dataSize && c.chance(1, 4);
    cfg.binary = c.chance(1, 3);
    cfg.rlc = false;
    cfg.eraseSize = 1;
    cfg.numData = 4 + (uint32_t)c.draw(3);
    cfg.bufBlocks = 2;
    cfg.maxErr = (uint32_t)c.pick({1, 0, 8});
    cfg.keyMax = cfg.keySize == 8 ? ~0ull : (1ull << (8 * cfg.keySize)) - 1;
    cfg.eraseFill = 0xFF;
    Db db(cfg);
    c.log("%s", cfg.str().c_str());
    int r = db.open(true);
    if (r != 0) c.fail("initialization of a valid configuration returned %d: %s", r, cfg.str().c_str());
    Model m;
    m.init(&cfg, db.st->maxRecordsPerPage);
    // keys: runs of steps of one size each, so that the middle of a page can be far from the line through it
    uint64_t k = c.draw(300), step = 1, run = 0, left = 2 * m.maxRec + c.draw(m.maxRec);
    uint64_t widest = cfg.keySize == 2 ? 3 : cfg.keySize == 3 ? 150 : 20000;
    bool reopened = false;
    while (left-- && k <= cfg.keyMax) {
        if (!run) { run = 1 + c.draw(m.maxRec); step = c.chance(1, 3) ? 1 : 1 + c.draw(widest); }
        run--;
        Rec e;
        e.key = k;
        e.val = (int64_t)(k * 7 % 100);
        e.data = encodeValue(cfg, e.val, 0);
        int x = db.put(k, e.data);
        if (x != 0) c.fail("insert of key %llu, greater than every key before it, returned %d", (unsigned long long)k, x);
        m.add(e);
        if (k > cfg.keyMax - step) break;
        k += step;
    }
    c.log("inserted %zu records, %u in a page", m.h.size(), m.maxRec);
    for (int round = 0; round < 2; round++) {
        uint64_t part = 1 + c.draw(40);
        for (size_t i = c.draw(part); i < m.h.size(); i += part) {
            lookup(c, db, m, m.h[i].key);
            if (m.h[i].key < cfg.keyMax) lookup(c, db, m, m.h[i].key + 1);
        }
        for (uint32_t p = 0; p <= m.curPage; p++)
            for (int64_t i : {(int64_t)p * m.maxRec, (int64_t)p * m.maxRec + 1, (int64_t)(p + 1) * m.maxRec - 1})
                if (i < (int64_t)m.h.size()) lookup(c, db, m, m.h[i].key);
        if (round == 1) break;
        Filter f;
        if (c.chance(1, 2)) { f.hasMinK = true; f.minK = m.h[c.draw(m.h.size())].key; }
        std::vector<Row> rows = scanAll(c, db, f, m.h.size());
        size_t at = 0;
        while (m.h[at].key < f.minK) at++;
        if (rows.size() != m.h.size() - at) c.fail("a scan %s returned %zu records, %zu match", f.str().c_str(), rows.size(), m.h.size() - at);
        for (size_t i = 0; i < rows.size(); i++)
            if (rows[i].key != m.h[at + i].key || rows[i].data != m.h[at + i].data) c.fail("a scan %s returned key %llu where key %llu was due", f.str().c_str(), (unsigned long long)rows[i].key, (unsigned long long)m.h[at + i].key);
        if (c.chance(1, 2)) break;
        if (db.flush() != 0) c.fail("flush failed");
        m.flushed();
        db.close();
        if ((r = db.open(false)) != 0) c.fail("initialization without the reset flag returned %d", r);
        reopened = true;
    }
    c.tag("pages with thousands of records");
    c.tagIf(reopened, "pages with thousands of records, reopened");
    c.nontrivial();
    db.close();
}
static void run(Ctx &c) {
    if (c.chance(1, 300)) return large(c);
    GenOpts g;
    Cfg cfg = genCfg(c, g);
    Db db(cfg);
    c.log("%s", cfg.str().c_str());
    int r = db.open(true);
    if (r != 0) c.fail("initialization of a valid configuration returned %d: %s", r, cfg.str().c_str());
    Model m;
    m.init(&cfg, db.st->maxRecordsPerPage);
    // length: enough to wrap for small pages
    uint64_t total = c.small(1, std::min<uint64_t>(1500, (uint64_t)m.maxRec * cfg.numData * 3 + 20));
    int probes = (int)c.draw(4);
    bool wrapped = false, flushedPartial = false, cross = false;
    while (m.h.size() < total) {
        int op = c.weighted({12, 3, 1, 1});
        if (op == 0) {
            uint64_t run = 1 + c.draw(std::max<uint64_t>(1, std::min<uint64_t>(2 * m.maxRec, 60)));
            for (uint64_t i = 0; i < run; i++) {
                uint64_t k;
                if (!nextKey(c, cfg, m.has(), m.has() ? m.last() : 0, k)) { total = 0; break; }
                Rec rec = genRec(c, cfg, k);
                int x;
                if (cfg.var && c.chance(2, 3)) {
                    bool withVar = c.chance(2, 3);
                    Bytes v = genVarBytes(c, cfg, k);
                    x = db.putVar(k, rec.data, withVar ? &v : nullptr);
                } else {
                    x = db.put(k, rec.data);
                }
                c.log("put %llu -> %d", (unsigned long long)k, x);
                if (x != 0) c.fail("insert of ascending key %llu returned %d", (unsigned long long)k, x);
                m.add(rec);
                for (int p = 0; p < probes && c.chance(1, 8); p++) lookup(c, db, m, m.h[c.draw(m.h.size())].key);
            }
        } else if (op == 1) {
            int n = 1 + (int)c.draw(6);
            for (int i = 0; i < n; i++) {
                uint64_t k;
                switch (c.draw(3)) {
                    case 0: k = m.has() ? m.h[c.draw(m.h.size())].key : c.draw(50); break;
                    case 1: k = m.has() ? m.h[m.h.size() - 1 - c.draw(std::min<size_t>(m.h.size(), 2 * m.maxRec + 2))].key : c.draw(50); break;
                    default: k = m.has() ? m.h[c.draw(m.h.size())].key + c.range(-1, 1) : c.draw(50); k = std::min(k, cfg.keyMax); break;
                }
                c.log("get %llu", (unsigned long long)k);
                lookup(c, db, m, k);
            }
        } else if (op == 2) {
            c.log("flush");
            if (m.curCount > 0 && m.curCount < m.maxRec) flushedPartial = true;
            int x = db.flush();
            if (x != 0) c.fail("flush returned %d", x);
            m.flushed();
        } else {
            // a partial scan moves the read buffer around
            Filter f = genFilter(c, cfg, m);
            Cursor cur(db, f);
            Row row;
            int n = (int)c.draw(20);
            c.log("scan %s for %d records", f.str().c_str(), n);
            if (cfg.var && c.chance(1, 2)) {
                embedDBVarDataStream *s = nullptr;
                for (int i = 0; i < n && cur.nextVar(row, &s); i++) if (s) free(s);
            } else {
                for (int i = 0; i < n && cur.next(row); i++) {}
            }
        }
        if (m.curPage > cfg.numData) wrapped = true;
    }
    // all keys of the history, in two orders, and neighbours
    uint64_t step = m.h.size() > 400 ? m.h.size() / 200 : 1;
    for (size_t i = 0; i < m.h.size(); i += step) lookup(c, db, m, m.h[i].key);
    for (size_t i = m.h.size(); i-- > 0;) {
        if (m.h.size() > 200 && i + 60 < m.h.size() && i % (m.h.size() / 60) != 0) continue;
        lookup(c, db, m, m.h[i].key);
        if (m.h[i].key < cfg.keyMax) lookup(c, db, m, m.h[i].key + 1);
        if (m.h[i].key > 0) lookup(c, db, m, m.h[i].key - 1);
    }
    lookup(c, db, m, 0);
    lookup(c, db, m, cfg.keyMax);
    cross = m.curPage > 0;
    c.tagIf(wrapped, "wrapped");
    c.tagIf(cfg.binary, "binary search");
    c.tagIf(cfg.index, "index");
    c.tagIf(cfg.var, "variable data");
    c.tagIf(cfg.rlc, "record-level consistency");
    c.tagIf(cfg.maxmin, "min/max headers");
    c.tagIf(flushedPartial, "flush of a partial page");
    c.tagIf(m.maxRec > 127, "more than 127 records per page");
    c.tagIf(cfg.keySize > 4, "keys longer than 4 bytes");
    c.tag("records", m.h.size());
    if (cross) c.nontrivial();
    db.close();
}
Check pbt::theCheck = {"C01", "random configuration and operation history; non-trivial: at least one data page was written to storage and lookups of stored, evicted and absent keys were compared with the history", run, 24000, 400000};

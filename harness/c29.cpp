#include "hist.hpp"
#include "qkit.hpp"
#include <sanitizer/asan_interface.h>
using namespace pbt;
// C29: nothing outside the memory given to the database is touched. Every buffer handed over has its exact size and
// sits between red zones; the address sanitizer and the guards decide.

// memory of exactly n bytes, at a chosen alignment, with poisoned and checked surroundings
struct Exact {
    uint8_t *base = nullptr, *p = nullptr;
    size_t n = 0, front = 0;
    Exact(size_t size, size_t align, uint8_t fill) : n(size) {
        front = 64 + align;
        base = (uint8_t *)malloc(front + n + 64);
        memset(base, 0xC3, front + n + 64);
        p = base + front;
        memset(p, fill, n);
        // (poison only whole granules: the tail after an unaligned end is compared instead)
        size_t pf = front & ~(size_t)7;
        ASAN_POISON_MEMORY_REGION(base, pf);
        size_t end = (front + n + 7) & ~(size_t)7;
        ASAN_POISON_MEMORY_REGION(base + end, front + n + 64 - end);
    }
    Exact(const Exact &) = delete;
    void check(Ctx &c, const char *what) {
        ASAN_UNPOISON_MEMORY_REGION(base, front + n + 64);
        for (size_t i = 0; i < front; i++) if (base[i] != 0xC3) c.fail("%s: a byte %zu ahead of it was changed", what, front - i);
        for (size_t i = front + n; i < front + n + 64; i++) if (base[i] != 0xC3) c.fail("%s: byte %zu past its end was changed", what, i - front - n);
        size_t pf = front & ~(size_t)7, end = (front + n + 7) & ~(size_t)7;
        ASAN_POISON_MEMORY_REGION(base, pf);
        ASAN_POISON_MEMORY_REGION(base + end, front + n + 64 - end);
    }
    ~Exact() {
        ASAN_UNPOISON_MEMORY_REGION(base, front + n + 64);
        free(base);
    }
};

static Cfg extremes(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 5;
    g.bigPages = false;
    Cfg f = genCfg(c, g);
    switch (c.draw(7)) {
        case 0: {  // one record fills the page exactly
            f.pageSize = f.header() + f.recordSize();
            if (f.index) f.pageSize = std::max(f.pageSize, 16 + f.bitmapSize);
            f.pageSize += f.pageSize & 1;
            break;
        }
        case 1: {  // the largest record or header there is
            int most = f.maxmin ? (127 - 14 - 2 * f.keySize) / 2 : 127 - f.keySize - (f.var ? 4 : 0);
            f.dataSize = most;
            f.pageSize = f.header() + f.recordSize() * (int)c.range(1, 4) + (int)c.draw(f.recordSize());
            if (f.index) f.pageSize = std::max(f.pageSize, 16 + f.bitmapSize);
            f.pageSize += f.pageSize & 1;
            break;
        }
        case 2: {  // exact multiples, no slack
            f.pageSize = f.header() + f.recordSize() * (int)c.range(1, 40);
            if (f.index) f.pageSize = std::max(f.pageSize, 16 + f.bitmapSize);
            f.pageSize += f.pageSize & 1;
            break;
        }
        case 3:  // large pages
            f.pageSize = (int)c.pick({2048, 4096, 8192, 16384, 32766, 65534});
            f.dataSize = std::max(f.dataSize, f.maxmin ? 30 : 60);
            f.numData = std::max<uint32_t>(f.eraseSize * (f.index || f.rlc ? 4 : 2), 4);
            f.numData += (f.eraseSize - f.numData % f.eraseSize) % f.eraseSize;
            f.numIndex = 2 * f.eraseSize;
            f.numVar = 2 * f.eraseSize;
            f.settle();
            break;
        case 4:  // the index page holds one bitmap
            if (f.index && 16 + f.bitmapSize >= f.header() + f.recordSize()) f.pageSize = 16 + f.bitmapSize + ((16 + f.bitmapSize) & 1);
            break;
        case 5:  // smallest spline, smallest files
            f.splinePts = 4;
            f.numData = f.eraseSize * (f.index || f.rlc ? 4 : 2);
            f.numIndex = 2 * f.eraseSize;
            f.numVar = 2 * f.eraseSize;
            f.settle();
            break;
        default: break;
    }
    f.bufBlocks = 2 + (f.index ? 2 : 0) + (f.var ? 2 : 0);
    if (c.chance(1, 8)) f.bufBlocks++;
    if (c.chance(1, 40)) f.bufBlocks = 127;
    if ((int64_t)f.bufBlocks * f.pageSize > 1000000) f.bufBlocks = 2 + (f.index ? 2 : 0) + (f.var ? 2 : 0);
    return f;
}

static void run(Ctx &c) {
    Cfg cfg = extremes(c);
    Db db(cfg);
    c.log("%s", cfg.str().c_str());
    // the page buffers, placed between red zones
    std::unique_ptr<Exact> buf;
    auto place = [&] {
        buf.reset(new Exact((size_t)cfg.bufBlocks * cfg.pageSize, 8 * c.draw(2), cfg.bufFill));
        db.extBuffer = buf->p;
    };
    place();
    if (int r = db.open(true)) c.fail("initialization of a valid configuration returned %d", r);
    Model m;
    m.init(&cfg, db.st->maxRecordsPerPage);
    bool exhausted = false;
    int reopens = 0, streams = 0, scans = 0, vals = 0;
    auto guard = [&](const char *when) { buf->check(c, when); };
    auto insert = [&] {
        uint64_t k;
        if (!nextKey(c, cfg, m.has(), m.has() ? m.last() : 0, k)) { exhausted = true; return; }
        Rec r = genRec(c, cfg, k);
        Exact key(cfg.keySize, c.draw(8), 0), data(cfg.dataSize, c.draw(8), 0);
        memcpy(key.p, &k, cfg.keySize);
        memcpy(data.p, r.data.data(), cfg.dataSize);
        int x;
        db.dev->budget(db.budget);
        if (cfg.var && c.chance(2, 3)) {
            r.hasVar = true;
            r.var = genVarBytes(c, cfg, k);
            Exact v(r.var.size(), c.draw(8), 0);
            memcpy(v.p, r.var.data(), r.var.size());
            x = embedDBPutVar(db.st, key.p, data.p, v.p, (uint32_t)r.var.size());
            v.check(c, "the value given to an insert");
            if (memcmp(v.p, r.var.data(), r.var.size())) c.fail("an insert changed the caller's value");
            vals++;
        } else x = embedDBPut(db.st, key.p, data.p);
        if (x) c.fail("insert of key %llu returned %d", (unsigned long long)k, x);
        key.check(c, "the key given to an insert");
        data.check(c, "the data given to an insert");
        if (memcmp(key.p, &k, cfg.keySize) || memcmp(data.p, r.data.data(), cfg.dataSize)) c.fail("an insert changed the caller's key or data");
        m.add(r);
    };
    auto stream = [&](embedDBVarDataStream *s, const Rec *e) {
        size_t got = 0;
        for (int i = 0; i < 4000; i++) {
            size_t n = c.chance(1, 3) ? 1 + c.draw(5) : 1 + c.draw(2 * cfg.pageSize);
            if (n > 5000) n = 5000;
            Exact out(n, c.draw(8), 0xEE);
            db.dev->budget(db.budget);
            uint32_t x = embedDBVarDataStreamRead(db.st, s, out.p, (uint32_t)n);
            out.check(c, "the memory given to a stream read");
            if (x > n) { free(s); c.fail("a stream read of %zu bytes returned %u", n, x); }
            for (size_t j = x; j < n; j++) if (out.p[j] != 0xEE) { free(s); c.fail("a stream read that returned %u bytes changed byte %zu of the caller's memory", x, j); }
            if (e && (got + x > e->var.size() || memcmp(out.p, e->var.data() + got, x))) { free(s); c.fail("a stream of key %llu yields other bytes than were inserted", (unsigned long long)e->key); }
            got += x;
            if (!x) break;
        }
        free(s);
        streams++;
        if (e && got != e->var.size()) c.fail("a stream of key %llu yields %zu bytes instead of %zu", (unsigned long long)e->key, got, e->var.size());
    };
    auto lookup = [&] {
        uint64_t k = m.has() && !c.chance(1, 6) ? m.h[c.draw(m.h.size())].key : c.draw(cfg.keyMax > 1000 ? 1000 : cfg.keyMax);
        long at = m.find(k);
        Exact key(cfg.keySize, c.draw(8), 0), data(cfg.dataSize, c.draw(8), 0xEE);
        memcpy(key.p, &k, cfg.keySize);
        db.dev->budget(db.budget);
        int r;
        embedDBVarDataStream *s = nullptr;
        bool v = cfg.var && c.chance(1, 2);
        r = v ? embedDBGetVar(db.st, key.p, data.p, &s) : embedDBGet(db.st, key.p, data.p);
        key.check(c, "the key given to a lookup");
        data.check(c, "the data given to a lookup");
        if (memcmp(key.p, &k, cfg.keySize)) c.fail("a lookup changed the caller's key");
        if (s) stream(s, at >= 0 ? &m.h[at] : nullptr);
        if (r == 0 && (at < 0 || memcmp(data.p, m.h[at].data.data(), cfg.dataSize))) c.fail("lookup of key %llu returned wrong data", (unsigned long long)k);
    };
    auto scan = [&] {
        Filter f = c.chance(1, 3) ? Filter() : genFilter(c, cfg, m);
        std::unique_ptr<Exact> q[4];
        embedDBIterator it;
        memset(&it, 0xA5, sizeof it);
        it.minKey = it.maxKey = it.minData = it.maxData = nullptr;
        Bytes want[4];
        auto give = [&](int i, bool has, const Bytes &b, void **slot) {
            if (!has) return;
            want[i] = b;
            q[i].reset(new Exact(b.size(), c.draw(8), 0));
            memcpy(q[i]->p, b.data(), b.size());
            *slot = q[i]->p;
        };
        give(0, f.hasMinK, db.keyBytes(f.minK), &it.minKey);
        give(1, f.hasMaxK, db.keyBytes(f.maxK), &it.maxKey);
        give(2, f.hasMinD, encodeValue(cfg, f.minD, 1), &it.minData);
        give(3, f.hasMaxD, encodeValue(cfg, f.maxD, 2), &it.maxData);
        db.dev->budget(db.budget);
        embedDBInitIterator(db.st, &it);
        Exact key(cfg.keySize, c.draw(8), 0), data(cfg.dataSize, c.draw(8), 0xEE);
        size_t stop = c.chance(1, 4) ? c.draw(10) : m.h.size() + 1, n = 0;
        bool v = cfg.var && c.chance(1, 2);
        while (n < stop) {
            db.dev->budget(db.budget);
            embedDBVarDataStream *s = nullptr;
            if (!(v ? embedDBNextVar(db.st, &it, key.p, data.p, &s) : embedDBNext(db.st, &it, key.p, data.p))) break;
            key.check(c, "the key of a scanned record");
            data.check(c, "the data of a scanned record");
            long at = m.find(db.keyVal(key.p));
            if (at < 0 || memcmp(data.p, m.h[at].data.data(), cfg.dataSize)) { if (s) free(s); c.fail("a scan returned key %llu, which was not inserted like this", (unsigned long long)db.keyVal(key.p)); }
            if (s) { if (c.chance(1, 3)) stream(s, &m.h[at]); else free(s); }
            if (++n > m.h.size()) c.fail("a scan does not end");
        }
        embedDBCloseIterator(&it);
        for (int i = 0; i < 4; i++)
            if (q[i]) {
                q[i]->check(c, "the filter of a scan");
                if (memcmp(q[i]->p, want[i].data(), want[i].size())) c.fail("a scan changed the caller's filter");
            }
        scans++;
    };
    int ops = (int)c.range(3, 40);
    uint64_t cap = std::min<uint64_t>(1500, (uint64_t)m.maxRec * cfg.numData * 2 + 30);
    for (int o = 0; o < ops; o++) {
        switch (c.weighted({8, 1, 5, 4, 1, 1})) {
            case 0: {
                uint64_t n = c.chance(1, 3) ? m.maxRec - m.curCount + c.draw(2) : 1 + c.draw(std::min<uint64_t>(2 * m.maxRec + 2, 120));
                for (uint64_t i = 0; i < n && !exhausted && m.h.size() < cap; i++) insert();
                guard("the page buffers after inserts");
                break;
            }
            case 1: {
                int x = c.chance(1, 4) && cfg.var ? embedDBFlushVar(db.st) : db.flush();
                if (x) c.fail("flush returned %d", x);
                m.curCount = 0;  // (only counts towards the next page)
                guard("the page buffers after a flush");
                break;
            }
            case 2: for (int i = 0; i < 3; i++) lookup(); guard("the page buffers after lookups"); break;
            case 3: scan(); guard("the page buffers after a scan"); break;
            case 4: {
                if (db.flush()) c.fail("flush failed");
                db.close();
                guard("the page buffers after closing");
                place();
                if (int r = db.open(false)) c.fail("reopening returned %d", r);
                guard("the page buffers after reopening");
                m.curCount = 0;
                reopens++;
                break;
            }
            default: {  // an operator over the database, with rows in exact memory
                if (cfg.keySize + cfg.dataSize > 250 || !cfg.dataSize) break;
                int8_t sizes[2] = {(int8_t)cfg.keySize, (int8_t)cfg.dataSize};
                int8_t sg[2] = {embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_UNSIGNED};
                embedDBSchema *sch = embedDBCreateSchema(2, sizes, sg);
                embedDBIterator it;
                memset(&it, 0, sizeof it);
                db.dev->budget(db.budget);
                embedDBInitIterator(db.st, &it);
                embedDBOperator *op = createTableScanOperator(db.st, &it, sch);
                op->init(op);
                size_t n = 0;
                db.dev->budget(db.budget * 4);
                while (op->next(op) && n < m.h.size()) {
                    long at = m.find(db.keyVal((uint8_t *)op->recordBuffer));
                    if (at < 0 || memcmp((uint8_t *)op->recordBuffer + cfg.keySize, m.h[at].data.data(), cfg.dataSize)) c.fail("a table scan operator returned a record that was not inserted");
                    n++;
                }
                op->close(op);
                embedDBFreeOperatorRecursive(&op);
                embedDBFreeSchema(&sch);
                embedDBCloseIterator(&it);
                guard("the page buffers after an operator ran");
            }
        }
    }
    db.close();
    guard("the page buffers at the end");
    c.tagIf(m.maxRec == 1, "one record per page");
    c.tagIf(cfg.pageSize >= 2048, "large pages");
    c.tagIf(cfg.recordSize() == 127, "largest record");
    c.tagIf(cfg.header() + (int)m.maxRec * cfg.recordSize() == cfg.pageSize, "full pages without slack");
    c.tagIf(cfg.index && (cfg.pageSize - 16) / cfg.bitmapSize == 1, "one bitmap per index page");
    c.tagIf(reopens > 0, "reopened");
    c.tagIf(cfg.var, "variable data");
    c.tag("records", m.h.size());
    c.tag("values", vals);
    c.tag("streams", streams);
    c.tag("scans", scans);
    if (m.h.size() >= 2 && scans + streams > 0) c.nontrivial();
}
Check pbt::theCheck = {"C29", "histories over configurations at their limits with all caller memory in exactly sized blocks between red zones; non-trivial: at least two records and a scan or a stream", run};

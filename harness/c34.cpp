#include "hist.hpp"
using namespace pbt;
// C34: the stored format. An independent reader decodes the pages the library wrote; an independent writer makes files that
// the library has to open.

// ---------------------------------------------------------------- what the format says
static Bytes bitOf(const Cfg &f, int64_t v) {  // the bitmap of one value
    Bytes b(f.bitmapSize);
    if (f.own()) {
        int k = ownBucket(v);
        b[k / 8] = (uint8_t)(1 << k % 8);
    } else if (f.bitmapKind == 0) {
        static const int lim[] = {10, 20, 30, 40, 50, 60, 100};
        int k = 0;
        while (k < 7 && v >= lim[k]) k++;
        b[0] = (uint8_t)(0x80 >> k);
    } else if (f.bitmapKind == 1) {
        int64_t k = v <= 320 ? 0 : std::min<int64_t>(15, (v - 320 + 29) / 30);
        uint16_t w = (uint16_t)(0x8000 >> k);
        memcpy(b.data(), &w, 2);
    } else if (f.bitmapKind == 2) {
        int64_t k = v <= 320 ? 0 : std::min<int64_t>(63, (v - 320 + 9) / 10);
        b[k / 8] = (uint8_t)(0x80 >> k % 8);
    } else {
        int64_t k = v < -60 ? 0 : std::min<int64_t>(8 * f.bitmapSize - 1, (v + 60) / 9);
        b[k / 8] = (uint8_t)(1 << k % 8);
    }
    return b;
}
static Bytes bitmapOf(const Cfg &f, const Rec *r, size_t n) {
    Bytes b(f.bitmapSize);
    for (size_t i = 0; i < n; i++) {
        Bytes x = bitOf(f, r[i].val);
        for (size_t j = 0; j < b.size(); j++) b[j] |= x[j];
    }
    return b;
}
static uint32_t u32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t u16(const uint8_t *p) { return p[0] | p[1] << 8; }
static void store(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static uint64_t load(const uint8_t *p, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i);
    return v;
}
static void extremes(const Rec *r, size_t n, const Rec *&mn, const Rec *&mx) {
    mn = mx = r;
    for (size_t i = 1; i < n; i++) {
        if (r[i].val < mn->val) mn = r + i;
        if (r[i].val > mx->val) mx = r + i;
    }
}
static void dataHeader(const Cfg &f, uint8_t *p, uint32_t id, const Rec *r, size_t n) {
    store(p, id, 4);
    store(p + 4, n, 2);
    if (f.bmap) {
        Bytes b = bitmapOf(f, r, n);
        memcpy(p + 6, b.data(), b.size());
    }
    if (f.maxmin) {
        const Rec *mn, *mx;
        extremes(r, n, mn, mx);
        store(p + 14, r[0].key, f.keySize);
        store(p + 14 + f.keySize, r[n - 1].key, f.keySize);
        memcpy(p + 14 + 2 * f.keySize, mn->data.data(), f.dataSize);
        memcpy(p + 14 + 2 * f.keySize + f.dataSize, mx->data.data(), f.dataSize);
    }
}

// ---------------------------------------------------------------- reader
struct Reader {
    Ctx &c;
    Hist &h;
    const Cfg &f;
    int pages = 0, idxPages = 0, varPages = 0, values = 0, tmp = 0;
    uint32_t base;              // the page the history starts at
    std::vector<size_t> firsts;  // first record of each page from there on
    size_t first(uint32_t id) { return firsts[id - base]; }
    Reader(Ctx &ctx, Hist &hist) : c(ctx), h(hist), f(hist.cfg) {
        base = h.m.has() ? h.m.h[0].page : h.m.curPage;
        firsts.assign(h.m.curPage - base + 1, h.m.h.size());
        for (size_t i = h.m.h.size(); i-- > 0;)
            if (h.m.h[i].page <= h.m.curPage) firsts[h.m.h[i].page - base] = i;
    }
    const uint8_t *page(int file, uint32_t p) { return h.db->file(file).im.bytes.data() + (size_t)p * f.pageSize; }
    bool there(int file, uint32_t p) { return p < h.db->file(file).im.st.size() && h.db->file(file).im.st[p] == PG_WRITTEN; }
    // does page p hold the first n records of data page id? returns what is wrong, or ""
    std::string holds(uint32_t p, uint32_t id, size_t n) {
        const uint8_t *b = page(0, p);
        const Rec *r = &h.m.h[first(id)];
        char t[300];
        Bytes want(f.header());
        dataHeader(f, want.data(), id, r, n);
        auto differ = [&](const char *what, int at, int len) {
            if (!memcmp(b + at, want.data() + at, len)) return false;
            snprintf(t, sizeof t, "its %s is %s instead of %s", what, hex(Bytes(b + at, b + at + len)).c_str(), hex(Bytes(want.begin() + at, want.begin() + at + len)).c_str());
            return true;
        };
        if (differ("page number", 0, 4) || differ("record count", 4, 2)) return t;
        if (f.bmap && differ("bitmap", 6, f.bitmapSize)) return t;
        if (f.maxmin) {
            int k = f.keySize, d = f.dataSize;
            if (differ("smallest key", 14, k) || differ("largest key", 14 + k, k)) return t;
            // equal values may carry different other bytes
            const Rec *mn, *mx;
            extremes(r, n, mn, mx);
            Bytes lo(b + 14 + 2 * k, b + 14 + 2 * k + d), hi(b + 14 + 2 * k + d, b + 14 + 2 * k + 2 * d);
            if (f.value(lo) != mn->val) { snprintf(t, sizeof t, "its smallest value is %lld instead of %lld", (long long)f.value(lo), (long long)mn->val); return t; }
            if (f.value(hi) != mx->val) { snprintf(t, sizeof t, "its largest value is %lld instead of %lld", (long long)f.value(hi), (long long)mx->val); return t; }
        }
        for (size_t i = 0; i < n; i++) {
            const uint8_t *q = b + f.header() + i * f.recordSize();
            if (load(q, f.keySize) != r[i].key) { snprintf(t, sizeof t, "its record %zu has key %llu instead of %llu", i, (unsigned long long)load(q, f.keySize), (unsigned long long)r[i].key); return t; }
            if (memcmp(q + f.keySize, r[i].data.data(), f.dataSize)) { snprintf(t, sizeof t, "the data of its record %zu is %s instead of %s", i, hex(Bytes(q + f.keySize, q + f.keySize + f.dataSize)).c_str(), hex(r[i].data).c_str()); return t; }
            if (f.var && (u32(q + f.keySize + f.dataSize) == UINT32_MAX) == r[i].hasVar) { snprintf(t, sizeof t, "its record %zu, inserted %s a value, has the value location %08x", i, r[i].hasVar ? "with" : "without", u32(q + f.keySize + f.dataSize)); return t; }
        }
        return "";
    }
    size_t count(uint32_t id) { return (id < h.m.curPage ? first(id + 1) : h.m.h.size()) - first(id); }
    void data() {
        for (uint32_t p = 0; p < h.db->fd.im.st.size(); p++) {
            if (!there(0, p)) continue;
            uint32_t id = u32(page(0, p)), n = u16(page(0, p) + 4);
            if (id < base || id > h.m.curPage || (id == h.m.curPage && !f.rlc)) c.fail("page %u of the data file holds the page number %u; %u pages were written", p, id, h.m.curPage);
            std::string w;
            if (id < h.m.curPage && id % f.numData == p) {
                w = holds(p, id, count(id));
                if (w.empty()) { pages++; continue; }
            } else if (!f.rlc) c.fail("page %u of the data file holds the page number %u, which belongs at %u of %u", p, id, id % f.numData, f.numData);
            if (f.rlc) {  // a temporary page: an earlier state of the page it will become
                if (n >= 1 && n <= count(id)) w = holds(p, id, n);
                else if (w.empty()) w = "its record count is " + std::to_string(n);
            }
            if (!w.empty()) c.fail("page %u of the data file, with page number %u: %s", p, id, w.c_str());
            tmp++;
        }
        for (uint32_t id = h.m.firstRequiredPage(); id < h.m.curPage; id++) {
            uint32_t p = id % f.numData;
            if (!there(0, p) || u32(page(0, p)) != id) c.fail("data page %u of %u is not at place %u of the data file", id, h.m.curPage, p);
        }
    }
    void index() {
        uint32_t end = 0, newest = 0;
        bool any = false;
        for (uint32_t p = 0; p < h.db->fi.im.st.size(); p++) {
            if (!there(1, p)) continue;
            const uint8_t *b = page(1, p);
            uint32_t id = u32(b), n = u16(b + 4), from = u32(b + 8);
            if (id % f.numIndex != p) c.fail("page %u of the index file holds the page number %u, which belongs at %u", p, id, id % f.numIndex);
            if (n < 1 || n > (uint32_t)((f.pageSize - 16) / f.bitmapSize) || from + n > h.m.curPage) c.fail("index page %u holds %u bitmaps from data page %u on; there are %u data pages and room for %d", id, n, from, h.m.curPage, (f.pageSize - 16) / f.bitmapSize);
            for (uint32_t i = 0; f.bmap && i < n; i++) {
                if (from + i < base) continue;
                Bytes want = bitmapOf(f, &h.m.h[first(from + i)], count(from + i));
                if (memcmp(b + 16 + i * f.bitmapSize, want.data(), want.size())) c.fail("index page %u holds the bitmap %s for data page %u, whose values give %s", id, hex(Bytes(b + 16 + i * f.bitmapSize, b + 16 + (i + 1) * f.bitmapSize)).c_str(), from + i, hex(want).c_str());
            }
            uint32_t np = (p + 1) % f.numIndex;
            if (there(1, np) && u32(page(1, np)) == id + 1 && u32(page(1, np) + 8) != from + n) c.fail("index page %u describes data pages %u to %u, the next one starts at data page %u", id, from, from + n - 1, u32(page(1, np) + 8));
            if (!any || id > newest) { newest = id; end = from + n; }
            any = true;
            idxPages++;
            c.tagIf(n * f.bitmapSize > 256, "index pages with more than 256 bytes of bitmaps");
        }
        if (h.m.curPage && (!any || end != h.m.curPage)) c.fail("after a flush the index describes the data pages up to %u of %u", end, h.m.curPage);
    }
    void var() {
        uint64_t total = h.varTotal();
        uint32_t ps = f.pageSize, hd = 4 + f.keySize;
        for (uint32_t p = 0; p < h.db->fv.im.st.size(); p++) {
            if (!there(2, p)) continue;
            uint32_t id = u32(page(2, p));
            if (id % f.numVar != p || id >= total || id + f.numVar < total) c.fail("page %u of the variable data file holds the page number %u; %llu pages were written to %u", p, id, (unsigned long long)total, f.numVar);
            varPages++;
        }
        std::map<uint64_t, uint64_t> newest;  // the newest key with bytes on a page
        uint64_t firstKnown = UINT64_MAX;
        for (size_t i = h.required(); i < h.m.h.size(); i++) {
            const Rec &e = h.m.h[i];
            if (!e.hasVar) continue;
            const uint8_t *q = page(0, e.page % f.numData) + f.header() + (i - first(e.page)) * f.recordSize();
            uint32_t loc = u32(q + f.keySize + f.dataSize);
            if (loc >= f.numVar * ps || loc % ps < hd || loc % ps > ps - 4) c.fail("the value of key %llu is said to be at %u; there are %u pages of %u with headers of %u", (unsigned long long)e.key, loc, f.numVar, ps, hd);
            uint64_t id = e.varWritesBefore;
            if (id % f.numVar != loc / ps) id++;
            if (id % f.numVar != loc / ps) c.fail("the value of key %llu is said to be in place %u of the variable data file, where page %llu was being filled", (unsigned long long)e.key, loc / ps, (unsigned long long)e.varWritesBefore);
            if (firstKnown == UINT64_MAX) firstKnown = e.key;
            uint32_t off = loc % ps;
            Bytes all(4 + e.var.size());
            store(all.data(), e.var.size(), 4);
            std::copy(e.var.begin(), e.var.end(), all.begin() + 4);
            for (size_t d = 0; d < all.size(); id++, off = hd) {
                size_t n = std::min<size_t>(ps - off, all.size() - d);
                newest[id] = e.key;
                uint32_t p = id % f.numVar;
                bool mine = there(2, p) && u32(page(2, p)) == id;
                if (!mine && h.varRequired(i)) c.fail("the value of key %llu continues on page %llu of the variable data, which is not at place %u", (unsigned long long)e.key, (unsigned long long)id, p);
                if (mine && memcmp(page(2, p) + off, all.data() + d, n)) c.fail("page %llu of the variable data differs from byte %u on from bytes %zu to %zu of the value of key %llu with its length in front", (unsigned long long)id, off, d, d + n, (unsigned long long)e.key);
                d += n;
            }
            values++;
        }
        for (uint32_t p = 0; p < h.db->fv.im.st.size(); p++) {
            if (!there(2, p)) continue;
            uint32_t id = u32(page(2, p));
            uint64_t k = load(page(2, p) + 4, f.keySize);
            auto it = newest.find(id);
            if (it != newest.end() ? k != it->second : k >= firstKnown) c.fail("page %u of the variable data carries the key %llu, the newest value on it belongs to %s", id, (unsigned long long)k, it != newest.end() ? std::to_string(it->second).c_str() : "an older record than all that are left");
        }
    }
    void all() {
        data();
        if (f.index) index();
        if (f.var) var();
        c.log("decoded %d data pages, %d temporary, %d index, %d variable, %d values", pages, tmp, idxPages, varPages, values);
        c.tag("data pages decoded", pages);
        c.tag("temporary pages decoded", tmp);
        c.tag("index pages decoded", idxPages);
        c.tag("values decoded", values);
    }
};

// ---------------------------------------------------------------- writer
struct Writer {
    Ctx &c;
    Hist &h;
    const Cfg &f;
    uint8_t fill;
    uint32_t avail[3], next[3] = {0, 0, 0};
    Bytes var, idx;
    uint32_t varOff, idxFrom = 0, idxN = 0;
    // the pages of an old database: its first pages were reclaimed long ago
    void longLife(uint32_t base) {
        next[0] = base;
        h.m.curPage = base;
        avail[0] = f.numData - base % f.numData;
        for (int i = 1; i < 3; i++) {
            if (!(i == 1 ? f.index : f.var)) continue;
            next[i] = base / h.db->file(i).numPages * h.db->file(i).numPages;
            for (uint32_t j = 0; j < h.db->file(i).numPages; j++) {
                Bytes b(f.pageSize, fill);
                if (i == 1) {
                    store(&b[4], 1, 2);
                    store(&b[8], base - h.db->file(i).numPages + j, 4);
                } else {
                    store(&b[4], 1, f.keySize);
                }
                out(i, b);
            }
        }
    }
    Writer(Ctx &ctx, Hist &hist) : c(ctx), h(hist), f(hist.cfg), avail{f.numData, f.numIndex, f.numVar} {
        fill = (uint8_t)c.pick({0, 0, 0xFF, 0x5A});  // the bytes of a page that mean nothing
        freshVar();
        for (int i = 0; i < 3; i++)
            if (i == 0 || (i == 1 ? f.index : f.var)) h.db->file(i).im.exists = true;
    }
    void out(int file, Bytes &b) {
        PageFile &pf = h.db->file(file);
        uint32_t p = next[file] % pf.numPages;
        if (!avail[file]) {
            applyOp(pf.im, Op{file, OP_ERASE, p, p + (uint32_t)f.eraseSize, {}}, f.eraseFill, h.db->dev->blank());
            avail[file] += f.eraseSize;
        }
        store(b.data(), next[file]++, 4);
        applyOp(pf.im, Op{file, OP_WRITE, p, 0, b}, f.eraseFill, h.db->dev->blank());
        avail[file]--;
    }
    void freshVar() {
        var.assign(f.pageSize, fill);
        varOff = 4 + f.keySize;
    }
    void flushVar() {
        if (varOff == 4u + f.keySize) return;
        out(2, var);
        freshVar();
    }
    uint32_t value(const Rec &r) {
        if (varOff > (uint32_t)f.pageSize - 4) flushVar();
        uint32_t loc = next[2] % f.numVar * f.pageSize + varOff;
        Bytes all(4 + r.var.size());
        store(all.data(), r.var.size(), 4);
        std::copy(r.var.begin(), r.var.end(), all.begin() + 4);
        for (size_t d = 0; d < all.size();) {
            size_t n = std::min<size_t>(f.pageSize - varOff, all.size() - d);
            memcpy(&var[varOff], &all[d], n);
            store(&var[4], r.key, f.keySize);
            varOff += (uint32_t)n;
            d += n;
            if (varOff == (uint32_t)f.pageSize) flushVar();
        }
        return loc;
    }
    void flushIndex() {
        if (!idxN) return;
        store(idx.data() + 4, idxN, 2);
        store(idx.data() + 8, idxFrom, 4);
        out(1, idx);
        idxN = 0;
    }
    bool dataPage(uint32_t n, int varPct) {
        Bytes b(f.pageSize, fill);
        std::vector<Rec> rs;
        for (uint32_t i = 0; i < n; i++) {
            uint64_t k;
            if (!nextKey(c, f, h.m.has(), h.m.has() ? h.m.last() : 0, k)) { h.exhausted = true; break; }
            Rec r = genRec(c, f, k);
            uint32_t loc = UINT32_MAX;
            r.varWritesBefore = next[2];
            if (f.var && c.chance(varPct, 100)) {
                r.hasVar = true;
                r.var = genVarBytes(c, f, k);
                loc = value(r);
                if (c.chance(1, 30)) flushVar();
            }
            uint8_t *q = b.data() + f.header() + i * f.recordSize();
            store(q, k, f.keySize);
            memcpy(q + f.keySize, r.data.data(), f.dataSize);
            if (f.var) store(q + f.keySize + f.dataSize, loc, 4);
            h.m.add(r);
            h.recEpoch.push_back(0);
            rs.push_back(r);
        }
        if (rs.empty()) return false;
        dataHeader(f, b.data(), 0, rs.data(), rs.size());
        if (c.chance(1, 8)) flushVar();
        out(0, b);
        h.m.flushed();
        if (f.index) {
            if (idxN == (uint32_t)((f.pageSize - 16) / f.bitmapSize) || c.chance(1, f.pageSize > 288 ? 150 : 12)) flushIndex();
            if (!idxN) {
                idx.assign(f.pageSize, fill);
                idxFrom = next[0] - 1;
            }
            Bytes m = f.bmap ? bitmapOf(f, rs.data(), rs.size()) : Bytes(f.bitmapSize);
            memcpy(&idx[16 + idxN * f.bitmapSize], m.data(), m.size());
            idxN++;
        }
        return true;
    }
};

static void queries(Ctx &c, Hist &h, size_t off, const char *when) {
    h.filtered(genFilter(c, h.cfg, h.m), off, when);
    for (int i = 0; i < 4 && h.m.has(); i++) h.lookup(h.someKey());
    if (h.m.has()) h.lookup(h.m.last(), off);
    if (off < h.m.h.size()) h.lookup(h.m.h[off].key, off);
    if (h.cfg.var && h.m.has()) {
        h.scanVar(Filter(), off, when);
        h.lookupVar(h.someKey());
    }
}

static void run(Ctx &c) {
    bool writing = c.chance(1, 2);
    GenOpts g;
    g.bigPages = c.chance(1, 6);
    g.maxBlocks = 6;
    if (writing) g.rlc = 0;
    bool wide = c.chance(1, 40);  // index pages with many bitmaps
    if (wide) g.index = 2, g.rlc = 0;
    Cfg cfg = genCfg(c, g);
    if (c.chance(1, 2)) cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 4);
    if (wide) {
        cfg.bmap = true;
        cfg.bitmapKind = 5;
        cfg.bitmapSize = 8;
        cfg.valBytes = 1 << c.draw(3);
        cfg.dataSize = (int)c.range(70, 100);
        cfg.libDataCmp = cfg.maxmin = false;
        cfg.pageSize = cfg.header() + cfg.recordSize() * (int)c.range(4, 5);
        cfg.pageSize += cfg.pageSize & 1;
        cfg.numData = (64 / cfg.eraseSize + 2) * cfg.eraseSize;
    }
    cfg.settle();
    if (c.chance(1, 4)) ownFunctions(c, cfg);
    c.tagIf(cfg.own(), "comparators and bitmaps of the application's own");
    Hist h(c, cfg);
    int rounds = 1 + (int)c.draw(3);
    size_t off = 0;
    if (writing) {
        h.db->close();
        for (int i = 0; i < 3; i++) h.db->file(i).im = FileImage();
        for (int i = 0; i < 3; i++) h.db->file(i).im.pageSize = cfg.pageSize;
        Writer w(c, h);
        uint32_t base = 0;
        if (c.chance(1, 6)) {
            base = (uint32_t)c.pick({65536u, 32768u, 256u, 1u << 31, UINT32_MAX - 20000u}) - (uint32_t)c.draw(3 * cfg.numData);
            if (base < cfg.numData + cfg.numIndex) base = 65000;
            base -= base % cfg.numData;
            w.longLife(base);
            h.cfg.keyStart = std::max<uint64_t>(2, cfg.keyStart);
            c.tag("files with high page numbers");
        }
        uint32_t n = c.chance(1, 2) ? 1 + (uint32_t)c.draw(cfg.numData + 1) : 1 + (uint32_t)c.draw(3 * cfg.numData);
        int full = (int)c.draw(4), pct = (int)c.pick({40, 0, 5, 90});
        uint64_t cap = 900;
        if (base) n += cfg.numData;
        for (uint32_t i = 0; i < n && !h.exhausted && (base || h.m.h.size() < cap); i++)
            w.dataPage(full == 0 || c.draw(4) < (uint64_t)full ? h.m.maxRec : 1 + (uint32_t)c.draw(h.m.maxRec), pct);
        w.flushVar();
        if (!c.chance(1, 4)) w.flushIndex();
        h.varBase = w.next[2];
        h.epoch = 1;
        h.nReopen = 1;
        c.log("a file of %u data pages (%zu records), %u index and %u variable pages", w.next[0], h.m.h.size(), w.next[1], w.next[2]);
        if (h.m.h.empty() || (base && h.exhausted)) throw Discard();
        int r = h.db->open(false);
        if (r != 0) c.fail("opening a file of %u data, %u index and %u variable pages returned %d", w.next[0], w.next[1], w.next[2], r);
        off = h.full("after opening the file");
        queries(c, h, off, "after opening the file");
        c.tag("files opened");
        if (w.next[0] - base > 1) c.nontrivial();
        if (cfg.index && w.idxN) rounds = 0;  // the index has a gap
    }
    for (int k = 0; k < rounds && !h.exhausted; k++) {
        uint64_t target = c.chance(1, 3) ? h.m.curPage + c.draw(3) : h.m.curPage + c.draw(cfg.numData + 2), cap = 500;
        if (wide) target = h.m.curPage + c.draw(cfg.numData + 30);
        while (h.m.curPage < target && cap-- && !h.exhausted) {
            if (c.chance(1, wide ? 600 : 25)) h.flush();
            h.insert(40);
        }
        if (c.chance(1, 3)) h.insertMany(c.draw(h.m.maxRec + 1), 40);
        if (cfg.rlc && c.chance(1, 2)) Reader(c, h).data();  // with temporary pages of the page being filled
        h.flush();
        Reader rd(c, h);
        rd.all();
        if (rd.pages > 1) c.nontrivial();
        if (k + 1 < rounds && c.chance(1, 2)) off = h.reopen(0);
    }
    if (writing) {
        off = h.full("at the end");
        queries(c, h, off, "at the end");
    }
    h.commonTags();
    h.db->close();
}
Check pbt::theCheck = {"C34", "histories whose files are decoded page by page and generated files that the library opens; non-trivial: more than one data page decoded or opened", run, 16000, 250000};

#include "hist.hpp"
using namespace pbt;
#include <map>
// C05: values round-trip (file large enough that nothing is overwritten).
// the largest space for values the addresses allow, nearly 4 GiB: pages that nobody wrote here read as pages full of other values
struct Vast {
    std::map<uint32_t, Bytes> pages;
    bool exists = false;
    uint32_t filled = 0, numPages = 0;  // pages below are filled; pages there are
    uint64_t key = 0;                   // newest key in filled pages
    int keySize = 4;
    uint64_t bad = 0;
};
static int8_t vRead(void *b, uint32_t p, uint32_t n, void *f) {
    Vast &v = *(Vast *)f;
    auto i = v.pages.find(p);
    if (i != v.pages.end()) { memcpy(b, i->second.data(), n); return 1; }
    if (p >= v.filled) return 0;
    memcpy(b, &p, 4);
    memcpy((uint8_t *)b + 4, &v.key, v.keySize);
    return 1;
}
static int8_t vWrite(void *b, uint32_t p, uint32_t n, void *f) {
    Vast &v = *(Vast *)f;
    v.bad += p >= v.numPages;
    v.pages[p].assign((uint8_t *)b, (uint8_t *)b + n);
    return 1;
}
static int8_t vErase(uint32_t, uint32_t e, uint32_t, void *f) { ((Vast *)f)->bad += e > ((Vast *)f)->numPages; return 1; }
static int8_t vClose(void *) { return 1; }
static int8_t vFlush(void *) { return 1; }
static int8_t vOpen(void *f, uint8_t mode) {
    Vast &v = *(Vast *)f;
    if (mode == EMBEDDB_FILE_MODE_R_PLUS_B) return v.exists;
    v.exists = true;
    v.pages.clear();
    return 1;
}
static void vast(Ctx &c) {
    int ks = (int)c.pick({4, 8});
    uint32_t erase = (uint32_t)c.pick({2, 1, 3, 4});
    uint32_t ps = c.chance(1, 2) ? (uint32_t)c.range(2048, 65535) : (uint32_t)c.pick({65535, 32768, 4096, 65534, 2048, 61681});
    uint32_t numVar = (uint32_t)(0xFFFFFFFFull / ps / erase * erase);
    if (c.chance(1, 4)) numVar -= erase * (uint32_t)c.draw(4);
    Vast data, var;
    var.keySize = ks;
    var.numPages = numVar;
    data.numPages = 60 * erase;
    embedDBFileInterface io = {vRead, vWrite, vErase, vClose, vOpen, vFlush};
    embedDBState *st = nullptr;
    Bytes buf;
    auto open = [&](bool reset) {
        st = (embedDBState *)malloc(sizeof *st);
        memset(st, gJunk, sizeof *st);
        buf.assign(4 * (size_t)ps, 0xA5);
        st->keySize = ks;
        st->dataSize = 4;
        st->pageSize = ps;
        st->bufferSizeInBlocks = 4;
        st->numSplinePoints = 8;
        st->buffer = buf.data();
        st->fileInterface = &io;
        st->dataFile = &data;
        st->indexFile = nullptr;
        st->varFile = &var;
        st->numDataPages = data.numPages;
        st->numIndexPages = 0;
        st->numVarPages = numVar;
        st->eraseSizeInPages = erase;
        st->parameters = (int16_t)(EMBEDDB_USE_VDATA | (reset ? EMBEDDB_RESET_DATA : 0));
        st->bitmapSize = 0;
        st->compareKey = keyCmp(ks);
        st->compareData = scmp<4>;
        int r = embedDBInit(st, 1);
        if (r != 0) c.fail("initialization with %u pages of %u bytes for values returned %d", numVar, ps, r);
    };
    auto close = [&] {
        embedDBClose(st);
        free(st);
        st = nullptr;
    };
    std::vector<Bytes> values;
    size_t early = 0;
    auto put = [&](size_t n) {
        uint64_t k = values.size() + 1;
        Bytes v(n);
        v.reserve(n + 1);
        uint64_t x = c.raw64() | 1;
        for (size_t i = 0; i < n; i++) v[i] = (uint8_t)((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
        uint32_t d = (uint32_t)k * 7;
        int r = embedDBPutVar(st, &k, &d, v.data(), (uint32_t)n);
        c.log("put %llu with a value of %zu bytes -> %d", (unsigned long long)k, n, r);
        if (r != 0) c.fail("insert of key %llu returned %d", (unsigned long long)k, r);
        values.push_back(v);
    };
    auto check = [&](size_t i) {
        uint64_t k = i + 1;
        uint32_t d = 0;
        embedDBVarDataStream *s = nullptr;
        int r = embedDBGetVar(st, &k, &d, &s);
        c.log("getVar %llu -> %d", (unsigned long long)k, r);
        if (r == 1 && i < early) return;  // its page may have been taken for another value
        if (r != 0 || d != k * 7 || !s) { free(s); c.fail("variable lookup of key %llu returned %d", (unsigned long long)k, r); }
        Bytes got;
        size_t chunk = c.chance(1, 2) ? values[i].size() + 10 : 1 + c.draw(2 * ps);
        Bytes b(chunk);
        while (got.size() <= values[i].size()) {
            uint32_t n = embedDBVarDataStreamRead(st, s, b.data(), (uint32_t)chunk);
            if (!n) break;
            got.insert(got.end(), b.begin(), b.begin() + n);
        }
        free(s);
        if (got != values[i]) {
            size_t at = 0;
            while (at < got.size() && at < values[i].size() && got[at] == values[i][at]) at++;
            c.fail("the value of key %llu, of %zu bytes, in a space of %u pages of %u bytes, was read as %zu bytes; first difference at byte %zu", (unsigned long long)k, values[i].size(), numVar, ps, got.size(), at);
        }
    };
    c.log("space for values: %u pages of %u bytes, erase blocks of %u", numVar, ps, erase);
    open(true);
    int n = 1 + (int)c.draw(4);
    while (n--) put(c.draw(2 * ps));
    if (embedDBFlush(st) != 0) c.fail("flush failed");
    for (size_t i = 0; i < values.size(); i++) check(i);
    close();
    // years later
    var.key = values.size();
    early = values.size();
    uint32_t left = 1 + (uint32_t)c.draw(5);
    var.filled = numVar - left;
    c.log("all but the last %u pages are filled", left);
    open(false);
    for (size_t i = 0; i < early; i++) check(i);
    size_t bytes = 0;
    while (bytes < (size_t)(left + 4 + erase) * ps) {
        size_t len = c.chance(1, 3) ? c.draw(300) : c.draw(4 * ps);
        put(len);
        bytes += len + 4;
        if (c.chance(1, 5) && embedDBFlush(st) != 0) c.fail("flush failed");
        if (c.chance(1, 3)) check(early + c.draw(values.size() - early));
    }
    for (size_t i = 0; i < values.size(); i++) check(i);
    if (c.chance(1, 2)) {
        if (embedDBFlush(st) != 0) c.fail("flush failed");
        for (size_t i = 0; i < values.size(); i++) check(i);
    }
    close();
    if (var.bad || data.bad) c.fail("pages outside the space were written or erased");
    c.tag("spaces for values of nearly 4 GiB");
    c.nontrivial();
}
static void run(Ctx &c) {
    if (c.chance(1, 300)) return vast(c);
    GenOpts g;
    g.var = 2;
    g.bigPages = false;
    Cfg cfg = genCfg(c, g);
    cfg.numVar = cfg.eraseSize * (uint32_t)c.range(2, 40);
    cfg.longValues = c.chance(1, 120);
    uint32_t longest = cfg.longValues ? 86000 / (cfg.pageSize - cfg.keySize - 4) + 1 : 0;  // pages
    if (cfg.longValues) cfg.numVar = (3 * longest / cfg.eraseSize + 8) * cfg.eraseSize;
    cfg.settle();
    Hist h(c, cfg, false, [&](Db &d) { if (cfg.longValues) d.budget = 400000; });
    uint64_t total = c.small(1, std::min<uint64_t>(250, h.m.maxRec * cfg.numData * 2));
    int values = 0, spanning = 0, empty = 0;
    auto room = [&]() { return h.varTotal() + longest + 6 < cfg.numVar; };
    while (h.m.h.size() < total && !h.exhausted) {
        int op = c.weighted({8, 4, 1, 1, 1});
        if (op == 0) {
            uint64_t n = 1 + c.draw(12);
            for (uint64_t i = 0; i < n && !h.exhausted; i++) {
                bool r = room();
                h.insert(r ? 75 : 0);
                if (!h.m.has() || h.exhausted) break;
                const Rec &e = h.m.h.back();
                if (e.hasVar) { values++; spanning += e.var.size() > (size_t)cfg.pageSize; empty += e.var.empty(); }
            }
        } else if (op == 1) {
            if (h.m.has()) for (int i = 0; i < 3; i++) h.lookupVar(h.someKey());
        } else if (op == 2) h.flush();
        else if (op == 3) {
            size_t off = h.full("before a variable scan");
            h.scanVar(c.chance(1, 2) ? Filter() : genFilter(c, cfg, h.m), off, "during the history");
        } else if (c.chance(1, 4)) h.reopen(h.full("before reopening"));
        else if (h.m.has()) h.lookup(h.someKey());
    }
    size_t off = h.full("at the end");
    for (size_t i = off; i < h.m.h.size(); i++) {
        int r = h.lookupVar(h.m.h[i].key);
        if (r == 3) c.fail("variable lookup of the retained key %llu failed", (unsigned long long)h.m.h[i].key);
    }
    h.scanVar(Filter(), off, "at the end");
    h.filtered(Filter(), off, "at the end");
    h.commonTags();
    c.tag("values", values);
    c.tag("values longer than a page", spanning);
    c.tag("empty values", empty);
    for (auto &e : h.m.h) c.tagIf(e.hasVar && e.var.size() > 65535, "values beyond 64 KiB");
    if (values > 1) c.nontrivial();
    h.db->close();
}
Check pbt::theCheck = {"C05", "histories of records with and without values of random lengths (around page boundaries, empty, multi-page), read back by lookup and scan in random chunk sizes; non-trivial: at least two values were stored and read back", run, 24000, 300000};

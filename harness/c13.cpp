#include "hist.hpp"
using namespace pbt;
// C13: initialization accepts what is documented, rejects the rest, and a fresh database is empty.
static std::string whyInvalid(const Cfg &f) {
    int E = f.eraseSize;
    if (f.keySize > 8 || f.keySize < 1) return "key size";
    if (f.dataSize < 0) return "data size";
    if (E < 1) return "erase size";
    if (f.recordSize() > 127) return "record too large";
    if ((f.maxmin ? f.header() : 6 + f.bitmapSize) > 127) return "page header too large";
    if (f.index && f.bitmapSize < 1) return "bitmap size";
    if (f.index && f.pageSize < 16 + f.bitmapSize) return "page too small for the index";
    if (f.numData % E) return "data pages not a multiple";
    if (f.numData < (uint32_t)(f.rlc ? 4 : 2) * E) return "too few data pages";
    if (f.index && f.numData < 4u * E) return "too few data pages for an index";
    if (f.index && f.numIndex % E) return "index pages not a multiple";
    if (f.index && f.numIndex < 2u * E) return "too few index pages";
    if (f.var && f.numVar % E) return "variable data pages not a multiple";
    if (f.var && f.numVar < 2u * E) return "too few variable data pages";
    if (f.var && (uint64_t)f.numVar * f.pageSize > UINT32_MAX) return "variable data space beyond 32-bit addresses";
    if (f.bufBlocks < 2 + (f.index ? 2 : 0) + (f.var ? 2 : 0)) return "too few buffers";
    if (!f.binary && f.splinePts < 4) return "too few spline points";
    if (f.noDataFile) return "no data file";
    if (f.index && f.noIndexFile) return "no index file";
    if (f.var && f.noVarFile) return "no variable data file";
    if (f.pageSize < f.header() + f.recordSize()) return "page too small";
    return "";
}
static void junk(Ctx &c, PageFile &f, uint32_t pages) {
    f.im.exists = true;
    f.im.highWater = pages;
    f.im.bytes.resize((size_t)pages * f.im.pageSize);
    f.im.st.assign(pages, PG_WRITTEN);
    uint64_t s = c.raw64();
    int kind = (int)c.draw(3);
    for (size_t i = 0; i < f.im.bytes.size(); i++) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        f.im.bytes[i] = kind == 0 ? (uint8_t)(s >> 56) : kind == 1 ? 0 : 0xFF;
    }
    if (kind != 2)  // pages that look valid
        for (uint32_t p = 0; p < pages; p++) { memcpy(f.im.bytes.data() + (size_t)p * f.im.pageSize, &p, std::min<size_t>(4, f.im.pageSize)); }
}
static void checkEmpty(Ctx &c, Db &db, const Cfg &cfg, const char *when) {
    std::vector<Row> rows = scanAll(c, db, Filter(), 0);
    if (!rows.empty()) c.fail("%s: a scan of a fresh database returned key %llu", when, (unsigned long long)rows[0].key);
    for (int i = 0; i < 6; i++) {
        uint64_t k = i == 0 ? 0 : i == 1 ? cfg.keyMax : i == 2 ? 1 : c.raw64() & cfg.keyMax;
        Bytes d;
        int x = db.get(k, d);
        if (x == 0) c.fail("%s: lookup of key %llu in a fresh database succeeded", when, (unsigned long long)k);
    }
    Model m;
    m.init(&cfg, 1);
    Filter f = genFilter(c, cfg, m);
    rows = scanAll(c, db, f, 0);
    if (!rows.empty()) c.fail("%s: a scan %s of a fresh database returned key %llu", when, f.str().c_str(), (unsigned long long)rows[0].key);
    if (cfg.var) {
        Bytes kb = db.keyBytes(cfg.keyStart), d(cfg.dataSize);
        embedDBVarDataStream *s = nullptr;
        int x = embedDBGetVar(db.st, kb.data(), d.data(), &s);
        if (x == 0) c.fail("%s: variable lookup of key %llu in a fresh database succeeded", when, (unsigned long long)cfg.keyStart);
        Cursor cur(db, Filter());
        Row r;
        if (cur.nextVar(r, &s)) c.fail("%s: a variable scan of a fresh database returned key %llu", when, (unsigned long long)r.key);
    } else {
        Bytes kb = db.keyBytes(cfg.keyStart), d(cfg.dataSize + 1);
        embedDBVarDataStream *s = nullptr;
        if (embedDBGetVar(db.st, kb.data(), d.data(), &s) == 0) c.fail("%s: variable lookup of key %llu in a database without variable data succeeded", when, (unsigned long long)cfg.keyStart);
        if (embedDBPutVar(db.st, kb.data(), d.data(), d.data(), 1) == 0) c.fail("%s: an insert of variable data into a database without it succeeded", when);
        if (embedDBGet(db.st, kb.data(), d.data()) == 0) c.fail("%s: a rejected insert of variable data left its record behind", when);
        Cursor cur(db, Filter());
        Row r;
        if (cur.nextVar(r, &s)) c.fail("%s: a variable scan of a database without variable data returned key %llu", when, (unsigned long long)r.key);
    }
}
static void run(Ctx &c) {
    GenOpts g;
    g.bigPages = false;
    Cfg cfg = genCfg(c, g);
    int E = cfg.eraseSize;
    int muts = c.weighted({3, 5, 2});
    // push some parameters to and across their limits
    for (int i = 0; i < muts; i++) {
        switch (c.draw(20)) {
            case 0: cfg.keySize = (int)c.range(8, 12); if (cfg.keySize == 8) { cfg.keyMax = (1ull << 62) - 1; cfg.libKeyCmp = false; } break;
            case 1: cfg.numData = (uint32_t)((int64_t)((cfg.rlc || cfg.index) ? 4 : 2) * E + c.range(-E, 2)); if ((int32_t)cfg.numData <= 0) cfg.numData = E; break;
            case 2: cfg.numData += (uint32_t)c.range(1, E); break;
            case 3: cfg.index = true; cfg.numIndex = (uint32_t)std::max<int64_t>(0, 2 * E + c.range(-E - 1, 1)); break;
            case 4: cfg.var = true; cfg.numVar = (uint32_t)std::max<int64_t>(0, 2 * E + c.range(-2 * E, 1)); break;
            case 5: cfg.bufBlocks = (int)c.range(1, 7); break;
            case 6: cfg.splinePts = (int)c.range(0, 5); break;
            case 7: cfg.noDataFile = true; break;
            case 8: cfg.index = true; cfg.noIndexFile = c.chance(2, 3); break;
            case 9: cfg.var = true; cfg.noVarFile = c.chance(2, 3); break;
            case 10: cfg.pageSize = std::max(2, cfg.header() + cfg.recordSize() + (int)c.range(-6, 1)); break;
            case 18: if (c.chance(1, 2) && cfg.pageSize > 0 && E > 0) { cfg.var = true; cfg.numVar = (uint32_t)((0x100000000ull / cfg.pageSize + c.range(-2 * E, 2 * E)) / E * E); if (c.chance(1, 4)) cfg.numVar = cfg.numVar / 2 * 3 / E * E; } break;
            case 19: if (c.chance(1, 6)) { cfg.pageSize = c.chance(1, 2) ? 0 : (int)c.range(1, 8); } break;
            case 11: cfg.rlc = true; break;
            case 12: cfg.dataSize = (int)c.range(127 - cfg.keySize - 6, 127); cfg.pageSize = std::max(cfg.pageSize, 512); break;
            case 13: cfg.maxmin = true; cfg.dataSize = (int)c.range(54 - cfg.keySize, 60 - cfg.keySize); cfg.pageSize = std::max(cfg.pageSize, 512); break;
            case 14: cfg.index = true; cfg.dataSize = std::max(1, cfg.valBytes); cfg.pageSize = cfg.header() + cfg.recordSize() + (int)c.draw(8); cfg.pageSize += cfg.pageSize & 1; break;
            case 15: if (c.chance(1, 3)) cfg.keySize = (int)c.range(-2, 1); if (cfg.keySize == 1) { cfg.keyMax = 120; cfg.libKeyCmp = false; cfg.keyStart = 0; } break;
            case 16: if (c.chance(1, 3)) cfg.bitmapSize = (int)c.range(-1, 0); break;
            case 17: if (c.chance(1, 3)) { if (c.chance(1, 2)) cfg.eraseSize = 0; else cfg.dataSize = -(int)c.range(1, 128); } break;
        }
    }
    E = cfg.eraseSize;
    if (cfg.index && cfg.bitmapSize > 8) cfg.bitmapSize = 1;
    bool reset = c.chance(3, 4), present = c.chance(3, 4);
    std::string why = whyInvalid(cfg);
    if (why.empty() && cfg.bmap && cfg.bitmapSize < 1) { c.tag("skipped: bitmap of no bytes"); return; }
    Db db(cfg);
    int before = (int)c.draw(3);
    if (before == 1 && present && reset) {
        junk(c, db.fd, (uint32_t)c.draw(cfg.numData + 1));
        junk(c, db.fi, (uint32_t)c.draw(cfg.numIndex + 1));
        junk(c, db.fv, (uint32_t)c.draw(std::min(cfg.numVar, 64u) + 1));
    }
    size_t n0 = 0;
    Model m0;
    if (why.empty() && present && before == 2) {  // an earlier database with the same geometry
        Hist h(c, cfg);
        h.insertMany(1 + c.draw(60));
        h.flush();
        n0 = h.full("before the initialization under test");
        h.db->close();
        for (int i = 0; i < 3; i++) db.file(i).im = h.db->file(i).im;
        m0 = h.m;
        if (!reset && cfg.index && c.chance(1, 3)) { db.fi.im.exists = false; c.log("the index file is missing"); }
    } else if (present && !db.fd.im.exists) {
        db.fd.im.exists = c.chance(1, 2);
    }
    if (why.empty() && !reset && !db.fd.im.exists) why = "the data file to be recovered is missing";
    c.log("%s%s%s%s reset=%d, data file %s (%s)", cfg.str().c_str(), cfg.noDataFile ? " no data file" : "", cfg.noIndexFile ? " no index file" : "", cfg.noVarFile ? " no variable data file" : "", reset, db.fd.im.exists ? "present" : "missing", why.empty() ? "valid" : why.c_str());
    int r = db.open(reset);
    c.log("init -> %d", r);
    c.tag(why.empty() ? "valid" : why.c_str());
    if (!why.empty()) {
        if (r == 0) c.fail("initialization accepted an invalid configuration (%s): %s", why.c_str(), cfg.str().c_str());
        c.nontrivial();
        return;
    }
    if (r != 0) c.fail("initialization of a valid configuration returned %d: %s reset=%d", r, cfg.str().c_str(), reset);
    if (muts) c.nontrivial();
    if (!reset && m0.has()) {
        size_t off = checkSuffix(c, db, m0, "after initialization without the reset flag");
        (void)off; (void)n0;
        db.close();
        return;
    }
    checkEmpty(c, db, cfg, "after initialization");
    // it works as an empty database does
    Model m;
    m.init(&cfg, db.st->maxRecordsPerPage);
    uint64_t k = 0;
    int n = (int)c.draw(20);
    for (int i = 0; i < n && nextKey(c, cfg, m.has(), m.has() ? m.last() : 0, k); i++) {
        Rec rec = genRec(c, cfg, k);
        int x = db.put(k, rec.data);
        if (x != 0) c.fail("insert number %d, of key %llu, into a fresh database returned %d", i, (unsigned long long)k, x);
        m.add(rec);
    }
    if (c.chance(1, 2)) db.flush();
    size_t off = checkSuffix(c, db, m, "after inserts into a fresh database");
    for (int i = 0; i < 3 && off < m.h.size(); i++) {
        const Rec &e = m.h[off + c.draw(m.h.size() - off)];
        Bytes d;
        int x = db.get(e.key, d);
        if (x != 0 || d != e.data) c.fail("lookup of key %llu in a database that was just filled returned %d", (unsigned long long)e.key, x);
    }
    db.close();
}
Check pbt::theCheck = {"C13", "configurations with parameters pushed to and across their documented limits, on storage that is missing, filled with junk or holds an earlier database; non-trivial: an invalid configuration, or a valid one with a parameter moved to its limit", run, 20000, 250000};

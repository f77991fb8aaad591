// Runs one generated program against one build of the code under test and writes down everything that can be observed.
#include "hist.hpp"
#include "qkit.hpp"
#ifndef DIST
extern "C" {
#include "spline.h"
}
#endif
using namespace pbt;
typedef std::string S;
static uint64_t digest(const Bytes &b) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (uint8_t x : b) h = (h ^ x) * 0x100000001b3ull;
    return h;
}
static void storage(Ctx &c, Db &db) {
    for (int i = 0; i < 3; i++) {
        PageFile &f = db.file(i);
        if (f.im.exists) c.log("  %s file: %u pages, contents %016llx, %llu reads, %llu writes, %llu erases", f.name, f.im.highWater, (unsigned long long)digest(f.im.bytes), (unsigned long long)f.reads, (unsigned long long)f.writes, (unsigned long long)f.erases);
    }
    if (db.st) c.log("  counters %u %u %u %u %u, first and next page %u %u", db.st->numReads, db.st->numWrites, db.st->numIdxReads, db.st->numIdxWrites, db.st->bufferHits, db.st->minDataPageId, db.st->nextDataPageId);
}
// how much a scan of no keys at all reads is of no interest (which bound of the keys is looked at first)
static void inOrder(Filter &f) {
    if (f.hasMinK && f.hasMaxK && f.minK > f.maxK) std::swap(f.minK, f.maxK);
}
static void scan(Ctx &c, Db &db, const Filter &f, size_t limit) {
    Cursor cur(db, f);
    Row r;
    size_t n = 0;
    if (db.cfg.var && c.chance(1, 2)) {
        embedDBVarDataStream *s = nullptr;
        while (cur.nextVar(r, &s) && n++ < limit) {
            c.log("  row %llu %s%s", (unsigned long long)r.key, hex(r.data).c_str(), s ? "" : " no value");
            if (s) {
                Bytes b = drain(c, db, s, db.cfg.pageSize * 20 + 400);
                c.log("   value of %zu bytes %016llx", b.size(), (unsigned long long)digest(b));
                s = nullptr;
            }
        }
    } else {
        while (cur.next(r) && n++ < limit) c.log("  row %llu %s", (unsigned long long)r.key, hex(r.data).c_str());
    }
    c.log("  %zu rows", n);
}
static void history(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 5;
    g.bigPages = c.chance(1, 6);
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg, c.chance(1, 3));
    int ops = (int)c.range(4, 30);
    for (int i = 0; i < ops && !h.exhausted; i++) {
        switch (c.weighted({8, 2, 4, 3, 2, 1, 1, 1})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 120))); break;
            case 1: h.flush(); break;
            case 2: {
                uint64_t k = h.someKey();
                Bytes d;
                int r = h.db->get(k, d);
                c.log("get %llu -> %d %s", (unsigned long long)k, r, hex(d).c_str());
                break;
            }
            case 3: {
                Filter f = c.chance(1, 4) ? Filter() : genFilter(c, cfg, h.m);
                inOrder(f);
                c.log("scan %s", f.str().c_str());
                scan(c, *h.db, f, h.m.h.size() + 3);
                break;
            }
            case 4:
                if (cfg.var) {
                    uint64_t k = h.someKey();
                    Bytes d;
                    embedDBVarDataStream *s = nullptr;
                    int r = h.getVar(k, d, &s);
                    c.log("getVar %llu -> %d %s %s", (unsigned long long)k, r, hex(d).c_str(), s ? "value" : "no value");
                    if (s) {
                        Bytes b = drain(c, *h.db, s, cfg.pageSize * 20 + 400);
                        c.log("  value of %zu bytes %016llx", b.size(), (unsigned long long)digest(b));
                    }
                    h.note();
                }
                break;
            case 5:
                if (!h.crashable) h.reopen(0);
                break;
            case 6: {
                // an insert that is not in order
                if (!h.m.has()) break;
                uint64_t k = h.m.last() - c.draw(std::min<uint64_t>(h.m.last() + 1, 4));
                Rec r = genRec(c, cfg, k);
                int x = h.db->put(k, r.data);
                c.log("put %llu again -> %d", (unsigned long long)k, x);
                if (x == 0) {
#ifdef PBT_32
                    finish32("out of order");
#else
                    throw Discard();
#endif
                }
                break;
            }
            case 7:
                if (cfg.var) h.flushVar();
                break;
        }
        storage(c, *h.db);
    }
    if (c.chance(1, 2)) {  // the image as it is, without an orderly close, taken up again
        h.db->abandon();
        int r = h.db->open(false);
        c.log("taken up again without a close -> %d", r);
        if (r == 0) {
            scan(c, *h.db, Filter(), h.m.h.size() + 3);
            storage(c, *h.db);
        }
    }
    if (h.m.h.size() > h.m.maxRec) c.nontrivial();
    c.tag("histories");
    c.tagIf(h.wrapped(), "histories, wrapped");
    c.tagIf(cfg.var, "histories with variable data");
}
// calls of every kind, some of them while storage calls fail; whatever they return is written down
static void troubles(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    Db db(cfg);
    c.log("%s", cfg.str().c_str());
    int r = db.open(true);
    c.log("init -> %d", r);
    if (r != 0) return;
    uint64_t last = 0;
    bool has = false;
    std::vector<uint64_t> keys;
    uint32_t mr = std::max<uint32_t>(1, db.st->maxRecordsPerPage);
    int rounds = 1 + (int)c.draw(6);
    for (int rd = 0; rd < rounds && db.st; rd++) {
        bool armed = c.chance(1, 2);
        if (armed) {
            Device *d = db.dev;
            d->faultMask = 1u << c.pick({OP_WRITE, OP_READ, OP_ERASE, OP_FLUSH});
            d->faultCalls = 0;
            d->faultFrom = c.draw(6);
            d->faultTo = d->faultFrom + 1 + c.draw(3);
            d->faults = true;
            c.log("calls %u to %u of kind mask %02x fail", (unsigned)d->faultFrom, (unsigned)d->faultTo, d->faultMask);
        }
        int n = 1 + (int)c.draw(8);
        for (int i = 0; i < n && db.st; i++) switch (c.weighted({6, 1, 2, 2, 1, 1})) {
            case 0:
                for (uint64_t j = c.draw(std::min<uint64_t>(3 * mr + 2, 80)) + 1; j > 0; j--) {
                    uint64_t k;
                    if (!nextKey(c, cfg, has, last, k)) break;
                    has = true;
                    last = k;
                    keys.push_back(k);
                    Rec e = genRec(c, cfg, k);
                    bool pv = cfg.var && c.chance(1, 2);
                    if (pv) { e.hasVar = c.chance(3, 4); if (e.hasVar) e.var = genVarBytes(c, cfg, k); }
                    int x = pv ? db.putVar(k, e.data, e.hasVar ? &e.var : nullptr) : db.put(k, e.data);
                    c.log("put %llu -> %d", (unsigned long long)k, x);
                }
                break;
            case 1: {
                int x = db.flush();
                c.log("flush -> %d", x);
                break;
            }
            case 2: {
                uint64_t k = keys.empty() ? c.draw(9) : keys[c.draw(keys.size())] + c.chance(1, 6);
                if (k > cfg.keyMax) break;
                Bytes kb = db.keyBytes(k), d(cfg.dataSize, 0xEE);
                embedDBVarDataStream *s = nullptr;
                db.dev->budget(db.budget);
                int x = cfg.var && c.chance(1, 2) ? embedDBGetVar(db.st, kb.data(), d.data(), &s) : embedDBGet(db.st, kb.data(), d.data());
                c.log("get %llu -> %d %s", (unsigned long long)k, x, x == 0 ? hex(d).c_str() : "");
                if (s && x == 0) {
                    Bytes b = drain(c, db, s, cfg.pageSize * 20 + 400);
                    c.log("  value of %zu bytes %016llx", b.size(), (unsigned long long)digest(b));
                } else if (s) free(s);
                break;
            }
            case 3: {
                Model m;
                m.init(&cfg, mr);
                Filter f;
                if (!keys.empty() && c.chance(2, 3)) { f.hasMinK = true; f.minK = keys[c.draw(keys.size())]; }
                if (!keys.empty() && c.chance(1, 3)) { f.hasMaxK = true; f.maxK = keys[c.draw(keys.size())]; }
                inOrder(f);
                c.log("scan %s", f.str().c_str());
                scan(c, db, f, keys.size() + 3);
                break;
            }
            case 4:
                if (cfg.var) {
                    db.dev->budget(db.budget);
                    int x = embedDBFlushVar(db.st);
                    c.log("flushVar -> %d", x);
                }
                break;
            case 5: {
                if (c.chance(1, 2)) db.close(); else db.abandon();
                bool reset = c.chance(1, 8);
                if (armed && c.chance(1, 2)) db.dev->faultMask = 1u << OP_OPEN;
                int x = db.open(reset);
                c.log("taken up again%s -> %d", reset ? " empty" : "", x);
                if (x != 0) {
                    db.abandon();
                    db.fd.isOpen = db.fi.isOpen = db.fv.isOpen = false;
                    db.dev->faults = armed = false;
                    x = db.open(false);
                    c.log("taken up once more -> %d", x);
                    if (x != 0) { db.abandon(); return; }
                }
                break;
            }
        }
        db.dev->faults = false;
        if (db.st) storage(c, db);
    }
    if (keys.size() > mr) c.nontrivial();
    c.tag("troubles");
    c.tag("storage calls that failed", db.dev->faultsHitRead + db.dev->faultsHitWrite + db.dev->faultsHitErase + db.dev->faultsHitFlush + db.dev->faultsHitOpen);
}
static void queries(Ctx &c) {
    QOpts o;
    o.maxRows = 40;
    o.inOrder = true;
    QTree q(c, o);
    Node *top = q.gen((int)c.range(1, 4), c.chance(1, 3));
    c.log("query %s", top->text.c_str());
    q.init(top);
    embedDBSchema *s = top->op->schema;
    if (s) {
        S t;
        for (int i = 0; i < s->numCols; i++) t += " " + std::to_string(s->columnSizes[i]);
        c.log("schema%s", t.c_str());
        size_t n = 0, limit = top->out.rows.size() + 3, sz = getRecordSizeFromSchema(s);
        while (n < limit && q.next(top)) {
            c.log("  row %s", hex(Bytes((uint8_t *)top->op->recordBuffer, (uint8_t *)top->op->recordBuffer + sz)).c_str());
            n++;
        }
        c.log("  %zu rows", n);
        if (n > 2) c.nontrivial();
    }
    q.release(top, c.chance(1, 2));
    q.releaseRest();
    for (auto &d : q.dbs) storage(c, *d);
    c.tag("queries");
}
static void pieces(Ctx &c) {
    int ks = (int)c.pick({4, 8, 2, 3, 5, 6, 7, 1});
    uint64_t kmax = ks == 8 ? ~0ull : (1ull << (8 * ks)) - 1;
    spline s;
    memset(&s, gJunk, sizeof s);
    splineInit(&s, (id_t)c.range(4, 20), (size_t)c.pick({1, 0, 2, 5, 32}), (uint8_t)ks);
    uint64_t k = c.draw(100), p = 0;
    std::vector<uint64_t> keys;
    int n = (int)c.range(2, 120);
    for (int i = 0; i < n; i++) {
        uint64_t gap = 1 + c.draw(c.chance(1, 5) ? 1000 : 8);
        if (kmax - k < gap) break;
        k += gap;
        p += c.draw(3);
        splineAdd(&s, &k, (uint32_t)p);
        keys.push_back(k);
        if (c.chance(1, 4)) {
            uint64_t x = keys[c.draw(keys.size())] + c.draw(2);
            id_t a = 0, b = 0, d = 0;
            splineFind(&s, &x, keyCmp(ks), &a, &b, &d);
            c.log("find %llu -> %u %u %u", (unsigned long long)x, a, b, d);
        }
        if (c.chance(1, 15) && s.count > 4) c.log("erase -> %d", splineErase(&s, (uint32_t)c.range(1, 3)));
        S t;
        for (size_t j = 0; j < s.count; j++) t += " " + hex(Bytes((uint8_t *)splinePointLocation(&s, j), (uint8_t *)splinePointLocation(&s, j) + ks + 4));
        c.log("points %zu:%s", (size_t)s.count, t.c_str());
    }
    c.log("size %u", (unsigned)(splineSize(&s) - sizeof(spline)));
    splineClose(&s);
    for (int i = 0; i < 10; i++) {
        int32_t a = (int32_t)c.raw64(), b = c.chance(1, 4) ? a : (int32_t)c.raw64();
        int64_t x = (int64_t)c.raw64(), y = c.chance(1, 4) ? x : (int64_t)c.raw64();
        if (c.chance(1, 2)) { a %= 200; b %= 200; }
        c.log("compare %d %d", int32Comparator(&a, &b), int64Comparator(&x, &y));
        uint8_t bm8 = 0;
        uint16_t bm16 = 0;
        uint64_t bm64 = 0;
        updateBitmapInt8(&a, &bm8);
        updateBitmapInt16(&a, &bm16);
        updateBitmapInt64(&a, &bm64);
        c.log("bitmaps of %d: %02x %04x %016llx, %d in: %d %d %d", a, bm8, bm16, (unsigned long long)bm64, b, inBitmapInt8(&b, &bm8), inBitmapInt16(&b, &bm16), inBitmapInt64(&b, &bm64));
        int32_t lo = std::min(a, b), hi = std::max(a, b);
        bm8 = 0; bm16 = 0; bm64 = 0;
        int w = (int)c.draw(3);
        buildBitmapInt8FromRange(w == 1 ? nullptr : &lo, w == 2 ? nullptr : &hi, &bm8);
        buildBitmapInt16FromRange(w == 1 ? nullptr : &lo, w == 2 ? nullptr : &hi, &bm16);
        buildBitmapInt64FromRange(w == 1 ? nullptr : &lo, w == 2 ? nullptr : &hi, &bm64);
        c.log("range %d %d: %02x %04x %016llx", lo, hi, bm8, bm16, (unsigned long long)bm64);
    }
    c.nontrivial();
    c.tag("spline and bitmaps");
}
extern "C" __attribute__((visibility("default"))) int drive(Ctx *cp, Shared *sh, std::string *obs, uint8_t junk) {
    gCur = sh;
    gJunk = junk;
    Ctx &c = *cp;
    c.obs = obs;
#ifndef PBT_32
    try
#endif
    {
        switch (c.weighted({5, 5, 2, 4})) {
            case 0: history(c); break;
            case 1: queries(c); break;
            case 3: troubles(c); break;
            default: pieces(c);
        }
    }
#ifndef PBT_32
    catch (Failure &f) {
        *obs += "FAIL " + f.msg + "\n";
    } catch (Discard &) {
        return 3;
    }
#endif
    return 1;
}

// Runs one generated program against one build of the code under test; writes down what can be observed, and captures what the library prints.
#define drive drive25
#include "c25drv.cpp"
#undef drive
#ifndef DRIVE
#define DRIVE drive
#endif
#include <sys/mman.h>
static const bool loud = strcmp(PBT_VARIANT, "silent") != 0;
// what was printed on the serial port of a board (C39)
static bool gOnSerial;
static std::string gSerial, gShown;
// standard output goes to a file in memory while one of these exists
struct Capture {
    int mem, old;
    off_t err;
    size_t from = gSerial.size();
    Capture() {
        fflush(stdout);
        old = dup(1);
        mem = memfd_create("out", 0);
        dup2(mem, 1);
        err = lseek(2, 0, SEEK_END);
    }
    off_t pos() {
        if (gOnSerial) return gSerial.size() - from;
        fflush(stdout);
        return lseek(mem, 0, SEEK_CUR);
    }
    bool besideSerial() {
        fflush(stdout);
        return gOnSerial && lseek(mem, 0, SEEK_CUR) > 0;
    }
    bool onError() { return err != (off_t)-1 && lseek(2, 0, SEEK_END) != err; }
    S text() {
        if (gOnSerial) return gSerial.substr(from);
        S s(pos(), 0);
        if (pread(mem, &s[0], s.size(), 0) < 0) s.clear();
        return s;
    }
    ~Capture() {
        gShown += text();
        gSerial.resize(from);
        fflush(stdout);
        dup2(old, 1);
        close(old);
        close(mem);
    }
};
static S cut(const S &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
static Capture *gCap;
static off_t gFrom;
static uint64_t faultsHit(Db &db) { return db.dev->faultsHitRead + db.dev->faultsHitWrite + db.dev->faultsHitErase + db.dev->faultsHitFlush + db.dev->faultsHitOpen; }
// what a call printed
static void began() { gFrom = gCap->pos(); }
static void ended(Ctx &c, const char *what, bool failed, bool must, bool may = false) {
    off_t n = gCap->pos() - gFrom;
    if (!loud) {
        if (n) c.fail("!%s printed, without PRINT_ERRORS: \"%s\"", what, cut(gCap->text().substr(gFrom)).c_str());
        return;
    }
    if (failed && must && !n) c.fail("!%s failed, with PRINT_ERRORS, without a message", what);
    if (failed && n) c.tag((S(what) + ": told").c_str());
    else if (failed) c.tag((S(what) + ": not told").c_str());
    else if (n) c.tag((S(what) + ", done: told").c_str());
}
// the words and numbers of a text
static std::vector<S> words(const S &s) {
    std::vector<S> v;
    S w;
    for (char ch : s) {
        if (isspace((unsigned char)ch)) {
            if (!w.empty()) v.push_back(w);
            w.clear();
        } else w += ch;
    }
    if (!w.empty()) v.push_back(w);
    return v;
}
static std::vector<int64_t> numbers(const S &s) {
    std::vector<int64_t> v;
    for (size_t i = 0; i < s.size();) {
        if (isdigit((unsigned char)s[i]) && (i == 0 || !isalpha((unsigned char)s[i - 1]))) {
            bool neg = i && s[i - 1] == '-';
            char *e;
            uint64_t x = strtoull(s.c_str() + i, &e, 10);
            v.push_back(neg ? -(int64_t)x : (int64_t)x);
            i = e - s.c_str();
        } else i++;
    }
    return v;
}
// the number printed after a label, in any case
static bool labelled(const S &s, const char *label, int64_t &x) {
    const char *p = strcasestr(s.c_str(), label);
    if (!p) return false;
    p += strlen(label);
    while (*p && *p != '\n' && !isdigit((unsigned char)*p) && *p != '-') p++;
    if (!*p || *p == '\n') return false;
    x = *p == '-' ? strtoll(p, nullptr, 10) : (int64_t)strtoull(p, nullptr, 10);
    return true;
}
static void expect(Ctx &c, const S &s, const char *label, int64_t want) {
    int64_t x;
    if (!labelled(s, label, x)) c.fail("!\"%s\" is not in the output: %s", label, cut(s).c_str());
    if (x != want) c.fail("!%s %lld was printed and is %lld: %s", label, (long long)x, (long long)want, s.c_str());
}
static S printed(void (*f)(void *), void *p) {
    Capture k;
    f(p);
    return k.text();
}
static void expectSpline(Ctx &c, spline *s, const S &t) {
    expect(c, t, "Spline max error", s->maxError);
    expect(c, t, "Spline points", s->count);
    size_t at = t.find("[0]");
    if (at == S::npos) { if (s->count) c.fail("!no points are printed: %s", cut(t).c_str()); return; }
    std::vector<int64_t> n = numbers(t.substr(at));
    if (n.size() != 3 * s->count) c.fail("!%zu numbers are printed for %zu points", n.size(), (size_t)s->count);
    for (size_t i = 0; i < s->count; i++) {
        uint8_t *p = (uint8_t *)splinePointLocation(s, i);
        uint64_t k = 0;
        uint32_t page = 0;
        memcpy(&k, p, s->keySize);
        memcpy(&page, p + s->keySize, 4);
        if (n[3 * i] != (int64_t)i || (uint64_t)n[3 * i + 1] != k || n[3 * i + 2] != (int64_t)page)
            c.fail("!point %zu (%llu, %u) is printed as [%lld]: (%llu, %lld)", i, (unsigned long long)k, page, (long long)n[3 * i], (unsigned long long)n[3 * i + 1], (long long)n[3 * i + 2]);
    }
    c.tag("splines printed");
}
static Bytes image(Db &db) {
    Bytes b((uint8_t *)db.st, (uint8_t *)db.st + sizeof *db.st);
    b.insert(b.end(), (uint8_t *)db.st->buffer, (uint8_t *)db.st->buffer + (size_t)db.cfg.bufBlocks * db.cfg.pageSize);
    if (!db.cfg.binary) {
        b.insert(b.end(), (uint8_t *)db.st->spl, (uint8_t *)(db.st->spl + 1));
        b.insert(b.end(), (uint8_t *)db.st->spl->points, (uint8_t *)db.st->spl->points + (size_t)db.st->spl->size * (db.cfg.keySize + 4));
    }
    return b;
}
// the figures of a database that has run for a while
static void figures(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg, false);
    int ops = (int)c.range(2, 12);
    for (int i = 0; i < ops && !h.exhausted; i++) {
        switch (c.weighted({5, 2, 3, 1, 1, 1, 4})) {
            case 0: h.insertMany(1 + c.draw(std::min<uint64_t>(3 * h.m.maxRec, 120))); break;
            case 1: h.flush(); break;
            case 2: {
                Bytes d;
                h.db->get(h.someKey(), d);
                break;
            }
            case 3: {
                Cursor cur(*h.db, Filter());
                Row r;
                for (size_t n = 0; n < h.m.h.size() + 3 && cur.next(r); n++);
                break;
            }
            case 4: h.reopen(0); break;
            case 5:
                if (c.chance(1, 2)) embedDBResetStats(h.db->st);
                else {
                    // counters run for as long as the device does
                    embedDBState *s = h.db->st;
                    id_t *f[5] = {&s->numReads, &s->bufferHits, &s->numWrites, &s->numIdxReads, &s->numIdxWrites};
                    *f[c.draw(5)] = (id_t)c.range(3000000000u, 4000000000u);
                }
                break;
            case 6: {
                embedDBState *s = h.db->st;
                Bytes was = image(*h.db);
                uint64_t io = h.db->fd.reads + h.db->fd.writes + h.db->fd.erases + h.db->fi.reads + h.db->fi.writes + h.db->fv.reads + h.db->fv.writes;
                S t = printed([](void *p) { embedDBPrintStats((embedDBState *)p); }, s);
                c.log("stats: %zu words", words(t).size());
                expect(c, t, "Num reads", s->numReads);
                expect(c, t, "Buffer hits", s->bufferHits);
                expect(c, t, "Num writes", s->numWrites);
                expect(c, t, "Num index reads", s->numIdxReads);
                expect(c, t, "Num index writes", s->numIdxWrites);
                size_t at = t.find("Spline");
                expect(c, t.substr(0, at), "Max error", s->maxError);
                if (cfg.binary) { if (at != S::npos) c.fail("!a spline is printed for a database without one: %s", cut(t).c_str()); }
                else expectSpline(c, s->spl, t);
                t = printed([](void *p) { embedDBPrintInit((embedDBState *)p); }, s);
                c.log("init: %zu words", words(t).size());
                expect(c, t, "Buffer size", cfg.bufBlocks);
                expect(c, t, "Page size", cfg.pageSize);
                expect(c, t, "Key size", cfg.keySize);
                expect(c, t, "Data size", cfg.dataSize);
                expect(c, t, "Record size", s->recordSize);
                expect(c, t, "Use index", cfg.index);
                expect(c, t, "Max/min", cfg.maxmin);
                expect(c, t, "Bmap", cfg.bmap);
                expect(c, t, "Header size", s->headerSize);
                expect(c, t, "Records per page", s->maxRecordsPerPage);
                if ((strcasestr(t.c_str(), "variable data") != nullptr) != cfg.var) c.fail("!variable data is%s used: %s", cfg.var ? "" : " not", t.c_str());
                if (image(*h.db) != was) c.fail("!printing changed the state");
                if (io != h.db->fd.reads + h.db->fd.writes + h.db->fd.erases + h.db->fi.reads + h.db->fi.writes + h.db->fv.reads + h.db->fv.writes) c.fail("!printing used the storage");
                c.tag("states printed");
                c.nontrivial();
                break;
            }
        }
    }
}
// splines and schemas of their own
static void prints(Ctx &c) {
    int ks = (int)c.pick({4, 8, 2, 3, 5, 6, 7, 1});
    uint64_t kmax = ks == 8 ? ~0ull : (1ull << (8 * ks)) - 1;
    spline s;
    memset(&s, gJunk, sizeof s);
    splineInit(&s, (id_t)c.range(4, 20), (size_t)c.pick({1, 0, 2, 5, 32}), (uint8_t)ks);
    uint64_t k = c.chance(1, 3) ? c.raw64() & kmax >> 1 : c.draw(100);
    uint32_t p = c.chance(1, 4) ? (uint32_t)c.range(2000000000u, 4000000000u) : 0;
    k &= kmax;
    int n = (int)c.range(1, 60);
    for (int i = 0; i < n; i++) {
        uint64_t gap = 1 + c.draw(c.chance(1, 5) ? 1000 : 8);
        if (kmax - k < gap) break;
        k += gap;
        p += (uint32_t)c.draw(3);
        splineAdd(&s, &k, p);
    }
    Bytes was((uint8_t *)s.points, (uint8_t *)s.points + s.size * (ks + 4));
    expectSpline(c, &s, printed([](void *q) { splinePrint((spline *)q); }, &s));
    if (was != Bytes((uint8_t *)s.points, (uint8_t *)s.points + s.size * (ks + 4))) c.fail("!printing changed the spline");
    splineClose(&s);
    S t = printed([](void *q) { splinePrint(nullptr); }, nullptr);
    if (t.empty()) c.fail("!nothing is printed for no spline");
    // a schema
    int cols = (int)c.range(1, 12);
    std::vector<int8_t> sz(cols), sg(cols);
    std::vector<S> want;
    for (int i = 0; i < cols; i++) {
        sz[i] = (int8_t)c.range(1, c.chance(1, 4) ? 127 : 8);
        sg[i] = c.chance(1, 2) ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED;
        want.push_back((sg[i] == embedDB_COLUMN_SIGNED ? "int" : "uint") + std::to_string(sz[i]) + (i + 1 < cols ? "," : ""));
    }
    embedDBSchema *sc = embedDBCreateSchema((uint8_t)cols, sz.data(), sg.data());
    if (!sc) c.fail("!no schema");
    t = printed([](void *q) { printSchema((embedDBSchema *)q); }, sc);
    if (words(t) != want) {
        S w;
        for (auto &x : want) w += " " + x;
        c.fail("!a schema of%s is printed as %s", w.c_str(), t.c_str());
    }
    embedDBFreeSchema(&sc);
    c.log("printed");
    c.tag("splines and schemas printed");
    c.nontrivial();
}
// every call by itself, some of them while storage calls fail
static void calls(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    Db db(cfg);
    c.log("%s", cfg.str().c_str());
    if (db.open(true) != 0) return;
    uint64_t last = 0, failures = 0;
    bool has = false;
    uint32_t mr = std::max<uint32_t>(1, db.st->maxRecordsPerPage);
    std::vector<uint64_t> keys;
    int rounds = 1 + (int)c.draw(6);
    for (int rd = 0; rd < rounds && db.st; rd++) {
        int kind = OP_WRITE;
        if (c.chance(2, 3)) {
            Device *d = db.dev;
            kind = c.pick({OP_WRITE, OP_READ, OP_ERASE, OP_FLUSH});
            d->faultMask = 1u << kind;
            d->faultCalls = 0;
            d->faultFrom = c.draw(6);
            d->faultTo = d->faultFrom + 1 + c.draw(3);
            d->faults = true;
        }
        int n = 1 + (int)c.draw(8);
        for (int i = 0; i < n && db.st; i++) switch (c.weighted({6, 1, 2, 1, 1})) {
            case 0:
                for (uint64_t j = c.draw(std::min<uint64_t>(3 * mr + 2, 80)) + 1; j > 0; j--) {
                    uint64_t k;
                    bool again = has && c.chance(1, 12);
                    if (again) k = last - c.draw(std::min<uint64_t>(last + 1, 4));
                    else if (!nextKey(c, cfg, has, last, k)) break;
                    Rec e = genRec(c, cfg, k);
                    bool pv = cfg.var && c.chance(1, 2);
                    if (pv) { e.hasVar = c.chance(3, 4); if (e.hasVar) e.var = genVarBytes(c, cfg, k); }
                    uint64_t hits = faultsHit(db);
                    began();
                    int x = pv ? db.putVar(k, e.data, e.hasVar ? &e.var : nullptr) : db.put(k, e.data);
                    bool f = faultsHit(db) != hits;
                    failures += x != 0;
                    ended(c, f ? "an insert with a storage failure" : again ? "an insert out of order" : "an insert", x != 0, again && !f);
                    c.log("put %llu -> %d", (unsigned long long)k, x);
                    if (x == 0) { has = true; last = k; keys.push_back(k); }
                }
                break;
            case 1: {
                uint64_t hits = faultsHit(db);
                began();
                int x = db.flush();
                failures += x != 0;
                ended(c, kind == OP_FLUSH && faultsHit(db) != hits ? "a flush whose file flush fails" : faultsHit(db) != hits ? "a flush with a storage failure" : "a flush", x != 0, faultsHit(db) != hits && kind != OP_FLUSH);
                c.log("flush -> %d", x);
                break;
            }
            case 2: {
                uint64_t k = keys.empty() ? c.draw(9) : keys[c.draw(keys.size())] + c.chance(1, 6);
                if (k > cfg.keyMax) break;
                Bytes kb = db.keyBytes(k), d(cfg.dataSize, 0xEE);
                embedDBVarDataStream *s = nullptr;
                db.dev->budget(db.budget);
                uint64_t hits = faultsHit(db);
                bool v = cfg.var && c.chance(1, 2);
                began();
                int x = v ? embedDBGetVar(db.st, kb.data(), d.data(), &s) : embedDBGet(db.st, kb.data(), d.data());
                bool f = faultsHit(db) != hits;
                ended(c, f ? "a lookup with a storage failure" : "a lookup", x != 0, false);
                c.log("get %llu -> %d %s", (unsigned long long)k, x, x == 0 ? hex(d).c_str() : "");
                if (s) {
                    hits = faultsHit(db);
                    began();
                    Bytes b = drain(c, db, s, cfg.pageSize * 20 + 400);
                    ended(c, "reading a value", faultsHit(db) != hits, false);
                    c.log("  value of %zu bytes", b.size());
                }
                break;
            }
            case 3: {
                uint64_t hits = faultsHit(db);
                began();
                Cursor cur(db, Filter());
                Row r;
                size_t m = 0;
                while (m < keys.size() + 3 && cur.next(r)) m++;
                ended(c, "a scan", faultsHit(db) != hits, faultsHit(db) != hits && kind == OP_READ);
                c.log("scan of %zu rows", m);
                break;
            }
            case 4: {
                began();
                if (c.chance(1, 2)) db.close(); else db.abandon();
                ended(c, "a close", false, false);
                if (c.chance(1, 2)) { db.dev->faultMask = 1u << (kind = OP_OPEN); db.dev->faultCalls = 0; db.dev->faultFrom = c.draw(3); db.dev->faultTo = db.dev->faultFrom + 1; db.dev->faults = true; }
                uint64_t hits = faultsHit(db);
                began();
                int x = db.open(c.chance(1, 6));
                ended(c, faultsHit(db) != hits ? kind == OP_OPEN ? "an initialization whose file does not open" : "an initialization with a storage failure" : "an initialization", x != 0, false);
                failures += x != 0;
                c.log("taken up again -> %d", x);
                if (x != 0) {
                    db.abandon();
                    db.fd.isOpen = db.fi.isOpen = db.fv.isOpen = false;
                    db.dev->faults = false;
                    began();
                    x = db.open(false);
                    ended(c, "an initialization after one that failed", x != 0, false);
                    c.log("taken up once more -> %d", x);
                    if (x != 0) { db.abandon(); return; }
                }
                break;
            }
        }
        db.dev->faults = false;
    }
    if (failures) c.nontrivial();
    c.tag("programs of single calls");
    c.tag("calls that failed", failures);
}
// set-ups that the documentation excludes are refused, with a message
static void refusals(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 4;
    Cfg cfg = genCfg(c, g);
    int n = (int)c.range(1, 6);
    for (int i = 0; i < n; i++) {
        Cfg k = cfg;
        const char *what = "";
        switch (c.draw(12)) {
            case 0: k.keySize = (int)c.range(9, 20); what = "a key that is too large"; break;
            case 1: k.eraseSize = 0; what = "an erase size of no pages"; break;
            case 2: if (cfg.eraseSize < 2) continue; k.numData += 1 + (uint32_t)c.draw(cfg.eraseSize - 1); what = "data pages that do not fill the blocks"; break;
            case 3: k.numData = (uint32_t)(cfg.eraseSize * (int)c.draw(cfg.rlc ? 4 : 2)); what = "too few data pages"; break;
            case 4: k.bufBlocks = (int)c.draw(2); what = "too few buffers"; break;
            case 5: if (!cfg.var) continue; k.noVarFile = true; what = "no file for variable data"; break;
            case 6: if (!cfg.var) continue; k.numVar = (uint32_t)c.draw(2 * cfg.eraseSize); what = "too few pages for variable data"; break;
            case 7: if (cfg.binary) continue; k.splinePts = (int)c.draw(4); what = "too few spline points"; break;
            case 8: if (!cfg.index && !cfg.var) continue; k.bufBlocks = (cfg.index && cfg.var ? 6 : 4) - 1; what = "too few buffers for the index or variable data"; break;
            case 9: if (!cfg.index) continue; k.numIndex = (uint32_t)(cfg.eraseSize * (int)c.draw(2)); what = "too few index pages"; break;
            case 10: if (!cfg.index || cfg.eraseSize < 2) continue; k.numIndex += 1 + (uint32_t)c.draw(cfg.eraseSize - 1); what = "index pages that do not fill the blocks"; break;
            default: if (!cfg.var || cfg.eraseSize < 2) continue; k.numVar += 1 + (uint32_t)c.draw(cfg.eraseSize - 1); what = "pages for variable data that do not fill the blocks"; break;
        }
        Db db(k);
        began();
        int r = db.open(true);
        ended(c, what, r != 0, true);
        c.log("%s -> %d", what, r);
        if (r == 0) c.tag((S("accepted: ") + what).c_str());
        db.release();
        c.nontrivial();
    }
    // schemas
    int8_t sz[3] = {4, 4, 4}, sg[3] = {embedDB_COLUMN_UNSIGNED, embedDB_COLUMN_SIGNED, embedDB_COLUMN_SIGNED};
    int at = (int)c.draw(3);
    bool sizes = c.chance(1, 2);
    if (sizes) sz[at] = (int8_t)-(int)c.draw(3); else sg[at] = (int8_t)c.range(2, 100);
    began();
    embedDBSchema *s = embedDBCreateSchema(3, sz, sg);
    const char *what = sizes ? "a column without a size" : "a column neither signed nor unsigned";
    ended(c, what, s == nullptr, true);
    c.log("%s -> %s", what, s ? "schema" : "refused");
    if (s) embedDBFreeSchema(&s);
}
extern "C" __attribute__((visibility("default"))) int DRIVE(Ctx *cp, Shared *sh, std::string *obs, uint8_t junk) {
    gCur = sh;
    gJunk = junk;
    Ctx &c = *cp;
    Capture cap;
    gCap = &cap;
    S shown;
    try {
        c.obs = obs;
        switch (c.weighted({4, 6, 4, 2, 3})) {
            case 0: {
                int r = drive25(cp, sh, obs, junk);
                if (r == 3) return 3;
                c.obs = obs;
                c.tag("programs captured as a whole");
                break;
            }
            case 1: calls(c); break;
            case 2: figures(c); break;
            case 3: prints(c); break;
            default: refusals(c);
        }
        shown = cap.text();
        if (!loud && !shown.empty()) c.fail("!without PRINT_ERRORS the library printed \"%s\"", cut(shown).c_str());
        if (cap.besideSerial()) c.fail("!on a board, something was printed to standard output and not on the serial port");
        if (cap.onError()) c.fail("!something was printed to the standard error stream");
    } catch (Failure &f) {
        *obs += "FAIL " + f.msg + "\n";
        c.obs = nullptr;
        return f.msg.find('!') == 0 ? 2 : 1;
    } catch (Discard &) {
        return 3;
    }
    return 0;
}

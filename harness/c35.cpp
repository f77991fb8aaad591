#include "qkit.hpp"
#include "hist.hpp"
extern "C" {
#include "desktopFileInterface.h"
void tearDownFile(void *file);
embedDBFileInterface *getMockEraseFileInterface();
embedDBFileInterface *getSDInterface();
void *setupSDFile(char *filename);
void tearDownSDFile(void *file);
embedDBFileInterface *getDataflashInterface();
void *setupDataflashFile(uint32_t startPage, uint32_t numPages);
void tearDownDataflashFile(void *file);
// the devices below the adaptors are not used here
struct sd_file;
int sd_fclose(sd_file *) { return 0; }
int sd_fflush(sd_file *) { return 0; }
sd_file *sd_fopen(const char *, const char *) { return nullptr; }
size_t sd_fread(void *, size_t, size_t, sd_file *) { return 0; }
int sd_fseek(sd_file *, int32_t, int32_t) { return 1; }
size_t sd_fwrite(void *, size_t, size_t, sd_file *) { return 0; }
size_t sd_length(sd_file *) { return 0; }
int32_t dfread(int32_t, void *, int32_t) { return 0; }
int32_t dfwrite(int32_t, void *, int32_t) { return 0; }
}
#include <sys/stat.h>
using namespace pbt;
// C35: running out of memory and refused set-ups fail cleanly.

// ---------------------------------------------------------------- allocations of the library that fail
static bool gArmed, gOnward;
static uint64_t gSkip, gSeen, gRefused;
static bool refuse() {
    if (!gArmed) return false;
    uint64_t n = gSeen++;
    if (n < gSkip || (n > gSkip && !gOnward)) return false;
    gRefused++;
    return true;
}
extern "C" void *vp_malloc(size_t n) { return refuse() ? nullptr : malloc(n); }
extern "C" void *vp_calloc(size_t n, size_t m) { return refuse() ? nullptr : calloc(n, m); }
struct Scarce {  // the allocation number `skip` of the library, and if asked for all later ones, fail during the life of this object
    Scarce(uint64_t skip, bool onward) {
        gSkip = skip;
        gOnward = onward;
        gSeen = gRefused = 0;
        gArmed = true;
    }
    ~Scarce() { gArmed = false; }
    bool hit() const { return gRefused > 0; }
};
static void leaked(Ctx &c, size_t before, const char *what) {
    if (alloc::live == before) return;
    size_t live = alloc::live;
    c.fail("%s left %zd allocations behind", what, (ssize_t)(live - before));
}

// ---------------------------------------------------------------- databases
static void database(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 5;
    Cfg cfg = genCfg(c, g);
    Hist h(c, cfg);
    int ops = (int)c.range(2, 12), refused = 0, poor = 0, streams = 0;
    for (int i = 0; i < ops; i++) {
        switch (c.weighted({6, 2, 4, 3, 4})) {
            case 0: {
                bool scarce = c.chance(1, 3);
                uint64_t n = 1 + c.draw(std::min<uint64_t>(2 * h.m.maxRec, 80));
                if (!scarce) { h.insertMany(n, 50); break; }
                Scarce s(0, true);
                h.insertMany(n, 50);
                if (c.chance(1, 2)) h.flush();
                poor++;
                break;
            }
            case 1: h.flush(); break;
            case 2: {  // opening what is stored
                h.flush();
                h.db->close();
                uint64_t w = h.db->fd.writes + h.db->fi.writes + h.db->fv.writes, e = h.db->fd.erases + h.db->fi.erases + h.db->fv.erases;
                auto unchanged = [&](const char *what) {
                    if (h.db->fd.writes + h.db->fi.writes + h.db->fv.writes != w || h.db->fd.erases + h.db->fi.erases + h.db->fv.erases != e)
                        c.fail("%s wrote to the storage", what);
                };
                int tries = (int)c.range(1, 3), r = -1;
                bool opened = false;
                if ((cfg.index || cfg.var) && c.chance(1, 3)) {  // what is missing is found late
                    int what = (int)c.draw(3);
                    Cfg &f = h.db->cfg;
                    if (what == 0) f.bufBlocks = 2 + (int)c.draw(cfg.index && cfg.var ? 4 : 2);
                    else if (cfg.index && (what == 1 || !cfg.var)) f.noIndexFile = true;
                    else f.noVarFile = true;
                    alloc::start();
                    {
                        alloc::Lib lib;
                        r = h.db->open(false);
                    }
                    c.log("open with %s -> %d", f.noIndexFile ? "no index file" : f.noVarFile ? "no file for variable data" : "too few buffers", r);
                    if (r == 0) c.fail("an initialization that can not work succeeded");
                    {
                        alloc::Lib lib;
                        h.db->release();
                    }
                    leaked(c, 0, "a refused initialization");
                    // (the data file has been recovered by then, which may erase pages)
                    h.db->fd.isOpen = h.db->fi.isOpen = h.db->fv.isOpen = false;
                    w = h.db->fd.writes + h.db->fi.writes + h.db->fv.writes;
                    e = h.db->fd.erases + h.db->fi.erases + h.db->fv.erases;
                    f = cfg;
                    c.tag("refused for want of a file or buffers");
                }
                for (int t = 0; t < tries && !opened; t++) {
                    uint64_t skip = c.draw(8);
                    bool onward = c.chance(1, 2);
                    alloc::start();
                    Scarce s(skip, onward);
                    {
                        alloc::Lib lib;
                        r = h.db->open(false);
                    }
                    c.log("open, allocation %llu fails%s -> %d", (unsigned long long)skip, onward ? ", and all later ones" : "", r);
                    if (!s.hit() && r != 0) c.fail("opening failed with %d though no allocation failed", r);
                    if (r == 0) opened = true;
                    else {
                        {
                            alloc::Lib lib;
                            h.db->release();
                        }
                        refused++;
                        leaked(c, 0, "an initialization that ran out of memory");
                        h.db->fd.isOpen = h.db->fi.isOpen = h.db->fv.isOpen = false;
                        unchanged("an initialization that ran out of memory");
                    }
                }
                if (!opened && h.db->open(false)) c.fail("opening failed although there is enough memory again");
                h.epoch++;
                h.full("after opening");
                break;
            }
            case 3: {  // queries on fixed-size records
                Scarce s(c.draw(3), true);
                int k = (int)c.draw(3);
                if (k == 0) h.lookup(h.someKey());
                else if (k == 1) h.full("scan without memory");
                else {
                    size_t off = h.full("before");
                    h.filtered(genFilter(c, cfg, h.m), off, "scan without memory");
                }
                if (s.hit()) c.tag("filtered scan without memory for its bitmap");
                poor++;
                break;
            }
            default: {  // variable-length values
                if (!cfg.var || h.m.h.empty()) break;
                uint64_t key = h.someKey();
                Bytes d;
                embedDBVarDataStream *st = nullptr;
                size_t before = alloc::live;
                int r;
                bool hit;
                {
                    Bytes kb = h.db->keyBytes(key);
                    d.assign(cfg.dataSize, 0xEE);
                    h.db->dev->budget(h.db->budget);
                    Scarce s(0, true);
                    alloc::Lib lib;
                    r = embedDBGetVar(h.db->st, kb.data(), d.data(), &st);
                    hit = s.hit();
                }
                c.log("lookup of the value of key %llu without memory -> %d", (unsigned long long)key, r);
                h.note();
                if (hit) {
                    if (r == 0 || r == 1) c.fail("a lookup of the value of key %llu without memory for its stream returned %d", (unsigned long long)key, r);
                    streams++;
                } else if (st)
                    c.fail("a stream without memory for it");
                leaked(c, before, "a lookup without memory for its stream");
                h.lookupVar(key);
                if (c.chance(1, 2)) {
                    Filter f;
                    Cursor cur(*h.db, f);
                    Row row;
                    size_t off = h.full("before"), n = h.m.h.size();
                    bool ended = false;
                    Scarce s(c.draw(4), false);
                    for (size_t j = off; j < n; j++) {
                        embedDBVarDataStream *q = nullptr;
                        uint64_t was = gRefused;
                        bool x = cur.nextVar(row, &q);
                        h.note();
                        if (gRefused != was) {
                            if (x) { if (q) free(q); c.fail("a scan without memory for the stream of key %llu did not stop", (unsigned long long)h.m.h[j].key); }
                            ended = true;
                            streams++;
                            break;
                        }
                        if (!x) c.fail("a variable scan ended before key %llu though there was memory", (unsigned long long)h.m.h[j].key);
                        if (q) free(q);
                        if (row.key != h.m.h[j].key || row.data != h.m.h[j].data) c.fail("a variable scan returned key %llu instead of %llu, or wrong data", (unsigned long long)row.key, (unsigned long long)h.m.h[j].key);
                    }
                    c.tagIf(ended, "variable scan stopped for want of memory");
                }
            }
        }
    }
    h.full("at the end");
    if (refused) c.nontrivial();
    if (streams) c.nontrivial();
    c.tag("refused initializations", refused);
    c.tag("streams without memory", streams);
    c.tag("operations without memory", poor);
    h.commonTags();
    h.db->close();
}

// ---------------------------------------------------------------- operators
static bool plainTree(Node *n) {
    if (n->kind == N_AGG || n->kind == N_JOIN) return false;
    for (auto x : n->in)
        if (!plainTree(x)) return false;
    return true;
}
static void freeUnused(embedDBOperator *op) {  // an operator that was created and never opened
    if (op->schema) embedDBFreeSchema(&op->schema);
    free(op->state);
    free(op);
}
// creates and drops operators over the given one while allocations fail
static void tryConstruct(Ctx &c, QTree &q, Node *top) {
    size_t before = alloc::live;
    uint64_t skip = c.draw(5);
    bool onward = c.chance(1, 2);
    int kind = (int)c.draw(5);
    uint8_t cols[2] = {0, 0};
    int32_t zero[32] = {0};
    embedDBAggregateFunc fs[2];
    memset(fs, 0, sizeof fs);
    fs[0].colSize = fs[1].colSize = 4;
    embedDBOperator *op = nullptr;
    bool hit;
    Table two;
    two.cols = {4, 4};
    if (kind == 4 && q.dbs.empty()) kind = 0;
    {
        embedDBSchema *sch = q.makeSchema(two);
        alloc::Lib lib;
        Scarce s(skip, onward);
        switch (kind) {
            case 0: op = createProjectionOperator(top->op, 2, cols); break;
            case 1: op = createSelectionOperator(top->op, 0, SELECT_GTE, zero); break;
            case 2: op = createAggregateOperator(top->op, groupFns[0], fs, 2); break;
            case 3: op = createKeyJoinOperator(top->op, top->op); break;
            default: op = createTableScanOperator(q.dbs[0]->st, &q.curs[0]->it, sch);
        }
        hit = s.hit();
        gArmed = false;
        embedDBFreeSchema(&sch);
    }
    static const char *names[] = {"projection", "selection", "aggregate", "join", "table scan"};
    c.log("create a %s, allocation %llu fails%s -> %s", names[kind], (unsigned long long)skip, onward ? ", and all later ones" : "", op ? "created" : "NULL");
    if (hit && op) c.fail("creating a %s operator without memory returned an operator", names[kind]);
    if (!hit && !op) c.fail("creating a %s operator failed though no allocation failed", names[kind]);
    if (op) {
        alloc::Lib lib;
        freeUnused(op);
    } else
        c.tag("operators not created");
    leaked(c, before, (std::string("creating a ") + names[kind] + " operator without memory").c_str());
}
static void tryAggregate(Ctx &c) {
    size_t before = alloc::live;
    uint64_t skip = c.draw(4);
    bool onward = c.chance(1, 2), hit;
    int kind = (int)c.draw(7);
    int8_t sz[3] = {4, 2, 8}, sg[3] = {0, 1, 0};
    embedDBAggregateFunc *f = nullptr;
    embedDBSchema *s2 = nullptr, *base = nullptr;
    {
        alloc::Lib lib;
        if (kind >= 5) base = embedDBCreateSchema(3, sz, sg);
        Scarce s(skip, onward);
        switch (kind) {
            case 0: f = createCountAggregate(); break;
            case 1: f = createSumAggregate(1); break;
            case 2: f = createMinAggregate(1, -4); break;
            case 3: f = createMaxAggregate(1, 4); break;
            case 4: f = createAvgAggregate(1, 4); break;
            case 5: s2 = embedDBCreateSchema(3, sz, sg); break;
            default: s2 = copySchema(base);
        }
        hit = s.hit();
        if (base) embedDBFreeSchema(&base);
    }
    static const char *names[] = {"count", "sum", "min", "max", "avg", "schema", "schema copy"};
    c.log("create a %s, allocation %llu fails%s -> %s", names[kind], (unsigned long long)skip, onward ? ", and all later ones" : "", f || s2 ? "created" : "NULL");
    if (hit != !(f || s2)) c.fail("creating a %s %s", names[kind], hit ? "without memory returned something" : "failed though no allocation failed");
    if (s2) {
        alloc::Lib lib;
        embedDBFreeSchema(&s2);
    }
    if (f) {  // what min and max keep inside their state is not accessible
        alloc::Lib lib;
        free(f->state);
        free(f);
        if (kind == 2 || kind == 3) return;
    } else if (!s2)
        c.tag("schemas and functions not created");
    leaked(c, before, (std::string("creating a ") + names[kind] + " without memory").c_str());
}
static void queries(Ctx &c) {
    for (int i = (int)c.draw(3); i > 0; i--) tryAggregate(c);
    alloc::start();
    QOpts o;
    o.maxRows = 12;
    QTree q(c, o);
    Node *top = q.gen(1 + (int)c.draw(4), c.chance(1, 2));
    c.log("%s", top->text.c_str());
    for (int i = (int)c.draw(4); i > 0; i--) tryConstruct(c, q, top);
    uint64_t skip = c.draw(2 + 3 * q.nodes.size());
    bool onward = c.chance(1, 2), hit;
    bool later = onward && c.chance(1, 2);  // memory stays short during the query
    size_t rows = 0;
    const size_t due = top->out.rows.size();
    {
        Scarce s(skip, onward);
        q.init(top);
        hit = s.hit();
        if (!later) gArmed = false;
        c.log("initialize, allocation %llu fails%s%s: %s", (unsigned long long)skip, onward ? ", and all later ones" : "", later ? ", also while the query runs" : "", hit ? "it did" : "it does not happen");
        while (q.next(top)) {
            if (rows >= due) c.fail("%s returned more than its %zu rows", top->text.c_str(), due);
            q.checkRow(top, rows++);
        }
        if (rows < due && (rows || !hit)) c.fail("%s ended after %zu of %zu rows%s", top->text.c_str(), rows, due, hit ? " when memory was short" : "");
        for (int i = 0; i < 2; i++)
            if (q.next(top)) c.fail("%s returned a row after reporting its end (call %d)", top->text.c_str(), i + 1);
    }
    if (hit) {
        c.tag("queries not initialized");
        if (due) c.nontrivial();
        if (!rows && plainTree(top) && c.chance(2, 3)) {
            q.init(top);
            c.log("initialize again with enough memory");
            q.checkSchemas(top);
            q.run(top);
            c.tag("queries initialized after more memory was there");
        }
    } else {
        q.checkSchemas(top);
    }
    bool rec = c.chance(1, 2);
    q.release(top, rec);
    q.releaseRest();
    leaked(c, 0, ("closing and freeing " + top->text).c_str());
    q.curs.clear();
    q.dbs.clear();
}
// ---------------------------------------------------------------- set-ups that can not work
static void unfit(Ctx &c) {
    alloc::start();
    QOpts o;
    o.maxRows = 12;
    QTree q(c, o);
    if (q.keySize > 8) q.keySize = 8, q.base.resize(8), q.bump = 0;
    const bool scan = c.chance(1, 2);
    Node *good = nullptr, *bad = nullptr;
    std::string why;
    if (scan) {
        good = q.scan();
        bad = q.add(N_SCAN, {});
        Table t = good->out;
        t.rows.clear();
        switch (c.draw(7)) {
            case 0: t.cols[0] = -t.cols[0]; why = "signed key"; break;
            case 1: t.cols[0]++; if (t.cols.size() > 1 && std::abs(t.cols[1]) > 1) t.cols[1] += t.cols[1] < 0 ? 1 : -1; why = "larger key"; break;
            case 2: if (t.cols[0] == 1) throw Discard(); t.cols[0]--; if (std::abs(t.cols[1]) < 127) t.cols[1] += t.cols[1] < 0 ? -1 : 1; why = "smaller key"; break;
            case 3: t.cols.resize(1); why = "no data column"; break;
            case 4: t.cols.push_back((int)c.range(1, 8)); why = "one column too many"; break;
            case 5: t.cols.pop_back(); why = "one column too few"; break;
            default: {
                size_t i = 1 + c.draw(t.cols.size() - 1);
                bool more = std::abs(t.cols[i]) < 127 && (std::abs(t.cols[i]) == 1 || c.chance(1, 2));
                t.cols[i] += (t.cols[i] < 0) == more ? -1 : 1;
                why = more ? "a larger column" : "a smaller column";
            }
        }
        bad->out = t;
        embedDBSchema *s;
        alloc::Lib lib;
        s = q.makeSchema(t);
        bad->op = createTableScanOperator(q.dbs[0]->st, &q.curs[0]->it, s);
        embedDBFreeSchema(&s);
        alloc::App a;
        bad->text = "scan with " + why + " (" + t.types() + ") of (" + good->out.types() + ")";
    } else {
        Node *a = q.source(true), *b = q.feed(false);
        if (b->out.cols[0] == a->out.cols[0]) throw Discard();
        if (c.chance(1, 2)) std::swap(a, b);
        bad = q.add(N_JOIN, {a, b});
        bad->out.cols = a->out.cols;
        bad->out.cols.insert(bad->out.cols.end(), b->out.cols.begin(), b->out.cols.end());
        alloc::Lib lib;
        bad->op = createKeyJoinOperator(a->op, b->op);
        alloc::App ap;
        bad->text = "join(" + a->text + ", " + b->text + ")";
    }
    if (!bad->op) c.fail("no operator: %s", bad->text.c_str());
    Node *top = bad;
    bad->out.keyed = scan;
    for (int i = (int)c.draw(3); i > 0; i--)
        switch (c.draw(4)) {
            case 0: top = q.projection(top, false); break;
            case 1: top = q.selection(top); break;
            case 2: top = q.aggregate(top, false, true); break;
            default: {
                Node *b = q.feed(true);
                b->out.keyed = true;
                if (top->out.cols.size() + b->out.cols.size() > 200) break;
                top = c.chance(1, 2) ? q.join(top, b) : q.join(b, top);
            }
        }
    c.log("%s", top->text.c_str());
    q.init(top);
    for (int i = 0; i < 3; i++)
        if (q.next(top)) c.fail("%s returned a row (call %d)", top->text.c_str(), i + 1);
    q.release(top, c.chance(1, 2));
    if (good) {
        q.init(good);
        q.checkSchemas(good);
        q.run(good);
        q.release(good, false);
    }
    q.releaseRest();
    leaked(c, 0, ("closing and freeing " + top->text).c_str());
    q.curs.clear();
    q.dbs.clear();
    c.tag(scan ? "scans with an unfit schema" : "joins of unfit tables");
    c.nontrivial();
}
// ---------------------------------------------------------------- file adaptors
static void adaptors(Ctx &c) {
    char name[600];
    snprintf(name, sizeof name, "%s/oom.%d", gTmpDir, (int)getpid());
    struct Gone { const char *n; ~Gone() { unlink(n); } } gone{name};
    int n = (int)c.range(1, 6);
    for (int i = 0; i < n; i++) {
        alloc::start();
        int kind = (int)c.draw(8);
        uint64_t skip = c.draw(3);
        bool onward = c.chance(1, 2), hit;
        void *p = nullptr;
        if (kind < 7) {
            Scarce s(skip, onward);
            alloc::inLib++;
            switch (kind) {
                case 0: p = setupFile(name); break;
                case 1: p = setupSDFile(name); break;
                case 2: p = setupDataflashFile(3, 20); break;
                case 3: p = getFileInterface(); break;
                case 4: p = getMockEraseFileInterface(); break;
                case 5: p = getSDInterface(); break;
                default: p = getDataflashInterface();
            }
            alloc::inLib--;
            hit = s.hit();
            c.log("adaptor call %d, allocation %llu fails%s -> %s", kind, (unsigned long long)skip, onward ? ", and all later ones" : "", p ? "created" : "NULL");
            if (hit == !!p) c.fail("adaptor call %d %s", kind, hit ? "without memory returned something" : "failed though no allocation failed");
            if (kind == 0 && p) tearDownFile(p);
            else if (kind == 1 && p) tearDownSDFile(p);
            else if (kind == 2 && p) tearDownDataflashFile(p);
            else free(p);
            if (hit) c.nontrivial();
            leaked(c, 0, "creating or dropping a file");
            continue;
        }
        // an erase that has no memory for its pages fails and changes nothing
        void *f = setupFile(name);
        embedDBFileInterface *fi = getMockEraseFileInterface();
        if (!fi->open(f, EMBEDDB_FILE_MODE_W_PLUS_B)) c.fail("the file can not be opened");
        uint32_t ps = c.pick<uint32_t>({16, 512, 100});
        Bytes pg(ps), got(ps);
        for (uint32_t x = 0; x < 6; x++) {
            for (auto &b : pg) b = (uint8_t)(x + 7);
            if (fi->write(pg.data(), x, ps, f) != 1) c.fail("page %u was not written", x);
        }
        uint32_t a = (uint32_t)c.draw(5), e = a + 1 + (uint32_t)c.draw(5 - a);
        int8_t r;
        {
            Scarce s(0, true);
            r = fi->erase(a, e, ps, f);
            hit = s.hit();
        }
        c.log("erase of pages %u to %u without memory -> %d", a, e, r);
        if (hit) {
            if (r != 0) c.fail("an erase that has no memory for its pages returned %d", r);
            for (uint32_t x = 0; x < 6; x++) {
                if (fi->read(got.data(), x, ps, f) != 1) c.fail("page %u can not be read after an erase that failed", x);
                for (auto b : got)
                    if (b != x + 7) c.fail("page %u was changed by an erase that failed", x);
            }
            c.nontrivial();
        } else if (r != 1)
            c.fail("an erase failed though no allocation failed");
        if (fi->erase(a, e, ps, f) != 1) c.fail("an erase of pages %u to %u failed although there is memory again", a, e);
        for (uint32_t x = 0; x < 6; x++) {
            if (x >= a && x < e) continue;
            if (fi->read(got.data(), x, ps, f) != 1 || got[0] != x + 7) c.fail("page %u was changed by an erase of pages %u to %u", x, a, e);
        }
        fi->close(f);
        tearDownFile(f);
        free(fi);
    }
    c.tag("adaptors");
}
static void run(Ctx &c) {
    gArmed = false;
    alloc::start();
    switch (c.weighted({5, 6, 3, 1})) {
        case 0: database(c); break;
        case 1: queries(c); break;
        case 2: unfit(c); break;
        default: adaptors(c);
    }
}
Check pbt::theCheck = {"C35", "a case in which an allocation the library needed failed, or a set-up that can not work was run", run};

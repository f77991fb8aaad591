#include "qkit.hpp"
using namespace pbt;
// C20: operators and databases release what they allocate.
static void leaked(Ctx &c, const char *what) {
    if (!alloc::live) return;
    std::string sizes;
    int n = 0;
    for (size_t i = 0; i < alloc::N && n < 6; i++)
        if (alloc::tab[i].p) { sizes += " " + std::to_string(alloc::tab[i].n); n++; }
    size_t live = alloc::live, bytes = alloc::bytes;
    c.fail("%s left %zu allocations (%zu bytes) behind; sizes:%s", what, live, bytes, sizes.c_str());
}
static void queries(Ctx &c) {
    QOpts o;
    o.maxRows = 12;
    QTree q(c, o);
    Node *top = q.gen(1 + (int)c.draw(4), c.chance(1, 2));
    c.log("%s", top->text.c_str());
    bool again = false;
    size_t total = alloc::total;
    q.init(top);
    int mode = (int)c.draw(3);
    if (mode == 0) { q.run(top); c.tag("run to the end"); }
    else if (mode == 1) { q.run(top, c.draw(top->out.rows.size() + 1)); c.tag("run partly"); }
    else c.tag("not run");
    // initializing an open pipeline of scans, projections and selections again allocates nothing twice
    bool plain = true;
    for (auto &n : q.nodes) plain = plain && (n->kind == N_SCAN || n->kind == N_PROJ || n->kind == N_SEL || n->kind == N_FEED);
    if (plain && c.chance(1, 3)) { q.init(top); again = true; }
    bool rec = c.chance(1, 2);
    if (alloc::total - total >= 2) c.nontrivial();
    c.tagIf(q.hasJoin(top), "join");
    for (auto &n : q.nodes)
        if (n->kind == N_AGG) { c.tag("aggregate"); break; }
    c.tagIf(rec && !q.hasJoin(top), "freed recursively");
    c.tagIf(again, "initialized twice");
    q.release(top, rec);
    q.releaseRest();
    leaked(c, ("closing and freeing " + top->text).c_str());
    q.curs.clear();
    q.dbs.clear();
}
static void database(Ctx &c) {
    GenOpts g;
    Cfg cfg = genCfg(c, g);
    c.log("database %s", cfg.str().c_str());
    Db db(cfg);
    Model m;
    m.init(&cfg, 1);
    int sessions = 1 + (int)c.draw(3);
    uint64_t k = 0;
    bool has = false;
    for (int s = 0; s < sessions; s++) {
        {
            int x;
            {
                alloc::Lib lib;
                x = db.open(s == 0);
            }
            if (x) c.fail("initialization failed with %d", x);
        }
        int ops = (int)c.range(0, 40);
        for (int i = 0; i < ops; i++) {
            switch (c.weighted({8, 1, 2, 2})) {
                case 0: {
                    uint64_t nk;
                    if (!nextKey(c, cfg, has, k, nk)) break;
                    Rec r = genRec(c, cfg, nk);
                    Bytes v = cfg.var ? genVarBytes(c, cfg, nk) : Bytes();
                    bool withVar = cfg.var && c.chance(2, 3);
                    int x;
                    {
                        alloc::Lib lib;
                        x = withVar ? db.putVar(nk, r.data, &v) : cfg.var ? db.putVar(nk, r.data, nullptr) : db.put(nk, r.data);
                    }
                    if (x == 0) { k = nk; has = true; m.add(r); }
                    break;
                }
                case 1: {
                    alloc::Lib lib;
                    db.flush();
                    break;
                }
                case 2: {
                    if (m.h.empty()) break;
                    uint64_t key = m.h[c.draw(m.h.size())].key + c.draw(2);
                    Bytes d;
                    if (cfg.var && c.chance(1, 2)) {
                        Bytes kb = db.keyBytes(key);
                        d.assign(cfg.dataSize, 0);
                        embedDBVarDataStream *st = nullptr;
                        db.dev->budget(db.budget);
                        alloc::Lib lib;
                        embedDBGetVar(db.st, kb.data(), d.data(), &st);
                        if (st) {
                            uint8_t buf[40];
                            int reads = (int)(key % 4);
                            for (int j = 0; j < reads; j++)
                                if (!embedDBVarDataStreamRead(db.st, st, buf, sizeof buf)) break;
                            free(st);
                        }
                    } else {
                        alloc::Lib lib;
                        db.get(key, d);
                    }
                    break;
                }
                default: {
                    Filter f = c.chance(1, 2) ? Filter{} : genFilter(c, cfg, m);
                    int limit = (int)c.draw(30);
                    Row r;
                    alloc::Lib lib;
                    Cursor cur(db, f);
                    for (int j = 0; j < limit; j++) {
                        if (cfg.var) {
                            embedDBVarDataStream *st = nullptr;
                            if (!cur.nextVar(r, &st)) break;
                            if (st) free(st);
                        } else if (!cur.next(r))
                            break;
                    }
                    cur.close();
                    r = Row();
                    break;
                }
            }
        }
        {
            alloc::Lib lib;
            db.close();
        }
        leaked(c, "a session of a database (opened, used and closed)");
        c.tag("database sessions");
        c.tagIf(cfg.var, "database with variable data");
        c.tagIf(cfg.index, "database with index");
        if (ops >= 5) c.nontrivial();
    }
}
static void run(Ctx &c) {
    alloc::start();
    if (c.chance(2, 3)) queries(c);
    else database(c);
}
Check pbt::theCheck = {"C20", "an operator tree that made at least two allocations, or a database session of at least five operations", run};

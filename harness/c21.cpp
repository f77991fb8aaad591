#include "hist.hpp"
using namespace pbt;
// C21: concurrent cursors, streams and databases do not disturb each other.
struct OpenScan {
    Hist *h;
    std::unique_ptr<Cursor> cur;
    Filter f;
    size_t atOpen;      // records inserted when the scan was opened
    long last = -1;     // index of the record returned last
    int lastOffset = 0;
    bool withVar = false;
    bool ended = false;
    int returned = 0, flushesAtOpen = 0;
    size_t appended() const { return h->m.h.size() - atOpen; }
};
struct OpenStream {
    Hist *h;
    size_t rec;
    embedDBVarDataStream *s;
    size_t pos = 0;
};
struct World {
    Ctx &c;
    std::vector<std::unique_ptr<Hist>> hs;
    std::vector<std::unique_ptr<OpenScan>> scans;
    std::vector<OpenStream> streams;
    std::vector<int> budget;
    int switches = 0, resumedAfterWrite = 0, resumedAfterFlush = 0, streamResumed = 0;
    std::map<Hist *, void *> lastUser;
    ~World() {
        for (auto &s : streams) free(s.s);
        for (auto &s : scans) s->cur->close();
    }
    explicit World(Ctx &x) : c(x) {}
    void use(Hist *h, void *who) {
        if (lastUser[h] != who) switches++;
        lastUser[h] = who;
    }
    void openStream(Hist *h, size_t rec, embedDBVarDataStream *s) {
        if (streams.size() >= 5) { checkStream(0, true); }
        streams.push_back({h, rec, s, 0});
    }
    void dropStream(size_t i) {
        free(streams[i].s);
        streams.erase(streams.begin() + i);
    }
    // reads a piece (or all) of an open value
    void checkStream(size_t i, bool all) {
        OpenStream &o = streams[i];
        const Rec &e = o.h->m.h[o.rec];
        if (!o.h->varRequired(o.rec)) { dropStream(i); return; }  // its pages may have been overwritten meanwhile
        size_t left = e.var.size() - o.pos;
        size_t n = all ? left + 3 : 1 + c.draw(std::max<size_t>(1, std::min<size_t>(left + 2, 200)));
        Bytes b(n, 0xEE);
        o.h->db->dev->budget(o.h->db->budget);
        uint32_t got = embedDBVarDataStreamRead(o.h->db->st, o.s, b.data(), (uint32_t)n);
        c.log("db%d: read %zu bytes of the value of key %llu at %zu -> %u", (int)idx(o.h), n, (unsigned long long)e.key, o.pos, got);
        if (got != std::min(n, left)) c.fail("reading %zu bytes at %zu of the open value of key %llu (%zu bytes) returned %u bytes", n, o.pos, (unsigned long long)e.key, e.var.size(), got);
        for (size_t k = 0; k < got; k++)
            if (b[k] != e.var[o.pos + k]) c.fail("byte %zu of the open value of key %llu is %02x, inserted was %02x", o.pos + k, (unsigned long long)e.key, b[k], e.var[o.pos + k]);
        for (size_t k = got; k < n; k++)
            if (b[k] != 0xEE) c.fail("reading a value wrote beyond the %u bytes it reported", got);
        if (o.pos) streamResumed++;
        o.pos += got;
        use(o.h, o.s);
        if (o.pos == e.var.size() && (all || c.chance(2, 3))) dropStream(i);
    }
    size_t idx(Hist *h) const {
        for (size_t i = 0; i < hs.size(); i++)
            if (hs[i].get() == h) return i;
        return 0;
    }
    void openScan(Hist *h) {
        auto s = std::make_unique<OpenScan>();
        s->h = h;
        if (!c.chance(1, 2)) s->f = genFilter(c, h->cfg, h->m);
        s->cur = std::make_unique<Cursor>(*h->db, s->f);
        s->atOpen = h->m.h.size();
        s->withVar = h->cfg.var && c.chance(1, 2);
        s->flushesAtOpen = h->nFlush;
        c.log("db%d: open scan %s over %zu records", (int)idx(h), s->f.str().c_str(), s->atOpen);
        scans.push_back(std::move(s));
    }
    void step(OpenScan &s, int n) {
        Hist &h = *s.h;
        for (int k = 0; k < n; k++) {
            size_t req = h.required();
            Row r;
            embedDBVarDataStream *st = nullptr;
            bool x = s.withVar ? s.cur->nextVar(r, &st) : s.cur->next(r);
            long i = x ? h.m.find(r.key) : (long)h.m.h.size();
            struct Guard { embedDBVarDataStream *&s; ~Guard() { if (s) free(s); } } guard{st};
            if (x && i < 0) c.fail("an open scan %s returned key %llu, which was never inserted", s.f.str().c_str(), (unsigned long long)r.key);
            if (x && i <= s.last) c.fail("an open scan %s returned key %llu after key %llu", s.f.str().c_str(), (unsigned long long)r.key, (unsigned long long)h.m.h[s.last].key);
            if (x && r.data != h.m.h[i].data) c.fail("an open scan %s returned data %s for key %llu, inserted was %s", s.f.str().c_str(), hex(r.data).c_str(), (unsigned long long)r.key, hex(h.m.h[i].data).c_str());
            if (x && !s.f.match(h.m.h[i].key, h.m.h[i].val)) c.fail("an open scan %s returned key %llu with value %lld", s.f.str().c_str(), (unsigned long long)r.key, (long long)h.m.h[i].val);
            for (long j = std::max<long>(s.last + 1, (long)req); j < std::min<long>(i, (long)s.atOpen); j++)
                if (s.f.match(h.m.h[j].key, h.m.h[j].val)) {
                    if (x) c.fail("an open scan %s skipped key %llu, present when it was opened, and returned key %llu; %zu records were inserted meanwhile", s.f.str().c_str(), (unsigned long long)h.m.h[j].key, (unsigned long long)r.key, s.appended());
                    c.fail("an open scan %s ended before key %llu, present when it was opened; %zu records were inserted meanwhile", s.f.str().c_str(), (unsigned long long)h.m.h[j].key, s.appended());
                }
            if (s.returned && s.appended()) resumedAfterWrite++;
            if (s.returned && h.nFlush > s.flushesAtOpen) resumedAfterFlush++;
            use(&h, &s);
            c.log("db%d: scan %s -> %s", (int)idx(&h), s.f.str().c_str(), x ? std::to_string(r.key).c_str() : "end");
            if (!x) { s.ended = true; return; }
            s.returned++;
            s.last = i;
            if (s.withVar) {
                const Rec &e = h.m.h[i];
                if (!e.hasVar && st) c.fail("an open scan yielded a value for key %llu, inserted without one", (unsigned long long)r.key);
                if (e.hasVar && !st && h.varRequired(i)) c.fail("an open scan reported the value of key %llu as deleted", (unsigned long long)r.key);
                if (st && e.hasVar && c.chance(1, 2)) {
                    openStream(&h, i, st);
                    st = nullptr;
                }
            }
        }
    }
};
static void run(Ctx &c) {
    World w(c);
    int n = c.weighted({5, 3, 1}) + 1;
    for (int i = 0; i < n; i++) {
        GenOpts g;
        g.bigPages = false;
        g.maxBlocks = 5;
        Cfg cfg = genCfg(c, g);
        w.hs.push_back(std::make_unique<Hist>(c, cfg));
        if (c.chance(3, 4)) w.hs.back()->insertMany(c.draw(std::min<uint64_t>(200, (uint64_t)w.hs.back()->m.maxRec * cfg.numData * 2) + 1), 50);
    }
    int ops = (int)c.range(5, 80);
    for (int i = 0; i < ops; i++) {
        Hist &h = *w.hs[c.draw(n)];
        switch (c.weighted({4, 2, 8, 4, 1, 2, 2})) {
            case 0: h.insertMany(1 + c.draw(c.chance(1, 4) ? 3 * h.m.maxRec : 4), 50); w.use(&h, &h); break;
            case 1:
                if (w.scans.size() < 5) w.openScan(&h);
                break;
            case 2:
                if (!w.scans.empty()) {
                    size_t k = c.draw(w.scans.size());
                    w.step(*w.scans[k], c.chance(1, 6) ? 60 : 1 + (int)c.draw(6));
                    if (w.scans[k]->ended) w.scans.erase(w.scans.begin() + k);
                }
                break;
            case 3:
                if (!w.streams.empty()) w.checkStream(c.draw(w.streams.size()), false);
                break;
            case 4: h.flush(); w.use(&h, &h); break;
            case 5:
                if (h.cfg.var && c.chance(1, 2)) h.lookupVar(h.someKey());
                else h.lookup(h.someKey());
                w.use(&h, nullptr);
                break;
            default:
                if (h.cfg.var && h.m.has()) {
                    size_t k = c.draw(h.m.h.size());
                    const Rec &e = h.m.h[k];
                    if (!e.hasVar) break;
                    Bytes d;
                    embedDBVarDataStream *s = nullptr;
                    int r = h.getVar(e.key, d, &s);
                    c.log("db%d: getVar %llu -> %d", (int)w.idx(&h), (unsigned long long)e.key, r);
                    if (r == 0 && !s) c.fail("variable lookup of key %llu returned success without its value", (unsigned long long)e.key);
                    if (s) w.openStream(&h, k, s);
                    w.use(&h, nullptr);
                }
        }
    }
    // finish what is open, in turns
    while (!w.scans.empty()) {
        for (size_t k = 0; k < w.scans.size();) {
            w.step(*w.scans[k], 3);
            if (w.scans[k]->ended) w.scans.erase(w.scans.begin() + k);
            else k++;
        }
        if (!w.streams.empty()) w.checkStream(c.draw(w.streams.size()), false);
    }
    while (!w.streams.empty()) w.checkStream(0, true);
    for (auto &h : w.hs) {
        h->full("at the end");
        checkProblems(c, *h->db, "at the end");
    }
    c.tag("turns between users of one database", w.switches);
    c.tag("scans resumed after inserts", w.resumedAfterWrite);
    c.tag("scans resumed after flushes", w.resumedAfterFlush);
    c.tag("values resumed", w.streamResumed);
    c.tagIf(n > 1, "several databases");
    for (auto &h : w.hs)
        if (h->wrapped()) { c.tag("storage wrapped around"); break; }
    if (w.switches >= 4) c.nontrivial();
    for (auto &h : w.hs) h->db->close();
}
Check pbt::theCheck = {"C21", "a history with at least four turns between different users (scans, values, lookups, inserts) of the same database", run};

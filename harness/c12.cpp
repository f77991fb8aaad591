#include "dbkit.hpp"
using namespace pbt;
// C12: storage failures are reported, nothing wrong is ever returned, accepted records survive a failure that passes.
struct Item { Rec r; bool sure; uint64_t w, wa; };  // w, wa: data page writes before and after the insert
//  // sure: the insert returned success

struct Faulty {
    Ctx &c;
    Cfg cfg;
    std::unique_ptr<Db> db;
    std::vector<Item> h;
    bool exhausted = false;
    int hitW = 0, hitE = 0, hitR = 0, hitScan = 0, afterWrap = 0;
    uint32_t pagesUp = 0;  // upper bound of data pages written, from the storage itself
    bool varFault = false;
    uint64_t stopWrites = 0;
    int stops = 0;

    Faulty(Ctx &cc, const Cfg &f) : c(cc), cfg(f) {
        db.reset(new Db(cfg));
        c.log("%s", cfg.str().c_str());
        if (int r = db->open(true)) c.fail("initialization of a valid configuration returned %d", r);
    }
    void arm(uint32_t mask) {
        Device *d = db->dev;
        d->faultMask = mask;
        d->faultCalls = 0;
        d->faultFrom = c.draw(c.chance(1, 2) ? 3 : 8);
        d->faultTo = d->faultFrom + (c.chance(2, 3) ? 1 : 1 + c.draw(4));
        if (c.chance(1, 6)) { d->faultFrom = 0; d->faultTo = 1000000; }
        d->faults = true;
    }
    void disarm() { db->dev->faults = false; }
    uint64_t hits() const { return db->dev->faultsHitWrite + db->dev->faultsHitErase + db->dev->faultsHitFlush; }
    uint64_t rhits() const { return db->dev->faultsHitRead; }
    long find(uint64_t k) const {
        size_t lo = 0, hi = h.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (h[m].r.key < k) lo = m + 1; else hi = m; }
        return lo < h.size() && h[lo].r.key == k ? (long)lo : -1;
    }
    bool insert() {
        uint64_t k;
        if (!nextKey(c, cfg, !h.empty(), h.empty() ? 0 : h.back().r.key, k)) { exhausted = true; return false; }
        Rec r = genRec(c, cfg, k);
        bool pv = cfg.var && c.chance(1, 2);
        if (pv) { r.hasVar = c.chance(3, 4); if (r.hasVar) r.var = genVarBytes(c, cfg, k); }
        uint64_t w0 = hits(), r0 = rhits(), dw = db->fd.writes;
        int x = pv ? db->putVar(k, r.data, r.hasVar ? &r.var : nullptr) : db->put(k, r.data);
        bool hit = hits() > w0;
        c.log("put %llu%s -> %d%s", (unsigned long long)k, pv ? (r.hasVar ? (" with " + std::to_string(r.var.size()) + " bytes").c_str() : " with NULL") : "", x, hit ? " (a write, erase or flush failed)" : rhits() > r0 ? " (a read failed)" : "");
        if (hit && x == 0) c.fail("insert of key %llu returned 0 although a write, erase or flush it issued failed", (unsigned long long)k);
        if (!hit && rhits() == r0 && x != 0) c.fail("insert of key %llu, greater than every key before it, returned %d although no storage call failed during it", (unsigned long long)k, x);
        h.push_back({r, x == 0, dw, db->fd.writes});
        return true;
    }
    void flush() {
        uint64_t w0 = hits(), r0 = rhits();
        int x = db->flush();
        bool hit = hits() > w0;
        c.log("flush -> %d%s", x, hit ? " (a write, erase or flush failed)" : "");
        if (hit && x == 0) c.fail("flush returned 0 although a write, erase or flush it issued failed");
        if (!hit && rhits() == r0 && x != 0) c.fail("flush returned %d although no storage call failed during it", x);
    }
    // everything there is, with working storage: a newest part of the accepted records, exact; records of failed inserts may or may not be there
    size_t full(const char *when, bool stopped = false) {

        std::vector<Row> rows = scanAll(c, *db, Filter(), h.size());
        size_t i = h.size(), n = rows.size();
        size_t first = h.size();
        if (stopped) {
            // what was only in the buffers is gone
            while (i > 0 && (n == 0 || h[i - 1].r.key > rows[n - 1].key)) {
                i--;
                if (h[i].sure && (cfg.rlc || h[i].wa < stopWrites)) c.fail("%s: key %llu, whose insert had returned success%s, is gone", when, (unsigned long long)h[i].r.key, cfg.rlc ? "" : " and was followed by the write of its page");
            }
            h.resize(i);
            first = i;
        }
        while (n > 0) {
            const Row &r = rows[n - 1];
            while (i > 0 && h[i - 1].r.key > r.key) {
                i--;
                if (h[i].sure) c.fail("%s: a full scan misses key %llu, whose insert had returned success, but returns the older key %llu", when, (unsigned long long)h[i].r.key, (unsigned long long)r.key);
            }
            if (i == 0 || h[i - 1].r.key != r.key) c.fail("%s: a full scan returned key %llu, which was never inserted or is out of order", when, (unsigned long long)r.key);
            i--;
            if (h[i].r.data != r.data) c.fail("%s: a full scan returned key %llu with data %s, inserted was %s", when, (unsigned long long)r.key, hex(r.data).c_str(), hex(h[i].r.data).c_str());
            first = i;
            n--;
        }
        // a record is only reclaimed once nearly all of the file has been written after it
        int64_t keep = (int64_t)cfg.numData - 2 * cfg.eraseSize - (cfg.rlc ? 2 * cfg.eraseSize : 0) - 1;
        for (size_t k = first; k-- > 0 && (int64_t)(db->fd.writes - h[k].w) <= keep;)
            if (h[k].sure) c.fail("%s: a full scan starts at record %zu of %zu, but key %llu, whose insert had returned success, is gone although only %llu data pages were written since, to a file of %u", when, first, h.size(), (unsigned long long)h[k].r.key, (unsigned long long)(db->fd.writes - h[k].w), cfg.numData);
        return first;
    }
};

static void run(Ctx &c) {
    GenOpts g;
    g.maxBlocks = 5;
    Cfg cfg = genCfg(c, g);
    Faulty f(c, cfg);
    Device *dev = f.db->dev;
    int rounds = 1 + (int)c.draw(6);
    uint32_t mr = f.db->st->maxRecordsPerPage;
    for (int rd = 0; rd < rounds && !f.exhausted; rd++) {
        uint64_t n = c.draw(std::min<uint64_t>(200, (uint64_t)mr * (cfg.numData + 2)) + 1);
        if (c.chance(1, 3)) n = c.draw(mr + 2);
        for (uint64_t i = 0; i < n && f.insert(); i++) if (c.chance(1, 40)) f.flush();
        if (f.exhausted) break;
        size_t off = f.full("before the failure");
        bool wrapped = f.db->st->nextDataPageId > cfg.numData;
        int kind = c.weighted({4, 4});
        if (kind == 0) {  // failing writes or erases
            uint64_t w0 = f.hits();
            f.arm(c.chance(1, 3) ? 1u << OP_ERASE : c.chance(1, 2) ? 1u << OP_WRITE : c.chance(1, 3) ? 1u << OP_FLUSH : (1u << OP_WRITE | 1u << OP_ERASE | (uint32_t)c.draw(2) << OP_FLUSH));
            uint64_t k = 1 + c.draw(2 * mr + 3);
            for (uint64_t i = 0; i < k && f.insert(); i++) {
                if (c.chance(1, 8)) f.flush();
                // queries in the middle of the trouble
                if (c.chance(1, 10) && !f.h.empty()) {
                    size_t p = c.draw(f.h.size());
                    Bytes d;
                    int x = f.db->get(f.h[p].r.key, d);
                    if (x == 0 && d != f.h[p].r.data) c.fail("while writes fail, lookup of key %llu returned %s, inserted was %s", (unsigned long long)f.h[p].r.key, hex(d).c_str(), hex(f.h[p].r.data).c_str());
                }
            }
            if (c.chance(1, 2)) f.flush();
            f.disarm();
            if (f.hits() > w0) {
                f.hitW++;
                if (wrapped) f.afterWrap++;
            }
            size_t o2 = f.full("after writes or erases had failed for a while");
            (void)o2;
            if (c.chance(1, 2)) { f.insert(); f.full("after the next insert"); }
            if (c.chance(1, 2)) { f.flush(); f.full("after the next flush"); }
            // what was acknowledged record by record is in storage, whatever the failed inserts before it left there
            if (c.chance(1, cfg.rlc ? 3 : 5)) {
                for (uint64_t i = c.draw(3); i > 0 && f.insert(); i--) { }
                f.stopWrites = f.db->fd.writes;
                f.db->abandon();
                int x = f.db->open(false);
                c.log("stop and reopen -> %d", x);
                if (x != 0) c.fail("initialization from existing data returned %d although no storage call failed during it", x);
                f.full("after a stop that followed failed writes or erases", true);
                f.stops++;
            }
        } else if (!f.h.empty()) {  // failing reads
            int q = 1 + (int)c.draw(6);
            for (int i = 0; i < q; i++) {
                f.arm(1u << OP_READ);
                uint64_t r0 = f.rhits();
                switch (c.draw(cfg.var ? 4 : 2)) {
                    case 0: {
                        size_t p = c.chance(3, 4) ? off + c.draw(f.h.size() - off + 1) : c.draw(f.h.size());
                        if (p >= f.h.size()) p = f.h.size() - 1;
                        uint64_t key = f.h[p].r.key + (c.chance(1, 6) ? 1 : 0);
                        if (key > cfg.keyMax) key = f.h[p].r.key;
                        long w = f.find(key);
                        Bytes d;
                        int x = f.db->get(key, d);
                        bool hit = f.rhits() > r0;
                        c.log("get %llu -> %d%s", (unsigned long long)key, x, hit ? " (a read failed)" : "");
                        if (x == 0 && w < 0) c.fail("lookup of key %llu, which was never inserted, succeeded while reads fail", (unsigned long long)key);
                        if (x == 0 && d != f.h[w].r.data) c.fail("lookup of key %llu while reads fail returned %s, inserted was %s", (unsigned long long)key, hex(d).c_str(), hex(f.h[w].r.data).c_str());
                        if (!hit && x != 0 && w >= (long)off && f.h[w].sure) c.fail("lookup of key %llu returned %d although no read failed during it", (unsigned long long)key, x);
                        break;
                    }
                    case 1: {
                        f.disarm();
                        Model m; m.init(&cfg, mr);
                        for (auto &e : f.h) { m.h.push_back(e.r); }
                        Filter fl = c.chance(1, 3) ? Filter() : genFilter(c, cfg, m);
                        std::vector<Row> want = scanAll(c, *f.db, fl, f.h.size());
                        f.arm(1u << OP_READ);
                        r0 = f.rhits();
                        std::vector<Row> got = scanAll(c, *f.db, fl, f.h.size());
                        f.disarm();
                        bool hit = f.rhits() > r0;
                        c.log("scan %s -> %zu of %zu rows%s", fl.str().c_str(), got.size(), want.size(), hit ? " (a read failed)" : "");
                        if (hit) f.hitScan++;
                        if (got.size() > want.size()) c.fail("a scan %s during which reads failed returned %zu records, with working storage it returns %zu", fl.str().c_str(), got.size(), want.size());
                        for (size_t i = 0; i < got.size(); i++)
                            if (got[i].key != want[i].key || got[i].data != want[i].data) c.fail("a scan %s during which reads failed returned key %llu as record %zu, with working storage that is key %llu", fl.str().c_str(), (unsigned long long)got[i].key, i, (unsigned long long)want[i].key);
                        if (!hit && got.size() != want.size()) c.fail("a scan %s returned %zu records instead of %zu although no read failed", fl.str().c_str(), got.size(), want.size());
                        break;
                    }
                    case 2: {
                        size_t p = c.draw(f.h.size());
                        const Rec &e = f.h[p].r;
                        Bytes kb = f.db->keyBytes(e.key), d(cfg.dataSize, 0xEE);
                        embedDBVarDataStream *s = nullptr;
                        dev->budget(f.db->budget);
                        int x = embedDBGetVar(f.db->st, kb.data(), d.data(), &s);
                        c.log("getVar %llu -> %d%s%s", (unsigned long long)e.key, x, s ? ", a stream" : "", f.rhits() > r0 ? " (a read failed)" : "");
                        if (x == 0 && d != e.data) c.fail("variable lookup of key %llu while reads fail returned data %s, inserted was %s", (unsigned long long)e.key, hex(d).c_str(), hex(e.data).c_str());
                        if (x == 0 && s == nullptr && e.hasVar) c.fail("variable lookup of key %llu while reads fail returned success without its value", (unsigned long long)e.key);
                        if (x == 0 && s != nullptr) {
                            if (!e.hasVar) c.fail("variable lookup of key %llu returned a stream, none was inserted", (unsigned long long)e.key);
                            if (s->totalBytes != e.var.size()) c.fail("the stream of key %llu opened while reads fail has %u bytes, inserted were %zu", (unsigned long long)e.key, s->totalBytes, e.var.size());
                            Bytes b = drain(c, *f.db, s, e.var.size());
                            s = nullptr;
                            if (b.size() > e.var.size() || memcmp(b.data(), e.var.data(), b.size())) c.fail("the stream of key %llu read while reads fail yields wrong bytes", (unsigned long long)e.key);
                        } else if (s) { free(s); }
                        break;
                    }
                    case 3: {
                        Cursor cur(*f.db, Filter());
                        Row r;
                        embedDBVarDataStream *s;
                        size_t n = 0;
                        long prev = -1;
                        while (cur.nextVar(r, &s)) {
                            long w = f.find(r.key);
                            if (w < 0 || w <= prev) { if (s) free(s); c.fail("a variable scan during which reads failed returned key %llu, never inserted or out of order", (unsigned long long)r.key); }
                            prev = w;
                            const Rec &e = f.h[w].r;
                            if (r.data != e.data) { if (s) free(s); c.fail("a variable scan during which reads failed returned key %llu with wrong data", (unsigned long long)r.key); }
                            if (s) {
                                if (!e.hasVar || s->totalBytes != e.var.size()) { free(s); c.fail("a variable scan during which reads failed returned a wrong stream for key %llu", (unsigned long long)r.key); }
                                Bytes b = drain(c, *f.db, s, e.var.size());
                                if (b.size() > e.var.size() || memcmp(b.data(), e.var.data(), b.size())) c.fail("the stream of key %llu scanned while reads fail yields wrong bytes", (unsigned long long)r.key);
                            }
                            if (++n > f.h.size()) c.fail("a variable scan returned more records than were inserted");
                        }
                        break;
                    }
                }
                f.disarm();
                if (f.rhits() > r0) { f.hitR++; if (wrapped) f.afterWrap++; }
                if (c.chance(1, 2)) { size_t o2 = f.full("after reads had failed"); if (o2 != off) c.fail("after reads had failed a full scan starts at record %zu, before at %zu", o2, off); }
            }
        }
        // lookups with working storage
        off = f.full("after the failure");
        for (int i = 0; i < 4 && off < f.h.size(); i++) {
            size_t p = off + c.draw(f.h.size() - off);
            Bytes d;
            int x = f.db->get(f.h[p].r.key, d);
            if (x == 0 && d != f.h[p].r.data) c.fail("after the failure lookup of key %llu returned %s, inserted was %s", (unsigned long long)f.h[p].r.key, hex(d).c_str(), hex(f.h[p].r.data).c_str());
            if (x != 0 && f.h[p].sure) c.fail("after the failure lookup of key %llu, which a scan returns, gives %d", (unsigned long long)f.h[p].r.key, x);
            if (cfg.var) {
                const Rec &e = f.h[p].r;
                Bytes kb = f.db->keyBytes(e.key), dd(cfg.dataSize, 0xEE);
                embedDBVarDataStream *s = nullptr;
                dev->budget(f.db->budget);
                int y = embedDBGetVar(f.db->st, kb.data(), dd.data(), &s);
                c.log("getVar %llu -> %d%s", (unsigned long long)e.key, y, s ? ", a stream" : "");
                if (y == 0 && dd != e.data) { if (s) free(s); c.fail("after the failure variable lookup of key %llu returned data %s, inserted was %s", (unsigned long long)e.key, hex(dd).c_str(), hex(e.data).c_str()); }
                if (y == 0 && (s != nullptr) != e.hasVar) { if (s) free(s); c.fail("after the failure variable lookup of key %llu, inserted %s a value, gives %s", (unsigned long long)e.key, e.hasVar ? "with" : "without", e.hasVar ? "none" : "one"); }
                if (y == 0 && s) {
                    Bytes b = drain(c, *f.db, s, e.var.size());
                    if (b != e.var) c.fail("after the failure the value of key %llu has %zu bytes, inserted were %zu, or differs", (unsigned long long)e.key, b.size(), e.var.size());
                } else if (s) { free(s); }
                if (y != 0 && !(y == 1 && e.hasVar) && f.h[p].sure) c.fail("after the failure variable lookup of key %llu, which a scan returns, gives %d", (unsigned long long)e.key, y);
            }
        }
    }
    // reopening, at first with erases that fail
    if (c.chance(1, 3) && !f.exhausted) {
        bool stop = c.chance(1, 2);
        if (!stop) f.flush();
        size_t before = f.full("before reopening");
        f.stopWrites = f.db->fd.writes;
        if (stop) f.db->abandon(); else f.db->close();
        f.arm(1u << OP_ERASE);
        uint64_t e0 = dev->faultsHitErase;
        bool broken = c.chance(2, 3);
        if (!broken) f.disarm();
        int x = f.db->open(false);
        f.disarm();
        bool hit = dev->faultsHitErase > e0;
        c.log("reopen%s -> %d%s", broken ? " while erases fail" : "", x, hit ? " (an erase failed)" : "");
        if (hit && x == 0) c.fail("initialization returned 0 although an erase it issued failed");
        if (!hit && x != 0) c.fail("initialization from existing data returned %d although no storage call failed during it", x);
        c.tag("erases failed during recovery", hit);
        if (x != 0) {
            f.db->abandon();
            f.db->fd.isOpen = f.db->fi.isOpen = f.db->fv.isOpen = false;
            if (int y = f.db->open(false)) c.fail("initialization from existing data returned %d after one during which an erase had failed", y);
        }
        size_t after = f.full(stop ? "after a stop of the process" : "after reopening", stop);
        c.log("records from %zu before, from %zu after", before, after);
        if (c.chance(1, 2)) for (uint64_t i = c.draw(2 * mr + 2); i > 0 && f.insert(); i--) { }
        f.full("after reopening and inserting");
    }
    // reopening while reads fail: recovery cannot tell a failed read from the end of the data, but it ends, and what is answered then was inserted
    if (c.chance(1, 4) && !f.exhausted) {
        if (c.chance(1, 2)) { f.flush(); f.db->close(); } else f.db->abandon();
        f.arm(1u << OP_READ);
        dev->faultFrom = c.draw(c.chance(1, 2) ? 4 : cfg.numData + cfg.numIndex + cfg.numVar + 12);
        dev->faultTo = dev->faultFrom + (c.chance(3, 4) ? 1 : 1 + c.draw(4));
        uint64_t r0 = f.rhits();
        dev->watchReads = true;
        int x = f.db->open(false);
        dev->watchReads = false;
        f.disarm();
        bool hit = f.rhits() > r0;
        if (dev->failedAgain && !cfg.rlc && x == 0) c.fail("initialization returned 0 although the read of a data page failed that it had read before");
        c.tag("reads failed during recovery, page read before", dev->failedAgain > 0);
        c.log("reopen while reads %u to %u fail -> %d%s", (unsigned)dev->faultFrom, (unsigned)dev->faultTo - 1, x, hit ? " (a read failed)" : "");
        c.tag("reads failed during recovery", hit);
        c.tag("recoveries with failed reads that succeeded", hit && x == 0);
        if (x != 0) {
            f.db->abandon();
            f.db->fd.isOpen = f.db->fi.isOpen = f.db->fv.isOpen = false;
        } else {
            for (int round = 0; round < 2; round++) {
                Cursor cur(*f.db, Filter());
                Row r;
                size_t n = 0;
                while (cur.next(r)) {
                    long w = f.find(r.key);
                    if (w < 0) c.fail("after an initialization during which reads failed a full scan returned key %llu, which was never inserted", (unsigned long long)r.key);
                    if (f.h[w].r.data != r.data) c.fail("after an initialization during which reads failed a full scan returned key %llu with data %s, inserted was %s", (unsigned long long)r.key, hex(r.data).c_str(), hex(f.h[w].r.data).c_str());
                    if (++n > f.h.size() + mr * cfg.numData) c.fail("a scan after an initialization during which reads failed does not end");
                }
                for (int i = 0; i < 6; i++) {
                    size_t w = c.draw(f.h.size());
                    if (w >= f.h.size()) break;
                    Bytes d;
                    int y = f.db->get(f.h[w].r.key, d);
                    if (y == 0 && d != f.h[w].r.data) c.fail("after an initialization during which reads failed lookup of key %llu returned %s, inserted was %s", (unsigned long long)f.h[w].r.key, hex(d).c_str(), hex(f.h[w].r.data).c_str());
                }
                c.log("%zu records", n);
                if (round == 0) for (uint64_t i = c.draw(2 * mr + 2); i > 0 && f.insert(); i--) { }
            }
            f.db->close();
        }
    }
    // open failures
    else if (c.chance(1, 5) && !f.exhausted) {
        f.flush();
        f.db->close();
        int files = 1 + cfg.index + cfg.var, which = (int)c.draw(files);
        bool reset = c.chance(1, 2);
        dev->faultMask = 1u << OP_OPEN;
        dev->faultCalls = 0;
        dev->faultFrom = which;
        dev->faultTo = 1000;
        dev->faults = true;
        int x = f.db->open(reset);
        dev->faults = false;
        c.log("open of file %d of %d fails%s -> %d", which, files, reset ? ", reset" : "", x);
        if (dev->faultsHitOpen > 0 && x == 0) c.fail("initialization returned 0 although a file could not be opened");
        c.tag("failed opens", dev->faultsHitOpen > 0);
        f.db->fd.isOpen = f.db->fi.isOpen = f.db->fv.isOpen = false;
    } else {
        f.db->close();
    }
    c.tag("rounds with failed writes or erases", f.hitW);
    c.tag("queries with failed reads", f.hitR);
    c.tag("scans with failed reads", f.hitScan);
    c.tag("failures after wrap-around", f.afterWrap);
    c.tag("stops after failed writes or erases", f.stops);
    c.tagIf(cfg.index, "index");
    c.tagIf(cfg.var, "variable data");
    c.tagIf(cfg.rlc, "record-level consistency");
    if (f.hitW + f.hitR > 0) c.nontrivial();
}
Check pbt::theCheck = {"C12", "histories in which windows of storage calls of a chosen kind fail; non-trivial: at least one injected failure was hit by an insert, flush, lookup, scan or stream", run, 20000, 250000};

// Stateful history driver: generated inserts, flushes, queries, reopens and crashes against the history model.
#pragma once
#include "dbkit.hpp"

struct Hist {
    pbt::Ctx &c;
    Cfg cfg;
    std::unique_ptr<Db> db;
    Model m;
    uint64_t maxAttempted = 0;  // largest key ever offered
    bool anyAttempt = false;
    bool exhausted = false;
    // variable data bookkeeping
    uint64_t varBase = 0;  // variable pages written by earlier Db objects
    int epoch = 0;         // reopens and crashes so far
    std::vector<int> recEpoch;
    // crash bookkeeping
    bool crashable = false;
    FileImage base[3];
    struct Note { size_t durable; uint32_t perm; };  // after this op: records known to be on storage, permanent pages written
    std::vector<Note> notes;                         // one per logged op
    uint32_t permPages = 0;
    size_t durable = 0;
    struct Ack { size_t op; size_t n; };  // after `op` logged ops, n records were acknowledged
    std::vector<Ack> acks;
    std::vector<uint64_t> varBeginOf;  // per record

    // statistics
    int nReopen = 0, nCrash = 0, nFlush = 0, nPartialFlush = 0, nMidCrash = 0;

    // the storage keeps what is written in a cache of its own for each file, which only a flush of the file empties
    bool buffered = false;
    std::vector<Ack> synced;  // after `op` logged ops, the first n records had been flushed
    size_t baseSynced = 0;
    int nLost = 0;
    // real files behind the storage: what is in file f now as a number of operations out of [from, j], and afterwards how to get back there
    struct Disk {
        virtual size_t kept(int f, const std::vector<FileImage> &states, size_t from) = 0;
        virtual void restore() = 0;
    } *disk = nullptr;
    std::function<void(Db &)> prep;
    bool indexLost = false;         // set by between: the index file is gone
    std::function<void()> between;  // while the database is closed: may change cfg and, after an orderly close, db->cfg

    Hist(pbt::Ctx &ctx, const Cfg &f, bool crash = false, std::function<void(Db &)> prepare = nullptr) : c(ctx), cfg(f), crashable(crash) {
        db.reset(new Db(cfg));
        prep = prepare;
        if (prepare) prepare(*db);
        c.log("%s", cfg.str().c_str());
        int r = db->open(true);
        if (r != 0) c.fail("initialization of a valid configuration returned %d: %s", r, cfg.str().c_str());
        m.init(&cfg, db->st->maxRecordsPerPage);
        startLog();
    }
    void loseIndex() {
        FileImage &x = db->fi.im;
        x.exists = false;
        x.highWater = 0;
        x.bytes.clear();
        x.st.clear();
        indexLost = false;
    }
    void startLog() {
        if (!crashable) return;
        db->dev->log.clear();
        db->dev->logging = true;
        db->dev->logFlush = buffered;
        notes.clear();
        acks.clear();
        synced.clear();
        for (int i = 0; i < 3; i++) base[i] = db->file(i).im;
    }
    uint64_t varTotal() const { return varBase + db->fv.writes; }

    // called after an API call that may have written: attribute durability to the data page writes it issued.
    // permFirst: the first data page write is a permanent page holding the first `permUpTo` records; later ones hold `tempUpTo`
    void annotate(bool permFirst, size_t permUpTo, size_t tempUpTo) {
        if (!crashable) return;
        bool first = permFirst;
        for (size_t i = notes.size(); i < db->dev->log.size(); i++) {
            const Op &o = db->dev->log[i];
            if (o.file == 0 && o.kind == OP_WRITE) {
                if (first) {
                    first = false;
                    permPages++;
                    durable = std::max(durable, permUpTo);
                } else {
                    durable = std::max(durable, tempUpTo);
                }
            }
            notes.push_back({durable, permPages});
        }
        acks.push_back({notes.size(), m.h.size()});
    }

    // inserts the next generated record; false when the key space is used up
    bool insert(int varPct = 60) {
        uint64_t k, cur = m.has() ? m.last() : 0;
        bool has = m.has();
        // the header of a variable page keeps the newest key of its values, also of one whose record was lost in a crash
        if (crashable && cfg.var && anyAttempt && (!has || maxAttempted > cur)) { cur = maxAttempted; has = true; }
        if (!nextKey(c, cfg, has, cur, k)) { exhausted = true; return false; }
        Rec r = genRec(c, cfg, k);
        int how = 0;
        if (cfg.var) {
            r.hasVar = c.chance(varPct, 100);
            if (r.hasVar) r.var = genVarBytes(c, cfg, k);
            else how = c.chance(1, 2);
        }
        anyAttempt = true;
        maxAttempted = k;
        bool full = m.curCount >= m.maxRec;
        size_t before = m.h.size();
        uint64_t vb = varTotal();
        int x;
        if (cfg.var && (r.hasVar || how)) x = db->putVar(k, r.data, r.hasVar ? &r.var : nullptr);
        else x = db->put(k, r.data);
        if (cfg.var) c.log("put %llu %s -> %d", (unsigned long long)k, r.hasVar ? ("with a value of " + std::to_string(r.var.size()) + " bytes").c_str() : how ? "with NULL value" : "", x);
        else c.log("put %llu = %s -> %d", (unsigned long long)k, hex(r.data).c_str(), x);
        if (x != 0) c.fail("insert of key %llu, greater than every key before it, returned %d", (unsigned long long)k, x);
        r.varWritesBefore = vb;
        m.add(r);
        recEpoch.push_back(epoch);
        annotate(full, before, before + 1);
        if (cfg.var && c.chance(1, 30)) flushVar();
        return true;
    }
    void flushVar() {  // writes the values only; the records stay in the buffer
        db->dev->budget(db->budget);
        int x = embedDBFlushVar(db->st);
        c.log("flushVar -> %d", x);
        if (x != 0) c.fail("a flush of the variable data returned %d", x);
        note();
    }
    bool insertMany(uint64_t n, int varPct = 60) {
        for (uint64_t i = 0; i < n; i++)
            if (!insert(varPct)) return false;
        return true;
    }
    void flush() {
        if (m.curCount > 0 && m.curCount < m.maxRec) nPartialFlush++;
        bool any = m.curCount > 0;
        int x = db->flush();
        c.log("flush -> %d", x);
        if (x != 0) c.fail("flush returned %d", x);
        m.flushed();
        nFlush++;
        annotate(any, m.h.size(), m.h.size());
        if (crashable) synced.push_back({notes.size(), m.h.size()});
    }
    // a flush during which flushes of files fail; the next one that succeeds makes up for it
    void flushFailing() {
        bool any = m.curCount > 0;
        uint64_t w = db->fd.writes;
        Device *d = db->dev;
        d->faultMask = 1u << OP_FLUSH;
        d->faultCalls = 0;
        d->faultFrom = c.draw(3);
        d->faultTo = d->faultFrom + 1 + c.draw(2);
        d->faults = true;
        uint64_t hits = d->faultsHitFlush;
        int x = db->flush();
        d->faults = false;
        c.log("flush while flushes of files fail -> %d", x);
        if (x == 0 && d->faultsHitFlush != hits) c.fail("a flush returned 0 although the flush of a file failed");
        if (x != 0) c.tag("flushes that failed");
        any &= db->fd.writes != w;
        if (any) m.flushed();
        annotate(any, m.h.size(), m.h.size());
        if (x == 0) synced.push_back({notes.size(), m.h.size()});
    }
    void note() {  // after queries, which may write variable pages
        if (crashable) annotate(false, durable, durable);
    }
    size_t required() const { return m.firstRequired(); }

    // full scan: contiguous newest part, exact, nothing required missing
    size_t full(const char *when) {
        size_t off = checkSuffix(c, *db, m, when);
        if (off > required()) c.fail("%s: a full scan starts at record %zu of %zu (page %u), but records from %zu (page %u) on must be retained; next page is %u", when, off, m.h.size(), off < m.h.size() ? m.h[off].page : m.curPage, required(), m.firstRequiredPage(), m.curPage);
        return off;
    }
    void lookup(uint64_t k, size_t off = SIZE_MAX) {
        Bytes d;
        int r = db->get(k, d);
        long i = m.find(k);
        c.log("get %llu -> %d", (unsigned long long)k, r);
        if (i < 0) {
            if (r == 0) c.fail("lookup of key %llu, which was never inserted, succeeded with data %s", (unsigned long long)k, hex(d).c_str());
            return;
        }
        bool must = (size_t)i >= (off == SIZE_MAX ? required() : off);
        if (r != 0 && must) c.fail("lookup of key %llu returned %d although the record is retained (record %ld of %zu, page %u, next page %u)", (unsigned long long)k, r, i, m.h.size(), m.h[i].page, m.curPage);
        if (r == 0 && d != m.h[i].data) c.fail("lookup of key %llu returned data %s, inserted was %s", (unsigned long long)k, hex(d).c_str(), hex(m.h[i].data).c_str());
    }
    uint64_t someKey() {
        if (!m.has()) return c.draw(50);
        switch (c.draw(3)) {
            case 0: return m.h[c.draw(m.h.size())].key;
            case 1: return m.h[m.h.size() - 1 - c.draw(std::min<size_t>(m.h.size(), 2 * m.maxRec + 2))].key;
            default: {
                uint64_t k = m.h[c.draw(m.h.size())].key;
                int d = (int)c.draw(3);
                if (d == 1 && k < cfg.keyMax) k++;
                if (d == 2 && k > 0) k--;
                return k;
            }
        }
    }
    // filtered scan against the retained records [off, end)
    void filtered(const Filter &f, size_t off, const char *when) {
        std::vector<Row> rows = scanAll(c, *db, f, m.h.size());
        size_t n = 0;
        for (size_t i = off; i < m.h.size(); i++) {
            const Rec &e = m.h[i];
            if (!f.match(e.key, e.val)) continue;
            if (n >= rows.size()) c.fail("%s: scan %s ended after %zu records, key %llu (value %lld) is missing", when, f.str().c_str(), rows.size(), (unsigned long long)e.key, (long long)e.val);
            if (rows[n].key != e.key) c.fail("%s: scan %s returned key %llu where key %llu (value %lld) was due", when, f.str().c_str(), (unsigned long long)rows[n].key, (unsigned long long)e.key, (long long)e.val);
            if (rows[n].data != e.data) c.fail("%s: scan %s returned data %s for key %llu, inserted was %s", when, f.str().c_str(), hex(rows[n].data).c_str(), (unsigned long long)e.key, hex(e.data).c_str());
            n++;
        }
        if (n < rows.size()) c.fail("%s: scan %s returned the additional key %llu", when, f.str().c_str(), (unsigned long long)rows[n].key);
    }
    // must the value of record i still be readable?
    bool varRequired(size_t i) const {
        uint64_t tot = varTotal(), w = tot - m.h[i].varWritesBefore;
        int64_t n = cfg.numVar, e = cfg.eraseSize;
        if (recEpoch[i] == epoch) return (int64_t)w <= n - e;
        return tot < (uint64_t)n || (int64_t)w <= n - 2 * e - 1;
    }
    void checkValue(const Rec &e, size_t i, embedDBVarDataStream *s, bool deleted, const char *how) {
        if (!e.hasVar) {
            if (s) { free(s); c.fail("%s of key %llu, inserted without a value, yielded a stream", how, (unsigned long long)e.key); }
            if (deleted) c.fail("%s of key %llu, inserted without a value, reported a deleted value", how, (unsigned long long)e.key);
            return;
        }
        if (!s) {
            if (varRequired(i)) c.fail("%s of key %llu reported its value of %zu bytes as deleted; %llu variable pages were written since its insert began, %llu in total, of %u with erase blocks of %d", how, (unsigned long long)e.key, e.var.size(), (unsigned long long)(varTotal() - e.varWritesBefore), (unsigned long long)varTotal(), cfg.numVar, cfg.eraseSize);
            return;
        }
        if (deleted) { free(s); c.fail("%s of key %llu reported a deleted value and a stream", how, (unsigned long long)e.key); }
        Bytes b = drain(c, *db, s, e.var.size());
        if (b != e.var) {
            size_t d = 0;
            while (d < b.size() && d < e.var.size() && b[d] == e.var[d]) d++;
            c.fail("%s of key %llu yielded %zu bytes, inserted were %zu; first difference at byte %zu", how, (unsigned long long)e.key, b.size(), e.var.size(), d);
        }
    }
    int getVar(uint64_t k, Bytes &d, embedDBVarDataStream **s) {
        Bytes kb = db->keyBytes(k);
        d.assign(cfg.dataSize, 0xEE);
        *s = nullptr;
        db->dev->budget(db->budget);
        return embedDBGetVar(db->st, kb.data(), d.data(), s);
    }
    // returns 0 value read, 1 deleted, 2 no value, 3 record gone
    int lookupVar(uint64_t k) {
        Bytes d;
        embedDBVarDataStream *s = nullptr;
        int r = getVar(k, d, &s);
        c.log("getVar %llu -> %d", (unsigned long long)k, r);
        note();
        long i = m.find(k);
        if (i < 0) {
            if (s) free(s);
            if (r == 0 || r == 1) c.fail("variable lookup of key %llu, which was never inserted, returned %d", (unsigned long long)k, r);
            return 3;
        }
        const Rec &e = m.h[i];
        if (r != 0 && r != 1) {
            if (s) free(s);
            if ((size_t)i >= required()) c.fail("variable lookup of key %llu returned %d although the record is retained (record %ld of %zu, page %u, next page %u)", (unsigned long long)k, r, i, m.h.size(), e.page, m.curPage);
            return 3;
        }
        if (d != e.data) { if (s) free(s); c.fail("variable lookup of key %llu returned data %s, inserted was %s", (unsigned long long)k, hex(d).c_str(), hex(e.data).c_str()); }
        bool had = s != nullptr;
        if (r == 0 && e.hasVar && !had) c.fail("variable lookup of key %llu returned success without its value of %zu bytes", (unsigned long long)k, e.var.size());
        checkValue(e, i, s, r == 1, "variable lookup");
        return !e.hasVar ? 2 : had ? 0 : 1;
    }
    // scan with values, compared against the retained records [off, end); returns how many values were read / deleted
    void scanVar(const Filter &f, size_t off, const char *when, int *nread = nullptr, int *ndel = nullptr) {
        Cursor cur(*db, f);
        Row r;
        embedDBVarDataStream *s = nullptr;
        for (size_t i = off; i < m.h.size(); i++) {
            const Rec &e = m.h[i];
            if (!f.match(e.key, e.val)) continue;
            if (!cur.nextVar(r, &s)) c.fail("%s: variable scan %s ended before key %llu", when, f.str().c_str(), (unsigned long long)e.key);
            note();
            if (r.key != e.key) { if (s) free(s); c.fail("%s: variable scan %s returned key %llu where key %llu was due", when, f.str().c_str(), (unsigned long long)r.key, (unsigned long long)e.key); }
            if (r.data != e.data) { if (s) free(s); c.fail("%s: variable scan %s returned data %s for key %llu, inserted was %s", when, f.str().c_str(), hex(r.data).c_str(), (unsigned long long)e.key, hex(e.data).c_str()); }
            if (e.hasVar) { if (s) { if (nread) ++*nread; } else if (ndel) ++*ndel; }
            checkValue(e, i, s, false, "variable scan");
        }
        if (cur.nextVar(r, &s)) { if (s) free(s); c.fail("%s: variable scan %s returned the additional key %llu", when, f.str().c_str(), (unsigned long long)r.key); }
        note();
    }
    // flush, close, initialize again on the same storage; returns the first retained record
    size_t reopen(size_t offBefore) {
        flush();
        size_t o = full("after the flush before closing");
        if (o < offBefore) c.fail("a flush brought back record %zu, before it the scan started at %zu", o, offBefore);
        offBefore = o;
        c.log("close and reopen");
        db->close();
        markBase();
        baseSynced = m.h.size();
        if (between) { between(); if (indexLost) loseIndex(); db->cfg = cfg; for (int i = 0; i < 3; i++) db->file(i).numPages = i == 0 ? cfg.numData : i == 1 ? cfg.numIndex : cfg.numVar; }
        startLog();
        int r = db->open(false);
        if (r != 0) c.fail("initialization without the reset flag after a flush and close returned %d (%u data pages written)", r, m.curPage);
        nReopen++;
        epoch++;
        note();
        size_t off = full("after reopening");
        if (off < offBefore) c.fail("after reopening a scan starts at record %zu, before it started at %zu", off, offBefore);
        uint32_t p0 = offBefore < m.h.size() ? m.h[offBefore].page : m.curPage, p1 = off < m.h.size() ? m.h[off].page : m.curPage;
        if (p1 - p0 > (uint32_t)cfg.eraseSize || (off > offBefore && m.curPage < cfg.numData - (cfg.rlc ? 2 * cfg.eraseSize : 0))) c.fail("reopening lost records %zu to %zu of %zu (pages %u to %u); %u pages were written to %u with erase blocks of %d", offBefore, off, m.h.size(), p0, p1, m.curPage, cfg.numData, cfg.eraseSize);
        return off;
    }
    // crash after `j` of the logged operations and recover; returns the first recovered record
    size_t crash(size_t j) {
        size_t upTo[3] = {j, j, j};
        if (buffered)
            for (int f = 0; f < 3; f++) {
                size_t from = 0;
                for (size_t i = 0; i < j; i++)
                    if (db->dev->log[i].file == f && (db->dev->log[i].kind == OP_FLUSH || db->dev->log[i].kind == OP_TRUNC)) from = i + 1;
                size_t k = j;
                if (disk) {
                    FileImage x = base[f];
                    std::vector<FileImage> states;
                    for (size_t i = 0; i <= j; i++) {
                        if (i >= from) states.push_back(x);
                        if (i < j && db->dev->log[i].file == f) applyOp(x, db->dev->log[i], cfg.eraseFill, db->dev->blank());
                    }
                    k = disk->kept(f, states, from);
                    if (k > j) c.fail("what is in the %s file is none of the states it had since it was last flushed", db->file(f).name);
                } else switch (c.draw(3)) {
                    case 0: break;
                    case 1: k = from; break;
                    default: k = from + c.draw(j - from + 1);
                }
                bool lost = false;
                for (size_t i = k; i < j; i++) lost |= db->dev->log[i].file == f;
                upTo[f] = k;
                nLost += lost;
                if (lost) c.log("of the operations on the %s file those from number %zu on are lost", db->file(f).name, k);
            }
        size_t dur = upTo[0] ? notes[upTo[0] - 1].durable : baseDurable;
        uint32_t perm = upTo[0] ? notes[upTo[0] - 1].perm : basePerm;
        size_t acked = baseAcked, sure = baseSynced;
        for (auto &a : synced)
            if (a.op <= j) sure = std::max(sure, a.n);
        for (auto &a : acks)
            if (a.op <= j) acked = std::max(acked, a.n);
        bool mid = true;
        for (auto &a : acks) if (a.op == j) mid = false;
        if (mid && j) nMidCrash++;
        c.log("crash after storage operation %zu of %zu (%zu records acknowledged, %zu on storage)", j, notes.size(), acked, dur);
        std::vector<Op> log;
        log.swap(db->dev->log);
        db->dev->logging = false;
        db->abandon();
        if (disk) disk->restore();
        FileImage im[3];
        uint64_t vw = 0;
        for (int i = 0; i < 3; i++) im[i] = base[i];
        for (size_t i = 0; i < j; i++) {
            if (i >= upTo[log[i].file]) continue;
            applyOp(im[log[i].file], log[i], cfg.eraseFill, db->dev->blank());
            if (log[i].file == 2 && log[i].kind == OP_WRITE) vw++;
        }
        varBase = varAtBase + vw;
        bool disc = db->dev->checkDiscipline;
        if (between) between();
        db.reset(new Db(cfg));
        if (disk) prep(*db);
        db->dev->checkDiscipline = disc;
        for (int i = 0; i < 3; i++) db->file(i).im = im[i];
        if (indexLost) loseIndex();
        startLog();
        int r = db->open(false);
        if (r != 0) c.fail("initialization after a crash returned %d (%u data pages had been written)", r, perm);
        nCrash++;
        epoch++;
        // what was recovered: some h[a..b)
        std::vector<Row> rows = scanAll(c, *db, Filter(), m.h.size());
        size_t a, b;
        if (rows.empty()) {
            a = b = dur == 0 ? 0 : m.h.size();
            if (dur > 0) c.fail("after the crash nothing was recovered although %zu records had been written to storage in %u pages", dur, perm);
        } else {
            long w = m.find(rows[0].key);
            if (w < 0) c.fail("after the crash the first record has key %llu, which was never inserted", (unsigned long long)rows[0].key);
            a = (size_t)w;
            b = a + rows.size();
            for (size_t i = 0; i < rows.size(); i++) {
                if (a + i >= m.h.size() || rows[i].key != m.h[a + i].key) c.fail("after the crash record %zu of the scan has key %llu, the history continues with %s", i, (unsigned long long)rows[i].key, a + i < m.h.size() ? std::to_string(m.h[a + i].key).c_str() : "nothing");
                if (rows[i].data != m.h[a + i].data) c.fail("after the crash key %llu has data %s, inserted was %s", (unsigned long long)rows[i].key, hex(rows[i].data).c_str(), hex(m.h[a + i].data).c_str());
            }
            if (b < dur) c.fail("after the crash the records end at %zu (key %llu), but %zu records had been written to storage", b, (unsigned long long)rows.back().key, dur);
        }
        if (b < sure) c.fail("after the crash the records end at %zu, but %zu records had been flushed", b, sure);
        if (cfg.rlc && b < acked) c.fail("after the crash the records end at %zu, but the inserts of %zu records had returned success (%zu on storage, %u pages)", b, acked, dur, perm);
        lastAcked = acked;
        lastEnd = b;
        recoveredUnacked = b > acked;
        // the history goes on from what was recovered
        m.h.resize(b);
        recEpoch.resize(b);
        if (b == 0) { m.curPage = perm; m.curCount = 0; }
        else {
            uint32_t p = m.h[b - 1].page;
            if (perm > p) { m.curPage = p + 1; m.curCount = 0; }
            else {
                m.curPage = p;
                m.curCount = 0;
                for (size_t i = b; i-- > 0 && m.h[i].page == p;) m.curCount++;
            }
        }
        permPages = perm;
        durable = b;
        if (a > required()) c.fail("after the crash the records start at %zu (page %u), but records from %zu (page %u) on must survive; %u pages had been written", a, a < b ? m.h[a].page : m.curPage, required(), m.firstRequiredPage(), perm);
        markBase();
        baseSynced = b;
        note();
        return a;
    }
    void markBase() { baseDurable = durable; basePerm = permPages; baseAcked = m.h.size(); varAtBase = varTotal(); }
    size_t baseDurable = 0, baseAcked = 0, lastAcked = 0, lastEnd = 0;
    bool recoveredUnacked = false;
    uint32_t basePerm = 0;
    uint64_t varAtBase = 0;
    size_t crashPoints() const { return notes.size(); }
    bool wrapped() const { return m.curPage > cfg.numData; }
    uint64_t wrapTarget(uint64_t cap) { return std::min<uint64_t>(cap, (uint64_t)m.maxRec * cfg.numData * 3 + 20); }
    void commonTags() {
        c.tagIf(wrapped(), "wrapped");
        c.tagIf(cfg.binary, "binary search");
        c.tagIf(cfg.index, "index");
        c.tagIf(cfg.var, "variable data");
        c.tagIf(cfg.rlc, "record-level consistency");
        c.tagIf(cfg.maxmin, "min/max headers");
        c.tagIf(nPartialFlush > 0, "flush of a partial page");
        c.tagIf(m.maxRec > 127, "more than 127 records per page");
        c.tagIf(cfg.keySize > 4, "keys longer than 4 bytes");
        c.tagIf(nReopen > 0, "reopened");
        c.tagIf(nReopen > 0 && wrapped(), "reopened and wrapped");
        if (nCrash) c.tag("crashes", nCrash);
        if (nMidCrash) c.tag("crashes inside a call", nMidCrash);
        c.tag("records", m.h.size());
        c.tag("storage operations", db->fd.writes + db->fi.writes + db->fv.writes + db->fd.reads + db->fi.reads + db->fv.reads);
    }
};

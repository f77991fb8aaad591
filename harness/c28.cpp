#include "hist.hpp"
using namespace pbt;
// C28: databases that differ only in tuning options, fed with the same inserts, flushes and reopens, give the same answers.
struct Side {
    std::unique_ptr<Db> db;
    Model m;  // page bookkeeping of this side (records per page can differ with the header)
    size_t off = 0;
};

static std::string tuning(const Cfg &f) {
    char b[200];
    snprintf(b, sizeof b, "%s pts=%d err=%u%s%s%s%s%s page=%d buffers=%d", f.binary ? "binary" : "spline", f.splinePts, f.maxErr, f.noclean ? " NOCLEAN" : "", f.index ? " INDEX" : "", f.bmap ? " BMAP" : "", f.maxmin ? " MAXMIN" : "", f.sum ? " SUM" : "", f.pageSize, f.bufBlocks);
    return b;
}

static Cfg retune(Ctx &c, const Cfg &a, bool sameRecords) {
    Cfg f = a;
    int changed = 0;
    while (!changed) {
        if (c.chance(1, 2)) { f.splinePts = (int)c.pick({8, 4, 5, 6, 12, 30, 120}); changed++; }
        if (c.chance(1, 2)) { f.maxErr = (uint32_t)c.pick({1, 0, 2, 4, 8, 16, 100}); changed++; }
        if (c.chance(1, 2)) { f.binary = !f.binary; changed++; }
        if (c.chance(1, 3)) { f.noclean = !f.noclean; changed++; }
        if (c.chance(1, 3)) {
            f.index = !f.index;
            f.bmap = f.index ? true : c.chance(1, 3);
            changed++;
        } else if (c.chance(1, 6)) { f.bmap = !f.bmap; changed++; }
        if (c.chance(1, 4)) { f.maxmin = !f.maxmin; if (f.maxmin && f.dataSize > 44) f.maxmin = false; changed++; }
        if (c.chance(1, 6)) { f.sum = !f.sum; changed++; }
        if (c.chance(1, 4)) { f.bufBlocks++; changed++; }
    }
    int need = 2 + (f.index ? 2 : 0) + (f.var ? 2 : 0);
    if (f.bufBlocks < need) f.bufBlocks = need;
    if (f.index && f.numIndex < 2 * (uint32_t)f.eraseSize) f.numIndex = 2 * f.eraseSize;
    int rs = f.recordSize(), recs = (a.pageSize - a.header()) / rs;
    if (sameRecords) {
        // the same number of records per page: leave room for the other header
        f.pageSize = f.header() + recs * rs + (int)c.draw(std::min(rs, 4));
        f.pageSize += f.pageSize & 1;
        if ((f.pageSize - f.header()) / rs != recs) f.pageSize -= 2;
    }
    int minPage = std::max(std::max(f.header() + rs, 16 + f.bitmapSize), f.keySize + 16);
    if (f.pageSize < minPage) f.pageSize = minPage + (minPage & 1);
    f.bufFill = (uint8_t)c.pick({0, 0xFF, 0xA5});
    return f;
}

static void run(Ctx &c) {
    GenOpts g;
    g.noData = false;  // the variants add an index
    g.bigPages = c.chance(1, 8);
    g.maxBlocks = c.chance(1, 3) ? 20 : 7;
    Cfg cfg = genCfg(c, g);
    if (cfg.numData < 4u * cfg.eraseSize) {  // as an index needs
        cfg.numData = 4 * cfg.eraseSize;
        cfg.settle();
    }
    // variable data uses the page size itself: there the sides differ in the records per page
    bool same = !cfg.var && c.chance(2, 3);
    int n = c.chance(1, 3) ? 3 : 2;
    std::vector<Side> S(n);
    std::vector<Cfg> cf(1, cfg);
    for (int i = 1; i < n; i++) cf.push_back(retune(c, cf[c.draw(cf.size())], same));
    // the value generator must stay below the smallest variable file
    int minPage = cf[0].pageSize;
    for (auto &f : cf) minPage = std::min(minPage, f.pageSize);
    Cfg vcfg = cfg;
    vcfg.pageSize = minPage;
    c.log("%s", cfg.str().c_str());
    for (int i = 0; i < n; i++) {
        c.log("side %d: %s", i, tuning(cf[i]).c_str());
        S[i].db.reset(new Db(cf[i]));
        int r = S[i].db->open(true);
        if (r) c.fail("initialization of a valid configuration (%s) returned %d", tuning(cf[i]).c_str(), r);
        S[i].m.init(&cf[i], S[i].db->st->maxRecordsPerPage);
    }
    auto required = [&] {
        size_t o = 0;
        for (auto &s : S) o = std::max(o, s.m.firstRequired());
        return o;
    };
    Model &H = S[0].m;
    bool exhausted = false;
    int queries = 0, reopens = 0, rejected = 0, flushes = 0;
    std::vector<std::vector<uint64_t>> vw(n);  // variable pages written before each insert
    std::vector<uint64_t> varBase(n, 0);
    std::vector<int> recEpoch;
    int epoch = 0;

    auto insert = [&]() {
        uint64_t k;
        if (!nextKey(c, cfg, H.has(), H.has() ? H.last() : 0, k)) { exhausted = true; return; }
        Rec r = genRec(c, cfg, k);
        bool nullVar = false;
        if (cfg.var) {
            r.hasVar = c.chance(55, 100);
            if (r.hasVar) r.var = genVarBytes(c, vcfg, k);
            else nullVar = c.chance(1, 2);
        }
        for (int i = 0; i < n; i++) {
            vw[i].push_back(varBase[i] + S[i].db->fv.writes);
            int x = cfg.var && (r.hasVar || nullVar) ? S[i].db->putVar(k, r.data, r.hasVar ? &r.var : nullptr) : S[i].db->put(k, r.data);
            if (x) c.fail("side %d (%s) rejected the insert of key %llu (%d), greater than every key before it", i, tuning(cf[i]).c_str(), (unsigned long long)k, x);
            S[i].m.add(r);
        }
        recEpoch.push_back(epoch);
    };
    auto reject = [&]() {
        if (!H.has()) return;
        uint64_t k = H.last();
        if (c.chance(1, 2)) k = H.h[c.draw(H.h.size())].key;
        if (c.chance(1, 3) && k) k--;
        Rec r = genRec(c, cfg, k);
        int x0 = S[0].db->put(k, r.data);
        for (int i = 1; i < n; i++) {
            int x = S[i].db->put(k, r.data);
            if ((x == 0) != (x0 == 0)) c.fail("the insert of key %llu, not above the last key %llu, returned %d on side 0 (%s) and %d on side %d (%s)", (unsigned long long)k, (unsigned long long)H.last(), x0, tuning(cf[0]).c_str(), x, i, tuning(cf[i]).c_str());
        }
        if (x0 == 0) c.fail("the insert of key %llu, not above the last key %llu, was accepted", (unsigned long long)k, (unsigned long long)H.last());
        rejected++;
    };
    auto flush = [&]() {
        for (int i = 0; i < n; i++) {
            int x = S[i].db->flush();
            if (x) c.fail("side %d: flush returned %d", i, x);
            S[i].m.flushed();
        }
        flushes++;
    };
    auto lookup = [&](uint64_t k) {
        Bytes d0, d;
        int r0 = S[0].db->get(k, d0);
        long at = H.find(k);
        bool both = at < 0 || (size_t)at >= required();
        for (int i = 1; i < n; i++) {
            int r = S[i].db->get(k, d);
            if (both && (r == 0) != (r0 == 0)) c.fail("the lookup of key %llu (%s) returned %d on side 0 (%s) and %d on side %d (%s); record %ld of %zu", (unsigned long long)k, at < 0 ? "never inserted" : "retained by all", r0, tuning(cf[0]).c_str(), r, i, tuning(cf[i]).c_str(), at, H.h.size());
            if (r == 0 && r0 == 0 && d != d0) c.fail("the lookup of key %llu returned data %s on side 0 and %s on side %d (%s)", (unsigned long long)k, hex(d0).c_str(), hex(d).c_str(), i, tuning(cf[i]).c_str());
        }
        queries++;
    };
    auto valRequired = [&](int i, size_t at) {
        uint64_t tot = varBase[i] + S[i].db->fv.writes, w = tot - vw[i][at];
        int64_t N = cfg.numVar, e = cfg.eraseSize;
        if (recEpoch[at] == epoch) return (int64_t)w <= N - e;
        return tot < (uint64_t)N || (int64_t)w <= N - 2 * e - 1;
    };
    auto lookupVar = [&](uint64_t k) {
        long at = H.find(k);
        bool both = at < 0 || (size_t)at >= required();
        int r0 = 0;
        Bytes v0, d0;
        bool have0 = false, req = true;
        for (int i = 0; i < n; i++) {
            Bytes kb = S[i].db->keyBytes(k), d(cfg.dataSize, 0xEE);
            embedDBVarDataStream *s = nullptr;
            S[i].db->dev->budget(S[i].db->budget);
            int r = embedDBGetVar(S[i].db->st, kb.data(), d.data(), &s);
            bool have = s != nullptr;
            Bytes v;
            if (s) v = drain(c, *S[i].db, s, at < 0 ? 0 : H.h[at].var.size());
            if (at >= 0) req = req && valRequired(i, at);
            if (i == 0) { r0 = r; v0 = v; d0 = d; have0 = have; continue; }
            if (!both) continue;
            bool in0 = r0 == 0 || r0 == 1, in = r == 0 || r == 1;
            if (in0 != in) c.fail("the variable lookup of key %llu returned %d on side 0 (%s) and %d on side %d (%s)", (unsigned long long)k, r0, tuning(cf[0]).c_str(), r, i, tuning(cf[i]).c_str());
            if (!in) continue;
            if (d != d0) c.fail("the variable lookup of key %llu returned different data on side %d", (unsigned long long)k, i);
            if (req && (r != r0 || have != have0)) c.fail("the variable lookup of key %llu returned %d (%s value) on side 0 (%s) and %d (%s value) on side %d (%s)", (unsigned long long)k, r0, have0 ? "with" : "without", tuning(cf[0]).c_str(), r, have ? "with" : "without", i, tuning(cf[i]).c_str());
            if (have && have0 && v != v0) c.fail("the value of key %llu differs between side 0 (%zu bytes, %s) and side %d (%zu bytes, %s)", (unsigned long long)k, v0.size(), tuning(cf[0]).c_str(), i, v.size(), tuning(cf[i]).c_str());
        }
        queries++;
    };
    auto scan = [&](Filter f, const char *when) {
        // on the records all sides retain
        size_t off = required();
        std::vector<std::vector<Row>> R(n);
        for (int i = 0; i < n; i++) {
            for (auto &r : scanAll(c, *S[i].db, f, H.h.size())) {
                long at = H.find(r.key);
                if (at >= 0 && (size_t)at < off) continue;
                R[i].push_back(r);
            }
        }
        for (int i = 1; i < n; i++) {
            size_t a = R[0].size(), b = R[i].size();
            for (size_t j = 0; j < std::max(a, b); j++) {
                if (j >= a || j >= b) c.fail("%s: the scan %s returned %zu retained records on side 0 (%s) and %zu on side %d (%s); the first only one has is key %llu", when, f.str().c_str(), a, tuning(cf[0]).c_str(), b, i, tuning(cf[i]).c_str(), (unsigned long long)(j >= a ? R[i][j].key : R[0][j].key));
                if (R[0][j].key != R[i][j].key) c.fail("%s: record %zu of the scan %s is key %llu on side 0 (%s) and key %llu on side %d (%s)", when, j, f.str().c_str(), (unsigned long long)R[0][j].key, tuning(cf[0]).c_str(), (unsigned long long)R[i][j].key, i, tuning(cf[i]).c_str());
                if (R[0][j].data != R[i][j].data) c.fail("%s: the scan %s returned different data for key %llu on side %d (%s)", when, f.str().c_str(), (unsigned long long)R[0][j].key, i, tuning(cf[i]).c_str());
            }
        }
        // and every side agrees with the history
        size_t j = 0;
        for (size_t i = off; i < H.h.size(); i++)
            if (f.match(H.h[i].key, H.h[i].val)) {
                if (j >= R[0].size() || R[0][j].key != H.h[i].key) c.fail("%s: the scan %s misses key %llu on every side", when, f.str().c_str(), (unsigned long long)H.h[i].key);
                j++;
            }
        queries++;
    };
    auto someKey = [&]() -> uint64_t {
        if (!H.has()) return c.draw(50);
        uint64_t k = c.chance(1, 3) ? H.h[H.h.size() - 1 - c.draw(std::min<size_t>(H.h.size(), 2 * H.maxRec + 2))].key : H.h[c.draw(H.h.size())].key;
        int d = (int)c.draw(4);
        if (d == 1 && k < cfg.keyMax) k++;
        if (d == 2 && k > 0) k--;
        return k;
    };
    uint64_t cap = std::min<uint64_t>(c.chance(1, 3) ? 3000 : 700, (uint64_t)H.maxRec * cfg.numData * 3 + 20);
    int ops = (int)c.range(4, 50);
    for (int o = 0; o < ops; o++) {
        switch (c.weighted({8, 1, 2, 6, 4, 1, 1})) {
            case 0: {
                uint64_t k = c.chance(1, 5) ? cap / 3 : 1 + c.draw(std::min<uint64_t>(3 * H.maxRec, 120));
                for (uint64_t i = 0; i < k && !exhausted && H.h.size() < cap; i++) insert();
                break;
            }
            case 1: flush(); break;
            case 2: reject(); break;
            case 3:
                for (int q = 0; q < 4; q++) {
                    if (cfg.var && c.chance(1, 2)) lookupVar(someKey());
                    else lookup(someKey());
                }
                break;
            case 4: scan(genFilter(c, cfg, H), "filtered scan"); break;
            case 5: scan(Filter(), "full scan"); break;
            default:
                if (!c.chance(1, 2)) break;
                flush();
                c.log("close and reopen");
                for (int i = 0; i < n; i++) {
                    S[i].db->close();
                    int r = S[i].db->open(false);
                    if (r) c.fail("side %d (%s): reopening returned %d", i, tuning(cf[i]).c_str(), r);
                }
                epoch++;
                reopens++;
        }
    }
    // every retained record and its neighbours
    size_t off = required(), step = 1 + (H.h.size() - off) / 60;
    for (size_t i = off; i < H.h.size(); i += step) lookup(H.h[i].key);
    for (int q = 0; q < 3; q++) scan(genFilter(c, cfg, H), "final scan");
    scan(Filter(), "final scan");
    for (int i = 0; i < n; i++)
        if (!S[i].db->dev->problems.empty()) c.fail("side %d: %s", i, S[i].db->dev->problems[0].c_str());
    bool alg = false, hdr = false;
    for (int i = 1; i < n; i++) {
        alg |= cf[i].binary != cf[0].binary;
        hdr |= cf[i].index != cf[0].index || cf[i].maxmin != cf[0].maxmin || cf[i].bmap != cf[0].bmap;
    }
    c.tagIf(alg, "spline against binary search");
    c.tagIf(hdr, "headers or index differ");
    c.tagIf(same, "same records per page");
    c.tagIf(cfg.var, "variable data");
    c.tagIf(reopens > 0, "reopened");
    c.tagIf(rejected > 0, "with rejected inserts");
    c.tagIf(n == 3, "three sides");
    c.tagIf(H.curPage > cfg.numData, "wrapped");
    c.tag("records", H.h.size());
    c.tag("compared queries", queries);
    if (H.curPage >= 3 && queries >= 5) c.nontrivial();
    for (auto &s : S) s.db->close();
}
Check pbt::theCheck = {"C28", "two or three databases differing only in tuning, with at least three data pages and at least five compared queries", run};

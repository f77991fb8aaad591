// Random operator trees over tables of rows, with their value computed by definition next to the operators.
#pragma once
#include "dbkit.hpp"
#ifndef DIST
extern "C" {
#include "advancedQueries.h"
#include "schema.h"
}
#endif
#undef max
#undef min

// ---------------------------------------------------------------- tables
struct Table {
    std::vector<int> cols;  // size of each column, negative if signed
    std::vector<Bytes> rows;
    bool keyed = false;     // first column unsigned, strictly ascending
    int floats = 0;         // bit set: some columns hold averages, whose bytes are not compared exactly
    std::map<int, std::vector<long double>> avg;  // expected averages of such a column, per row (NaN: not defined)
    size_t off(size_t i) const {
        size_t o = 0;
        for (size_t k = 0; k < i; k++) o += std::abs(cols[k]);
        return o;
    }
    size_t size() const { return off(cols.size()); }
    std::string types() const {
        std::string s;
        for (int x : cols) s += (s.empty() ? "" : " ") + std::string(x < 0 ? "i" : "u") + std::to_string(8 * std::abs(x));
        return s;
    }
};
inline Bytes colBytes(const Table &t, const Bytes &row, size_t i) {
    size_t o = t.off(i);
    return Bytes(row.begin() + o, row.begin() + o + std::abs(t.cols[i]));
}
// order of two little-endian numbers of the same size
inline int numCmp(const Bytes &a, const Bytes &b, bool sgn) {
    bool na = sgn && (a.back() & 0x80), nb = sgn && (b.back() & 0x80);
    if (na != nb) return na ? -1 : 1;
    for (size_t i = a.size(); i-- > 0;)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
#ifdef PBT_32
typedef signed _BitInt(128) wide;
typedef unsigned _BitInt(128) uwide;
#else
typedef __int128 wide;
typedef unsigned __int128 uwide;
#endif
inline wide numVal(const Bytes &a, bool sgn) {  // up to 8 bytes
    uwide v = 0;
    for (size_t i = 0; i < a.size(); i++) v |= (uwide)a[i] << (8 * i);
    if (sgn && (a.back() & 0x80)) v |= ~(uwide)0 << (8 * a.size());
    return (wide)v;
}

// ---------------------------------------------------------------- a custom operator that feeds rows (as documented in docs/advancedQueries.md)
struct FeedState {
    const Table *t;
    size_t pos;
    int scribble;
    uint64_t calls;
};
inline void feedInit(embedDBOperator *op) {
    if (op->recordBuffer == nullptr) op->recordBuffer = createBufferFromSchema(op->schema);
}
inline int8_t feedNext(embedDBOperator *op) {
    FeedState *s = (FeedState *)op->state;
    s->calls++;
    PBT_YIELD();
    if (op->recordBuffer == nullptr) return 0;  // there was no memory
    if (s->pos >= s->t->rows.size()) {
        if (s->scribble) memset(op->recordBuffer, s->scribble, s->t->size());
        return 0;
    }
    memcpy(op->recordBuffer, s->t->rows[s->pos].data(), s->t->rows[s->pos].size());
    s->pos++;
    return 1;
}
inline void feedClose(embedDBOperator *op) {
    embedDBFreeSchema(&op->schema);
    free(op->recordBuffer);
    op->recordBuffer = nullptr;
    free(op->state);
    op->state = nullptr;
}

// ---------------------------------------------------------------- grouping functions
struct GroupSpec {
    int kind = 0;
    size_t off = 0, size = 0;
    uint64_t param = 0;
    bool same(const uint8_t *a, const uint8_t *b) const {
        uint64_t x = 0, y = 0;
        size_t n = std::min<size_t>(size, 8);
        memcpy(&x, a + off, n);
        memcpy(&y, b + off, n);
        switch (kind) {
            case 0: return true;
            case 1: return false;
            case 2: return memcmp(a + off, b + off, size) == 0;
            case 3: return (x >> param) == (y >> param);
            case 4: return y - x <= param;  // a session: the gap to the row before
            default: return (x & 1) == (y & 1);
        }
    }
    std::string str() const {
        static const char *n[] = {"all", "none", "equal", "shift", "gap", "parity"};
        return std::string(n[kind]) + "(off " + std::to_string(off) + " size " + std::to_string(size) + " param " + std::to_string(param) + ")";
    }
};
constexpr int NGROUP = 8;
inline GroupSpec groupSpec[NGROUP];
template <int I>
int8_t groupFn(const void *a, const void *b) { PBT_YIELD(); return groupSpec[I].same((const uint8_t *)a, (const uint8_t *)b) ? 1 : 0; }
typedef int8_t (*GroupFn)(const void *, const void *);
inline GroupFn groupFns[NGROUP] = {groupFn<0>, groupFn<1>, groupFn<2>, groupFn<3>, groupFn<4>, groupFn<5>, groupFn<6>, groupFn<7>};

// ---------------------------------------------------------------- custom aggregate functions
struct FoldState {
    size_t size, off;
    uint64_t h;
    uint32_t resets, adds;
};
inline void foldReset(embedDBAggregateFunc *f, embedDBSchema *) {
    FoldState *s = (FoldState *)f->state;
    s->h = 0;
    s->adds = 0;
    s->resets++;
}
inline uint64_t foldStep(uint64_t h, const uint8_t *r, size_t n) {
    for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + r[i] + 1;
    return h;
}
inline void foldAdd(embedDBAggregateFunc *f, embedDBSchema *in, const void *rec) {
    FoldState *s = (FoldState *)f->state;
    s->h = foldStep(s->h, (const uint8_t *)rec, getRecordSizeFromSchema(in));
    s->adds++;
}
inline void foldCompute(embedDBAggregateFunc *f, embedDBSchema *out, void *rec, const void *) {
    FoldState *s = (FoldState *)f->state;
    memcpy((uint8_t *)rec + getColOffsetFromSchema(out, f->colNum), &s->h, 8);
}
inline void lastCompute(embedDBAggregateFunc *f, embedDBSchema *out, void *rec, const void *last) {  // a column of the last record of the group
    FoldState *s = (FoldState *)f->state;
    memcpy((uint8_t *)rec + getColOffsetFromSchema(out, f->colNum), (const uint8_t *)last + s->off, s->size);
}

// ---------------------------------------------------------------- trees
enum NodeKind { N_FEED, N_SCAN, N_PROJ, N_SEL, N_AGG, N_JOIN };
struct Node {
    NodeKind kind;
    embedDBOperator *op = nullptr;
    Table out;
    std::vector<Node *> in;
    std::string text;
};
struct QOpts {
    bool inOrder = false;  // no scans whose smallest key is above their largest one
    int depth = 3;
    bool agg = true, join = true, db = true;
    int maxRows = 60;
    bool huge = false;  // the first table of rows has more rows than 16 bits count
};
struct QTree {
    pbt::Ctx &c;
    QOpts o;
    std::vector<std::unique_ptr<Db>> dbs;
    std::vector<std::unique_ptr<Cursor>> curs;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<void *> mem;                       // constants and states of custom functions, exact size
    std::vector<std::pair<embedDBAggregateFunc *, int>> created;  // prebuilt aggregates to release
    int groups = 0;
    int keySize = 4;
    Bytes base;
    size_t bump = 0;
    int keyStep = 3;
    explicit QTree(pbt::Ctx &ctx, const QOpts &opts) : c(ctx), o(opts) {
        keySize = (int)c.pick({4, 8, 4, 2, 3, 5, 6, 7, 1, 12});
        base.resize(keySize);
        if (c.chance(1, 2))
            for (auto &b : base) b = (uint8_t)c.draw(256);
        base.back() &= 0x1f;
        bump = keySize > 2 && c.chance(1, 3) ? (size_t)c.draw(keySize - 2) : 0;  // which byte the key grows at
        keyStep = (int)c.range(1, 4);
    }
    QTree(const QTree &) = delete;
    ~QTree() {
        for (auto p : mem) free(p);
    }
    uint8_t *keep(const Bytes &b) {
        uint8_t *p = (uint8_t *)malloc(b.size());
        memcpy(p, b.data(), b.size());
        mem.push_back(p);
        return p;
    }
    Bytes key(uint64_t idx) const {
        Bytes k = base;
        uint64_t carry = idx;
        for (size_t i = bump; i < k.size() && carry; i++) {
            carry += k[i];
            k[i] = (uint8_t)carry;
            carry >>= 8;
        }
        return k;
    }
    uint64_t maxIdx() const { return keySize - (int)bump == 1 ? 200 : keySize - (int)bump == 2 ? 20000 : 200000; }
    Node *add(NodeKind k, std::vector<Node *> in) {
        nodes.push_back(std::make_unique<Node>());
        Node *n = nodes.back().get();
        n->kind = k;
        n->in = std::move(in);
        return n;
    }
    int colSize() {
        int s = (int)c.pick({4, 1, 2, 8, 4, 3, 5, 6, 7});
        if (c.chance(1, 12)) s = (int)c.range(9, 20);
        if (c.chance(1, 60)) s = (int)c.range(100, 127);
        return c.chance(1, 2) ? -s : s;
    }
    // a value of a column; profile chooses small, extreme or few distinct values
    Bytes value(int col, int profile, Bytes *prev) {
        int n = std::abs(col);
        Bytes b(n);
        switch (profile) {
            case 0: {  // small around zero
                int64_t v = c.range(col < 0 ? -20 : 0, 40);
                for (int i = 0; i < n; i++) b[i] = (uint8_t)(i < 8 ? (uint64_t)v >> (8 * i) : v < 0 ? 0xFF : 0);
                break;
            }
            case 1:  // extremes
                switch (c.draw(5)) {
                    case 0: std::fill(b.begin(), b.end(), 0); break;
                    case 1: std::fill(b.begin(), b.end(), 0xFF); break;
                    case 2: b[n - 1] = 0x80; break;
                    case 3: std::fill(b.begin(), b.end(), 0xFF); b[n - 1] = 0x7F; break;
                    default: b[0] = 1; break;
                }
                break;
            case 2:  // runs of equal values
                if (prev && !prev->empty() && c.chance(3, 4)) return *prev;
                b[n - 1] = (uint8_t)c.draw(4);
                b[0] = (uint8_t)c.draw(3);
                break;
            case 3: {  // one byte of the number varies
                b[c.draw(n)] = (uint8_t)c.draw(256);
                break;
            }
            case 4: {  // medium sized, sums stay in range
                int64_t v = c.range(col < 0 ? -30000 : 0, 60000);
                for (int i = 0; i < n; i++) b[i] = (uint8_t)(i < 8 ? (uint64_t)v >> (8 * i) : v < 0 ? 0xFF : 0);
                break;
            }
            default:
                for (auto &x : b) x = (uint8_t)c.draw(256);
        }
        return b;
    }
    int rowCount() {
        if (c.chance(1, 12)) return 0;
        if (c.chance(1, 8)) return 1;
        if (c.chance(1, 25)) return (int)c.range(o.maxRows, 6 * o.maxRows);
        return (int)c.range(1, o.maxRows);
    }
    Node *feed(bool keyed) {
        Node *n = add(N_FEED, {});
        Table &t = n->out;
        t.keyed = keyed;
        int cols = (int)c.range(1, 5);
        if (c.chance(1, 40)) cols = (int)c.range(20, 60);
        std::vector<int> prof;
        for (int i = 0; i < cols; i++) {
            t.cols.push_back(keyed && i == 0 ? keySize : colSize());
            prof.push_back((int)c.draw(6));
        }
        int rows = rowCount();
        if (cols > 10) rows = std::min(rows, 8);
        int formula = 0;  // many rows follow a formula instead of choices of their own
        if (o.huge) {
            rows = (int)c.pick({65535, 65536, 66000, 70000, 300});
            formula = 1 + (int)c.draw(60);
            o.huge = false;
        }
        uint64_t idx = c.chance(1, 3) ? 0 : c.draw(60);
        std::vector<Bytes> prev(cols);
        for (int r = 0; r < rows; r++) {
            Bytes row;
            for (int i = 0; i < cols; i++) {
                Bytes v;
                if (keyed && i == 0) v = key(idx);
                else if (formula) {
                    v.assign(std::abs(t.cols[i]), 0);
                    v[0] = (uint8_t)(r % formula * 7 + i);
                    if (t.cols[i] < 0 && r % 3 == 1) std::fill(v.begin() + (v.size() > 1 ? 1 : 0), v.end(), 0xFF);
                } else v = value(t.cols[i], prof[i], &prev[i]);
                prev[i] = v;
                row.insert(row.end(), v.begin(), v.end());
            }
            t.rows.push_back(row);
            idx += 1 + (formula ? r % keyStep : c.draw(keyStep));
            if (idx > maxIdx() && keyed) break;
        }
        embedDBOperator *op;
        {
            alloc::Lib lib;
            op = (embedDBOperator *)malloc(sizeof *op);
            op->input = nullptr;
            op->init = feedInit;
            op->next = feedNext;
            op->close = feedClose;
            op->recordBuffer = nullptr;
            op->schema = makeSchema(t);
            FeedState *s = (FeedState *)malloc(sizeof *s);
            s->t = &t;
            s->pos = 0;
            s->scribble = c.chance(1, 3) ? (int)c.pick({0xFF, 0x01, 0x80}) : 0;
            s->calls = 0;
            op->state = s;
        }
        n->op = op;
        n->text = "rows" + std::to_string(t.rows.size()) + "(" + t.types() + ")";
        return n;
    }
    embedDBSchema *makeSchema(const Table &t) {
        std::vector<int8_t> sz, sg;
        {
            alloc::App a;
            for (int x : t.cols) {
                sz.push_back((int8_t)std::abs(x));
                sg.push_back(x < 0 ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED);
            }
        }
        embedDBSchema *s = embedDBCreateSchema((uint8_t)t.cols.size(), sz.data(), sg.data());
        alloc::App a;
        sz = {};
        sg = {};
        return s;
    }
    Node *scan() {
        GenOpts g;
        g.var = 0;
        g.rlc = 0;
        g.anyKeys = false;
        g.erasing = false;
        g.noData = false;
        Cfg f = genCfg(c, g);
        f.keySize = keySize;
        f.libKeyCmp = false;
        f.libDataCmp = f.libDataCmp && f.valBytes == 4;
        f.maxmin = false;
        f.pageSize += 16;
        f.keyMax = keySize >= 8 ? (1ull << 62) - 1 : (1ull << (8 * keySize)) - 1;
        Node *n = add(N_SCAN, {});
        Table &t = n->out;
        t.keyed = true;
        t.cols.push_back(keySize);
        int left = f.dataSize;
        while (left > 0) {
            int s = c.chance(1, 4) ? left : std::min(left, std::abs(colSize()));
            s = std::min(s, 127);
            t.cols.push_back(c.chance(1, 2) ? -s : s);
            left -= s;
        }
        dbs.push_back(std::make_unique<Db>(f));
        Db &db = *dbs.back();
        if (db.open(true)) c.fail("initialization of the scanned database failed: %s", f.str().c_str());
        int rows = rowCount();
        uint64_t idx = c.draw(60);
        Model m;
        for (int r = 0; r < rows; r++) {
            uint64_t k = 0;
            Bytes kb = key(idx);
            memcpy(&k, kb.data(), std::min<size_t>(8, kb.size()));
            Rec rec = genRec(c, f, k);
            if (db.put(k, rec.data)) break;
            m.add(rec);
            idx += 1 + c.draw(keyStep);
            if (idx > maxIdx()) break;
            if (c.chance(1, 30)) db.flush();
        }
        if (c.chance(1, 2)) db.flush();
        Filter fl = c.chance(1, 2) ? Filter{} : genFilter(c, f, m);
        if (o.inOrder && fl.hasMinK && fl.hasMaxK && fl.minK > fl.maxK) std::swap(fl.minK, fl.maxK);
        {
            Cursor cur(db, fl);
            Row r;
            while (cur.next(r)) {
                Bytes row = db.keyBytes(r.key);
                row.insert(row.end(), r.data.begin(), r.data.end());
                t.rows.push_back(row);
                if (t.rows.size() > 20000) c.fail("endless scan");
            }
        }
        curs.push_back(std::make_unique<Cursor>(db, fl));
        embedDBSchema *s;
        alloc::Lib lib;
        s = makeSchema(t);
        n->op = createTableScanOperator(db.st, &curs.back()->it, s);
        embedDBFreeSchema(&s);
        alloc::App a;
        n->text = "scan" + fl.str() + std::to_string(t.rows.size()) + "(" + t.types() + ")";
        return n;
    }
    Node *source(bool keyed) {
        if (o.db && keySize <= 8 && c.chance(1, 3)) return scan();
        return feed(keyed);
    }
    Node *projection(Node *in, bool keyed) {
        Node *n = add(N_PROJ, {in});
        std::vector<uint8_t> cols;
        int m = (int)c.draw(4);
        for (size_t i = 0; i < in->out.cols.size(); i++)
            if ((keyed && i == 0) || m == 3 || c.chance(m + 1, 4)) cols.push_back((uint8_t)i);
        if (cols.empty()) cols.push_back((uint8_t)c.draw(in->out.cols.size()));
        Table &t = n->out;
        t.keyed = in->out.keyed && cols[0] == 0;
        for (auto k : cols) t.cols.push_back(in->out.cols[k]);
        for (auto &r : in->out.rows) {
            Bytes row;
            for (auto k : cols) {
                Bytes b = colBytes(in->out, r, k);
                row.insert(row.end(), b.begin(), b.end());
            }
            t.rows.push_back(row);
        }
        uint8_t *p = (uint8_t *)malloc(cols.size());
        memcpy(p, cols.data(), cols.size());
        {
            alloc::Lib lib;
            n->op = createProjectionOperator(in->op, (uint8_t)cols.size(), p);
        }
        n->text = "project[";
        for (auto k : cols) n->text += std::to_string(k) + " ";
        n->text += "](" + in->text + ")";
        free(p);  // the operator keeps its own copy
        return n;
    }
    Node *selection(Node *in) {
        Node *n = add(N_SEL, {in});
        const Table &s = in->out;
        size_t col = c.draw(std::min<size_t>(s.cols.size(), 127));
        int op = (int)c.draw(6);
        Bytes v;
        if (!s.rows.empty() && c.chance(3, 4)) {
            v = colBytes(s, s.rows[c.draw(s.rows.size())], col);
            if (c.chance(1, 5)) v[c.draw(v.size())] += (uint8_t)c.pick({1, 255, 128});
        } else
            v = value(s.cols[col], (int)c.draw(6), nullptr);
        Table &t = n->out;
        t.cols = s.cols;
        t.keyed = s.keyed;
        for (auto &r : s.rows) {
            int x = numCmp(colBytes(s, r, col), v, s.cols[col] < 0);
            bool ok = op == SELECT_GT ? x > 0 : op == SELECT_LT ? x < 0 : op == SELECT_GTE ? x >= 0 : op == SELECT_LTE ? x <= 0 : op == SELECT_EQ ? x == 0 : x != 0;
            if (ok) t.rows.push_back(r);
        }
        void *p = keep(v);
        {
            alloc::Lib lib;
            n->op = createSelectionOperator(in->op, (int8_t)col, (int8_t)op, p);
        }
        static const char *ops[] = {">", "<", ">=", "<=", "==", "!="};
        n->text = "select[" + std::to_string(col) + ops[op] + hex(v) + "](" + in->text + ")";
        return n;
    }
    Node *aggregate(Node *in, bool keyed, bool top) {
        if (groups >= NGROUP) return in;
        Node *n = add(N_AGG, {in});
        const Table &s = in->out;
        GroupSpec &g = groupSpec[groups];
        g = GroupSpec();
        g.kind = keyed ? (int)c.pick({3, 1, 3, 4, 0}) : (int)c.pick({2, 3, 0, 1, 4, 5});
        if (g.kind == 2 || g.kind == 5) {
            size_t col = c.draw(s.cols.size());
            g.off = s.off(col);
            g.size = std::abs(s.cols[col]);
        } else {
            g.off = 0;
            g.size = std::abs(s.cols[0]);
            if (bump && bump < g.size) { g.off = bump; g.size -= bump; }
            g.param = g.kind == 3 ? 1 + c.draw(5) : c.draw(4);
        }
        // runs
        std::vector<std::pair<size_t, size_t>> runs;
        for (size_t i = 0; i < s.rows.size(); i++)
            if (i && g.same(s.rows[i - 1].data(), s.rows[i].data())) runs.back().second = i + 1;
            else runs.push_back({i, i + 1});
        size_t k = 1 + c.draw(5);
        if (c.chance(1, 50)) k = 1 + c.draw(40);
        Table &t = n->out;
        t.rows.resize(runs.size());
        t.keyed = keyed;
        std::vector<embedDBAggregateFunc> fs;
        n->text = "aggregate[" + g.str() + ":";
        auto custom = [&](int size, size_t off, size_t len) {
            FoldState st = {len, off, 0, 0, 0};
            embedDBAggregateFunc f;
            memset(&f, 0, sizeof f);
            f.state = keep(Bytes((uint8_t *)&st, (uint8_t *)&st + sizeof st));
            f.colSize = (int8_t)size;
            return f;
        };
        auto put = [&](size_t r, const void *p, size_t len) { t.rows[r].insert(t.rows[r].end(), (const uint8_t *)p, (const uint8_t *)p + len); };
        for (size_t a = 0; a < k; a++) {
            int kind = keyed && a == 0 ? 6 : (int)c.weighted({3, 4, 4, 4, top ? 3 : 0, 2, 2, 1});
            size_t col = keyed && a == 0 ? 0 : c.draw(s.cols.size());
            int sz = s.cols[col];
            bool sgn = sz < 0;
            int n1 = std::abs(sz);
            if ((kind == 1 || kind == 4) && n1 > 8) kind = 2;
            if (kind == 4 && s.floats) kind = 0;
            embedDBAggregateFunc *made = nullptr;
            embedDBAggregateFunc f;
            bool minmax = false;
            switch (kind) {
                case 0: {
                    made = createCountAggregate();
                    t.cols.push_back(4);
                    for (size_t r = 0; r < runs.size(); r++) {
                        uint32_t x = (uint32_t)(runs[r].second - runs[r].first);
                        put(r, &x, 4);
                    }
                    n->text += " count";
                    break;
                }
                case 1: {
                    made = createSumAggregate((uint8_t)col);
                    t.cols.push_back(-8);
                    for (size_t r = 0; r < runs.size(); r++) {
                        uint64_t x = 0;
                        for (size_t i = runs[r].first; i < runs[r].second; i++) x += (uint64_t)numVal(colBytes(s, s.rows[i], col), sgn);
                        put(r, &x, 8);
                    }
                    n->text += " sum" + std::to_string(col);
                    break;
                }
                case 2:
                case 3: {
                    made = kind == 2 ? createMinAggregate((uint8_t)col, (int8_t)sz) : createMaxAggregate((uint8_t)col, (int8_t)sz);
                    minmax = true;
                    t.cols.push_back(sz);
                    for (size_t r = 0; r < runs.size(); r++) {
                        Bytes best = colBytes(s, s.rows[runs[r].first], col);
                        for (size_t i = runs[r].first; i < runs[r].second; i++) {
                            Bytes v = colBytes(s, s.rows[i], col);
                            int x = numCmp(v, best, sgn);
                            if (kind == 2 ? x < 0 : x > 0) best = v;
                        }
                        put(r, best.data(), best.size());
                    }
                    n->text += (kind == 2 ? " min" : " max") + std::to_string(col);
                    break;
                }
                case 4: {
                    int fl = c.chance(1, 2) ? 4 : 8;
                    // other sizes default to the next of the two
                    int asked = c.chance(1, 8) ? c.pick<int>({0, 1, 3, 5, 6, 7, 9, 100, -1, -128}) : fl;
                    if (asked != fl) fl = asked > 4 ? 8 : 4;
                    made = createAvgAggregate((uint8_t)col, (int8_t)asked);
                    t.floats = 1;
                    auto &ex = t.avg[(int)t.cols.size()];
                    t.cols.push_back(fl);
                    for (size_t r = 0; r < runs.size(); r++) {
                        wide x = 0;
                        for (size_t i = runs[r].first; i < runs[r].second; i++) x += numVal(colBytes(s, s.rows[i], col), sgn);
                        bool fits = sgn ? x >= INT64_MIN && x <= INT64_MAX : x <= (wide)UINT64_MAX;
                        ex.push_back(fits ? (sgn ? (long double)(int64_t)x : (long double)(uint64_t)x) / (long double)(runs[r].second - runs[r].first) : NAN);
                        uint64_t z = 0;
                        put(r, &z, fl);
                    }
                    n->text += " avg" + std::to_string(8 * fl) + "(" + std::to_string(col) + ")";
                    break;
                }
                case 5: {
                    f = custom(8, 0, s.size());
                    f.reset = foldReset;
                    f.add = foldAdd;
                    f.compute = foldCompute;
                    t.cols.push_back(8);
                    for (size_t r = 0; r < runs.size(); r++) {
                        uint64_t h = 0;
                        for (size_t i = runs[r].first; i < runs[r].second; i++) h = foldStep(h, s.rows[i].data(), s.rows[i].size());
                        put(r, &h, 8);
                    }
                    n->text += " fold";
                    break;
                }
                case 6: {
                    f = custom(sz, s.off(col), n1);
                    f.compute = lastCompute;
                    t.cols.push_back(sz);
                    for (size_t r = 0; r < runs.size(); r++) {
                        Bytes v = colBytes(s, s.rows[runs[r].second - 1], col);
                        put(r, v.data(), v.size());
                    }
                    n->text += " last" + std::to_string(col);
                    break;
                }
                default: {  // no function at all: the column stays zero
                    int z = colSize();
                    f = custom(z, 0, 0);
                    t.cols.push_back(z);
                    for (size_t r = 0; r < runs.size(); r++) {
                        Bytes v(std::abs(z));
                        put(r, v.data(), v.size());
                    }
                    n->text += " none";
                }
            }
            if (made) {
                created.push_back({made, minmax ? 2 : 1});
                f = *made;
            }
            f.colNum = 0xEE;  // set by the operator
            fs.push_back(f);
        }
        auto *arr = (embedDBAggregateFunc *)keep(Bytes((uint8_t *)fs.data(), (uint8_t *)(fs.data() + fs.size())));
        {
            alloc::Lib lib;
            n->op = createAggregateOperator(in->op, groupFns[groups], arr, (uint32_t)fs.size());
        }
        groups++;
        n->text += "](" + in->text + ")";
        if (runs.size() > 1) c.tag("several groups");
        for (auto &r : runs)
            if (r.second - r.first > 255) c.tag(r.second - r.first > 65535 ? "a group of more than 65535 rows" : "a group of more than 255 rows");
        return n;
    }
    Node *join(Node *a, Node *b) {
        Node *n = add(N_JOIN, {a, b});
        Table &t = n->out;
        t.cols = a->out.cols;
        t.cols.insert(t.cols.end(), b->out.cols.begin(), b->out.cols.end());
        t.keyed = true;
        std::map<Bytes, const Bytes *> by;
        for (auto &r : b->out.rows) by[colBytes(b->out, r, 0)] = &r;
        for (auto &r : a->out.rows) {
            auto it = by.find(colBytes(a->out, r, 0));
            if (it == by.end()) continue;
            Bytes row = r;
            row.insert(row.end(), it->second->begin(), it->second->end());
            t.rows.push_back(row);
        }
        {
            alloc::Lib lib;
            n->op = createKeyJoinOperator(a->op, b->op);
        }
        n->text = "join(" + a->text + ", " + b->text + ")";
        if (!t.rows.empty()) c.tag("join with matches");
        return n;
    }
    Node *gen(int depth, bool keyed, bool top = true) {
        if (depth <= 0) return source(keyed);
        switch (c.weighted({3, 3, 4, o.agg ? 3 : 0, o.join ? 2 : 0})) {
            case 0: return top ? gen(depth - 1, keyed, top) : source(keyed);
            case 1: return projection(gen(depth - 1, keyed, false), keyed);
            case 2: return selection(gen(depth - 1, keyed, false));
            case 3: {
                // a keyed aggregate groups by key, so its input must be keyed; otherwise anything goes
                Node *in = gen(depth - 1, keyed || c.chance(1, 2), false);
                return aggregate(in, keyed, top);
            }
            default: {
                Node *a = gen(depth - 1, true, false), *b = gen(depth - 1, true, false);
                if (a->out.cols.size() + b->out.cols.size() > 200) return a;  // b stays unused (released separately)
                return join(a, b);
            }
        }
    }
    // -------------------------------------------------------- running
    void init(Node *top) {
        alloc::Lib lib;
        top->op->init(top->op);
    }
    bool next(Node *top) {
        for (auto &d : dbs) d->dev->budget(d->budget);
        alloc::Lib lib;
        return exec(top->op) != 0;
    }
    void checkSchema(Node *n) {
        embedDBSchema *s = n->op->schema;
        if (!s) c.fail("no schema after initialization: %s", n->text.c_str());
        bool ok = s->numCols == n->out.cols.size();
        for (size_t i = 0; ok && i < n->out.cols.size(); i++) ok = s->columnSizes[i] == n->out.cols[i];
        if (!ok) {
            std::string got;
            for (int i = 0; i < s->numCols; i++) got += " " + std::to_string(s->columnSizes[i]);
            c.fail("the schema of %s should be (%s) but has %d columns:%s", n->text.c_str(), n->out.types().c_str(), s->numCols, got.c_str());
        }
    }
    void checkSchemas(Node *n) {
        checkSchema(n);
        for (auto x : n->in) checkSchemas(x);
    }
    void checkRow(Node *n, size_t r) {
        const Table &t = n->out;
        Bytes got((uint8_t *)n->op->recordBuffer, (uint8_t *)n->op->recordBuffer + t.size());
        for (auto &[col, ex] : t.avg) {
            size_t o = t.off(col);
            long double v, e = ex[r], tol;
            if (t.cols[col] == 4) {
                float f;
                memcpy(&f, &got[o], 4);
                v = f;
                tol = fabsl(e) / (1 << 22);
            } else {
                double f;
                memcpy(&f, &got[o], 8);
                v = f;
                tol = fabsl(e) / (1ll << 51);
            }
            memset(&got[o], 0, t.cols[col]);
            if (std::isnan(e)) continue;
            if (!(fabsl(v - e) <= tol)) c.fail("row %zu of %s: the average in column %d is %.20Lg instead of %.20Lg", r, n->text.c_str(), col, v, e);
        }
        if (got != t.rows[r]) {
            size_t col = 0;
            while (col < t.cols.size() && colBytes(t, got, col) == colBytes(t, t.rows[r], col)) col++;
            c.fail("row %zu of %s: column %zu holds %s instead of %s", r, n->text.c_str(), col, hex(colBytes(t, got, col)).c_str(), hex(colBytes(t, t.rows[r], col)).c_str());
        }
    }
    void run(Node *top, size_t limit = ~size_t(0)) {
        const Table &t = top->out;
        size_t r = 0;
        for (; r < limit; r++) {
            bool x = next(top);
            if (!x && r < t.rows.size()) c.fail("%s ended after %zu of %zu rows", top->text.c_str(), r, t.rows.size());
            if (x && r >= t.rows.size()) c.fail("%s returned more than its %zu rows", top->text.c_str(), t.rows.size());
            if (!x) break;
            checkRow(top, r);
        }
        if (r == limit) return;
        for (int i = 0; i < 3; i++)
            if (next(top)) c.fail("%s returned a row after reporting its end (call %d)", top->text.c_str(), i + 1);
    }
    bool hasJoin(Node *n) const {
        if (n->kind == N_JOIN) return true;
        for (auto x : n->in)
            if (hasJoin(x)) return true;
        return false;
    }
    static void subtree(Node *n, std::vector<Node *> &v) {
        v.push_back(n);
        for (auto x : n->in) subtree(x, v);
    }
    // closes the tree and frees its operators as documented
    void release(Node *top, bool recursive) {
        std::vector<Node *> used;
        subtree(top, used);
        {
            alloc::Lib lib;
            top->op->close(top->op);
            if (recursive && !hasJoin(top)) {
                embedDBFreeOperatorRecursive(&top->op);
                if (top->op) c.fail("embedDBFreeOperatorRecursive did not clear the pointer");
            } else
                for (auto n : used) free(n->op);
        }
        for (auto n : used) n->op = nullptr;
    }
    // operators that were generated but did not become part of the tree, and the application's own objects
    void releaseRest() {
        for (auto &n : nodes)
            if (n->op) {
                alloc::Lib lib;
                if (n->op->state) free(n->op->state);
                if (n->op->schema) embedDBFreeSchema(&n->op->schema);
                free(n->op);
                n->op = nullptr;
            }
        for (auto &[f, kind] : created) {  // what min and max keep inside their state is not accessible
            free(f->state);
            free(f);
        }
        created.clear();
        for (auto &cu : curs) {
            alloc::Lib lib;
            cu->close();
        }
        curs.clear();
    }
};

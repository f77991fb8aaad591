#include "qkit.hpp"
using namespace pbt;
// C19: schemas describe the record layout exactly.
static void run(Ctx &c) {
    Table t;
    int n = (int)c.range(1, 8);
    if (c.chance(1, 6)) n = (int)c.range(9, 255);
    for (int i = 0; i < n; i++) {
        int s = (int)c.range(1, 127);
        if (c.chance(2, 3)) s = (int)c.range(1, 8);
        if (c.chance(1, 10)) s = 127;
        t.cols.push_back(c.chance(1, 2) ? -s : s);
    }
    c.log("schema (%s)", n <= 20 ? t.types().c_str() : std::to_string(n).c_str());
    auto make = [&] {
        uint8_t *p = (uint8_t *)malloc(n), *g = (uint8_t *)malloc(n);
        for (int i = 0; i < n; i++) {
            p[i] = (uint8_t)std::abs(t.cols[i]);
            g[i] = t.cols[i] < 0 ? embedDB_COLUMN_SIGNED : embedDB_COLUMN_UNSIGNED;
        }
        embedDBSchema *s = embedDBCreateSchema((uint8_t)n, (int8_t *)p, (int8_t *)g);
        memset(p, 0x55, n);  // the schema keeps no reference to the arrays
        memset(g, 0x55, n);
        free(p);
        free(g);
        if (!s) c.fail("a valid schema of %d columns was rejected", n);
        return s;
    };
    auto check = [&](embedDBSchema *s, const char *what) {
        if (s->numCols != n) c.fail("%s: %d columns instead of %d", what, s->numCols, n);
        size_t o = 0;
        for (int i = 0; i < n; i++) {
            if (s->columnSizes[i] != t.cols[i]) c.fail("%s: column %d is %d instead of %d", what, i, s->columnSizes[i], t.cols[i]);
            if (!!embedDB_IS_COL_SIGNED(s->columnSizes[i]) != (t.cols[i] < 0)) c.fail("%s: signedness of column %d", what, i);
            if (getColOffsetFromSchema(s, (uint8_t)i) != o) c.fail("%s: column %d starts at %u instead of %zu", what, i, getColOffsetFromSchema(s, (uint8_t)i), o);
            o += std::abs(t.cols[i]);
        }
        if (getRecordSizeFromSchema(s) != o) c.fail("%s: record size %u instead of %zu", what, getRecordSizeFromSchema(s), o);
        uint8_t *b = (uint8_t *)createBufferFromSchema(s);
        if (!b) c.fail("%s: no buffer", what);
        if (__sanitizer_get_allocated_size(b) < o) c.fail("%s: the buffer has %zu of %zu bytes", what, __sanitizer_get_allocated_size(b), o);
        for (size_t i = 0; i < o; i++)
            if (b[i]) c.fail("%s: byte %zu of a new buffer is not zero", what, i);
        memset(b, 0xAB, o);
        free(b);
    };
    embedDBSchema *s = make();
    check(s, "schema");
    embedDBSchema *k = copySchema(s);
    check(k, "copy");
    if (k == s || k->columnSizes == s->columnSizes) c.fail("the copy shares memory with the original");
    bool first = c.chance(1, 2);
    embedDBFreeSchema(first ? &s : &k);
    if ((first ? s : k) != nullptr) c.fail("embedDBFreeSchema left the pointer set");
    check(first ? k : s, first ? "copy after its original was freed" : "original after its copy was freed");
    embedDBFreeSchema(first ? &k : &s);
    embedDBFreeSchema(&s);  // freeing nothing is harmless
    // invalid lists
    if (c.chance(1, 4)) {
        std::vector<int8_t> sz(n, 4), sg(n, 0);
        int at = (int)c.draw(n);
        bool size = c.chance(1, 2);
        if (size) sz[at] = (int8_t)c.pick({0, -1, -4, -127, -128});
        else sg[at] = (int8_t)c.pick({2, -1, 127, -128});
        embedDBSchema *x = embedDBCreateSchema((uint8_t)n, sz.data(), sg.data());
        if (x) c.fail("a schema with %s %d in column %d was accepted", size ? "size" : "signedness", size ? sz[at] : sg[at], at);
        c.tag("invalid schema");
    }
    // operators
    QOpts o;
    o.maxRows = 3;
    QTree q(c, o);
    Node *top = q.gen((int)c.draw(5), c.chance(1, 2));
    c.log("%s", top->text.c_str());
    q.init(top);
    q.checkSchemas(top);
    if (q.next(top)) q.checkRow(top, 0);
    q.checkSchemas(top);
    q.release(top, true);
    q.releaseRest();
    c.tagIf(n > 127, "more than 127 columns");
    c.tagIf(t.size() > 255, "record of more than 255 bytes");
    c.tagIf(t.size() > 4096, "record of more than 4096 bytes");
    c.tag("operators", top->kind == N_FEED ? 0 : 1);
    if (n >= 2) c.nontrivial();
}
Check pbt::theCheck = {"C19", "a schema of at least two columns", run};

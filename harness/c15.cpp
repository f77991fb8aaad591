#include "dbkit.hpp"
using namespace pbt;
// C15: bitmaps never exclude a matching value.
struct Kind { const char *name; int bits, data; void (*update)(void *, void *); int8_t (*in)(void *, void *); void (*build)(void *, void *, void *); };
static const Kind kinds[] = {
    {"Int8", 8, 2, updateBitmapInt8, inBitmapInt8, buildBitmapInt8FromRange},
    {"Int16", 16, 4, updateBitmapInt16, inBitmapInt16, buildBitmapInt16FromRange},
    {"Int64", 64, 4, updateBitmapInt64, inBitmapInt64, buildBitmapInt64FromRange},
};
struct Mem {  // exact-size heap memory: any byte too many is caught
    uint8_t *p;
    size_t n;
    Mem(size_t k) : p((uint8_t *)malloc(k)), n(k) { memset(p, 0, k); }
    ~Mem() { free(p); }
    Mem(const Mem &) = delete;
    bool overlaps(const Mem &o) const { for (size_t i = 0; i < n; i++) if (p[i] & o.p[i]) return true; return false; }
    bool covers(const Mem &o) const { for (size_t i = 0; i < n; i++) if (o.p[i] & ~p[i]) return false; return true; }
    std::string str() const { return hex(Bytes(p, p + n)); }
};
static int64_t genV(Ctx &c, const Kind &k) {
    int64_t lo = k.data == 2 ? INT16_MIN : INT32_MIN, hi = k.data == 2 ? INT16_MAX : INT32_MAX, v;
    switch (c.weighted({6, 4, 2, 1, 1})) {
        case 0: {  // around the bucket limits
            static const int b8[] = {0, 10, 20, 30, 40, 50, 60, 100};
            int64_t base = k.bits == 8 ? b8[c.draw(8)] : k.bits == 16 ? 320 + 30 * c.range(-1, 16) : 320 + 10 * c.range(-1, 64);
            v = base + c.range(-2, 2);
            break;
        }
        case 1: v = c.range(-50, 1100); break;
        case 2: v = c.range(-100000, 100000); break;
        case 3: v = c.pick({0, 1, 2}) + (c.chance(1, 2) ? lo : hi - 2); break;
        default: v = lo + (int64_t)c.draw((uint64_t)(hi - lo) + 1); break;
    }
    return std::min(hi, std::max(lo, v));
}
// buckets ascend from the most significant bit: of the number, or of the first byte of the bitmap of 64
static bool bit(const Kind &k, const Mem &m, int i) {
    size_t byte = k.bits == 16 ? 1 - i / 8 : i / 8;
    return m.p[byte] >> (7 - i % 8) & 1;
}
static int place(const Kind &k, const Mem &m) {
    for (int i = 0; i < k.bits; i++)
        if (bit(k, m, i)) return i;
    return 0;
}
static void run(Ctx &c) {
    const Kind &k = kinds[c.draw(3)];
    auto put = [&](Mem &m, int64_t v) { memcpy(m.p, &v, m.n); };
    int64_t a = genV(c, k), b = genV(c, k);
    if (a > b) std::swap(a, b);
    bool hasMin = c.chance(3, 4), hasMax = c.chance(3, 4);
    Mem mn(k.data), mx(k.data), range(k.bits / 8);
    put(mn, a);
    put(mx, b);
    uint64_t junk = c.raw64();
    memcpy(range.p, &junk, range.n);  // the output need not be cleared
    k.build(hasMin ? mn.p : nullptr, hasMax ? mx.p : nullptr, range.p);
    c.log("%s range [%s, %s] -> %s", k.name, hasMin ? std::to_string(a).c_str() : "-", hasMax ? std::to_string(b).c_str() : "-", range.str().c_str());
    // no bucket outside the range, and buckets in the order of the values
    auto bucket = [&](int64_t v) {
        Mem d(k.data), one(k.bits / 8);
        put(d, v);
        k.update(d.p, one.p);
        return place(k, one);
    };
    int lo = hasMin ? bucket(a) : 0, hi = hasMax ? bucket(b) : k.bits - 1;
    for (int i = 0; i < k.bits; i++)
        if (bit(k, range, i) && (i < lo || i > hi)) c.fail("%s: the bitmap %s of the range [%s, %s], whose ends are in buckets %d and %d, has bucket %d", k.name, range.str().c_str(), hasMin ? std::to_string(a).c_str() : "-", hasMax ? std::to_string(b).c_str() : "-", lo, hi, i);
    if (bucket(a) > bucket(b)) c.fail("%s: %lld is in bucket %d and %lld in bucket %d", k.name, (long long)a, bucket(a), (long long)b, bucket(b));
    if (c.chance(1, 200)) {  // every bucket has values
        std::vector<bool> seen(k.bits);
        for (int64_t v = -2000; v <= 4000; v++) seen[bucket(v)] = true;
        for (int i = 0; i < k.bits; i++)
            if (!seen[i]) c.fail("%s: no value from -2000 to 4000 is in bucket %d", k.name, i);
    }
    int inside = 0;
    int n = 1 + (int)c.draw(12);
    Mem acc(k.bits / 8);
    std::vector<int64_t> added;
    for (int i = 0; i < n; i++) {
        int64_t v;
        switch (c.draw(4)) {
            case 0: v = a; break;
            case 1: v = b; break;
            case 2: v = a + (int64_t)c.draw((uint64_t)(b - a) + 1); break;
            default: v = genV(c, k); break;
        }
        Mem d(k.data), one(k.bits / 8), before(k.bits / 8);
        put(d, v);
        k.update(d.p, one.p);
        bool zero = true;
        for (size_t j = 0; j < one.n; j++) zero &= one.p[j] == 0;
        if (zero) c.fail("%s: adding %lld to an empty bitmap sets no bit", k.name, (long long)v);
        bool in = (!hasMin || v >= a) && (!hasMax || v <= b);
        if (in) {
            inside++;
            if (!range.overlaps(one)) c.fail("%s: the bitmap %s of the range [%s, %s] does not overlap the bitmap %s of %lld", k.name, range.str().c_str(), hasMin ? std::to_string(a).c_str() : "-", hasMax ? std::to_string(b).c_str() : "-", one.str().c_str(), (long long)v);
            if (!k.in(d.p, range.p)) c.fail("%s: membership of %lld in the bitmap %s of a range that contains it is zero", k.name, (long long)v, range.str().c_str());
        }
        // membership is overlap with the value's own bucket
        int8_t x = k.in(d.p, acc.p);
        if ((x != 0) != acc.overlaps(one)) c.fail("%s: membership of %lld (bucket %s) in %s is %d", k.name, (long long)v, one.str().c_str(), acc.str().c_str(), x);
        memcpy(before.p, acc.p, acc.n);
        k.update(d.p, acc.p);
        if (!acc.covers(before) || !acc.covers(one)) c.fail("%s: adding %lld turned %s into %s", k.name, (long long)v, before.str().c_str(), acc.str().c_str());
        Mem sum(k.bits / 8);
        for (size_t j = 0; j < sum.n; j++) sum.p[j] = before.p[j] | one.p[j];
        if (memcmp(sum.p, acc.p, acc.n)) c.fail("%s: adding %lld to %s gives %s, its bucket is %s", k.name, (long long)v, before.str().c_str(), acc.str().c_str(), one.str().c_str());
        added.push_back(v);
        for (int64_t w : added) {
            put(d, w);
            if (!k.in(d.p, acc.p)) c.fail("%s: %lld was added but membership in %s is zero", k.name, (long long)w, acc.str().c_str());
        }
    }
    c.tag(k.name);
    c.tag("values inside the range", inside);
    c.tagIf(!hasMin && hasMax, "no minimum");
    c.tagIf(hasMin && !hasMax, "no maximum");
    if (inside > 0 && (hasMin || hasMax)) c.nontrivial();
}
Check pbt::theCheck = {"C15", "ranges and values concentrated at the bucket limits and the ends of the value range; non-trivial: a bounded range with at least one tested value inside it", run, 200000, 5000000};

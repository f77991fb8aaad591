#include "dbkit.hpp"
using namespace pbt;
// C27: bundled comparators.
template <typename T> static void one(Ctx &c, const char *name, int8_t (*cmp)(void *, void *)) {
    typedef __int128 W;
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    int off = (int)c.draw(4);
    auto gen = [&]() -> T {
        switch (c.weighted({3, 3, 2, 2, 2})) {
            case 0: return (T)c.range(-4, 4);
            case 1: return (T)c.raw64();
            case 2: return (T)((uint64_t)1 << c.draw(sizeof(T) * 8)) ;
            case 3: return c.chance(1, 2) ? (T)(hi - (T)c.draw(3)) : (T)(lo + (T)c.draw(3));
            default: return (T)((c.chance(1, 2) ? 1 : -1) * (int64_t)c.draw(1ull << c.range(1, sizeof(T) * 8 - 2)));
        }
    };
    T v[3];
    v[0] = gen();
    for (int i = 1; i < 3; i++) {
        switch (c.draw(4)) {
            case 0: v[i] = gen(); break;
            case 1: v[i] = v[i - 1]; break;
            case 2: v[i] = (T)((W)v[i - 1] ^ ((W)1 << c.draw(sizeof(T) * 8))); break;
            default: { W w = (W)v[i - 1] + c.range(-2, 2); v[i] = w < lo ? lo : w > hi ? hi : (T)w; }
        }
    }
    int r[3][3];
    bool ok[3][3];
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            W d = (W)v[i] - (W)v[j];
            ok[i][j] = d >= lo && d <= hi;
            if (!ok[i][j]) continue;
            // operands at the end of their memory, at any alignment
            uint8_t *pa = (uint8_t *)malloc(sizeof(T) + off), *pb = (uint8_t *)malloc(sizeof(T) + (off * 3) % 4);
            memcpy(pa + off, &v[i], sizeof(T));
            memcpy(pb + (off * 3) % 4, &v[j], sizeof(T));
            int8_t x = cmp(pa + off, pb + (off * 3) % 4);
            bool same = !memcmp(pa + off, &v[i], sizeof(T)) && !memcmp(pb + (off * 3) % 4, &v[j], sizeof(T));
            free(pa);
            free(pb);
            int want = v[i] < v[j] ? -1 : v[i] > v[j] ? 1 : 0;
            if (x != want) c.fail("%s(%lld, %lld) = %d", name, (long long)v[i], (long long)v[j], x);
            if (!same) c.fail("%s(%lld, %lld) changed an operand", name, (long long)v[i], (long long)v[j]);
            r[i][j] = x;
        }
    c.log("%s %lld %lld %lld", name, (long long)v[0], (long long)v[1], (long long)v[2]);
    c.tag(name);
    c.tagIf(ok[0][1] && sizeof(T) == 8 && r[0][1] && (int32_t)((uint64_t)v[0] - (uint64_t)v[1]) == 0, "64-bit values whose difference has zero low half");
    if (ok[0][1] && v[0] != v[1]) c.nontrivial();
}
static void run(Ctx &c) {
    if (c.chance(1, 2)) one<int32_t>(c, "int32Comparator", int32Comparator);
    else one<int64_t>(c, "int64Comparator", int64Comparator);
}
Check pbt::theCheck = {"C27", "triples of values, close together, far apart or one bit apart, at exact-size unaligned memory; non-trivial: two different values whose difference is representable were compared", run, 300000, 8000000};

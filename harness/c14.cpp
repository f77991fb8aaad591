#include "dbkit.hpp"
#ifndef DIST
extern "C" {
#include "spline.h"
}
#endif
using namespace pbt;
// C14: the spline's bounds contain the page of every key.
struct Pt { uint64_t k; uint32_t p; };
struct SplHolder { spline s; bool on = false; ~SplHolder() { if (on) splineClose(&s); } };
static void run(Ctx &c) {
    int ks = (int)c.pick({4, 8, 8, 2, 3, 5, 6, 7, 1});
    uint64_t kmax = ks == 8 ? ~0ull : (1ull << (8 * ks)) - 1;
    size_t size = (size_t)(c.chance(1, 2) ? c.range(4, 8) : c.range(4, 60));
    uint32_t err = (uint32_t)c.pick({1, 0, 2, 3, 8, 32, 1000, 5});
    int gapProf = (int)c.draw(7), pageProf = (int)c.draw(5);
    SplHolder hld;
    spline *s = &hld.s;
    memset(s, 0xA5, sizeof *s);
    splineInit(s, (id_t)size, err, (uint8_t)ks);
    hld.on = true;
    CmpFn cmp = keyCmp(ks);
    std::vector<Pt> a;  // since the model was last emptied
    c.log("keySize=%d size=%zu maxError=%u gaps %d pages %d", ks, size, err, gapProf, pageProf);
    auto keyAt = [&](size_t i) { uint64_t v = 0; memcpy(&v, splinePointLocation(s, i), ks); return v; };
    auto pageAt = [&](size_t i) { uint32_t v = 0; memcpy(&v, (uint8_t *)splinePointLocation(s, i) + ks, 4); return v; };
    int finds = 0, old = 0, erases = 0, between = 0;
    size_t maxCount = 0;
    bool dropped = false;  // points were erased, by the caller or for lack of space
    auto oldestKept = [&] {
        if (s->count + 1 >= size) dropped = true;
        if (!dropped && (keyAt(0) != a.front().k || pageAt(0) != a.front().p)) c.fail("no point was erased, yet the oldest point is key %llu instead of the first key %llu", (unsigned long long)keyAt(0), (unsigned long long)a.front().k);
    };
    auto exam = [&](size_t i, uint64_t k) {  // key k lies on the page of a[i]
        uint8_t kb[8];
        memcpy(kb, &k, 8);
        Bytes exact(kb, kb + ks);
        id_t loc = 0xDEADBEEF, lo = 0xDEADBEEF, hi = 0xDEADBEEF;
        splineFind(s, exact.data(), cmp, &loc, &lo, &hi);
        finds++;
        uint64_t oldest = keyAt(0);
        if (k < oldest) old++;
        if (!(lo <= loc && loc <= hi)) c.fail("estimate for key %llu: low %u, estimate %u, high %u are not in order (%zu points)", (unsigned long long)k, lo, loc, hi, s->count);
        if (a[i].k == k) {
            if (a[i].p < lo || a[i].p > hi) c.fail("key %llu was added with page %u, the bounds are [%u, %u], estimate %u (%zu points, oldest key %llu, maximum error %u)", (unsigned long long)k, a[i].p, lo, hi, loc, s->count, (unsigned long long)oldest, err);
        } else {
            between++;
            // between two added keys the estimate stays between what it is for them: it cannot leave their bounds
            uint32_t p0 = a[i].p, p1 = a[i + 1].p;
            if (hi < p0 || lo > p1) c.fail("key %llu between added keys of pages %u and %u has bounds [%u, %u]", (unsigned long long)k, p0, p1, lo, hi);
        }
    };
    // the key before the last one became a point: only because the last key is not inside the corridor of its segment
    size_t judged = 0;
    auto needed = [&] {
        size_t n = a.size();
        if (s->count < 3 || n < 3 || keyAt(s->count - 2) != a[n - 2].k) return;
        uint64_t from = keyAt(s->count - 3);
        size_t i = std::lower_bound(a.begin(), a.end(), from, [](const Pt &x, uint64_t v) { return x.k < v; }) - a.begin();
        if (i >= n - 2 || a[i].k != from || pageAt(s->count - 3) != a[i].p) c.fail("the point before the newest two is key %llu, page %u, which was never added like this", (unsigned long long)from, pageAt(s->count - 3));
        if (pageAt(s->count - 2) != a[n - 2].p) c.fail("the point of key %llu has page %u instead of %u", (unsigned long long)a[n - 2].k, pageAt(s->count - 2), a[n - 2].p);
        judged++;
        __int128 x = a[n - 1].k - a[i].k, y = (__int128)a[n - 1].p - a[i].p;
        for (size_t j = i + 1; j < n - 1; j++) {
            __int128 xj = a[j].k - a[i].k, up = (__int128)a[j].p + err - a[i].p, down = (__int128)(a[j].p < err ? 0 : a[j].p - err) - a[i].p;
            if (y * xj >= up * x || y * xj <= down * x) return;  // outside, or on its edge
        }
        c.fail("key %llu became a point although key %llu, page %u, is inside the error corridor of all %zu keys since the point of key %llu", (unsigned long long)a[n - 2].k, (unsigned long long)a[n - 1].k, a[n - 1].p, n - 2 - i, (unsigned long long)from);
    };
    int steps = 8 + (int)c.small(1, 220);
    uint64_t k = 0;
    uint32_t p = 0;
    bool over = false;
    int built = 0;
    if (c.chance(1, 8)) {  // the first keys come from an array
        size_t n = (size_t)c.small(1, 80);
        std::vector<Bytes> ks_;
        std::vector<void *> ptrs;
        for (size_t i = 0; i < n; i++) {
            uint64_t gap = i == 0 ? c.draw(20) : 1 + c.draw(1ull << c.range(0, gapProf * 5));
            if (gap > kmax - k) break;
            k += gap;
            uint8_t kb[8];
            memcpy(kb, &k, 8);
            ks_.push_back(Bytes(kb, kb + ks));
            a.push_back({k, (uint32_t)i});
        }
        for (auto &b : ks_) ptrs.push_back(b.data());
        p = (uint32_t)a.size() - 1;
        err = (uint32_t)c.pick({1, 0, 2, 3, 8, 32});
        ptrs.shrink_to_fit();
        splineBuild(s, ptrs.data(), (id_t)ptrs.size(), err);
        built = 1;
        c.log("build from %zu keys up to %llu, maximum error %u -> %zu points", a.size(), (unsigned long long)k, err, s->count);
        if (s->count > size) c.fail("the spline has %zu points of %zu allotted", s->count, size);
        if (s->count < 1 || keyAt(s->count - 1) != k) c.fail("the newest point is not the last key of the array");
        maxCount = std::max<size_t>(maxCount, s->count);
        oldestKept();
    }
    for (int st = 0; st < steps; st++) {
        int op = c.weighted({20, 6, 1});
        if (op == 0 || a.empty()) {
            int n = 1 + (int)c.draw(4);
            for (int j = 0; j < n; j++) {
                uint64_t gap = 1;
                switch (gapProf) {
                    case 0: gap = 1; break;
                    case 1: gap = 1 + c.draw(10); break;
                    case 2: gap = c.chance(1, 10) ? 1 + c.draw(100000) : 1 + c.draw(3); break;
                    case 3: gap = 1 + c.draw(1ull << 20); break;
                    case 4: gap = 1 + c.draw(1ull << c.range(1, 50)); break;
                    case 5: gap = 1 + c.draw(1ull << c.range(1, 60)); break;
                    case 6: gap = (1ull << 40) + c.draw(1000); break;
                }
                uint32_t pg = 1;
                switch (pageProf) {
                    case 0: pg = 1; break;
                    case 1: pg = (uint32_t)c.draw(3); break;
                    case 2: pg = (uint32_t)c.draw(50); break;
                    case 3: pg = c.chance(1, 8) ? (uint32_t)c.draw(2000) : 1; break;
                    case 4: pg = c.chance(1, 12) ? (uint32_t)c.draw(1u << 24) : 1 + (uint32_t)c.draw(2); break;
                }
                if (a.empty() && c.chance(1, 2)) { p = (uint32_t)c.draw(10000); k = c.draw(std::min<uint64_t>(kmax, 1ull << 40) / 2 + 1); gap = 0; pg = 0; }
                if (gap > kmax - k || p + (uint64_t)pg > 2000000000u) { over = true; break; }
                k += gap;
                p += pg;
                uint8_t kb[8];
                memcpy(kb, &k, 8);
                Bytes exact(kb, kb + ks);
                uint64_t first = s->count ? keyAt(0) : 0;
                bool had = s->count > 0;
                splineAdd(s, exact.data(), p);
                a.push_back({k, p});
                if (had && keyAt(0) != first && s->count + 1 < size) c.fail("adding a key dropped the oldest point and left %zu points of %zu allotted", s->count, size);
                c.log("add %llu page %u -> %zu points", (unsigned long long)k, p, s->count);
                if (s->count > size) c.fail("the spline has %zu points of %zu allotted", s->count, size);
                if (s->count < 1 || keyAt(s->count - 1) != k) c.fail("the newest point is not the key added last");
                maxCount = std::max<size_t>(maxCount, s->count);
                oldestKept();
                needed();
            }
            if (over) break;
        } else if (op == 1) {
            int n = 1 + (int)c.draw(6);
            for (int j = 0; j < n; j++) {
                size_t i = c.chance(1, 3) ? a.size() - 1 - c.draw(std::min<size_t>(a.size(), 6)) : c.draw(a.size());
                uint64_t q = a[i].k;
                if (c.chance(1, 3) && i + 1 < a.size() && a[i + 1].k - a[i].k > 1) q += 1 + c.draw(a[i + 1].k - a[i].k - 1);
                exam(i, q);
            }
        } else {
            uint32_t n = (uint32_t)(c.chance(1, 5) ? c.draw(size + 3) : c.draw(4));
            size_t cnt = s->count;
            std::vector<Pt> pts;
            for (size_t i = 0; i < cnt; i++) pts.push_back({keyAt(i), pageAt(i)});
            int x = splineErase(s, n);
            erases++;
            c.log("erase %u of %zu points -> %d, %zu points", n, cnt, x, s->count);
            size_t gone = x == 0 ? n : 0;
            if (s->count != cnt - gone) c.fail("erasing %u of %zu points returned %d and left %zu", n, cnt, x, s->count);
            if (n > cnt && x == 0) c.fail("erasing %u of %zu points was accepted", n, cnt);
            if (cnt >= n + 2 && x != 0) c.fail("erasing %u of %zu points was refused", n, cnt);
            for (size_t i = 0; i < s->count; i++)
                if (keyAt(i) != pts[i + gone].k || pageAt(i) != pts[i + gone].p) c.fail("after erasing %u points point %zu is key %llu, it should be key %llu", n, i, (unsigned long long)keyAt(i), (unsigned long long)pts[i + gone].k);
            if (gone) dropped = true;
            if (s->count == 0) a.clear(), dropped = false;  // the next key starts a new model
        }
    }
    if (!a.empty()) {
        size_t stride = 1 + a.size() / 150;
        for (size_t i = 0; i < a.size(); i += stride) exam(i, a[i].k);
        exam(a.size() - 1, a.back().k);
    }
    if (splineSize(s) != sizeof(spline) + size * (ks + 4)) c.fail("the size of a spline of %zu points with keys of %d bytes is reported as %u", size, ks, splineSize(s));
    c.tagIf(built, "built from an array of keys");
    c.tag("estimates", finds);
    c.tag("estimates of keys older than the model", old);
    c.tag("estimates between added keys", between);
    c.tag("points at most", maxCount);
    c.tag("points that were needed", judged);
    c.tag("erases", erases);
    c.tagIf(maxCount >= size, "allotted points used up");
    if (a.size() > 4 && maxCount > 2) c.nontrivial();
}
Check pbt::theCheck = {"C14", "sequences of additions, estimates and erasures with key gaps from 1 to 2^60; non-trivial: more than four keys were added and the model needed more than one segment", run, 100000, 2000000};

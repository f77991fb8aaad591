// Configuration generator, database wrapper and history model shared by the database checks.
#pragma once
#include "storage.hpp"
#include <memory>
#ifndef DIST
extern "C" {
#include "embedDBUtility.h"
}
#endif
#undef max
#undef min

// ---------------------------------------------------------------- callbacks supplied by the "application"
template <int N>
inline uint64_t leU(const void *p) {
    uint64_t v = 0;
    memcpy(&v, p, N);
    return v;
}
template <int N>
inline int64_t leS(const void *p) {
    uint64_t v = leU<N>(p);
    if (N < 8 && (v >> (8 * N - 1) & 1)) v |= ~0ull << (8 * N % 64);
    return (int64_t)v;
}
template <int N>
int8_t ucmp(void *a, void *b) {
    uint64_t x = leU<N>(a), y = leU<N>(b);
    return x < y ? -1 : x > y ? 1 : 0;
}
template <int N>
int8_t scmp(void *a, void *b) {
    int64_t x = leS<N>(a), y = leS<N>(b);
    return x < y ? -1 : x > y ? 1 : 0;
}
// application bitmaps: VN bytes of signed value, BS bytes of bitmap, monotone buckets
template <int VN, int BS>
struct AppBitmap {
    static int bucket(int64_t v) {
        int64_t b = (v + 60) / 9;
        if (v < -60) b = 0;
        if (b >= 8 * BS) b = 8 * BS - 1;
        return (int)b;
    }
    static void update(void *data, void *bm) {
        int b = bucket(leS<VN>(data));
        ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << b % 8);
    }
    static int8_t in(void *data, void *bm) {
        int b = bucket(leS<VN>(data));
        return ((uint8_t *)bm)[b / 8] >> b % 8 & 1;
    }
    static void build(void *mn, void *mx, void *bm) {
        int lo = mn ? bucket(leS<VN>(mn)) : 0, hi = mx ? bucket(leS<VN>(mx)) : 8 * BS - 1;
        for (int b = 0; b < 8 * BS; b++)
            if (b >= lo && b <= hi) ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << b % 8);
            else ((uint8_t *)bm)[b / 8] &= (uint8_t) ~(1 << b % 8);
    }
};

typedef int8_t (*CmpFn)(void *, void *);
inline CmpFn keyCmp(int n) {
    switch (n) {
        case 1: return ucmp<1>;
        case 2: return ucmp<2>;
        case 3: return ucmp<3>;
        case 4: return ucmp<4>;
        case 5: return ucmp<5>;
        case 6: return ucmp<6>;
        case 7: return ucmp<7>;
        default: return ucmp<8>;
    }
}

// ---------------------------------------------------------------- configuration
struct Cfg {
    int keySize = 4, dataSize = 4, pageSize = 512, eraseSize = 2;
    uint32_t numData = 8, numIndex = 4, numVar = 8;
    bool index = false, bmap = false, maxmin = false, sum = false, var = false, rlc = false, binary = false, noclean = false;
    int bitmapKind = 0;  // 0..2 bundled Int8/16/64, 3.. application
    int bitmapSize = 1;
    int valBytes = 4;   // bytes of the data that form the compared value
    bool libKeyCmp = false, libDataCmp = false;
    int splinePts = 8;
    uint32_t maxErr = 1;
    int bufBlocks = 6;
    int eraseFill = -1;
    bool flash = false;
    uint8_t bufFill = 0;
    int keyProfile = 0;
    uint64_t keyStart = 0, keyMax = ~0ull;
    int dataProfile = 0;
    // comparators and bitmap functions of the application's own (C38)
    int order = 0;        // 0 signed numbers, 1 descending, 2 without the lowest two bits, 3 floating point, 4 unsigned, 5 bytes from the first to the last
    bool loud = false;    // results other than -1, 0 and 1
    bool hashBm = false;  // bitmaps without an order
    bool own() const { return order || loud || hashBm; }
    bool longValues = false;  // room for values beyond 64 KiB
    bool allFiles = false;  // the state names every file, also one the parameters do not ask for
    bool noDataFile = false, noIndexFile = false, noVarFile = false;  // (invalid) configurations without the file

    // an erased page of a mock file (every byte 1) carries no mark: the page number it spells must not by chance be that of a page recovery starts at
    void settle() {
        for (uint32_t n : {numData, numIndex, numVar})
            if (eraseFill == 1 && (0x01010101u % n <= 1 || 0x01010101u % n == (uint32_t)eraseSize)) eraseFill = 0xFF;
    }
    int header() const {
        int h = 6;
        if (index || bmap) h += bitmapSize;
        if (maxmin) h = 14 + 2 * keySize + 2 * dataSize;
        return h;
    }
    int recordSize() const { return keySize + dataSize + (var ? 4 : 0); }
    int flags(bool reset) const {
        int f = 0;
        if (index) f |= EMBEDDB_USE_INDEX;
        if (bmap) f |= EMBEDDB_USE_BMAP;
        if (maxmin) f |= EMBEDDB_USE_MAX_MIN;
        if (sum) f |= EMBEDDB_USE_SUM;
        if (var) f |= EMBEDDB_USE_VDATA;
        if (rlc) f |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
        if (binary) f |= EMBEDDB_USE_BINARY_SEARCH;
        if (noclean) f |= EMBEDDB_DISABLE_SPLINE_CLEAN;
        if (reset) f |= EMBEDDB_RESET_DATA;
        return f;
    }
    int64_t value(const Bytes &d) const { return value(d.data()); }
    int64_t value(const uint8_t *d) const {
        uint64_t v = 0;
        if (!valBytes) return 0;  // records of keys alone
        memcpy(&v, d, valBytes);
        if (order == 3 && valBytes == 4) { float x; memcpy(&x, d, 4); return (int64_t)(x * 4); }
        if (order == 3 && valBytes == 8) { double x; memcpy(&x, d, 8); return (int64_t)(x * 4); }
        if (order == 4) return (int64_t)v;
        if (order == 5) {
            v = 0;
            for (int i = 0; i < valBytes; i++) v = v << 8 | d[i];
            return (int64_t)(v - (1ull << (8 * valBytes - 1)));
        }
        if (valBytes < 8 && (v >> (8 * valBytes - 1) & 1)) v |= ~0ull << (8 * valBytes);
        if (order == 1) return (int64_t)~v;
        if (order == 2) return (int64_t)v >> 2;
        return (int64_t)v;
    }
    // bytes that have the value v
    uint64_t stored(int64_t v, uint64_t filler) const {
        uint64_t u = (uint64_t)v;
        if (order == 1) return ~u;
        if (order == 2) return u << 2 | (filler >> 7 & 3);
        if (order == 3 && valBytes == 4) { float x = (float)v / 4; uint32_t b; memcpy(&b, &x, 4); return b; }
        if (order == 3 && valBytes == 8) { double x = (double)v / 4; memcpy(&u, &x, 8); return u; }
        if (order == 4) return valBytes == 8 ? u & ~0ull >> 1 : u;
        if (order == 5) return __builtin_bswap64(u + (1ull << (8 * valBytes - 1))) >> (64 - 8 * valBytes);
        return u;
    }
    std::string str() const {
        char b[600];
        snprintf(b, sizeof b, "keySize=%d dataSize=%d pageSize=%d erase=%d data=%u%s%s%s%s%s%s%s buffers=%d %s pts=%d err=%u eraseFill=%d%s keyProfile=%d", keySize, dataSize, pageSize, eraseSize, numData,
                 index ? (" INDEX(" + std::to_string(numIndex) + ")").c_str() : "", bmap ? (" BMAP(kind " + std::to_string(bitmapKind) + ", " + std::to_string(bitmapSize) + ")").c_str() : "", maxmin ? " MAXMIN" : "", sum ? " SUM" : "",
                 var ? (" VDATA(" + std::to_string(numVar) + ")").c_str() : "", rlc ? " RLC" : "", noclean ? " NOCLEAN" : "", bufBlocks, binary ? "binary" : "spline", splinePts, maxErr, eraseFill, flash ? " flash" : "", keyProfile);
        return b;
    }
};

struct GenOpts {
    int var = 1, rlc = 1, index = 1, binary = 1, maxmin = 1;  // 0 never, 1 sometimes, 2 always
    bool erasing = true;   // vary erase behaviour
    bool bigPages = true;  // sometimes many records per page
    bool anyKeys = true;
    bool noData = true;    // sometimes records of keys alone
    int maxBlocks = 7;
};

inline bool opt(pbt::Ctx &c, int o, int num, int den) { return o == 2 || (o == 1 && c.chance(num, den)); }

inline Cfg genCfg(pbt::Ctx &c, const GenOpts &g) {
    Cfg f;
    f.keySize = c.weighted({5, 2, 3, 1, 1, 1, 1, 1});
    static const int ks[] = {4, 8, 4, 2, 3, 5, 6, 7};
    f.keySize = ks[f.keySize];
    if (g.anyKeys && c.chance(1, 25)) f.keySize = 1;
    f.index = opt(c, g.index, 1, 2);
    f.bmap = f.index ? !c.chance(1, 6) : (g.index == 1 && c.chance(1, 10));
    if (g.index == 2) f.bmap = true;
    f.maxmin = opt(c, g.maxmin, 1, 6);
    f.sum = c.chance(1, 20);
    f.var = opt(c, g.var, 1, 3);
    f.rlc = opt(c, g.rlc, 1, 4);
    f.binary = opt(c, g.binary, 1, 4);
    f.noclean = c.chance(1, 6);
    // data: value bytes first
    switch (c.weighted({4, 2, 1, 1, 2})) {
        case 0: f.dataSize = (int)c.pick({4, 8, 12, 16}); break;
        case 1: f.dataSize = 2; break;
        case 2: f.dataSize = 1; break;
        case 3: f.dataSize = 3; break;
        default: f.dataSize = (int)c.range(1, 40); break;
    }
    if (c.chance(1, 40)) f.dataSize = (int)c.range(41, 100);
    if (f.maxmin && f.dataSize > 44) f.dataSize = 44;  // the header must stay within 127 bytes
    f.bitmapKind = (int)c.draw(6);
    if (f.bitmapKind == 0 && f.dataSize < 2) f.bitmapKind = 3;
    if ((f.bitmapKind == 1 || f.bitmapKind == 2) && f.dataSize < 4) f.bitmapKind = 3;
    int vb[] = {8, 4, 2, 1};
    switch (f.bitmapKind) {
        case 0: f.bitmapSize = 1; f.valBytes = 2; break;
        case 1: f.bitmapSize = 2; f.valBytes = 4; break;
        case 2: f.bitmapSize = 8; f.valBytes = 4; break;
        case 3: f.bitmapSize = 1; break;
        case 4: f.bitmapSize = 3; break;
        default: f.bitmapSize = 8; break;
    }
    if (f.bitmapKind >= 3) {
        int k = (int)c.draw(4);
        while (k < 3 && vb[k] > f.dataSize) k++;
        f.valBytes = vb[k];
    }
    f.libDataCmp = f.valBytes == 4 && c.chance(1, 2);
    if (g.noData && !f.index && !f.bmap && !f.maxmin && c.chance(1, 20)) { f.dataSize = 0; f.valBytes = 0; f.libDataCmp = false; }
    f.eraseSize = (int)c.pick({2, 4, 3, 1, 2, 5, 8});
    int minBlocks = (f.index ? 4 : 2);
    if (f.rlc) minBlocks = 4;
    f.numData = f.eraseSize * (uint32_t)c.range(minBlocks, g.maxBlocks);
    f.numIndex = f.eraseSize * (uint32_t)c.range(2, 4);
    f.numVar = f.eraseSize * (uint32_t)c.range(2, 8);
    // page geometry: choose records per page, then the page size
    int minPage = f.header() + f.recordSize();
    if (f.index) minPage = std::max(minPage, 16 + f.bitmapSize);
    int recs;
    switch (c.weighted({4, 3, 2, 1, 1})) {
        case 0: recs = (int)c.range(2, 6); break;
        case 1: recs = (int)c.range(3, 20); break;
        case 2: recs = 1; break;
        case 3: recs = (int)c.range(20, 70); break;
        default: recs = g.bigPages ? (int)c.range(100, 300) : (int)c.range(2, 30); break;
    }
    int size = f.header() + recs * f.recordSize() + (int)c.draw(std::min(f.recordSize(), 12));
    if (c.chance(1, 8)) size = (int)c.pick({512, 264, 256, 528, 1024});
    size = std::max(size, minPage);
    size += size & 1;
    f.pageSize = size;
    f.libKeyCmp = (f.keySize == 4 || f.keySize == 8) && c.chance(1, 2);
    f.keyMax = f.keySize == 8 ? ~0ull : (1ull << (8 * f.keySize)) - 1;
    if (f.libKeyCmp) f.keyMax >>= 1;
    if (f.keySize == 8 && f.libKeyCmp) f.keyMax = (1ull << 62) - 1;
    if (f.var) f.keyMax--;  // the largest key value is reserved: the limit of erased variable data is kept as a key plus one
    f.splinePts = (int)c.pick({8, 4, 5, 6, 12, 30, 120});
    f.maxErr = (uint32_t)c.pick({1, 0, 2, 4, 8, 16});
    int need = 2;
    if (f.index) need = 4;
    if (f.var) need += 2;
    f.bufBlocks = need + (c.chance(1, 6) ? 1 : 0);
    if (g.erasing) {
        f.eraseFill = (int)c.pick({-1, 1, 0xFF, 0});
        f.settle();
        // a variable data page of zeros is a page holding the value of key 0: storage that erases to 0 cannot tell them apart
        if (f.eraseFill == 0 && f.var) f.eraseFill = 0xFF;
        f.flash = f.eraseFill >= 0 && c.chance(1, 3);
    }
    f.bufFill = (uint8_t)c.pick({0, 0xFF, 0xA5});
    f.keyProfile = (int)c.draw(6);
    f.keyStart = c.chance(1, 2) ? 0 : c.draw(std::min<uint64_t>(f.keyMax / 2, 1000000) + 1);
    if (c.chance(1, 10)) f.keyStart = f.keyMax / 2 + c.draw(100);
    if (c.chance(1, 20)) f.keyStart = f.keyMax - std::min<uint64_t>(f.keyMax, c.draw(4000));
    f.dataProfile = (int)c.draw(4);
    f.allFiles = c.chance(1, 4);
    return f;
}

// makes the configuration one with comparators and bitmap functions of the application's own
inline void ownFunctions(pbt::Ctx &c, Cfg &cfg) {
    cfg.libKeyCmp = cfg.libDataCmp = false;
    cfg.loud = c.chance(2, 3);
    cfg.hashBm = (cfg.index || cfg.bmap) && c.chance(1, 3);
    cfg.order = cfg.valBytes ? (int)c.draw(6) : 0;
    if (cfg.order == 3 && cfg.valBytes < 4) cfg.order = 5;
    if (!cfg.order && !cfg.hashBm) cfg.loud = true;
    c.log("own functions: order %d%s%s", cfg.order, cfg.loud ? ", results of any size" : "", cfg.hashBm ? ", hashing bitmaps" : "");
}
// these for the configuration in gOwn
inline Cfg gOwn;
inline int8_t ownSign(int s, uint64_t h) {
    PBT_YIELD();
    if (!gOwn.loud || !s) return (int8_t)s;
    h = h * 0x9E3779B97F4A7C15ull >> 40;
    return (int8_t)(s > 0 ? 1 + h % 127 : -1 - (int)(h % 128));
}
template <int N>
int8_t ownKeyCmp(void *a, void *b) {
    uint64_t x = leU<N>(a), y = leU<N>(b);
    return ownSign(x < y ? -1 : x > y, x ^ y << 20);
}
inline int8_t ownDataCmp(void *a, void *b) {
    int64_t x = gOwn.value((uint8_t *)a), y = gOwn.value((uint8_t *)b);
    return ownSign(x < y ? -1 : x > y, (uint64_t)x ^ (uint64_t)y << 20);
}
inline int ownBucket(int64_t v) {
    int bits = 8 * gOwn.bitmapSize;
    if (gOwn.hashBm) return (int)(((uint64_t)v * 0x9E3779B97F4A7C15ull >> 33) % bits);
    int64_t b = v < -60 ? 0 : v > 100000 ? bits : (v + 60) / 9;
    return (int)std::min<int64_t>(b, bits - 1);
}
inline void ownUpdate(void *data, void *bm) {
    int b = ownBucket(gOwn.value((uint8_t *)data));
    ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << b % 8);
}
inline int8_t ownIn(void *data, void *bm) {
    int b = ownBucket(gOwn.value((uint8_t *)data));
    if (!(((uint8_t *)bm)[b / 8] >> b % 8 & 1)) return 0;
    return gOwn.loud ? -7 : 1;
}
inline void ownBuild(void *mn, void *mx, void *bm) {
    int64_t lo = mn ? gOwn.value((uint8_t *)mn) : 0, hi = mx ? gOwn.value((uint8_t *)mx) : 0;
    int bits = 8 * gOwn.bitmapSize;
    memset(bm, 0, gOwn.bitmapSize);
    if (!gOwn.hashBm) {
        int from = mn ? ownBucket(lo) : 0, to = mx ? ownBucket(hi) : bits - 1;
        for (int b = from; b <= to; b++) ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << b % 8);
    } else if (mn && mx && hi >= lo && (uint64_t)hi - (uint64_t)lo < 40) {
        for (int64_t v = lo; v <= hi; v++) { int b = ownBucket(v); ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << b % 8); }
    } else memset(bm, 0xFF, gOwn.bitmapSize);
}

// next key after cur (cur valid only if has); returns false when the key space is exhausted
inline bool nextKey(pbt::Ctx &c, const Cfg &f, bool has, uint64_t cur, uint64_t &out) {
    if (!has) { out = std::min(f.keyStart, f.keyMax); return true; }
    if (cur >= f.keyMax) return false;
    uint64_t room = f.keyMax - cur, gap = 1;
    switch (f.keyProfile) {
        case 0: gap = 1; break;
        case 1: gap = 10; break;
        case 2: gap = 1 + c.draw(5); break;
        case 3: gap = c.chance(1, 12) ? 1 + c.draw(5000) : 1 + c.draw(2); break;
        case 4: gap = 1 + c.draw(1000); break;
        default: gap = c.chance(1, 40) ? 1 + c.draw(1ull << c.range(8, 40)) : 1 + c.draw(30); break;
    }
    if (f.keySize <= 2 && gap > 40) gap = 40;
    if (f.keySize == 1) gap = 1;
    if (gap > room) gap = 1;
    out = cur + gap;
    return true;
}

inline int64_t genValue(pbt::Ctx &c, const Cfg &f) {
    int64_t v;
    switch (f.dataProfile) {
        case 0: v = c.range(0, 120); break;
        case 1: v = c.range(300, 1000); break;
        case 2: v = c.range(-100, 900); break;
        default: v = c.chance(1, 10) ? c.range(-30000, 30000) : c.range(-20, 40); break;
    }
    if (f.valBytes == 1) v = (int8_t)v;
    if (f.valBytes == 2) v = (int16_t)v;
    return v;
}

inline Bytes encodeValue(const Cfg &f, int64_t v, uint64_t filler) {
    Bytes d(f.dataSize);
    uint64_t u = f.valBytes ? f.stored(v, filler) : 0;
    for (int i = 0; i < f.dataSize; i++) {
        if (i < f.valBytes) d[i] = (uint8_t)(u >> (8 * i));
        else { d[i] = (uint8_t)(filler >> (8 * (i & 7))) + (uint8_t)(i * 37); }
    }
    return d;
}

// ---------------------------------------------------------------- database under test
struct Row {
    uint64_t key;
    Bytes data;
};

inline uint8_t gJunk = 0xA5;  // what memory holds before the library or the application sets it
struct Db {
    Cfg cfg;
    Device own;
    Device *dev;
    PageFile fd, fi, fv;
    embedDBFileInterface *iface;
    embedDBState *st = nullptr;
    uint8_t *buffer = nullptr;
    bool opened = false;
    uint64_t budget = 60000;
    uint8_t *extBuffer = nullptr;  // page buffers placed by the check

    explicit Db(const Cfg &c) : cfg(c) {
        dev = &own;
        own.eraseFill = cfg.eraseFill;
        own.flash = cfg.flash;
        setup(fd, 0, "data", cfg.numData);
        setup(fi, 1, "index", cfg.numIndex);
        setup(fv, 2, "variable", cfg.numVar);
        iface = (embedDBFileInterface *)malloc(sizeof *iface);
        fillInterface(iface);
    }
    void setup(PageFile &f, int idx, const char *name, uint32_t n) {
        f.dev = dev;
        f.idx = idx;
        f.name = name;
        f.numPages = n;
        f.eraseSize = cfg.eraseSize;
        f.im.pageSize = cfg.pageSize;
        dev->files.push_back(&f);
    }
    Db(const Db &) = delete;
    ~Db() {
        abandon();
        free(iface);
    }
    PageFile &file(int i) { return i == 0 ? fd : i == 1 ? fi : fv; }

    int open(bool reset) {
        st = (embedDBState *)malloc(sizeof *st);
        memset(st, gJunk, sizeof *st);  // fields the application does not set hold garbage
        buffer = extBuffer;
        if (!buffer) {
            buffer = (uint8_t *)malloc((size_t)cfg.bufBlocks * cfg.pageSize);
            memset(buffer, gJunk == 0xA5 ? cfg.bufFill : gJunk, (size_t)cfg.bufBlocks * cfg.pageSize);
        }
        st->keySize = cfg.keySize;
        st->dataSize = cfg.dataSize;
        st->pageSize = cfg.pageSize;
        st->bufferSizeInBlocks = cfg.bufBlocks;
        st->numSplinePoints = cfg.splinePts;
        st->buffer = buffer;
        st->fileInterface = iface;
        st->dataFile = cfg.noDataFile ? nullptr : &fd;
        st->indexFile = (cfg.index || cfg.allFiles) && !cfg.noIndexFile ? &fi : nullptr;
        st->varFile = (cfg.var || cfg.allFiles) && !cfg.noVarFile ? &fv : nullptr;
        st->numDataPages = cfg.numData;
        st->numIndexPages = cfg.numIndex;
        st->numVarPages = cfg.numVar;
        st->eraseSizeInPages = cfg.eraseSize;
        st->parameters = (int16_t)cfg.flags(reset);
        st->bitmapSize = cfg.bitmapSize;
        st->compareKey = cfg.libKeyCmp ? (cfg.keySize == 4 ? int32Comparator : int64Comparator) : keyCmp(cfg.keySize);
        st->compareData = cfg.libDataCmp ? int32Comparator : cfg.valBytes == 1 ? scmp<1> : cfg.valBytes == 2 ? scmp<2> : cfg.valBytes == 4 ? scmp<4> : scmp<8>;
        if (cfg.index || cfg.bmap) {
#define APPBM(V, B) { st->updateBitmap = AppBitmap<V, B>::update; st->inBitmap = AppBitmap<V, B>::in; st->buildBitmapFromRange = AppBitmap<V, B>::build; }
#define APPBMV(B) { if (cfg.valBytes == 1) APPBM(1, B) else if (cfg.valBytes == 2) APPBM(2, B) else if (cfg.valBytes == 4) APPBM(4, B) else APPBM(8, B) }
            if (cfg.bitmapKind == 0) { st->updateBitmap = updateBitmapInt8; st->inBitmap = inBitmapInt8; st->buildBitmapFromRange = buildBitmapInt8FromRange; }
            else if (cfg.bitmapKind == 1) { st->updateBitmap = updateBitmapInt16; st->inBitmap = inBitmapInt16; st->buildBitmapFromRange = buildBitmapInt16FromRange; }
            else if (cfg.bitmapKind == 2) { st->updateBitmap = updateBitmapInt64; st->inBitmap = inBitmapInt64; st->buildBitmapFromRange = buildBitmapInt64FromRange; }
            else if (cfg.bitmapSize == 1) APPBMV(1)
            else if (cfg.bitmapSize == 3) APPBMV(3)
            else APPBMV(8)
        }
        if (cfg.own()) {
            gOwn = cfg;
            static const CmpFn k[] = {ownKeyCmp<1>, ownKeyCmp<2>, ownKeyCmp<3>, ownKeyCmp<4>, ownKeyCmp<5>, ownKeyCmp<6>, ownKeyCmp<7>, ownKeyCmp<8>};
            st->compareKey = k[cfg.keySize - 1];
            st->compareData = ownDataCmp;
            if (cfg.index || cfg.bmap) { st->updateBitmap = ownUpdate; st->inBitmap = ownIn; st->buildBitmapFromRange = ownBuild; }
        }
        dev->budget(budget);
        dev->readSlack = 1;  // recovery looks one page past a full file to find its end
        int r = embedDBInit(st, cfg.maxErr);
        dev->readSlack = 0;
        opened = r == 0;
        return r;
    }
    void close() {  // orderly close
        dev->budget(budget);
        embedDBClose(st);
        opened = false;
        release();
    }
    void release() {
        free(st);
        if (!extBuffer) free(buffer);
        st = nullptr;
        buffer = nullptr;
    }
    // the process is gone: nothing more reaches storage
    void abandon() {
        if (!st) return;
        if (opened) {
            bool l = dev->logging;
            dev->logging = false;
            dev->faults = false;
            dev->budget(budget);
            embedDBClose(st);
            dev->logging = l;
        }
        opened = false;
        fd.isOpen = fi.isOpen = fv.isOpen = false;
        release();
    }
    Bytes keyBytes(uint64_t k) const {
        Bytes b(cfg.keySize);
        memcpy(b.data(), &k, cfg.keySize);
        return b;
    }
    uint64_t keyVal(const uint8_t *p) const {
        uint64_t k = 0;
        memcpy(&k, p, cfg.keySize);
        return k;
    }
    int put(uint64_t k, const Bytes &d) {
        Bytes kb = keyBytes(k), db = d;
        dev->budget(budget);
        return embedDBPut(st, kb.data(), db.data());
    }
    int putVar(uint64_t k, const Bytes &d, const Bytes *v) {
        Bytes kb = keyBytes(k), db = d;
        uint8_t dummy = 0;
        Bytes vb = v ? *v : Bytes();
        dev->budget(budget);
        return embedDBPutVar(st, kb.data(), db.data(), v ? (vb.empty() ? (void *)&dummy : (void *)vb.data()) : nullptr, v ? (uint32_t)v->size() : 0);
    }
    int get(uint64_t k, Bytes &d) {
        Bytes kb = keyBytes(k);
        d.assign(cfg.dataSize, 0xEE);
        dev->budget(budget);
        return embedDBGet(st, kb.data(), d.data());
    }
    int flush() {
        dev->budget(budget);
        return embedDBFlush(st);
    }
};

struct Filter {
    bool hasMinK = false, hasMaxK = false, hasMinD = false, hasMaxD = false;
    uint64_t minK = 0, maxK = 0;
    int64_t minD = 0, maxD = 0;
    bool match(uint64_t k, int64_t v) const {
        return (!hasMinK || k >= minK) && (!hasMaxK || k <= maxK) && (!hasMinD || v >= minD) && (!hasMaxD || v <= maxD);
    }
    std::string str() const {
        std::string s = "[";
        if (hasMinK) s += " key>=" + std::to_string(minK);
        if (hasMaxK) s += " key<=" + std::to_string(maxK);
        if (hasMinD) s += " data>=" + std::to_string(minD);
        if (hasMaxD) s += " data<=" + std::to_string(maxD);
        return s + " ]";
    }
};

// an open iterator with the memory its filters live in
struct Cursor {
    Db &db;
    Filter f;
    Bytes mk, xk, md, xd;
    embedDBIterator it;
    bool open = false;
    Cursor(Db &d, const Filter &fl) : db(d), f(fl) {
        memset(&it, gJunk, sizeof it);
        it.minKey = it.maxKey = it.minData = it.maxData = nullptr;
        if (f.hasMinK) { mk = db.keyBytes(f.minK); it.minKey = mk.data(); }
        if (f.hasMaxK) { xk = db.keyBytes(f.maxK); it.maxKey = xk.data(); }
        if (f.hasMinD) { md = encodeValue(db.cfg, f.minD, 0x1122334455667788ull); it.minData = md.data(); }
        if (f.hasMaxD) { xd = encodeValue(db.cfg, f.maxD, 0x8877665544332211ull); it.maxData = xd.data(); }
        db.dev->budget(db.budget);
        embedDBInitIterator(db.st, &it);
        open = true;
    }
    Cursor(const Cursor &) = delete;
    ~Cursor() { close(); }
    void close() {
        if (open) embedDBCloseIterator(&it);
        open = false;
    }
    bool next(Row &r) {
        Bytes k(db.cfg.keySize);
        r.data.assign(db.cfg.dataSize, 0xEE);
        db.dev->budget(db.budget);
        int8_t x = embedDBNext(db.st, &it, k.data(), r.data.data());
        r.key = db.keyVal(k.data());
        return x != 0;
    }
    bool nextVar(Row &r, embedDBVarDataStream **s) {
        Bytes k(db.cfg.keySize);
        r.data.assign(db.cfg.dataSize, 0xEE);
        *s = nullptr;
        db.dev->budget(db.budget);
        int8_t x = embedDBNextVar(db.st, &it, k.data(), r.data.data(), s);
        r.key = db.keyVal(k.data());
        return x != 0;
    }
};

inline std::vector<Row> scanAll(pbt::Ctx &c, Db &db, const Filter &f, size_t limit) {
    uint64_t failed = db.dev->faultsHitRead;
    Cursor cur(db, f);
    std::vector<Row> rows;
    Row r;
    while (cur.next(r)) {
        rows.push_back(r);
        if (rows.size() > limit) c.fail("a scan %s returned more than the %zu records ever inserted", f.str().c_str(), limit);
    }
    // the end is reported again and again; a scan that ended because a read failed may be retried
    if (db.dev->faultsHitRead == failed && cur.next(r)) c.fail("a scan %s returned a record (key %llu) after reporting its end", f.str().c_str(), (unsigned long long)r.key);
    return rows;
}

// ---------------------------------------------------------------- history model
struct Rec {
    uint64_t key;
    Bytes data;
    int64_t val = 0;
    bool hasVar = false;
    Bytes var;
    uint32_t page = 0;          // number of the data page the record belongs to
    uint64_t varWritesBefore = 0;  // pages written to the variable file before the insert began
};

struct Model {
    const Cfg *cfg;
    std::vector<Rec> h;
    uint32_t maxRec = 1;
    uint32_t curPage = 0, curCount = 0;  // page being filled
    void init(const Cfg *c, uint32_t mr) { cfg = c; maxRec = mr; }
    bool has() const { return !h.empty(); }
    uint64_t last() const { return h.back().key; }
    // called for an accepted insert
    void add(const Rec &r) {
        if (curCount >= maxRec) { curPage++; curCount = 0; }
        h.push_back(r);
        h.back().page = curPage;
        curCount++;
    }
    void flushed() {
        if (curCount > 0) { curPage++; curCount = 0; }
    }
    // pages written so far (a full page is written by the next insert or flush)
    uint32_t written() const { return curPage; }
    // every record of page >= this must be retained
    uint32_t firstRequiredPage() const {
        uint32_t keep = cfg->numData - cfg->eraseSize - (cfg->rlc ? 2 * cfg->eraseSize : 0);
        return curPage > keep ? curPage - keep : 0;
    }
    size_t firstRequired() const {
        uint32_t p = firstRequiredPage();
        size_t lo = 0, hi = h.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (h[m].page < p) lo = m + 1;
            else hi = m;
        }
        return lo;
    }
    // index of a key in the history, or -1
    long find(uint64_t k) const {
        size_t lo = 0, hi = h.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (h[m].key < k) lo = m + 1;
            else hi = m;
        }
        return lo < h.size() && h[lo].key == k ? (long)lo : -1;
    }
};

inline std::string hex(const Bytes &b, size_t n = 24) {
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < n; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if (b.size() > n) s += "..";
    return s;
}

// full scan: must be a contiguous newest part of the history with exact contents; returns the index of its first record
inline size_t checkSuffix(pbt::Ctx &c, Db &db, const Model &m, const char *when) {
    std::vector<Row> rows = scanAll(c, db, Filter(), m.h.size());
    size_t n = rows.size(), off = m.h.size() - n;
    for (size_t i = 0; i < n; i++) {
        const Rec &e = m.h[off + i];
        if (rows[i].key != e.key) {
            long w = m.find(rows[i].key);
            c.fail("%s: a full scan returned %zu of %zu inserted records, but record %zu of the scan has key %llu (%s) where the newest %zu records of the history require key %llu", when, n, m.h.size(), i, (unsigned long long)rows[i].key, w < 0 ? "never inserted" : "inserted elsewhere", n, (unsigned long long)e.key);
        }
        if (rows[i].data != e.data) c.fail("%s: a full scan returned data %s for key %llu, inserted was %s", when, hex(rows[i].data).c_str(), (unsigned long long)e.key, hex(e.data).c_str());
    }
    return off;
}

inline Filter genFilter(pbt::Ctx &c, const Cfg &cfg, const Model &m) {
    Filter f;
    auto someKey = [&]() -> uint64_t {
        if (m.h.empty()) return c.draw(100);
        uint64_t k = m.h[c.draw(m.h.size())].key;
        int d = (int)c.draw(4);
        if (d == 1 && k < cfg.keyMax) k++;
        if (d == 2 && k > 0) k--;
        if (d == 3 && c.chance(1, 4)) k = c.chance(1, 2) ? 0 : cfg.keyMax;
        return k;
    };
    auto someVal = [&]() -> int64_t {
        if (!m.h.empty() && cfg.order && c.chance(1, 2)) {
            return cfg.value(encodeValue(cfg, m.h[c.draw(m.h.size())].val + c.range(-1, 1), c.raw64()));
        }
        if (!m.h.empty() && c.chance(1, 2)) {
            int64_t v = m.h[c.draw(m.h.size())].val + c.range(-1, 1);
            if (cfg.valBytes == 1) v = (int8_t)v;
            if (cfg.valBytes == 2) v = (int16_t)v;
            return v;
        }
        return genValue(c, cfg);
    };
    if (c.chance(1, 2)) { f.hasMinK = true; f.minK = someKey(); }
    if (c.chance(1, 2)) { f.hasMaxK = true; f.maxK = someKey(); }
    if (!cfg.valBytes) { if (f.hasMinK && f.hasMaxK && f.minK > f.maxK) std::swap(f.minK, f.maxK); return f; }
    if (c.chance(1, 2)) { f.hasMinD = true; f.minD = someVal(); }
    if (c.chance(1, 2)) { f.hasMaxD = true; f.maxD = someVal(); }
    if (cfg.order) {
        f.minD = cfg.value(encodeValue(cfg, f.minD, 0));
        f.maxD = cfg.value(encodeValue(cfg, f.maxD, 0));
    }
    if (f.hasMinD && f.hasMaxD && f.minD > f.maxD && !c.chance(1, 10)) std::swap(f.minD, f.maxD);
    if (f.hasMinK && f.hasMaxK && f.minK > f.maxK && !c.chance(1, 10)) std::swap(f.minK, f.maxK);
    return f;
}

inline Rec genRec(pbt::Ctx &c, const Cfg &f, uint64_t key) {
    Rec r;
    r.key = key;
    r.data = encodeValue(f, genValue(c, f), key * 0x9E3779B97F4A7C15ull + 77);
    r.val = f.value(r.data);
    return r;
}

inline Bytes genVarBytes(pbt::Ctx &c, const Cfg &f, uint64_t key) {
    int payload = f.pageSize - f.keySize - 4;
    int64_t n;
    switch (c.weighted({4, 3, 2, 1, 1})) {
        case 0: n = c.range(0, 12); break;
        case 1: n = c.range(0, 60); break;
        case 2: n = c.range(std::max(0, payload - 12), payload + 4); break;
        case 3: n = c.range(0, 2 * payload); break;
        default: n = c.range(0, 3 * payload); break;
    }
    // stay well below the capacity of the file
    int64_t cap = (int64_t)(f.numVar - f.eraseSize) * payload - payload;
    if (cap < 0) cap = 0;
    if (n > cap) n = cap;
    if (c.chance(1, 60)) n = c.draw((uint64_t)f.numVar * payload * 2 + 2);  // as large as the file and larger
    if (n > 4000) n = 4000;
    if (f.longValues && c.chance(1, 12)) n = c.chance(1, 2) ? 65536 + c.range(-8, 8) : 65536 + (int64_t)c.draw(20000);
    Bytes b((size_t)n);
    uint64_t s = key * 2654435761u + 12345;
    for (auto &x : b) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = (uint8_t)(s >> 56); }
    return b;
}

inline void checkProblems(pbt::Ctx &c, Db &db, const char *when) {
    if (!db.dev->problems.empty()) c.fail("%s: %s", when, db.dev->problems[0].c_str());
}

// reads a value stream in generated chunks and frees it
inline Bytes drain(pbt::Ctx &c, Db &db, embedDBVarDataStream *s, size_t limit) {
    Bytes out;
    int mode = (int)c.draw(4);
    if (c.chance(1, 16) && embedDBVarDataStreamRead(db.st, s, nullptr, 5) != 0) { free(s); c.fail("a stream read without a buffer returned bytes"); }
    size_t chunk = mode == 0 ? 4096 : mode == 1 ? 1 + c.draw(16) : mode == 2 ? 1 + c.draw(100) : (size_t)db.cfg.pageSize;
    for (;;) {
        Bytes b(chunk);
        db.dev->budget(db.budget);
        uint32_t n = embedDBVarDataStreamRead(db.st, s, b.data(), (uint32_t)chunk);
        if (n > chunk) { free(s); c.fail("a stream read of %zu bytes returned %u", chunk, n); }
        out.insert(out.end(), b.begin(), b.begin() + n);
        if (n == 0) break;
        if (out.size() > limit + 8) break;
        if (mode == 3) chunk = 1 + c.draw(2 * db.cfg.pageSize);
    }
    free(s);
    return out;
}

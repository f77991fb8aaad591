// In-memory implementation of the storage interface of the public API, with an operation log, crash reconstruction,
// fault injection and discipline checks.
#pragma once
#include "alloc.hpp"
#include "pbt.hpp"
#include <map>
extern "C" {
#include "embedDB.h"
}
#undef max
#undef min

typedef std::vector<uint8_t> Bytes;

enum OpKind { OP_WRITE = 0, OP_ERASE = 1, OP_TRUNC = 2, OP_READ = 3, OP_OPEN = 4, OP_FLUSH = 5, OP_CLOSE = 6 };
enum PageSt { PG_NONE = 0, PG_WRITTEN = 1, PG_ERASED = 2 };

struct Op {
    int file, kind;
    uint32_t a, b;
    Bytes data;
};

// what survives a crash
struct FileImage {
    bool exists = false;
    uint32_t pageSize = 0;
    uint32_t highWater = 0;  // pages in the file
    Bytes bytes;
    std::vector<uint8_t> st;
};

struct Device;

struct PageFile {
    Device *dev = nullptr;
    int idx = 0;
    const char *name = "";
    uint32_t numPages = 0, eraseSize = 1;
    bool isOpen = false;
    FileImage im;
    uint64_t reads = 0, writes = 0, erases = 0;  // successful calls
    // an adaptor of the repository that has to behave the same (every call is passed on to it and compared)
    embedDBFileInterface *mirror = nullptr;
    void *mirrorFile = nullptr;
};

struct Device {
    // erase behaviour: -1 keep contents, otherwise fill byte
    int eraseFill = -1;
    bool flash = false;  // fixed-size device: every page inside the range can be read at any time
    std::vector<PageFile *> files;
    bool logging = false;
    bool logFlush = false;  // flushes are logged too
    std::vector<Op> log;
    std::vector<std::string> problems;  // discipline violations
    bool checkDiscipline = false;
    uint32_t readSlack = 0;  // pages past the end that may be probed (during initialization)
    uint64_t calls = 0, callBudget = 0;  // per API call budget: guards against endless loops
    // fault plan: fail calls number [faultFrom, faultTo) counted over calls whose kind is in faultMask
    bool faults = false;
    // data pages read, and reads that failed although the page had been read before
    bool watchReads = false;
    std::vector<uint32_t> readBefore;
    uint64_t failedAgain = 0;
    // pages read, in order, with their file
    bool logReads = false;
    std::vector<std::pair<int, uint32_t>> readLog;
    uint64_t faultCalls = 0, faultFrom = 0, faultTo = 0;
    uint32_t faultMask = 0;
    uint64_t faultsHitWrite = 0, faultsHitErase = 0, faultsHitRead = 0, faultsHitOpen = 0, faultsHitFlush = 0;
    int8_t failValue = 0;

    void budget(uint64_t n) { calls = 0; callBudget = n; }
    void step() {
        PBT_YIELD();
        if (callBudget && ++calls > callBudget) pbt::hardFail("one API call issued more storage calls than its budget: it does not terminate");
    }
    bool shouldFail(int kind) {
        if (!faults || !(faultMask >> kind & 1)) return false;
        uint64_t n = faultCalls++;
        if (n >= faultFrom && n < faultTo) {
            if (kind == OP_WRITE) faultsHitWrite++;
            if (kind == OP_ERASE) faultsHitErase++;
            if (kind == OP_READ) faultsHitRead++;
            if (kind == OP_OPEN) faultsHitOpen++;
            if (kind == OP_FLUSH) faultsHitFlush++;
            return true;
        }
        return false;
    }
    uint8_t blank() const { return flash ? (eraseFill < 0 ? 0xFF : (uint8_t)eraseFill) : 0; }
};

inline void ensureSize(FileImage &im, uint32_t pages, uint8_t fill) {
    if (im.st.size() < pages) {
        im.st.resize(pages, PG_NONE);
        im.bytes.resize((size_t)pages * im.pageSize, fill);
    }
}

inline void applyOp(FileImage &im, const Op &o, int eraseFill, uint8_t blank) {
    if (o.kind == OP_WRITE) {
        ensureSize(im, o.a + 1, blank);
        memcpy(im.bytes.data() + (size_t)o.a * im.pageSize, o.data.data(), im.pageSize);
        im.st[o.a] = PG_WRITTEN;
        im.highWater = std::max(im.highWater, o.a + 1);
    } else if (o.kind == OP_ERASE) {
        if (eraseFill >= 0) {
            ensureSize(im, o.b, blank);
            if (o.b > o.a) memset(im.bytes.data() + (size_t)o.a * im.pageSize, eraseFill, (size_t)(o.b - o.a) * im.pageSize);
            im.highWater = std::max(im.highWater, o.b);
        }
        for (uint32_t p = o.a; p < o.b && p < im.st.size(); p++) im.st[p] = PG_ERASED;
    } else if (o.kind == OP_TRUNC) {
        im.exists = true;
        im.highWater = 0;
        im.bytes.clear();
        im.st.clear();
    }
}

inline void mirrored(PageFile *f, const char *what, int8_t got, int8_t want) {
    char b[160];
    if (got == want) return;
    snprintf(b, sizeof b, "the adaptor returned %d for %s of the %s file instead of %d", got, what, f->name, want);
    f->dev->problems.push_back(b);
}

inline int8_t stRead(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    Device *d = f->dev;
    d->step();
    if (!f->isOpen) { d->problems.push_back("read of a file that is not open"); return 0; }
    if (pageSize != f->im.pageSize) d->problems.push_back("read with a wrong page size");
    if (d->checkDiscipline && pageNum >= f->numPages + d->readSlack) {
        char b[120];
        snprintf(b, sizeof b, "read of page %u of the %s file, which has %u pages", pageNum, f->name, f->numPages);
        d->problems.push_back(b);
    }
    if (d->shouldFail(OP_READ)) {
        if (d->watchReads && f->idx == 0 && std::find(d->readBefore.begin(), d->readBefore.end(), pageNum) != d->readBefore.end()) d->failedAgain++;
        return d->failValue;
    }
    if (d->flash) {
        if (pageNum >= f->numPages) return 0;
        ensureSize(f->im, f->numPages, d->blank());
    } else if (pageNum >= f->im.highWater) {
        if (f->mirror) mirrored(f, "a read past the end", f->mirror->read(buffer, pageNum, pageSize, f->mirrorFile), 0);
        return 0;
    } else {
        ensureSize(f->im, f->im.highWater, 0);
    }
    if (f->mirror) {
        mirrored(f, "a read", f->mirror->read(buffer, pageNum, pageSize, f->mirrorFile), 1);
        if (f->im.st[pageNum] == PG_WRITTEN && memcmp(buffer, f->im.bytes.data() + (size_t)pageNum * f->im.pageSize, f->im.pageSize)) {
            char b[120];
            snprintf(b, sizeof b, "the adaptor read other contents from page %u of the %s file than were written", pageNum, f->name);
            d->problems.push_back(b);
        }
    }
    memcpy(buffer, f->im.bytes.data() + (size_t)pageNum * f->im.pageSize, f->im.pageSize);
    if (d->watchReads && f->idx == 0) d->readBefore.push_back(pageNum);
    if (d->logReads) d->readLog.push_back({f->idx, pageNum});
    f->reads++;
    return 1;
}

inline int8_t stWrite(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    Device *d = f->dev;
    d->step();
    char b[200];
    if (!f->isOpen) { d->problems.push_back("write to a file that is not open"); return 0; }
    if (pageSize != f->im.pageSize) d->problems.push_back("write with a wrong page size");
    if (pageNum >= f->numPages) {
        snprintf(b, sizeof b, "write to page %u of the %s file, which has %u pages", pageNum, f->name, f->numPages);
        d->problems.push_back(b);
        if (pageNum > f->numPages + 100000) return 0;
    }
    if (d->shouldFail(OP_WRITE)) return d->failValue;
    if (d->checkDiscipline && pageNum < f->im.st.size() && f->im.st[pageNum] == PG_WRITTEN) {
        snprintf(b, sizeof b, "page %u of the %s file is rewritten without having been erased", pageNum, f->name);
        d->problems.push_back(b);
    }
    Op o{f->idx, OP_WRITE, pageNum, 0, Bytes((uint8_t *)buffer, (uint8_t *)buffer + f->im.pageSize)};
    applyOp(f->im, o, d->eraseFill, d->blank());
    f->writes++;
    if (f->mirror) mirrored(f, "a write", f->mirror->write(buffer, pageNum, pageSize, f->mirrorFile), 1);
    if (d->logging) d->log.push_back(std::move(o));
    return 1;
}

inline int8_t stErase(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    Device *d = f->dev;
    d->step();
    char b[200];
    if (!f->isOpen) { d->problems.push_back("erase of a file that is not open"); return 0; }
    if (pageSize != f->im.pageSize) d->problems.push_back("erase with a wrong page size");
    if (endPage > f->numPages || startPage >= endPage || startPage % f->eraseSize || endPage % f->eraseSize) {
        snprintf(b, sizeof b, "erase of pages [%u,%u) of the %s file with %u pages and erase blocks of %u", startPage, endPage, f->name, f->numPages, f->eraseSize);
        d->problems.push_back(b);
        if (startPage >= endPage || endPage > f->numPages + 100000) return 0;
    }
    if (d->shouldFail(OP_ERASE)) return d->failValue;
    Op o{f->idx, OP_ERASE, startPage, endPage, {}};
    applyOp(f->im, o, d->eraseFill, d->blank());
    f->erases++;
    if (f->mirror) mirrored(f, "an erase", f->mirror->erase(startPage, endPage, pageSize, f->mirrorFile), 1);
    if (d->logging) d->log.push_back(std::move(o));
    return 1;
}

inline int8_t stOpen(void *file, uint8_t mode) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    Device *d = f->dev;
    d->step();
    if (d->shouldFail(OP_OPEN)) return 0;
    if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
        Op o{f->idx, OP_TRUNC, 0, 0, {}};
        applyOp(f->im, o, d->eraseFill, d->blank());
        if (d->logging) d->log.push_back(std::move(o));
    } else if (mode == EMBEDDB_FILE_MODE_R_PLUS_B) {
        if (!f->im.exists) {
            if (f->mirror) mirrored(f, "an open for update of a missing file", f->mirror->open(f->mirrorFile, mode), 0);
            return 0;
        }
    } else {
        return 0;
    }
    f->isOpen = true;
    if (f->mirror) mirrored(f, "an open", f->mirror->open(f->mirrorFile, mode), 1);
    return 1;
}

inline int8_t stClose(void *file) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    if (!f->isOpen) return 0;
    f->isOpen = false;
    if (f->mirror) mirrored(f, "a close", f->mirror->close(f->mirrorFile), 1);
    return 1;
}

inline int8_t stFlush(void *file) {
    alloc::App app;
    PageFile *f = (PageFile *)file;
    f->dev->step();
    if (!f->isOpen) { f->dev->problems.push_back("flush of a file that is not open"); return 0; }
    if (f->dev->shouldFail(OP_FLUSH)) return 0;
    if (f->mirror && f->isOpen) mirrored(f, "a flush", f->mirror->flush(f->mirrorFile), 1);
    if (f->dev->logging && f->dev->logFlush) f->dev->log.push_back({f->idx, OP_FLUSH, 0, 0, {}});
    return f->isOpen;
}

inline void fillInterface(embedDBFileInterface *i) {
    i->read = stRead;
    i->write = stWrite;
    i->erase = stErase;
    i->open = stOpen;
    i->close = stClose;
    i->flush = stFlush;
}

// Bookkeeping of the allocations made while library code runs.
#pragma once
#ifndef PBT_32
#include <sanitizer/allocator_interface.h>
#endif
#include <cstdint>
#include <cstring>
// ---------------------------------------------------------------- allocations made while library code runs
namespace alloc {
constexpr size_t N = 1 << 16;
inline struct Slot { const volatile void *p; size_t n; } tab[N];
inline size_t live = 0, total = 0, bytes = 0;
inline int inLib = 0;
inline size_t slot(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
inline void onMalloc(const volatile void *p, size_t n) {
    if (!inLib || !p) return;
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) % N;
    if (!tab[i].p) live++;
    else bytes -= tab[i].n;
    tab[i] = {p, n};
    bytes += n;
    total++;
}
inline void onFree(const volatile void *p) {
    if (!p || !live) return;
    size_t i = slot(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) % N;
    if (!tab[i].p) return;
    live--;
    bytes -= tab[i].n;
    tab[i] = {nullptr, 0};
    for (size_t j = (i + 1) % N; tab[j].p; j = (j + 1) % N) {  // close the gap of the open addressing
        size_t h = slot(tab[j].p);
        if ((i <= j) ? (i < h && h <= j) : (i < h || h <= j)) continue;
        tab[i] = tab[j];
        tab[j] = {nullptr, 0};
        i = j;
    }
}
inline void install() {
#ifndef PBT_32
    static bool done = false;
    if (!done) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    done = true;
#endif
}
inline void start() {
    install();
    memset(tab, 0, sizeof tab);
    live = total = bytes = 0;
    inLib = 0;
}
struct Lib {  // library code runs during the life of this object
    Lib() { inLib++; }
    ~Lib() { inLib--; }
};
struct App {  // application code called from the library
    int was;
    App() : was(inLib) { inLib = 0; }
    ~App() { inLib = was; }
};
}  // namespace alloc


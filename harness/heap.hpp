// operator new that hands out small blocks of an arena in a random order, so that pointer values and their order
// differ from process to process.  Seeded with verif_heap::seed().
#ifndef VERIF_HEAP_HPP
#define VERIF_HEAP_HPP
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <new>
namespace verif_heap {
const std::size_t CLASSES = 16, GRAIN = 16, BATCH = 512;
struct State {
    std::uint64_t x = 88172645463325252ull;
    bool on = false;
    void *slots[CLASSES][BATCH]; std::size_t count[CLASSES] = {0};
    std::mutex m;
    std::uint64_t next() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
};
inline State& st() { static State *s = new (std::malloc(sizeof(State))) State; return *s; }
inline void seed(std::uint64_t s) { State &h = st(); h.x = s * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 8; i++) h.next(); h.on = true; for (auto &c : h.count) c = 0; }
// blocks of a batch live next to each other; freed blocks are not reused (processes are short-lived)
inline void* take(std::size_t n) {
    State &h = st();
    std::size_t c = (n + GRAIN - 1) / GRAIN;
    if (!h.on || c == 0 || c > CLASSES) return nullptr;
    std::lock_guard<std::mutex> l(h.m);
    std::size_t k = c - 1;
    if (h.count[k] == 0) {
        char *p = (char*) std::malloc(c * GRAIN * BATCH);
        if (!p) return nullptr;
        for (std::size_t i = 0; i < BATCH; i++) h.slots[k][i] = p + i * c * GRAIN;
        h.count[k] = BATCH;
    }
    std::size_t i = h.next() % h.count[k];
    void *r = h.slots[k][i];
    h.slots[k][i] = h.slots[k][--h.count[k]];
    return r;
}
// which blocks come from take(): a header in front of every block
inline void* alloc(std::size_t n) {
    std::size_t *p = (std::size_t*) take(n + 16);
    std::size_t tag = 1;
    if (!p) { p = (std::size_t*) std::malloc(n + 16); tag = 2; }
    if (!p) throw std::bad_alloc();
    p[0] = tag;
    return p + 2;
}
inline void release(void *q) { if (q) { std::size_t *p = (std::size_t*) q - 2; if (p[0] == 2) std::free(p); } }
}
void* operator new(std::size_t n) { return verif_heap::alloc(n); }
void* operator new[](std::size_t n) { return verif_heap::alloc(n); }
void operator delete(void *p) noexcept { verif_heap::release(p); }
void operator delete[](void *p) noexcept { verif_heap::release(p); }
void operator delete(void *p, std::size_t) noexcept { verif_heap::release(p); }
void operator delete[](void *p, std::size_t) noexcept { verif_heap::release(p); }
#endif

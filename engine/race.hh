// Happens-before race detection on heap bytes (vector clocks); used by the symbolic runtime and the native replay.
#pragma once
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
#include <map>
#include <unordered_map>
namespace race {
constexpr int N = 16;
struct VC {
    uint32_t c[N] = {};
};
// per byte: the last write and the last read, as thread and clock; more than one reader are kept aside
struct Cell {
    uint32_t w, r;
};
constexpr uint32_t kMany = ~0u, kBits = 26, kMask = (1u << kBits) - 1;
struct Readers {
    uint32_t c[N] = {};
};
static VC vc[N];
static int cur, quiet[N];
static bool used;
constexpr uint64_t kBase = 0x200000000000ull, kSpan = 1ull << 32;   // the arena (sxrt.cc, sxrace.cc)
static Cell *mem;
static std::unordered_map<uint64_t, Readers> *many;
static std::map<uint64_t, VC> *sync_;
static void join(VC &a, const VC &b) {
    for (int i = 0; i < N; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static void start() {
    used = true;
    delete many;
    delete sync_;
    if (mem) munmap(mem, kSpan * sizeof(Cell));
    mem = static_cast<Cell *>(mmap(nullptr, kSpan * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    many = new std::unordered_map<uint64_t, Readers>;
    sync_ = new std::map<uint64_t, VC>;
    for (auto &v : vc) v = VC{};
    for (auto &q : quiet) q = 1;
    cur = 0;
    vc[0].c[0] = 1;
}
static bool before(uint32_t e, const VC &v) { return (e & kMask) <= v.c[e >> kBits]; }
// the address of a byte both of two unordered accesses touch, at least one of which writes
static uint64_t access(uint64_t a, uint64_t n, bool write) {
    if (!used || quiet[cur] || a < kBase || a + n > kBase + kSpan) return 0;
    auto &my = vc[cur];
    uint32_t now = static_cast<uint32_t>(cur) << kBits | my.c[cur];
    for (uint64_t i = 0; i < n; i++) {
        auto &c = mem[a + i - kBase];
        if (write ? c.w == now && c.r == 0 : c.r == now) continue;
        if (!before(c.w, my)) return a + i;
        if (write) {
            if (c.r == kMany) {
                auto it = many->find(a + i);
                for (int t = 0; t < N; t++)
                    if (it->second.c[t] > my.c[t]) return a + i;
                many->erase(it);
            } else if (!before(c.r, my))
                return a + i;
            c.w = now;
            c.r = 0;
        } else if (c.r == kMany)
            (*many)[a + i].c[cur] = my.c[cur];
        else if (before(c.r, my))
            c.r = now;
        else {
            auto &r = (*many)[a + i];
            r.c[c.r >> kBits] = c.r & kMask;
            r.c[cur] = my.c[cur];
            c.r = kMany;
        }
    }
    return 0;
}
static void acquire(uint64_t obj) {
    if (used) join(vc[cur], (*sync_)[obj]);
}
static void release(uint64_t obj) {
    if (!used) return;
    join((*sync_)[obj], vc[cur]);
    vc[cur].c[cur]++;
}
}  // namespace race
extern "C" {
void sx_race_start(void) { race::start(); }
void sx_race_quiet(int d) { race::quiet[race::cur] += d; }
void sx_race_switch(int t) { race::cur = t; }
void sx_race_fork(int t) {
    if (!race::used) return;
    if (t >= race::N) __builtin_trap();
    race::vc[t] = race::vc[race::cur];
    race::vc[t].c[t]++;
    race::vc[race::cur].c[race::cur]++;
    race::quiet[t] = race::quiet[race::cur];
}
void sx_race_join(int t) {
    if (race::used) race::join(race::vc[race::cur], race::vc[t]);
}
void sx_race_acquire(const void *o) { race::acquire(reinterpret_cast<uint64_t>(o)); }
void sx_race_release(const void *o) { race::release(reinterpret_cast<uint64_t>(o)); }
}

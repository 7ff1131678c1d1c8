// Harness API. The same harness source is compiled twice: instrumented (symbolic, sxrt.cc) and plain
// (native replay of a solver model, sxnative.cc).
#pragma once
#include <cstdint>
#include <string>
#include <cstring>
extern "C" {
uint8_t sx_in_8(const char *name);
uint16_t sx_in_16(const char *name);
uint32_t sx_in_32(const char *name);
uint64_t sx_in_64(const char *name);
bool sx_in_1(const char *name);
// conditions: the instrumentation asks the solver for the other outcome before the call
void sx_branch_assume(bool c);
void sx_branch_assert(bool c, const char *msg);
void sx_reach(const char *label);   // reachability witness
void sx_register(const char *name, void (*fn)(void));
uint32_t __sxconc(uint32_t v);        // one path per feasible value
void sx_done(void);                  // end this path successfully (skips destructors)
int sx_symbolic_run(void);           // 1 when instrumented, 0 natively
int sx_tier(void);                   // 0 quick, 1 thorough
// data races (engine/race.hh): clocks of the threads of the harness; accesses count while quiet is 0
void sx_race_start(void);
void sx_race_quiet(int d);
void sx_race_switch(int thread);
void sx_race_fork(int thread);
void sx_race_join(int thread);
void sx_race_acquire(const void *o);
void sx_race_release(const void *o);
void sx_note(const char *text);      // shown on native replay
void sx_noteu(const char *text, uint64_t v);
}
#define SX_HARNESS(name)                                             \
    static void h_##name(void);                                      \
    __attribute__((constructor)) static void r_##name(void) {        \
        sx_register(#name, h_##name);                                \
    }                                                                \
    static void h_##name(void)

#define ASSUME(c) sx_branch_assume(static_cast<bool>(c))
#define CHECK(c, msg) sx_branch_assert(static_cast<bool>(c), msg)

// symbolic value in [lo, hi]
inline int64_t sx_range(const char *name, int64_t lo, int64_t hi) {
    auto v = static_cast<int64_t>(sx_in_64(name));
    ASSUME(v >= lo & v <= hi);
    return v;
}
inline uint32_t sx_below(const char *name, uint32_t n) {
    auto v = sx_in_8(name);
    ASSUME(v < n);
    return v;
}
// small case split: returns a concrete value (one path per value)
inline int sx_choose(const char *name, int n) {
    uint8_t v = sx_in_8(name);
    ASSUME(v < n);
    return static_cast<int>(__sxconc(v));
}
// symbolic string: length split over [lo, hi], bytes fully symbolic
inline std::string sx_string(const char *name, int lo, int hi) {
    int n = lo + (hi > lo ? sx_choose(name, hi - lo + 1) : 0);
    std::string s(static_cast<size_t>(n), 'a');
    for (int i = 0; i < n; i++) s[i] = static_cast<char>(sx_in_8(name));
    return s;
}
// bytes restricted to a given alphabet
inline bool sx_one_of(uint8_t c, const char *alphabet) {
    bool ok = false;
    for (const char *p = alphabet; *p; p++) ok = ok | (c == static_cast<uint8_t>(*p));
    return ok;
}
inline std::string sx_string_of(const char *name, int lo, int hi, const char *alphabet) {
    int n = lo + (hi > lo ? sx_choose(name, hi - lo + 1) : 0);
    std::string s(static_cast<size_t>(n), 'a');
    for (int i = 0; i < n; i++) {
        uint8_t c = sx_in_8(name);
        ASSUME(sx_one_of(c, alphabet));
        s[i] = static_cast<char>(c);
    }
    return s;
}

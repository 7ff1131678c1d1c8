// Native replay: inputs are taken in order from a file (one "width value" per line, zero when exhausted).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include "sx.h"
static std::vector<uint64_t> in;
static size_t pos;
static bool quiet;
static std::map<std::string, void (*)(void)> &reg() {
    static std::map<std::string, void (*)(void)> r;
    return r;
}
static uint64_t next(const char *name, int w) {
    uint64_t v = pos < in.size() ? in[pos] : 0;
    pos++;
    if (w < 64) v &= (1ull << w) - 1;
    if (!quiet) printf("  input %-20s = 0x%llx (%d bits)\n", name, (unsigned long long)v, w);
    return v;
}
extern "C" {
uint8_t sx_in_8(const char *n) { return next(n, 8); }
uint16_t sx_in_16(const char *n) { return next(n, 16); }
uint32_t sx_in_32(const char *n) { return next(n, 32); }
uint64_t sx_in_64(const char *n) { return next(n, 64); }
bool sx_in_1(const char *n) { return next(n, 1); }
void sx_branch_assume(bool c) {
    if (!c) {
        puts("  (assumption not met)");
        fflush(stdout);
        _exit(78);
    }
}
void sx_branch_assert(bool c, const char *msg) {
    if (!c) {
        printf("ASSERTION FAILED: %s\n", msg);
        fflush(stdout);
        _exit(77);
    }
}
void sx_reach(const char *l) { if (!quiet) printf("  reached %s\n", l); }
void sx_register(const char *n, void (*f)(void)) { reg()[n] = f; }
uint32_t __sxconc(uint32_t v) { return v; }
void sx_done(void) { puts("PATH OK"); fflush(stdout); _exit(0); }
int sx_symbolic_run(void) { return 0; }
static int tier;
int sx_tier(void) { return tier; }
// replaced where data races are looked for (sxrace.cc)
__attribute__((weak)) void sx_race_start(void) {}
__attribute__((weak)) void sx_race_quiet(int) {}
__attribute__((weak)) void sx_race_switch(int) {}
__attribute__((weak)) void sx_race_fork(int) {}
__attribute__((weak)) void sx_race_join(int) {}
__attribute__((weak)) void sx_race_acquire(const void *) {}
__attribute__((weak)) void sx_race_release(const void *) {}
void sx_note(const char *t) { if (!quiet) printf("  note %s\n", t); }
void sx_noteu(const char *t, uint64_t v) { if (!quiet) printf("  note %s %lld\n", t, (long long)v); }
}
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 3) return 2;
    if (secure_getenv("VERIF_TIER") && !strcmp(secure_getenv("VERIF_TIER"), "thorough")) tier = 1;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    int w;
    unsigned long long v;
    while (fscanf(f, "%d %llu", &w, &v) == 2) in.push_back(v);
    fclose(f);
    auto it = reg().find(argv[1]);
    if (it == reg().end()) return 2;
    it->second();
    puts("PATH OK");
    fflush(stdout);
    _exit(0);
}

// the harness API as plain code: a failed check ends the demonstration
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#define CHECK(c, msg) do { if (!(c)) { printf("FAILED: %s\n", msg); fflush(stdout); _Exit(1); } } while (0)
#define ASSUME(c) CHECK(c, "assumption")
inline void sx_note(const char *) {}
inline void sx_noteu(const char *, uint64_t) {}
inline void pass() { printf("ok\n"); fflush(stdout); _Exit(0); }

// The environment is the harness's.
#pragma once
extern "C" char *getenv(const char *) noexcept __asm__("sx_getenv");

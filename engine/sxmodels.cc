// Models of library functions that live in libc/libstdc++.so and may see symbolic data. Each
// __sxm_X replaces X in the encoded program; they are plain code, executed symbolically themselves.
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <filesystem>
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
// (stub/sxstream.hh)
#undef istream
#undef ifstream
#undef stringstream
#undef ostringstream
#undef istringstream
#define NOB __attribute__((no_builtin))
extern "C" {
NOB size_t __sxm_strlen(const char *s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
NOB int __sxm_strcmp(const char *a, const char *b) {
    while (*a && *a == *b) a++, b++;
    return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
NOB int __sxm_strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) {
        if (*a != *b) return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
        if (!*a) return 0;
    }
    return 0;
}
NOB const void *__sxm_memchr(const void *p, int c, size_t n) {
    auto *s = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        if (s[i] == static_cast<unsigned char>(c)) return s + i;
    return nullptr;
}
NOB char *__sxm_strchr(const char *s, int c) {
    for (;; s++) {
        if (*s == static_cast<char>(c)) return const_cast<char *>(s);
        if (!*s) return nullptr;
    }
}
int __sxm_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int __sxm_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int __sxm_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int __sxm_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int __sxm_isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z'); }
int __sxm_isalnum(int c) { return __sxm_isalpha(c) | __sxm_isdigit(c); }
int __sxm_isxdigit(int c) { return __sxm_isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
int __sxm_tolower(int c) { return __sxm_isupper(c) ? c + 32 : c; }
int __sxm_toupper(int c) { return __sxm_islower(c) ? c - 32 : c; }

static int digitOf(int c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
// one more digit; fewer than 16 digits never overflow (no term, no query)
static inline unsigned long long addDigit(unsigned long long v, int d, int base, int n, bool &ovf) {
    auto b = static_cast<unsigned>(base);
    if (n >= 15 && (v > ULLONG_MAX / b || (v == ULLONG_MAX / b && static_cast<unsigned long long>(d) > ULLONG_MAX % b))) ovf = true;
    return v * b + static_cast<unsigned>(d);
}
// shared magnitude parser; returns digits consumed
static unsigned long long parseMag(const char *&s, int base, bool &any, bool &ovf) {
    unsigned long long v = 0;
    any = ovf = false;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && digitOf(s[2]) < 16) {
        s += 2;
        base = 16;
    } else if (base == 0)
        base = s[0] == '0' ? 8 : 10;
    for (int n = 0;; s++, n++) {
        int d = digitOf(static_cast<unsigned char>(*s));
        if (d >= base) break;
        any = true;
        v = addDigit(v, d, base, n, ovf);
    }
    return v;
}
long long __sxm_strtoll(const char *s, char **end, int base) {
    const char *p = s;
    while (__sxm_isspace(static_cast<unsigned char>(*p))) p++;
    bool neg = false;
    if (*p == '-') neg = true, p++;
    else if (*p == '+') p++;
    bool any, ovf;
    auto v = parseMag(p, base, any, ovf);
    if (end) *end = const_cast<char *>(any ? p : s);
    if (!any) return 0;
    unsigned long long lim = neg ? 9223372036854775808ull : 9223372036854775807ull;
    if (ovf || v > lim) {
        errno = ERANGE;
        return neg ? LLONG_MIN : LLONG_MAX;
    }
    return neg ? static_cast<long long>(-v) : static_cast<long long>(v);
}
unsigned long long __sxm_strtoull(const char *s, char **end, int base) {
    const char *p = s;
    while (__sxm_isspace(static_cast<unsigned char>(*p))) p++;
    bool neg = false;
    if (*p == '-') neg = true, p++;
    else if (*p == '+') p++;
    bool any, ovf;
    auto v = parseMag(p, base, any, ovf);
    if (end) *end = const_cast<char *>(any ? p : s);
    if (!any) return 0;
    if (ovf) {
        errno = ERANGE;
        return ULLONG_MAX;
    }
    return neg ? -v : v;
}
long __sxm_strtol(const char *s, char **e, int b) { return __sxm_strtoll(s, e, b); }
unsigned long __sxm_strtoul(const char *s, char **e, int b) { return __sxm_strtoull(s, e, b); }
long long __sxm___isoc23_strtoll(const char *s, char **e, int b) { return __sxm_strtoll(s, e, b); }
unsigned long long __sxm___isoc23_strtoull(const char *s, char **e, int b) { return __sxm_strtoull(s, e, b); }
long __sxm___isoc23_strtol(const char *s, char **e, int b) { return __sxm_strtoll(s, e, b); }
unsigned long __sxm___isoc23_strtoul(const char *s, char **e, int b) { return __sxm_strtoull(s, e, b); }

// std::_Hash_bytes: any function of the bytes is a legal hash; a function of the length keeps
// symbolic keys out of the bucket arithmetic (keys of equal length share a bucket, equality decides).
size_t __sxm__ZSt11_Hash_bytesPKvmm(const void *, size_t len, size_t) { return len * 0x9E3779B97F4A7C15ull; }
size_t __sxm__ZSt15_Fnv_hash_bytesPKvmm(const void *, size_t len, size_t) { return len * 0x9E3779B97F4A7C15ull; }
}

// iostream integer extraction / insertion ("C" locale), so that libstdc++.so's num_get/num_put facets
// are not involved.
namespace {
template <typename T>
std::istream &extract(std::istream &in, T &out) {
    std::istream::sentry s(in);
    if (!s) return in;
    auto *sb = in.rdbuf();
    auto base_f = in.flags() & std::ios_base::basefield;
    int base = base_f == std::ios_base::hex ? 16 : base_f == std::ios_base::oct ? 8 : 10;
    int c = sb->sgetc();
    bool neg = false;
    if (c == '-' || c == '+') {
        neg = c == '-';
        c = sb->snextc();
    }
    bool any = false, ovf = false;
    if (base == 16 && c == '0') {
        any = true;
        c = sb->snextc();
        if (c == 'x' || c == 'X') {
            any = false;
            c = sb->snextc();
        }
    }
    unsigned long long v = 0;
    int n = 0;
    while (c != std::char_traits<char>::eof()) {
        int d = digitOf(c);
        if (d >= base) break;
        any = true;
        v = addDigit(v, d, base, n++, ovf);
        c = sb->snextc();
    }
    std::ios_base::iostate st = std::ios_base::goodbit;
    if (c == std::char_traits<char>::eof()) st |= std::ios_base::eofbit;
    constexpr bool sgn = static_cast<T>(-1) < 0;
    if (!any) {
        out = 0;
        st |= std::ios_base::failbit;
    } else if (sgn) {
        unsigned long long mx = static_cast<unsigned long long>(static_cast<T>(~0ull >> (65 - sizeof(T) * 8)));
        unsigned long long lim = neg ? mx + 1 : mx;
        if (ovf || v > lim) {
            out = neg ? static_cast<T>(-mx - 1) : static_cast<T>(mx);
            st |= std::ios_base::failbit;
        } else
            out = neg ? static_cast<T>(-v) : static_cast<T>(v);
    } else {
        unsigned long long mx = static_cast<T>(~0ull);
        if (ovf || v > mx) {
            out = static_cast<T>(mx);
            st |= std::ios_base::failbit;
        } else
            out = neg ? static_cast<T>(-v) : static_cast<T>(v);
    }
    if (st) in.setstate(st);
    return in;
}
template <typename T>
std::ostream &insert(std::ostream &os, T v) {
    std::ostream::sentry s(os);
    if (!s) return os;
    auto base_f = os.flags() & std::ios_base::basefield;
    unsigned base = base_f == std::ios_base::hex ? 16 : base_f == std::ios_base::oct ? 8 : 10;
    char buf[72];
    int n = 0;
    bool neg = false;
    unsigned long long m = static_cast<unsigned long long>(v);
    if (base == 10 && v < 0) {
        neg = true;
        m = 0 - m;
    }
    do {
        unsigned d = static_cast<unsigned>(m % base);
        buf[n++] = static_cast<char>(d < 10 ? '0' + d : 'a' + d - 10);
        m /= base;
    } while (m);
    if (neg) buf[n++] = '-';
    auto *sb = os.rdbuf();
    auto w = os.width();
    char fill = os.fill();
    if ((os.flags() & std::ios_base::adjustfield) != std::ios_base::left)
        for (auto k = w; k > n; k--) sb->sputc(fill);
    for (int i = n; i-- > 0;) sb->sputc(buf[i]);
    if ((os.flags() & std::ios_base::adjustfield) == std::ios_base::left)
        for (auto k = w; k > n; k--) sb->sputc(fill);
    os.width(0);
    return os;
}
}  // namespace
extern "C" {
std::istream &__sxm__ZNSi10_M_extractIlEERSiRT_(std::istream *s, long &v) { return extract(*s, v); }
std::istream &__sxm__ZNSi10_M_extractImEERSiRT_(std::istream *s, unsigned long &v) { return extract(*s, v); }
std::istream &__sxm__ZNSi10_M_extractIxEERSiRT_(std::istream *s, long long &v) { return extract(*s, v); }
std::istream &__sxm__ZNSi10_M_extractIyEERSiRT_(std::istream *s, unsigned long long &v) { return extract(*s, v); }
std::istream &__sxm__ZNSi10_M_extractIjEERSiRT_(std::istream *s, unsigned int &v) { return extract(*s, v); }
std::istream &__sxm__ZNSirsERi(std::istream *s, int &v) { return extract(*s, v); }
std::ostream &__sxm__ZNSo9_M_insertIlEERSoT_(std::ostream *s, long v) { return insert(*s, v); }
std::ostream &__sxm__ZNSo9_M_insertImEERSoT_(std::ostream *s, unsigned long v) { return insert(*s, v); }
std::ostream &__sxm__ZNSo9_M_insertIxEERSoT_(std::ostream *s, long long v) { return insert(*s, v); }
std::ostream &__sxm__ZNSo9_M_insertIyEERSoT_(std::ostream *s, unsigned long long v) { return insert(*s, v); }
std::ostream &__sxm__ZNSolsEi(std::ostream *s, int v) {
    auto b = s->flags() & std::ios_base::basefield;
    if (b == std::ios_base::oct || b == std::ios_base::hex) return insert(*s, static_cast<unsigned long>(static_cast<unsigned>(v)));
    return insert(*s, static_cast<long>(v));
}
}
// hgdb's own log output is not the subject of any property: empty body.
extern "C" void __sxm__ZN4hgdb3log3logENS0_9log_levelESt17basic_string_viewIcSt11char_traitsIcEE(int, size_t, const char *) {}

// std::filesystem::path is in libstdc++.so: one path of the program per name that is handed to it.
extern "C" uint32_t __sxconc(uint32_t v);
extern "C" void __sxo__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(std::filesystem::path *p);
extern "C" void __sxm__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(std::filesystem::path *p) {
    auto &s = const_cast<std::string &>(p->native());
    for (auto &c : s) c = static_cast<char>(__sxconc(static_cast<unsigned char>(c)));
    __sxo__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(p);
}

// In-memory streams for code that reads text: std::istream, std::ifstream and std::stringstream are replaced by
// macros so that the bytes they carry may be symbolic.
#pragma once
#include <charconv>
#include <cstdint>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include "sx.h"
namespace std {
struct sx_istream {
    using traits_type = std::char_traits<char>;
    std::string text;
    uint64_t pos = 0, looks = 0;
    bool eof_ = false, fail_ = false;
    size_t count = 0;
    sx_istream() = default;
    explicit sx_istream(std::string t) : text(std::move(t)) {}
    virtual ~sx_istream() = default;
    void ended() { CHECK(++looks < 2000, "reading comes to an end with the text"); }
    int get() {
        if (eof_ || fail_ || pos >= text.size()) {
            ended();
            eof_ = fail_ = true;
            count = 0;
            return -1;
        }
        count = 1;
        return static_cast<unsigned char>(text[pos++]);
    }
    sx_istream &get(char &c) {
        int r = get();
        if (r >= 0) c = static_cast<char>(r);
        return *this;
    }
    int peek() {
        if (eof_ || fail_ || pos >= text.size()) {
            ended();
            eof_ = true;
            return -1;
        }
        return static_cast<unsigned char>(text[pos]);
    }
    sx_istream &unget() {
        eof_ = false;
        if (pos && !fail_)
            pos--;
        else
            fail_ = true;
        return *this;
    }
    sx_istream &putback(char) { return unget(); }
    sx_istream &ignore(std::streamsize n = 1, int delim = -1) {
        for (; n > 0; n--) {
            int c = get();
            if (c < 0) {
                fail_ = false;
                break;
            }
            if (c == delim) break;
        }
        return *this;
    }
    sx_istream &read(char *p, std::streamsize n) {
        size_t k = 0;
        for (; n > 0; n--, k++) {
            int c = get();
            if (c < 0) break;
            p[k] = static_cast<char>(c);
        }
        count = k;
        return *this;
    }
    size_t gcount() const { return count; }
    bool eof() {
        if (eof_) ended();
        return eof_;
    }
    bool bad() const { return false; }
    bool fail() {
        if (eof_) ended();
        return fail_;
    }
    bool good() {
        if (eof_) ended();
        return !eof_ && !fail_;
    }
    explicit operator bool() { return !fail(); }
    bool operator!() { return fail(); }
    void clear() { eof_ = fail_ = false; }
    void setstate(std::ios_base::iostate s) {
        if (s & std::ios_base::eofbit) eof_ = true;
        if (s & (std::ios_base::failbit | std::ios_base::badbit)) fail_ = true;
    }
    int64_t tellg() const { return fail_ ? -1 : static_cast<int64_t>(pos); }
    sx_istream &seekg(int64_t p) {
        eof_ = false;
        if (!fail_) pos = static_cast<uint64_t>(p);
        return *this;
    }
    void close() {}
    void open(const std::string &) {}
    bool is_open() const { return true; }
    static bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
    sx_istream &operator>>(std::string &s) {
        s.clear();
        int c = get();
        while (c >= 0 && space(c)) c = get();
        if (c < 0) return *this;
        while (c >= 0 && !space(c)) {
            s.push_back(static_cast<char>(c));
            c = get();
        }
        if (c >= 0)
            pos--;
        else
            fail_ = false;
        return *this;
    }
    sx_istream &operator>>(char &c) {
        int x = get();
        while (x >= 0 && space(x)) x = get();
        if (x >= 0) c = static_cast<char>(x);
        return *this;
    }
};
inline sx_istream &getline(sx_istream &i, std::string &s, char d = '\n') {
    s.clear();
    int c = i.get();
    if (c < 0) return i;
    while (c >= 0 && c != d) {
        s.push_back(static_cast<char>(c));
        c = i.get();
    }
    if (c < 0) i.fail_ = false;
    return i;
}
inline sx_istream &ws(sx_istream &i) {
    while (i.pos < i.text.size() && sx_istream::space(i.text[i.pos])) i.pos++;
    return i;
}
struct sx_ifstream : sx_istream {
    sx_ifstream() = default;
    static inline std::string content;
    explicit sx_ifstream(const std::string &, int = 0) : sx_istream(content) {}
};
struct sx_stringstream : sx_istream {
    sx_stringstream() = default;
    explicit sx_stringstream(std::string s) : sx_istream(std::move(s)) {}
    std::string str() const { return text; }
    void str(const std::string &s) { text = s, pos = 0; }
    sx_stringstream &operator<<(char c) {
        text.push_back(c);
        return *this;
    }
    sx_stringstream &put(char c) { return *this << c; }
    sx_stringstream &operator<<(const std::string &s) {
        text.append(s);
        return *this;
    }
    sx_stringstream &operator<<(std::string_view s) {
        text.append(s.data(), s.size());
        return *this;
    }
    sx_stringstream &operator<<(const char *s) {
        text.append(s);
        return *this;
    }
    template <typename T>
        requires std::is_arithmetic_v<T>
    sx_stringstream &operator<<(T v) {
        text.append(std::to_string(v));
        return *this;
    }
    sx_stringstream &operator<<(sx_stringstream &(*f)(sx_stringstream &)) { return f(*this); }
};
inline sx_stringstream &endl(sx_stringstream &s) { return s << '\n'; }
}  // namespace std
#define istream sx_istream
#define ifstream sx_ifstream
#define stringstream sx_stringstream
#define ostringstream sx_stringstream
#define istringstream sx_stringstream

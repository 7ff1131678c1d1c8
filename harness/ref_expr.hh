// Reference semantics of the expression language, written from the documentation (C operators and
// precedence on 64-bit two's complement values) independently of the PEG grammar in src/eval.cc.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace ref {
struct Env {
    std::function<int64_t(const std::string &)> value;
};
struct Result {
    bool ok = false;
    bool undefined = false;  // division or modulo by zero happened
    int64_t value = 0;
};
inline int64_t nameValue(const std::string &n) {
    uint64_t h = n.size() * 1000;
    for (char c : n) h = h * 3 + static_cast<unsigned char>(c);
    return static_cast<int64_t>(h);
}
class Parser {
public:
    Parser(const std::string &s, const Env &env) : s_(s), env_(env) {}
    Result run() {
        Result r;
        uint64_t v = 0;
        if (!level(0, v)) return r;
        ws();
        if (p_ != s_.size()) return r;
        r.ok = true;
        r.value = static_cast<int64_t>(v);
        r.undefined = undef_;
        return r;
    }

private:
    const std::string &s_;
    const Env &env_;
    size_t p_ = 0;
    bool undef_ = false;
    char at(size_t i) const { return i < s_.size() ? s_[i] : '\0'; }
    bool in(size_t i) const { return i < s_.size(); }
    static bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
    static bool digit(char c) { return (c >= '0') & (c <= '9'); }
    static bool head(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == '$'); }
    static int xdigit(char c) {
        if (digit(c)) return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    void ws() {
        while (in(p_) && space(at(p_))) p_++;
    }
    // binary operator of the given precedence level at p_ (longest match first); returns its id or 0
    int op(int level) {
        char a = at(p_), b = in(p_ + 1) ? at(p_ + 1) : '\0';
        auto take = [&](int n, int id) {
            p_ += n;
            return id;
        };
        switch (level) {
            case 0: return a == '|' && b == '|' ? take(2, 1) : 0;
            case 1: return a == '&' && b == '&' ? take(2, 2) : 0;
            case 2: return a == '|' && b != '|' ? take(1, 3) : 0;
            case 3: return a == '^' ? take(1, 4) : 0;
            case 4: return a == '&' && b != '&' ? take(1, 5) : 0;
            case 5:
                if (a == '=' && b == '=') return take(2, 6);
                if (a == '!' && b == '=') return take(2, 7);
                return 0;
            case 6:
                if (a == '<') return b == '=' ? take(2, 8) : take(1, 9);
                if (a == '>') return b == '=' ? take(2, 10) : take(1, 11);
                return 0;
            case 7: return a == '+' ? take(1, 12) : a == '-' ? take(1, 13) : 0;
            case 8: return a == '*' ? take(1, 14) : a == '/' ? take(1, 15) : a == '%' ? take(1, 16) : 0;
            default: return 0;
        }
    }
    uint64_t apply(int id, uint64_t x, uint64_t y, bool &undef) {
        auto sx = static_cast<int64_t>(x), sy = static_cast<int64_t>(y);
        switch (id) {
            case 1: return (x != 0) | (y != 0);
            case 2: return (x != 0) & (y != 0);
            case 3: return x | y;
            case 4: return x ^ y;
            case 5: return x & y;
            case 6: return x == y;
            case 7: return x != y;
            case 8: return sx <= sy;
            case 9: return sx < sy;
            case 10: return sx >= sy;
            case 11: return sx > sy;
            case 12: return x + y;
            case 13: return x - y;
            case 14: return x * y;
            case 15:
            case 16: {
                if (y == 0) return 0;
                if (sy == -1) return id == 15 ? 0 - x : 0;
                return static_cast<uint64_t>(id == 15 ? sx / sy : sx % sy);
            }
            default: return 0;
        }
    }
    bool level(int l, uint64_t &v) {
        if (l == 9) return unary(v);
        if (!level(l + 1, v)) return false;
        while (true) {
            ws();
            size_t save = p_;
            int id = op(l);
            if (!id) {
                p_ = save;
                return true;
            }
            bool before = undef_;
            uint64_t r = 0;
            if (!level(l + 1, r)) return false;
            // && and || do not evaluate their right operand when the left decides
            if ((id == 1 && v != 0) || (id == 2 && v == 0)) undef_ = before;
            v = apply(id, v, r, undef_);
        }
    }
    bool unary(uint64_t &v) {
        ws();
        char c = at(p_);
        if (c == '!' || c == '~' || c == '+' || c == '-') {
            p_++;
            if (!unary(v)) return false;
            if (c == '!') v = v == 0;
            else if (c == '~') v = ~v;
            else if (c == '-') v = 0 - v;
            return true;
        }
        return primary(v);
    }
    bool ident() {
        if (!head(at(p_))) return false;
        while (head(at(p_)) || digit(at(p_))) p_++;
        return true;
    }
    bool primary(uint64_t &v) {
        char c = at(p_);
        if (c == '(') {
            p_++;
            if (!level(0, v)) return false;
            ws();
            if (at(p_) != ')') return false;
            p_++;
            return true;
        }
        if (digit(c)) {
            size_t b = p_;
            while (digit(at(p_))) p_++;
            if (at(p_) == '\'' && at(p_ + 1) == 'h' && xdigit(at(p_ + 2)) >= 0) {
                p_ += 2;
                v = 0;
                for (int d; (d = xdigit(at(p_))) >= 0; p_++) v = v << 4 | static_cast<uint64_t>(d);
                return true;
            }
            v = 0;
            for (size_t i = b; i < p_; i++) v = v * 10 + static_cast<uint64_t>(at(i) - '0');
            return true;
        }
        if (head(c)) {
            size_t b = p_;
            while (true) {
                if (!ident()) return false;
                while (at(p_) == '[') {
                    p_++;
                    if (digit(at(p_))) {
                        while (true) {
                            if (!digit(at(p_))) return false;
                            while (digit(at(p_))) p_++;
                            if (at(p_) != ':') break;
                            p_++;
                        }
                    } else if (!ident())
                        return false;
                    if (at(p_) != ']') return false;
                    p_++;
                }
                if (at(p_) == '.' && head(at(p_ + 1))) {
                    p_++;
                    continue;
                }
                break;
            }
            v = static_cast<uint64_t>(env_.value(s_.substr(b, p_ - b)));
            return true;
        }
        return false;
    }
};
inline Result parse(const std::string &s, const Env &env) { return Parser(s, env).run(); }
}  // namespace ref

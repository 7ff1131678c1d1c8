// Expressions: parsing (P02), evaluation (P01), symbols (P03). Code under test: src/eval.cc.
#include "sx.h"
#include "eval.hh"
#include "ref_expr.hh"

using hgdb::DebugExpression;

static const char *const kBin[] = {"+", "-", "*", "/", "%", "==", "!=", "&&", "^", "||", "&", "|", "<", ">", "<=", ">="};
static const int kNumBin = 16;
static const char *const kUn[] = {"", "-", "~", "!", "+", "- -", "~!", "!-"};

// evaluates `text` with the real code on a, b, c
static void setVars(DebugExpression &e, const int64_t *v, int n) {
    for (int i = 0; i < n; i++) {
        std::string name(1, static_cast<char>('a' + i));
        if (e.find(name) == e.end()) continue;
        e.set_resolved_symbol_handle(name, nullptr);
        e.set_value(name, v[i]);
    }
}

static void compare(const std::string &text, const int64_t *v, int n, const char *msg) {
    DebugExpression e(text);
    CHECK(e.correct(), "a well-formed expression is accepted");
    setVars(e, v, n);
    ref::Env env{[&](const std::string &name) { return v[name[0] - 'a']; }};
    auto r = ref::parse(text, env);
    CHECK(r.ok, "harness: reference accepts");
    auto got = e.eval();
    sx_noteu("got", static_cast<uint64_t>(got));
    sx_noteu("want", static_cast<uint64_t>(r.value));
    if (!r.undefined) CHECK(got == r.value, msg);
    sx_reach("end");
}

// P01: one operator, every pair of 64-bit operands
SX_HARNESS(eval_binary) {
    int64_t v[2] = {static_cast<int64_t>(sx_in_64("a")), static_cast<int64_t>(sx_in_64("b"))};
    int op = sx_choose("op", kNumBin);
    compare(std::string("a ") + kBin[op] + " b", v, 2, "binary operator has C semantics on 64-bit operands");
}
SX_HARNESS(eval_unary) {
    int64_t v[1] = {static_cast<int64_t>(sx_in_64("a"))};
    int op = sx_choose("op", 8);
    compare(std::string(kUn[op]) + "a", v, 1, "unary operator has C semantics on 64-bit operands");
}
// *, / and %: their results as operands of further operators make queries a solver cannot decide over 64-bit
// operands, so there the operands are 8-bit signed numbers (everything else stays 64-bit)
static bool heavy(int op) { return op >= 2 && op <= 4; }
static int64_t operand(const char *name, bool narrow) {
    return narrow ? static_cast<int64_t>(static_cast<int8_t>(sx_in_8(name))) : static_cast<int64_t>(sx_in_64(name));
}
// P01: nested operators keep full 64-bit intermediate results
SX_HARNESS(eval_nested) {
    int o1 = sx_choose("op1", kNumBin), o2 = sx_choose("op2", kNumBin);
    bool left = sx_choose("shape", 2), narrow = heavy(o1) || heavy(o2);
    int64_t v[3] = {operand("a", narrow), operand("b", narrow), operand("c", narrow)};
    std::string t = left ? std::string("(a ") + kBin[o1] + " b) " + kBin[o2] + " c" : std::string("a ") + kBin[o1] + " (b " + kBin[o2] + " c)";
    compare(t, v, 3, "nested operators have C semantics");
}
// P01: evaluation is a function of the current values: re-evaluation after a change sees the new ones
SX_HARNESS(eval_repeat) {
    int op = sx_choose("op", kNumBin);
    std::string t = std::string("a ") + kBin[op] + " (b + a)";
    DebugExpression e(t);
    for (int i = 0; i < 3; i++) {
        int64_t v[2] = {operand("a", heavy(op)), operand("b", heavy(op))};
        ref::Env env{[&](const std::string &name) { return v[name[0] - 'a']; }};
        setVars(e, v, 2);
        auto got = e.eval();
        auto r = ref::parse(t, env);
        if (!r.undefined) CHECK(got == r.value, "evaluation uses the values set last");
    }
    sx_reach("end");
}

// P02: precedence and associativity: a op1 b op2 c [op3 d], no brackets, optional unary prefix
SX_HARNESS(parse_precedence) {
    int o1 = sx_choose("op1", kNumBin), o2 = sx_choose("op2", kNumBin), u = sx_choose("un", 3), up = sx_choose("unpos", 3);
    ASSUME(u != 0 || up == 0);
    bool narrow = heavy(o1) || heavy(o2);
    int64_t v[3] = {operand("a", narrow), operand("b", narrow), operand("c", narrow)};
    const char *un[3] = {"", "", ""};
    un[up] = kUn[u];
    std::string t = std::string(un[0]) + "a " + kBin[o1] + " " + un[1] + "b " + kBin[o2] + " " + un[2] + "c";
    compare(t, v, 3, "operators bind with C precedence, left to right");
}
SX_HARNESS(parse_precedence4) {
    int64_t v[4];
    for (auto &x : v) x = operand("v", true);
    int o1 = sx_choose("op1", kNumBin), o2 = sx_choose("op2", kNumBin), o3 = sx_choose("op3", kNumBin);
    std::string t = std::string("a ") + kBin[o1] + " b " + kBin[o2] + " c " + kBin[o3] + " d";
    compare(t, v, 4, "operators bind with C precedence, left to right (four operands)");
}
// brackets override, at any nesting
SX_HARNESS(parse_brackets) {
    int64_t v[4];
    for (auto &x : v) x = operand("v", true);
    static const int sel[] = {0, 1, 3, 7, 10, 12};
    int o1 = sel[sx_choose("op1", 6)], o2 = sel[sx_choose("op2", 6)], o3 = sel[sx_choose("op3", 6)];
    int shape = sx_choose("shape", 6);
    std::string a = kBin[o1], b = kBin[o2], c = kBin[o3], t;
    switch (shape) {
        case 0: t = "(a" + a + "b)" + b + "(c" + c + "d)"; break;
        case 1: t = "a" + a + "(b" + b + "c)" + c + "d"; break;
        case 2: t = "a" + a + "(b" + b + "(c" + c + "d))"; break;
        case 3: t = "((a" + a + "b)" + b + "c)" + c + "d"; break;
        case 4: t = "( a" + a + "( b" + b + "c ) )" + c + "-(d)"; break;
        default: t = "-(a" + a + "b)" + b + "~(c" + c + "(d))"; break;
    }
    compare(t, v, 4, "brackets override precedence");
}

// P02: every byte string up to a bound is either rejected or evaluated exactly as the language says
static void anyString(const std::string &s) {
    DebugExpression e(s);
    ref::Env env{[&](const std::string &name) { return ref::nameValue(name); }};
    auto r = ref::parse(s, env);
    CHECK(e.correct() == r.ok, "accepted if and only if it is a well-formed expression");
    if (e.correct()) {
        for (auto const &name : e.symbols()) {
            e.set_resolved_symbol_handle(name, nullptr);
            e.set_value(name, ref::nameValue(name));
        }
        auto got = e.eval();
        if (!r.undefined) CHECK(got == r.value, "an accepted expression means what the language says");
        sx_reach("accepted");
    } else {
        sx_reach("rejected");
    }
}
SX_HARNESS(parse_any_bytes) { anyString(sx_string("s", 0, sx_tier() ? 3 : 2)); }
SX_HARNESS(parse_alphabet) { anyString(sx_string_of("s", 3, sx_tier() ? 5 : 4, "a1+&|!(< ")); }
SX_HARNESS(parse_alphabet2) { anyString(sx_string_of("s", 3, sx_tier() ? 5 : 4, "a0'h=-).[")); }
SX_HARNESS(parse_variable) {
    auto s = sx_string_of("s", 1, sx_tier() ? 6 : 5, "x_9.[:]");
    anyString(s);
}
SX_HARNESS(parse_spaces) {
    // white space between tokens never matters
    const char *tok[] = {"(", "a", "+", "!", "b", ")", "*", "c"};
    int64_t v[3] = {static_cast<int64_t>(sx_in_64("a")), static_cast<int64_t>(sx_in_64("b")), static_cast<int64_t>(sx_in_64("c"))};
    std::string t, bare;
    int g1 = sx_choose("gap1", 9), g2 = sx_choose("gap2", 9);  // gap 8: at the end
    ASSUME(g1 <= g2);
    auto gap = [&](int i) {
        for (int g : {g1, g2}) {
            if (g != i) continue;
            uint8_t c = sx_in_8("space");
            ASSUME(sx_one_of(c, " \t\n\r\v\f"));
            t.push_back(static_cast<char>(c));
        }
    };
    for (int i = 0; i < 8; i++) {
        gap(i);
        t += tok[i];
        bare += tok[i];
    }
    gap(8);
    DebugExpression e(t), f(bare);
    CHECK(e.correct() && f.correct(), "accepted with any white space between tokens");
    setVars(e, v, 3);
    setVars(f, v, 3);
    CHECK(e.eval() == f.eval(), "white space between tokens does not change the meaning");
    sx_reach("end");
}

// P03: literals
SX_HARNESS(literal_decimal) {
    int n = 1 + sx_choose("digits", 18);
    std::string s(n, '0');
    uint64_t val = 0;
    for (int i = 0; i < n; i++) {
        uint8_t c = sx_in_8("c");
        ASSUME(c >= '0' && c <= '9');
        s[i] = static_cast<char>(c);
        val = val * 10u + static_cast<unsigned>(static_cast<int>(c) - '0');
    }
    DebugExpression e(s);
    CHECK(e.correct(), "decimal literal accepted");
    CHECK(e.eval() == static_cast<int64_t>(val), "decimal literal has its value");
    sx_reach("end");
}
SX_HARNESS(literal_hex) {
    // the class of each digit (0-9, a-f, A-F) follows one of 7 patterns; the digit itself is symbolic
    int n = 1 + sx_choose("digits", 16), pattern = sx_choose("pattern", 7);
    std::string s(n, '0');
    uint64_t val = 0;
    for (int i = 0; i < n; i++) {
        int cls = pattern < 3 ? pattern : pattern == 3 ? i % 2 : pattern == 4 ? (i + 1) % 3 : pattern == 5 ? (i == 0 ? 1 : 0) : (i == n - 1 ? 0 : 2);
        uint8_t d = sx_in_8("d");
        ASSUME(cls == 0 ? d < 10 : (d >= 10) & (d < 16));
        s[i] = static_cast<char>(cls == 0 ? '0' + d : (cls == 1 ? 'a' : 'A') + d - 10);
        val = val << 4 | d;
    }
    DebugExpression e("64'h" + s);
    CHECK(e.correct(), "hex literal accepted");
    CHECK(static_cast<uint64_t>(e.eval()) == val, "hex literal has its 64-bit value");
    sx_reach("end");
}
// P03: symbols. Names from a pool with shared prefixes, so that a mix-up of names shows.
SX_HARNESS(symbols) {
    static const char *const pool[] = {"a", "aa", "a.a", "a[0]", "a[1]", "_a", "a1", "a[1:0]"};
    int i1 = sx_choose("n1", 8), i2 = sx_choose("n2", 8), i3 = sx_choose("n3", 8);
    ASSUME(i1 != i2 && i1 <= i3);
    const char *n[3] = {pool[i1], pool[i2], pool[i3]};
    DebugExpression e(std::string(n[0]) + " - (" + n[1] + " + " + n[2] + ")");
    CHECK(e.correct(), "accepted");
    bool same13 = i1 == i3, same23 = i2 == i3;
    unsigned distinct = 2u + (!same13 && !same23);
    CHECK(e.size() == distinct, "each variable listed once");
    for (auto *x : n) CHECK(e.find(x) != e.end(), "each named variable is listed");
    // any subset known statically, the rest resolved to handles
    int64_t v[3];
    bool st[3];
    for (int k = 0; k < 3; k++) {
        v[k] = static_cast<int64_t>(sx_in_64("v"));
        st[k] = sx_choose("static", 2);
    }
    if (same13) v[2] = v[0], st[2] = st[0];
    if (same23) v[2] = v[1], st[2] = st[1];
    std::unordered_map<std::string, int64_t> sv;
    for (int k = 0; k < 3; k++)
        if (st[k]) sv.emplace(n[k], v[k]);
    sv.emplace("unrelated", 42);
    e.set_static_values(sv);
    auto req = e.get_required_symbols();
    for (int k = 0; k < 3; k++) CHECK((req.find(n[k]) == req.end()) == st[k], "required = not statically known");
    CHECK(req.find("unrelated") == req.end(), "unrelated names are not required");
    unsigned int dummy[3];
    for (int k = 0; k < 3; k++)
        if (!st[k]) e.set_resolved_symbol_handle(n[k], &dummy[k]);
    e.set_resolved_symbol_handle("unrelated", &dummy[0]);
    auto const &h = e.get_resolved_symbol_handles();
    for (auto const &[name, handle] : h) CHECK(req.find(name) != req.end(), "handles only for required symbols");
    CHECK(h.size() == req.size(), "every required symbol gets its handle");
    for (int k = 0; k < 3; k++)
        if (!st[k]) {
            int first = (k == 2 && same13) ? 0 : (k == 2 && same23) ? 1 : k;
            CHECK(h.at(n[k]) == &dummy[first], "each symbol keeps the handle it was given");
            e.set_value(n[k], v[k]);
        }
    CHECK(e.eval() == static_cast<int64_t>(static_cast<uint64_t>(v[0]) - (static_cast<uint64_t>(v[1]) + static_cast<uint64_t>(v[2]))),
          "each variable contributes its own value");
    sx_reach("end");
}

// Reading the design: values and slices (P04), names and handles (P05). Code under test: src/rtl.cc, src/util.cc.
#include "sx.h"
#include "mock_vpi.hh"
#include "util.hh"

using hgdb::RTLSimulatorClient;

static std::string digits(unsigned v, int n) {  // v as n digits, v < 10^n, possibly symbolic
    std::string s(n, '0');
    for (int i = n - 1; i >= 0; i--) {
        s[i] = static_cast<char>('0' + v % 10);
        v /= 10;
    }
    return s;
}
static unsigned sxDigits(const char *name, std::string &out, int n) {  // n symbolic digits appended to out
    unsigned v = 0;
    for (int i = 0; i < n; i++) {
        uint8_t c = sx_in_8(name);
        ASSUME(c >= '0' && c <= '9');
        out.push_back(static_cast<char>(c));
        v = v * 10 + (c - '0');
    }
    return v;
}

// ------------------------------------------------------------------ P04
// integer reads of a slice [hi:lo] (either order), every value, every pair of bounds below 100
SX_HARNESS(slice_int) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    auto *a = vpi->signal("t.d.a", m);
    a->value = static_cast<int32_t>(sx_in_32("value"));
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    std::string name = "m.a[";
    unsigned x = sxDigits("x", name, 1 + sx_choose("nx", 2));
    name += ":";
    unsigned y = sxDigits("y", name, 1 + sx_choose("ny", 2));
    name += "]";
    unsigned hi = x > y ? x : y, lo = x > y ? y : x;
    auto r = rtl.get_value(name);
    CHECK(r.has_value(), "a slice of a signal can be read");
    auto full = static_cast<uint64_t>(a->value);
    uint64_t want = 0;
    if (lo < 64) {
        want = full >> lo;
        unsigned n = hi - lo + 1;
        if (n < 64) want &= (1ull << n) - 1;
    }
    sx_noteu("hi", hi), sx_noteu("lo", lo), sx_noteu("got", static_cast<uint64_t>(*r)), sx_noteu("want", want);
    CHECK(static_cast<uint64_t>(*r) == want, "a slice reads exactly its bits");
    // a second read sees a change of the signal
    a->value = static_cast<int32_t>(sx_in_32("value2"));
    auto *h = rtl.get_handle(name);
    CHECK(h == rtl.get_handle(name), "the same name gives the same handle");
    auto r2 = rtl.get_value(h);
    full = static_cast<uint64_t>(a->value);
    want = 0;
    if (lo < 64) {
        want = full >> lo;
        unsigned n = hi - lo + 1;
        if (n < 64) want &= (1ull << n) - 1;
    }
    CHECK(r2 && static_cast<uint64_t>(*r2) == want, "a slice follows its signal");
    CHECK(rtl.is_valid_signal(name), "a slice is a valid signal");
    CHECK(rtl.get_signal_width(h) == std::optional<uint32_t>(hi - lo + 1), "width of a slice");
    sx_reach("end");
}
// formatted reads of a slice: every bit pattern (0, 1, x, z) of the parent
SX_HARNESS(slice_str) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    int w = 1 + sx_choose("width", sx_tier() ? 10 : 7);
    auto *a = vpi->signal("t.d.a", m, w);
    bool four = sx_choose("four-state", 2);
    for (int i = 0; i < w; i++) {
        uint8_t c = sx_in_8("bit");
        ASSUME(sx_one_of(c, four ? "01xz" : "01"));
        a->str.push_back(static_cast<char>(c));
    }
    int hi = sx_choose("hi", w + 2), lo = sx_choose("lo", w + 2);
    ASSUME(hi >= lo);
    ASSUME(!four || w <= 5);
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    auto name = "m.a[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    auto r = rtl.get_str_value(name);
    CHECK(r.has_value(), "a slice can be formatted");
    std::string s = *r;
    if (hi > lo) {
        CHECK(s.size() > 2 && s[0] == '0' && s[1] == 'x', "hex values of more than one bit start with 0x");
        s = s.substr(2);
    }
    CHECK(!s.empty(), "not empty");
    // digit k (from the right) covers bits lo+4k .. lo+4k+3
    for (int k = 0; k < static_cast<int>(s.size()) || lo + 4 * k <= hi; k++) {
        unsigned d = 0;
        bool unk = false, allz = true;
        for (int b = 0; b < 4; b++) {
            int bit = lo + 4 * k + b;
            char c = bit <= hi && bit < w ? a->str[w - 1 - bit] : '0';
            d |= static_cast<unsigned>(c == '1') << b;
            bool inside = bit <= hi && bit < w;
            unk |= inside & ((c == 'x') | (c == 'z'));
            allz &= !inside | (c == 'z');
        }
        char got = k < static_cast<int>(s.size()) ? s[s.size() - 1 - k] : '0';
        char want = static_cast<char>(d < 10 ? '0' + d : 'A' + d - 10);
        CHECK(unk | (got == want), "each digit shows its four bits");
        CHECK(!unk | (got == 'X') | (got == 'Z') | (got == 'x') | (got == 'z'), "a digit with unknown bits is shown as unknown");
    }
    sx_reach("end");
}
// whole signals: value and formatted value, the 64-bit limit of verilator, bad handles
SX_HARNESS(whole_value) {
    auto vpi = std::make_shared<MockVPI>();
    bool ver = sx_choose("verilator", 2);
    if (ver) vpi->product = "Verilator";
    auto *m = vpi->module("t.d", "m");
    // wider signals: wide_value
    int size = ver && sx_choose("wide", 2) ? static_cast<int>(sx_range("size", 65, 200)) : static_cast<int>(sx_range("size", 1, 32));
    auto *a = vpi->signal("t.d.a", m, size);
    auto *b = vpi->signal("t.d.aa", m, size);
    a->value = static_cast<int32_t>(sx_in_32("a"));
    b->value = static_cast<int32_t>(sx_in_32("b"));
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    auto r = rtl.get_value("m.a");
    if (ver && size > 64) {
        CHECK(!r, "too wide for verilator's integers");
    } else {
        CHECK(r && *r == a->value, "the value is the one the simulator reports");
        auto r2 = rtl.get_value("m.aa");
        CHECK(r2 && *r2 == b->value, "signals are not mixed up");
    }
    a->str = "1F";
    auto s = rtl.get_str_value("m.a");
    CHECK(s && *s == (size > 1 ? "0x1F" : "1F"), "0x exactly for more than one bit");
    CHECK(!rtl.get_value("m.c") && !rtl.get_str_value("m.c"), "a missing signal has no value");
    CHECK(!rtl.get_value(static_cast<vpiHandle>(nullptr)), "no handle, no value");
    CHECK(!rtl.get_str_value("m"), "a module has no value");
    CHECK(rtl.get_signal_width(rtl.get_handle("m.a")) == std::optional<uint32_t>(size), "width");
    sx_reach("end");
}
// writes go to the named signal only
SX_HARNESS(set_value) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    auto *a = vpi->signal("t.d.a", m), *b = vpi->signal("t.d.b", m);
    b->value = static_cast<int32_t>(sx_in_32("b"));
    auto b0 = b->value;
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    auto v = static_cast<int64_t>(static_cast<int32_t>(sx_in_32("v")));
    CHECK(rtl.set_value("m.a", v), "a known signal can be set");
    CHECK(a->value == v && b->value == b0 && vpi->writes.size() == 1, "exactly the named signal is written");
    CHECK(rtl.get_value("m.a") == std::optional<int64_t>(v), "and reads back");
    CHECK(!rtl.set_value("m.c", v) && vpi->writes.size() == 1, "an unknown signal is refused");
    sx_reach("end");
}
// signals of more than 32 bits: all the bits, unknown ones are 0; and slices of them
static const int kWide[] = {33, 40, 63, 64, 65, 100};
SX_HARNESS(wide_value) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    int size = kWide[sx_choose("size", 6)];
    auto *a = vpi->signal("t.d.a", m, size);
    for (int i = 0; i < size; i++) {
        uint8_t c = sx_in_8("bit");
        ASSUME(sx_one_of(c, "01xz"));
        a->str.push_back(static_cast<char>(c));
    }
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    std::string name = "m.a";
    int hi = size - 1, lo = 0;
    if (sx_choose("slice", 2)) {
        hi = sx_tier() ? sx_choose("hi", size + 3) : std::vector<int>{2, 31, 32, 33, size - 1, size + 2}[sx_choose("hi", 6)];
        lo = sx_tier() ? sx_choose("lo", size + 1) : std::vector<int>{0, 1, 31, 32, 33, size - 1}[sx_choose("lo", 6)];
        ASSUME(hi >= lo);
        name += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    }
    uint64_t want = 0;
    for (int i = 0; i < 64 && lo + i <= hi && lo + i < size; i++) want |= static_cast<uint64_t>(a->str[size - 1 - lo - i] == '1') << i;
    auto r = rtl.get_value(name);
    CHECK(r.has_value(), "a wide signal can be read");
    sx_noteu("want", want), sx_noteu("got", static_cast<uint64_t>(*r));
    CHECK(static_cast<uint64_t>(*r) == want, "all the bits of a wide signal count");
    sx_reach("end");
}
// writing a wide signal, or a slice: exactly the bits named change
SX_HARNESS(set_wide) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    static const int sizes[] = {1, 5, 32, 33, 40, 64};
    int size = sizes[sx_choose("size", 6)];
    auto *a = vpi->signal("t.d.a", m, size), *b = vpi->signal("t.d.b", m, size);
    auto old = sx_in_64("a");
    if (size < 64) old &= (1ull << size) - 1;
    a->value = size == 32 ? static_cast<int32_t>(old) : static_cast<int64_t>(old);
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    std::string name = "m.a";
    int hi = size - 1, lo = 0;
    if (sx_choose("slice", 2)) {
        hi = std::vector<int>{0, 3, 31, 32, size - 1}[sx_choose("hi", 5)];
        lo = std::vector<int>{0, 1, 3, 31, size - 1}[sx_choose("lo", 5)];
        ASSUME(hi >= lo && hi < size);
        name += "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    }
    auto v = sx_in_64("v");
    uint64_t mask = hi - lo == 63 ? ~0ull : (1ull << (hi - lo + 1)) - 1;
    ASSUME(v <= mask);
    CHECK(rtl.set_value(name, static_cast<int64_t>(v)), "the value can be set");
    uint64_t want = (old & ~(mask << lo)) | (v << lo), got = static_cast<uint64_t>(a->value);
    if (size < 64) got &= (1ull << size) - 1;
    CHECK(got == want, "exactly the bits named are written");
    CHECK(b->value == 0, "other signals are left alone");
    auto r = rtl.get_value(name);
    CHECK(r, "and can be read back");
    got = static_cast<uint64_t>(*r) & mask;
    CHECK(got == v, "and reads back");
    sx_reach("end");
}
// simulation time is the full 64-bit value
SX_HARNESS(sim_time) {
    auto vpi = std::make_shared<MockVPI>();
    vpi->time = sx_in_64("time");
    RTLSimulatorClient rtl(vpi);
    CHECK(rtl.get_simulation_time() == vpi->time, "simulation time");
    auto t = sx_in_64("to");
    auto *clk = vpi->signal("t.clk", nullptr, 1);
    bool ok = vpi->rewind_ok = sx_choose("ok", 2);
    CHECK(rtl.rewind(t, {MockVPI::h(clk)}) == ok, "rewind reports what the simulator says");
    CHECK(vpi->rewinds.size() == 1 && vpi->rewinds[0].time == t && vpi->rewinds[0].clock_signals.size() == 1 &&
              vpi->rewinds[0].clock_signals[0] == MockVPI::h(clk),
          "rewind asks for that time and clock");
    sx_reach("end");
}

// ------------------------------------------------------------------ P05
static std::string refFull(const std::string &n, const std::string &top, const std::string &prefix) {
    if (n.size() >= 6 && n.substr(0, 6) == "$root.") return n.substr(6);
    if (n == top) return prefix.substr(0, prefix.size() - 1);
    if (n.size() > top.size() && n.substr(0, top.size()) == top && n[top.size()] == '.') {
        auto rest = n.substr(top.size() + 1);
        return rest.empty() ? prefix.substr(0, prefix.size() - 1) : prefix + rest;
    }
    return n;
}
SX_HARNESS(full_name) {
    auto vpi = std::make_shared<MockVPI>();
    RTLSimulatorClient rtl(vpi);
    std::string top = sx_choose("top", 2) ? "m" : "mm", prefix = "t.d.";
    rtl.set_mapping(top, prefix);
    std::string n;
    if (sx_choose("root", 2)) n = "$root.";
    n += sx_string_of("n", 1, sx_tier() ? 6 : 5, "mt.$");
    auto got = rtl.get_full_name(n);
    auto want = refFull(n, top, prefix);
    CHECK(got == want, "names below the design are mapped, others are left alone");
    sx_reach("end");
}
// array elements: by index or by path, any index up to 11 digits
SX_HARNESS(array_access) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    auto *arr = vpi->add(vpiRegArray, "t.d.arr", m);
    int n1 = 1 + sx_choose("n1", 3), n2 = 1 + sx_choose("n2", 2);
    for (int i = 0; i < n1; i++) {
        auto *e = vpi->add(vpiRegArray, "");
        arr->elements.push_back(e);
        for (int j = 0; j < n2; j++) {
            auto *x = vpi->add(vpiReg, "");
            x->value = i * 10 + j + 1;
            e->elements.push_back(x);
        }
    }
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    bool dots = sx_choose("dots", 2);
    std::string name = dots ? "m.arr." : "m.arr[";
    std::string i1, i2;
    int len = sx_choose("len", 3);
    uint64_t a = 0, b = 0;
    for (int k = 0; k < (len == 0 ? 1 : len == 1 ? 2 : 11); k++) {
        uint8_t c = sx_in_8("i");
        ASSUME(c >= '0' && c <= '9');
        i1.push_back(static_cast<char>(c));
        a = a * 10 + (c - '0');
    }
    uint8_t c2 = sx_in_8("j");
    ASSUME(c2 >= '0' && c2 <= '9');
    i2.push_back(static_cast<char>(c2));
    b = c2 - '0';
    name += i1 + (dots ? "." : "][") + i2 + (dots ? "" : "]");
    auto *h = rtl.get_handle(name);
    bool inside = (a < static_cast<uint64_t>(n1)) & (b < static_cast<uint64_t>(n2));
    CHECK((h != nullptr) == inside, "an element exists exactly if the indices are inside the array");
    if (h) {
        CHECK(rtl.get_value(h) == std::optional<int64_t>(static_cast<int64_t>(a * 10 + b + 1)), "the element is the one named");
        CHECK(rtl.get_handle(name) == h, "same name, same element");
        sx_reach("inside");
    } else
        sx_reach("outside");
}
// resolution never crashes, whatever the name is
SX_HARNESS(any_name) {
    auto vpi = std::make_shared<MockVPI>();
    auto *t = vpi->module("t", "tt");
    auto *m = vpi->module("t.d", "m", t);
    auto *a = vpi->signal("t.d.a", m);
    a->value = 5;
    auto *arr = vpi->add(vpiRegArray, "t.d.r", m);
    auto *e = vpi->add(vpiReg, "");
    arr->elements.push_back(e);
    e->value = 7;
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    int sig = sx_choose("sig", 4);
    static const char *const bases[] = {"m.a", "m.r", "m.z", "m"};
    std::string suffix = sx_string_of("n", 0, sx_tier() ? 5 : 4, "[]:.01a-");
    std::string n = bases[sig] + suffix;
    auto *h = rtl.get_handle(n);
    // what the name denotes: a variable, then indices, then possibly a slice
    std::vector<std::string> tok;
    std::string cur;
    for (char c : n + ".")
        if (c == '.' || c == '[' || c == ']') {
            if (!cur.empty()) tok.push_back(cur);
            cur.clear();
        } else
            cur += c;
    MockVPI::Obj *o = nullptr;
    bool judged = true, slice = false, module = false;
    uint64_t want = 0;
    if (tok[0] == "m" && tok.size() > 1) o = tok[1] == "a" ? a : tok[1] == "r" ? arr : nullptr;
    if (tok[0] == "m" && tok.size() == 1) {
        module = true;   // the instance itself: its object
        judged = n == "m";
    }
    for (size_t i = 2; i < tok.size() && o; i++) {
        auto colon = tok[i].find(':');
        auto digits = [](const std::string &x) {
            for (char c : x)
                if (c < '0' || c > '9') return false;
            return !x.empty();
        };
        if (colon != std::string::npos) {
            // only at the end, and only of something that has bits
            auto hi = tok[i].substr(0, colon), lo = tok[i].substr(colon + 1);
            if (o == arr) judged = false;
            if (i + 1 != tok.size() || !digits(hi) || !digits(lo)) {
                if (i + 1 == tok.size()) judged = false;
                o = nullptr;
                break;
            }
            uint64_t x = std::stoul(hi), y = std::stoul(lo);
            if (x < y) std::swap(x, y);
            slice = true;
            want = 0;
            for (uint64_t b = y; b <= x && b < 64; b++) want |= ((static_cast<uint64_t>(o->value) >> b) & 1) << (b - y);
        } else if (!digits(tok[i]))
            o = nullptr;
        else
            o = o == arr && std::stoul(tok[i]) == 0 ? e : nullptr;
    }
    // proper notation: .name and [index] parts
    bool proper = true, open = false;
    for (size_t i = 0; i < n.size(); i++) {
        bool sep = n[i] == '.' || n[i] == '[' || n[i] == ']', before = i && (n[i - 1] == '.' || n[i - 1] == '[');
        if (n[i] == '[') proper = proper && !open && i + 1 < n.size() && n[i + 1] != 'a' && n[i + 1] != '-', open = true;
        else if (n[i] == ']') proper = proper && open && !before, open = false;
        else if (n[i] == '.') proper = proper && !open;
        else if (i && n[i - 1] == ']') proper = false;
        if (sep && n[i] != ']' && (before || i + 1 == n.size())) proper = false;
    }
    if (open) proper = false;
    if (!proper && h == nullptr) judged = false;   // may be refused
    if (judged) {
        if (module) CHECK(h == MockVPI::h(m), "the name of an instance denotes the instance");
        else if (!o) CHECK(h == nullptr, "a name that denotes nothing resolves to nothing");
        else if (!slice) CHECK(h == MockVPI::h(o), "a name resolves to the variable or element it denotes");
        else {
            CHECK(h != nullptr, "a slice of a variable resolves");
            auto v = rtl.get_value(h);
            CHECK(v && static_cast<uint64_t>(*v) == want, "a slice has the bits it selects");
        }
    }
    if (h) {
        auto v = rtl.get_value(h);
        CHECK(v.has_value(), "a handle that resolves can be read");
        auto h2 = rtl.get_handle(n);
        CHECK(h2 == h, "same name, same handle");
        sx_reach("resolved");
    } else
        sx_reach("unresolved");
    if (judged) CHECK(rtl.is_valid_signal(n) == (o != nullptr && !module), "only signals are signals");
}
// parent references
SX_HARNESS(parent_path) {
    // path of up to 5 tokens, each a name or $parent; the front must not go above the top
    auto vpi = std::make_shared<MockVPI>();
    RTLSimulatorClient rtl(vpi);
    int n = 2 + sx_choose("n", 4);
    std::string path;
    std::vector<std::string> want;
    static const char *const names[] = {"a", "b", "$x", "$parent"};
    for (int i = 0; i < n; i++) {
        int k = sx_choose("tok", i == 0 ? 3 : 4);
        if (k == 3) {
            ASSUME(!want.empty());
            want.pop_back();
        } else
            want.emplace_back(names[k]);
        path += (i ? "." : "") + std::string(names[k]);
    }
    std::string w;
    for (size_t i = 0; i < want.size(); i++) w += (i ? "." : "") + want[i];
    auto r = rtl.resolve_rtl_variable("front", path);
    CHECK(r.size() == 1 && r[0].first == "front" && r[0].second == w, "each $parent goes up one level");
    sx_reach("end");
}
// where the design's top is instantiated, by definition name: every hierarchy of 5 modules
SX_HARNESS(mapping_by_def) {
    auto vpi = std::make_shared<MockVPI>();
    std::vector<MockVPI::Obj *> mods;
    int n = 2 + sx_choose("n", 3);
    static const char *const defs[] = {"m", "k", "mm"};
    std::vector<std::string> wm, wk;
    for (int i = 0; i < n; i++) {
        int p = i == 0 ? -1 : sx_choose("parent", i);
        int d = sx_choose("def", 3);
        std::string nm(1, static_cast<char>('a' + i));
        auto full = p < 0 ? nm : mods[p]->full + "." + nm;
        mods.push_back(vpi->module(full, defs[d], p < 0 ? nullptr : mods[p]));
        if (d == 0) wm.push_back(full + ".");
        if (d == 1) wk.push_back(full + ".");
    }
    RTLSimulatorClient rtl(vpi);
    bool two = sx_choose("two", 2);
    std::vector<std::string> inst = {"m.x", "m"};
    if (two) inst.emplace_back("k.y.z");
    auto r = rtl.compute_instance_mapping(inst, true);
    CHECK(r.size() == wm.size() + (two ? wk.size() : 0), "each instantiation of a top is found once");
    for (auto &x : wm) {
        int c = 0;
        for (auto &[d, p] : r) c += d == "m" && p == x;
        CHECK(c == 1, "with its hierarchical name");
    }
    if (two)
        for (auto &x : wk) {
            int c = 0;
            for (auto &[d, p] : r) c += d == "k" && p == x;
            CHECK(c == 1, "with its hierarchical name");
        }
    sx_reach("end");
}
// without definition names, the instance names have to lead to it
SX_HARNESS(mapping_by_name) {
    auto vpi = std::make_shared<MockVPI>();
    vpi->defnames = false;
    std::vector<MockVPI::Obj *> mods;
    int n = 2 + sx_choose("n", 3);
    for (int i = 0; i < n; i++) {
        int p = i == 0 ? -1 : sx_choose("parent", i);
        std::string nm(1, static_cast<char>('a' + sx_choose("name", 3)));
        auto full = p < 0 ? nm : mods[p]->full + "." + nm;
        for (auto *o : mods) ASSUME(o->full != full);
        mods.push_back(vpi->module(full, "", p < 0 ? nullptr : mods[p]));
    }
    RTLSimulatorClient rtl(vpi);
    static const char *const insts[] = {"m.b", "m.a.b", "m.b.c.a", "m.a.a"};
    std::string inst = insts[sx_choose("inst", 4)];
    auto path = inst.substr(1);
    auto r = rtl.compute_instance_mapping({inst}, false);
    for (auto &[top, prefix] : r) {
        CHECK(top == "m", "mapping of the top");
        auto full = prefix.substr(0, prefix.size() - 1) + path;
        CHECK(vpi->byName(full) != nullptr, "the instance exists below the prefix");
    }
    size_t want = 0;
    for (auto *o : mods) {
        auto &f = o->full;
        want += f.size() > path.size() && f.substr(f.size() - path.size()) == path;
    }
    CHECK(r.size() == want, "every place the instance path ends in is found");
    sx_reach("end");
}
// the default clock: a 1-bit signal with a usual name in the design, or one level up
SX_HARNESS(find_clock) {
    auto vpi = std::make_shared<MockVPI>();
    auto *t = vpi->module("t", "t");
    auto *m = vpi->module("t.d", "m", t);
    int in = sx_choose("in", 7), up = sx_choose("up", 7), wi = 1 + sx_choose("width", 2), wu = 1 + sx_choose("upwidth", 2);
    static const char *const names[] = {"clk", "clock", "clk_in", "clock_in", "CLK", "CLOCK"};
    if (in < 6) vpi->signal(std::string("t.d.") + names[in], m, wi);
    if (up < 6) vpi->signal(std::string("t.") + names[up], t, wu);
    RTLSimulatorClient rtl(vpi);
    rtl.set_mapping("m", "t.d.");
    auto r = rtl.get_clocks_from_design();
    if (in < 6 && wi == 1) {
        CHECK(r.size() == 1 && rtl.get_full_name(r[0]) == std::string("t.d.") + names[in], "the design's clock");
    } else if (up < 6 && wu == 1) {
        CHECK(r.size() == 1 && rtl.get_full_name(r[0]) == std::string("t.") + names[up], "the parent's clock");
    } else
        CHECK(r.empty(), "no clock");
    sx_reach("end");
}
static int noop(p_cb_data) { return 0; }
// callbacks: one registration per name, removal by name, monitoring is all or nothing
SX_HARNESS(callbacks) {
    auto vpi = std::make_shared<MockVPI>();
    auto *m = vpi->module("t.d", "m");
    vpi->signal("t.d.a", m, 1);
    vpi->signal("t.d.b", m, 1);
    {
        RTLSimulatorClient rtl(vpi);
        rtl.set_mapping("m", "t.d.");
        bool have[2] = {false, false};
        static const char *const cb[] = {"one", "two"};
        for (int i = 0; i < 5; i++) {
            int k = sx_choose("which", 2);
            if (sx_choose("op", 2)) {
                auto *h = rtl.add_call_back(cb[k], cbNextSimTime, noop);
                CHECK(h != nullptr, "registered");
                have[k] = true;
            } else {
                rtl.remove_call_back(cb[k]);
                have[k] = false;
            }
            CHECK(vpi->active(cbNextSimTime) == have[0] + have[1], "exactly the live names are registered");
            auto names = rtl.callback_names();
            CHECK(names.size() == static_cast<size_t>(have[0] + have[1]), "and listed");
        }
        static const char *const sigs[] = {"m.a", "m.b", "m.nope"};
        std::vector<std::string> s = {sigs[sx_choose("s1", 3)], sigs[sx_choose("s2", 3)]};
        bool ok = s[0] != "m.nope" && s[1] != "m.nope";
        bool r = rtl.monitor_signals(s, noop, nullptr);
        CHECK(r == ok, "monitoring succeeds exactly if all signals exist");
        CHECK(vpi->active(cbValueChange) == (ok ? (s[0] == s[1] ? 1 : 2) : 0), "all or nothing");
    }
    for (auto &c : vpi->cbs) CHECK(c->removed || c->released, "no callback handle is leaked");
    sx_reach("end");
}

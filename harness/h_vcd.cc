// The VCD reader (P18).
#include "sx.h"
#include "tools/vcd/vcd.hh"

struct Event {
    enum Kind { meta, enter, leave, var, defs, time, dump, value } kind;
    std::string a, b, c;
    uint64_t n = 0;
    bool operator==(const Event &o) const { return kind == o.kind && n == o.n && a == o.a && b == o.b && c == o.c; }
};
struct Read {
    std::vector<Event> events;
    bool ok = false;
    std::string error;
    explicit Read(const std::string &text) {
        std::stringstream in(text);
        hgdb::vcd::VCDParser p(in);
        using namespace hgdb::vcd;
        p.set_on_meta_info([this](const VCDMetaInfo &i) { events.push_back({Event::meta, i.value, "", "", static_cast<uint64_t>(i.type)}); });
        p.set_on_enter_scope([this](const VCDScopeDef &s) { events.push_back({Event::enter, s.name, s.type, ""}); });
        p.set_exit_scope([this]() { events.push_back({Event::leave, "", "", ""}); });
        p.set_on_var_def([this](const VCDVarDef &v) { events.push_back({Event::var, v.name, v.identifier, v.type + "|" + v.slice, v.width}); });
        p.set_on_definition_finished([this]() { events.push_back({Event::defs, "", "", ""}); });
        p.set_on_time_change([this](uint64_t t) {
            events.push_back({Event::time, "", "", "", t});
        });
        p.set_on_dump_var_action([this](const std::string &d) { events.push_back({Event::dump, d, "", ""}); });
        p.set_value_change([this](const VCDValue &v) { events.push_back({Event::value, v.identifier, v.value, v.is_event ? "scalar" : "vector", v.time}); });
        ok = p.parse();
        error = p.error_message();
    }
};
static const char *kHeader = "$var wire 1 ! a $end\n$enddefinitions $end\n";
static void same(const std::vector<Event> &got, const std::vector<Event> &want, const char *what) {
    CHECK(got.size() == want.size(), what);
    for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], what);
}

// every sequence of items in the value section
SX_HARNESS(vcd_values) {
    const std::string idents[] = {"!", "0", "b#", "$x"};
    int n = sx_tier() ? 3 : 2;
    std::string text = kHeader;
    std::vector<Event> want{{Event::var, "a", "!", "wire|", 1}, {Event::defs, "", "", ""}};
    uint64_t now = 0;
    const std::string gap = sx_choose("gap", 2) ? "\n" : " \r\n\t";
    for (int i = 0; i < n; i++) {
        bool few = n == 3 && i;   // one of each kind after the first
        bool in_dump = false;
        auto id = [&]() { return idents[in_dump ? 2 : few ? 1 : sx_choose("ident", 4)]; };
        auto scalar = [&](int kinds) {
            auto x = id();
            char v = "01xzXZ"[few ? 1 : sx_choose("value", kinds)];
            text += std::string(1, v) + x;
            want.push_back({Event::value, x, std::string(1, v), "scalar", now});
        };
        auto vector = [&](int kinds) {
            auto x = id();
            const std::string vals[] = {"x1", "0", "zz0"};
            auto &v = vals[few ? 0 : sx_choose("bits", kinds)];
            text += "b" + v + gap + x;
            want.push_back({Event::value, x, v, "vector", now});
        };
        switch (sx_choose("item", 7)) {
            case 0: scalar(6); break;
            case 1: vector(3); break;
            case 2: {
                const std::string t[] = {"0", "7", "4294967296", "18446744073709551615"};
                int k = few ? 2 : sx_choose("time", 4);
                now = k == 0 ? 0 : k == 1 ? 7 : k == 2 ? 4294967296ull : ~0ull;
                text += "#" + t[k];
                want.push_back({Event::time, "", "", "", now});
                break;
            }
            case 3: text += "r1.5 " + id(); break;   // not reported, and not taken for anything else
            case 4: text += "$comment 1! b0 ! #3 $end"; break;
            case 5: {
                const std::string kinds[] = {"$dumpvars", "$dumpoff", "$dumpall", "$dumpon"};
                auto &d = kinds[sx_choose("dump", 4)];
                in_dump = true;
                text += d + gap;
                want.push_back({Event::dump, d, "", ""});
                for (int k = sx_choose("in", 3); k > 0; k--) {
                    k == 2 ? vector(1) : scalar(1);
                    text += gap;
                }
                text += "$end";
                break;
            }
            case 6: break;
        }
        if (i + 1 < n || sx_choose("last", 2)) text += gap;
    }
    Read r(text);
    CHECK(r.ok, "a well-formed file is accepted");
    same(r.events, want, "each time and each value is reported once, in order, as it is");
    sx_reach("end");
}

// any decimal time
SX_HARNESS(vcd_time) {
    int n = 1 + sx_choose("digits", sx_tier() ? 8 : 5);
    const std::string prefix[] = {"", "184467440737095516", "000000000000000000000"};
    int pre = n > 2 ? 0 : sx_choose("prefix", 3);
    std::string t = prefix[pre];
    for (int i = 0; i < n; i++) {
        auto d = sx_in_8("d");
        ASSUME(d <= 9);
        t.push_back(static_cast<char>('0' + d));
    }
    if (pre == 1 && n == 2) ASSUME((t[18] == '0') | ((t[18] == '1') & (t[19] <= '5')));
    uint64_t want = 0;
    for (char c : t) want = want * 10 + static_cast<unsigned char>(c - '0');
    Read r(std::string(kHeader) + "#" + t + "\n1!\n");
    CHECK(r.ok, "a time of 64 bits is accepted");
    CHECK(r.events.size() == 4 && r.events[2].kind == Event::time && r.events[2].n == want, "the time is the one written");
    CHECK(r.events[3].kind == Event::value && r.events[3].n == want, "a value has the time it is under");
    sx_reach("end");
}

// the definitions
SX_HARNESS(vcd_header) {
    std::string text;
    std::vector<Event> want;
    int depth = 0, n = 3;
    const std::string gaps[] = {" ", "\n", "\n\t "};
    const std::string *g = &gaps[2 * sx_choose("gap", 2)];
    auto gap = [&]() { text += *g; };
    for (int i = 0; i < n; i++) {
        switch (sx_choose("item", 5)) {
            case 0: {
                const std::string names[] = {"$date", "$version", "$timescale", "$comment"};
                using M = hgdb::vcd::VCDMetaInfo::MetaType;
                const M types[] = {M::date, M::version, M::timescale, M::comment};
                int k = sx_choose("meta", 4);
                bool two = sx_choose("two", 2);
                text += names[k];
                gap();
                text += two ? "1 $var" : "1ns";
                gap();
                text += "$end";
                want.push_back({Event::meta, two ? " 1 $var" : " 1ns", "", "", static_cast<uint64_t>(types[k])});
                break;
            }
            case 1: {
                bool m = sx_choose("module", 2);
                text += m ? "$scope module top" : "$scope begin x";
                gap();
                text += "$end";
                want.push_back({Event::enter, m ? "top" : "x", m ? "module" : "begin", ""});
                depth++;
                break;
            }
            case 2: {
                if (!depth) break;
                text += "$upscope $end";
                depth--;
                want.push_back({Event::leave, "", "", ""});
                break;
            }
            case 3:
            case 4: {
                bool slice = sx_choose("slice", 2);
                char id = static_cast<char>(sx_in_8("id"));
                ASSUME(id > 32 && id < 127);
                int w = 2 * sx_choose("width", 2);
                text += std::string("$var ") + (slice ? "reg " : "wire ") + (w == 0 ? "1" : w == 1 ? "64" : "70000") + " " + id + " v";
                if (slice) text += " [3:0]";
                gap();
                text += "$end";
                want.push_back({Event::var, "v", std::string(1, id), slice ? "reg|[3:0]" : "wire|", w == 0 ? 1u : w == 1 ? 64u : 70000u});
                break;
            }
        }
        gap();
    }
    text += "$enddefinitions $end\n";
    want.push_back({Event::defs, "", "", ""});
    Read r(text);
    CHECK(r.ok, "a well-formed file is accepted");
    same(r.events, want, "each definition is reported once, in order, as it is");
    sx_reach("end");
}

static const char *kDoc =
    "$date now $end $scope module t $end $var reg 2 ! v [1:0] $end $var wire 1 # w $end $upscope $end "
    "$enddefinitions $end #0 $dumpvars b0 ! x# $end #10 b10 ! 1#\n";
static std::vector<Event> docEvents() { return Read(kDoc).events; }

// a file that ends anywhere: what is reported is what its complete part says
SX_HARNESS(vcd_truncated) {
    std::string text = kDoc;
    auto all = docEvents();
    CHECK(all.size() == 13, "the whole file");
    int cut = sx_choose("cut", static_cast<int>(text.size()));
    text.resize(static_cast<size_t>(cut));
    Read r(text);
    CHECK(r.events.size() <= all.size(), "nothing is made up");
    // the last one may be cut short
    for (size_t i = 0; i + 1 < r.events.size(); i++) CHECK(r.events[i] == all[i], "what comes before the end is reported as it is");
    if (!r.ok) CHECK(!r.error.empty(), "a refused file has a reason");
    sx_reach("end");
}
// a file with any byte replaced
SX_HARNESS(vcd_mutated) {
    std::string text = kDoc;
    int at = sx_choose("at", static_cast<int>(text.size()));
    auto c = sx_in_8("byte");
    text[static_cast<size_t>(at)] = static_cast<char>(c);
    Read r(text);
    sx_reach(r.ok ? "accepted" : "refused");
}
// any text of a few characters in place of the values, and in place of everything
SX_HARNESS(vcd_any_values) {
    const char alphabet[] = {'0', '1', 'b', 'r', '#', ' ', '\n', '$', '9', '!'};
    int n = sx_choose("n", sx_tier() ? 7 : 6);
    std::string text;
    for (int i = 0; i < n; i++) {
        auto c = sx_in_8("c");
        bool in = false;
        for (char a : alphabet) in |= static_cast<char>(c) == a;
        ASSUME(in);
        text.push_back(static_cast<char>(c));
    }
    bool whole = sx_choose("whole", 2);
    Read r(whole ? text : kHeader + text);
    // the reference: tokens, one after the other
    if (!whole && r.ok) {
        std::vector<std::string> tok(1);
        for (char ch : text) {
            if (ch == ' ' || ch == '\n') {
                if (!tok.back().empty()) tok.emplace_back();
            } else
                tok.back().push_back(ch);
        }
        if (tok.back().empty()) tok.pop_back();
        size_t e = 2;
        uint64_t now = 0;
        for (size_t i = 0; i < tok.size(); i++) {
            auto &t = tok[i];
            if (t[0] == '#') {
                now = 0;
                for (size_t k = 1; k < t.size(); k++) now = now * 10 + static_cast<uint64_t>(t[k] - '0');
                CHECK(e < r.events.size() && r.events[e].kind == Event::time && r.events[e].n == now, "a time is reported");
                e++;
            } else if (t[0] == '0' || t[0] == '1') {
                if (t.size() == 1) continue;
                CHECK(e < r.events.size() && r.events[e] == (Event{Event::value, t.substr(1), t.substr(0, 1), "scalar", now}), "a scalar is reported");
                e++;
            } else if (t[0] == 'b') {
                if (++i >= tok.size()) break;
                CHECK(e < r.events.size() && r.events[e] == (Event{Event::value, tok[i], t.substr(1), "vector", now}), "a vector is reported");
                e++;
            } else if (t[0] == 'r')
                i++;
        }
        CHECK(e == r.events.size(), "nothing else is reported");
        sx_reach("accepted");
    }
    sx_reach("end");
}

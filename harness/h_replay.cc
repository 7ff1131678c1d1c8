// Replaying a trace (P19). Code under test: tools/hgdb-replay/engine.cc and vpi.cc, seen through src/rtl.cc.
#include <algorithm>
#include "sx.h"
#include "tools/hgdb-replay/engine.hh"

using hgdb::RTLSimulatorClient;
using hgdb::replay::EmulationEngine;
using hgdb::replay::ReplayVPIProvider;

// a recorded trace: tb.dut with signals; later instances by `instances`
struct Trace : hgdb::waveform::WaveformProvider {
    struct Sig {
        std::string name;
        uint64_t inst;
        uint32_t width;
        std::vector<std::pair<uint64_t, std::string>> events;   // changes, in order
    };
    struct Inst {
        std::string name;
        int parent;
    };
    std::vector<Inst> insts{{"tb", -1}, {"dut", 0}};
    std::vector<Sig> sigs;

    uint64_t add(const std::string &name, uint32_t width = 1, uint64_t inst = 1) {
        sigs.push_back({name, inst, width, {}});
        return sigs.size() - 1;
    }
    std::string path(uint64_t i) const {
        auto n = insts[i].name;
        for (int p = insts[i].parent; p >= 0; p = insts[p].parent) n = insts[p].name + "." + n;
        return n;
    }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        for (size_t i = 0; i < insts.size(); i++)
            if (path(i) == n) return i;
        return {};
    }
    std::optional<uint64_t> get_signal_id(const std::string &n) override {
        for (size_t i = 0; i < sigs.size(); i++)
            if (path(sigs[i].inst) + "." + sigs[i].name == n) return i;
        return {};
    }
    std::vector<hgdb::waveform::WaveformSignal> get_instance_signals(uint64_t id) override {
        std::vector<hgdb::waveform::WaveformSignal> r;
        for (size_t i = 0; i < sigs.size(); i++)
            if (sigs[i].inst == id) r.push_back({i, sigs[i].name, sigs[i].width});
        return r;
    }
    std::vector<hgdb::waveform::WaveformInstance> get_child_instances(uint64_t id) override {
        std::vector<hgdb::waveform::WaveformInstance> r;
        for (size_t i = 0; i < insts.size(); i++)
            if (insts[i].parent == static_cast<int>(id)) r.push_back({i, insts[i].name});
        return r;
    }
    std::optional<hgdb::waveform::WaveformSignal> get_signal(uint64_t i) override {
        if (i >= sigs.size()) return {};
        return hgdb::waveform::WaveformSignal{i, sigs[i].name, sigs[i].width};
    }
    std::optional<std::string> get_instance(uint64_t i) override {
        if (i >= insts.size()) return {};
        return insts[i].name;
    }
    std::optional<std::string> get_signal_value(uint64_t i, uint64_t t) override {
        CHECK(i < sigs.size(), "the trace is asked about its own signals");
        std::optional<std::string> r;
        for (auto &[time, v] : sigs[i].events)
            if (time <= t) r = v;
        return r;
    }
    std::string get_full_signal_name(uint64_t i) override { return path(sigs[i].inst) + "." + sigs[i].name; }
    std::string get_full_instance_name(uint64_t i) override { return path(i); }
    std::optional<uint64_t> get_next_value_change_time(uint64_t i, uint64_t t) override {
        for (auto &[time, v] : sigs[i].events)
            if (time > t) return time;
        return {};
    }
    std::optional<uint64_t> get_prev_value_change_time(uint64_t i, uint64_t t, const std::string &target) override {
        std::optional<uint64_t> r;
        for (auto &[time, v] : sigs[i].events)
            if (time < t && v == target) r = time;
        return r;
    }
};
static std::string binary(uint64_t v) {
    std::string s;
    for (; v || s.empty(); v >>= 1) s.insert(s.begin(), static_cast<char>('0' + (v & 1)));
    return s;
}

// Two clocks and a counter of the time units; what the callbacks see.
struct Replay {
    Trace *trace;
    ReplayVPIProvider *vpi;
    std::unique_ptr<RTLSimulatorClient> rtl;
    std::unique_ptr<EmulationEngine> engine;
    int length;
    uint64_t unit;
    std::vector<std::vector<int>> bits;   // [signal][time unit]
    std::vector<vpiHandle> clk;
    struct Cb {
        Replay *r;
        int sig, number;
        vpiHandle handle = nullptr;
        bool live = true, added_late = false;
    };
    std::vector<std::unique_ptr<Cb>> cbs;
    int position = 0;                     // everything up to here has happened
    int now = 0;                          // the time unit of the running callbacks
    std::set<int> fired;                  // callbacks of `now` that have run
    int count = 0;
    std::function<void(Cb &)> inside;
    bool loose = false;                   // callbacks were added or removed in this time unit

    Replay(int clocks, int length, uint64_t unit, bool fromZero = false) : length(length), unit(unit) {
        auto t = std::make_unique<Trace>();
        trace = t.get();
        static const char *names[] = {"clk", "clk2"};
        for (int i = 0; i < clocks; i++) {
            trace->add(names[i]);
            bits.emplace_back();
            for (int k = 0; k <= length; k++) {
                int b = fromZero && !k ? 0 : sx_choose("bit", 2);
                if (!k || b != bits[i].back()) trace->sigs[i].events.emplace_back(k * unit, b ? "1" : "0");
                bits[i].push_back(b);
            }
        }
        trace->add("d", 8);
        for (int k = 0; k <= length; k++) trace->sigs.back().events.emplace_back(k * unit, binary(k + 3));
        auto v = std::make_unique<ReplayVPIProvider>(std::move(t));
        vpi = v.get();
        // as the tool does it
        engine = std::make_unique<EmulationEngine>(vpi);
        rtl = std::make_unique<RTLSimulatorClient>(std::move(v));
        rtl->set_mapping("m", "tb.dut.");
        rtl->set_vpi_allocator([this]() { return vpi->get_new_handle(); });
        for (int i = 0; i < clocks; i++) {
            clk.push_back(rtl->get_handle(std::string("m.") + names[i]));
            CHECK(clk.back(), "a signal of the trace is known");
        }
    }
    bool changed(int s, int t) const { return t > 0 && bits[s][t] != bits[s][t - 1]; }
    int next(int after) const {
        for (int t = after + 1; t <= length; t++)
            for (auto &c : cbs)
                if (c->live && changed(c->sig, t)) return t;
        return -1;
    }
    Cb &watch(int sig) {
        cbs.emplace_back(std::make_unique<Cb>(Cb{this, sig, static_cast<int>(cbs.size())}));
        auto &c = *cbs.back();
        s_cb_data d{};
        static s_vpi_time time{vpiSimTime};
        static s_vpi_value value{vpiIntVal};
        d.reason = cbValueChange;
        d.cb_rtn = on;
        d.obj = clk[sig];
        d.time = &time;
        d.value = &value;
        d.user_data = reinterpret_cast<char *>(&c);
        c.handle = vpi->vpi_register_cb(&d);
        CHECK(c.handle, "a callback can be registered");
        return c;
    }
    void unwatch(Cb &c) {
        vpi->vpi_remove_cb(c.handle);
        c.live = false;
    }
    // the time unit is over
    void settle() {
        if (now > position) {
            if (!loose)
                for (auto &c : cbs) CHECK(!c->live || !changed(c->sig, now) || fired.count(c->number), "every callback of a signal that changes is called");
            position = now;
        }
        fired.clear();
        loose = false;
    }
    void seen(int t, int sig) {
        sx_noteu("time unit", static_cast<uint64_t>(t));
        CHECK(rtl->get_simulation_time() == t * unit, "the time is the one of the change");
        CHECK(rtl->get_value("m.d") == std::optional<int64_t>(t - 1 + 3), "everything else still has its value from before the change");
        CHECK(rtl->get_value(clk[sig]) == std::optional<int64_t>(bits[sig][t]), "the signal that changes has its new value");
    }
    static PLI_INT32 on(p_cb_data d) {
        auto &c = *reinterpret_cast<Cb *>(d->user_data);
        auto &r = *c.r;
        r.count++;
        CHECK(r.count < 64, "the replay comes to an end");
        CHECK(c.live, "a callback that has been removed isn't called");
        auto t = static_cast<int>(r.rtl->get_simulation_time() / r.unit);
        if (t != r.now || r.fired.empty()) {
            r.settle();
            CHECK(t == r.next(r.position), "changes are replayed in order, each of them once");
            r.now = t;
        }
        CHECK(r.changed(c.sig, t), "a callback is called when its signal changes");
        CHECK(d->value && d->value->value.integer == r.bits[c.sig][t], "a callback is given the new value");
        CHECK(r.fired.insert(c.number).second, "a callback is called once for a change");
        r.seen(t, c.sig);
        if (r.inside) r.inside(c);
        return 0;
    }
    void run() {
        engine->run(true);
        settle();
        CHECK(next(position) < 0, "the trace is replayed to its end");
    }
};

SX_HARNESS(replay_forward) {
    int clocks = 1 + sx_choose("clocks", 2);
    Replay r(clocks, clocks == 1 ? (sx_tier() ? 7 : 6) : (sx_tier() ? 5 : 4), sx_choose("unit", 2) ? 10 : 1);
    int extra = clocks == 1 ? sx_choose("twice", 2) : 0;
    for (int i = 0; i < clocks; i++) r.watch(i);
    if (extra) r.watch(0);
    r.run();
    sx_reach("end");
    sx_done();
}

// the time is turned back, or set, at any callback
SX_HARNESS(replay_rewind) {
    int clocks = 1 + sx_choose("clocks", 2);
    int length = clocks == 1 ? (sx_tier() ? 6 : 4) : 3;
    Replay r(clocks, length, clocks == 1 && sx_choose("unit", 2) ? 10 : 1);
    int at = sx_choose("callback", 4);
    int jump = sx_choose("jump", length + 3);   // the last ones: just before now
    for (int i = 0; i < clocks; i++) r.watch(i);
    bool both = clocks == 2 && sx_choose("both", 2);
    r.inside = [&](Replay::Cb &c) {
        if (r.count != at + 1) return;
        auto clks = r.clk;
        if (!both) clks.resize(1);
        int before = jump > length + 1 ? r.now : jump, to = -1;
        for (int t = 1; t <= length && t < before; t++)
            for (size_t s = 0; s < clks.size(); s++)
                if (r.changed(static_cast<int>(s), t) && r.bits[s][t]) to = t;
        bool ok = jump > length + 1 ? (r.rtl->reverse_last_posedge(clks), r.rtl->get_simulation_time() != r.now * r.unit) : r.rtl->rewind(before * r.unit, clks);
        CHECK(ok == (to >= 0), "time can be turned back as long as there is an earlier edge");
        if (to < 0) {
            r.seen(r.now, c.sig);
            return;
        }
        CHECK(r.rtl->get_simulation_time() == to * r.unit, "the time is that of the edge");
        CHECK(r.rtl->get_value("m.d") == std::optional<int64_t>(to - 1 + 3), "values are those right before the edge");
        if (to == r.now) {
            r.loose = true;   // what else changes at this time may still be told
            return;
        }
        r.now = r.position = to;
        r.fired.clear();
        sx_reach("rewound");
    };
    r.run();
    sx_reach("end");
    sx_done();
}

// callbacks come and go
SX_HARNESS(replay_callbacks) {
    Replay r(2, sx_tier() ? 4 : 3, 1, true);
    int first = 1 + sx_choose("watched", 3);
    for (int i = 0; i < 2; i++)
        if (first >> i & 1) r.watch(i);
    bool again = sx_choose("again", 2);
    if (again) r.watch(first == 2);
    int at = sx_choose("callback", 3), what = sx_choose("what", 5);
    r.inside = [&](Replay::Cb &c) {
        if (r.count != at + 1) return;
        r.loose = true;
        if (what == 0) r.unwatch(c);
        if (what == 1) r.watch(0);
        if (what == 2) r.watch(1);
        if (what == 3) r.unwatch(*r.cbs[0]);
    };
    if (what == 4) r.unwatch(*r.cbs.back());
    r.run();
    sx_reach("end");
    sx_done();
}

// ------------------------------------------------------------------ values
static char bitOf(const std::string &raw, int width, int i) {   // with the extension rule of VCD files
    if (i >= width) return '0';
    if (i < static_cast<int>(raw.size())) return raw[raw.size() - 1 - i];
    return raw[0] == 'x' || raw[0] == 'z' ? raw[0] : '0';
}
static void digitsAre(std::string s, const std::string &raw, int width, int hi, int lo) {
    if (hi > lo) {
        CHECK(s.size() > 2 && s[0] == '0' && s[1] == 'x', "values of more than one bit start with 0x");
        s = s.substr(2);
    }
    CHECK(!s.empty(), "not empty");
    for (int k = 0; k < static_cast<int>(s.size()) || lo + 4 * k <= hi; k++) {
        unsigned d = 0;
        bool unk = false;
        for (int b = 0; b < 4; b++) {
            int bit = lo + 4 * k + b;
            char c = bit <= hi ? bitOf(raw, width, bit) : '0';
            d |= static_cast<unsigned>(c == '1') << b;
            unk |= (c == 'x') | (c == 'z');
        }
        char got = k < static_cast<int>(s.size()) ? s[s.size() - 1 - k] : '0';
        char want = static_cast<char>(d < 10 ? '0' + d : 'A' + d - 10);
        CHECK(unk | (got == want), "each digit shows its four bits");
        CHECK(!unk | (got == 'X') | (got == 'Z') | (got == 'x') | (got == 'z'), "a digit with unknown bits is shown as unknown");
    }
}
struct Values {
    Trace *trace;
    ReplayVPIProvider *vpi;
    std::unique_ptr<RTLSimulatorClient> rtl;
    Values(uint32_t width, const std::string &raw, const std::vector<std::string> &elements = {}) {
        auto t = std::make_unique<Trace>();
        trace = t.get();
        trace->add("a", width);
        if (!raw.empty()) trace->sigs[0].events = {{5, raw}};
        auto v = std::make_unique<ReplayVPIProvider>(std::move(t));
        vpi = v.get();
        if (!elements.empty()) vpi->build_array_table(elements);
        vpi->set_timestamp(7);
        rtl = std::make_unique<RTLSimulatorClient>(std::move(v));
        rtl->set_mapping("m", "tb.dut.");
        rtl->set_vpi_allocator([this]() { return vpi->get_new_handle(); });
    }
};
SX_HARNESS(replay_values) {
    static const int widths[] = {1, 4, 5, 8};
    int width = widths[sx_choose("width", 4)];
    int n = sx_choose("recorded", std::min(width, sx_tier() ? 5 : 4) + 1);
    std::string raw;
    bool known = true;
    for (int i = 0; i < n; i++) {
        uint8_t c = sx_in_8("bit");
        ASSUME(sx_one_of(c, "01xz"));
        raw.push_back(static_cast<char>(c));
    }
    Values v(width, raw);
    for (auto c : raw) known &= (c == '0') | (c == '1');
    if (raw.empty()) raw = "0";
    auto r = v.rtl->get_value("m.a");
    int64_t want = 0;
    for (int i = 0; i < width; i++) want |= static_cast<int64_t>(bitOf(raw, width, i) == '1') << i;
    CHECK(r.has_value(), "a signal has a value");
    CHECK(!known || *r == want, "the value is the recorded one");
    auto s = v.rtl->get_str_value("m.a");
    CHECK(s.has_value(), "and can be formatted");
    digitsAre(*s, raw, width, width - 1, 0);
    sx_reach("end");
    sx_done();
}
SX_HARNESS(replay_wide_values) {
    static const int widths[] = {31, 32, 33, 63, 64, 100};
    int width = widths[sx_choose("width", 6)], n = widths[sx_choose("recorded", 6)];
    ASSUME(n <= width);
    auto pattern = sx_choose("pattern", 4);
    std::string raw(n, pattern == 1 ? '1' : '0');
    raw[0] = '1';
    if (pattern >= 2)
        for (int i = 1; i < n; i++) raw[i] = static_cast<char>('0' + ((i * 7 + pattern) / 3 & 1));
    Values v(width, raw);
    uint64_t want = 0;
    for (int i = 0; i < n && i < 64; i++) want |= static_cast<uint64_t>(raw[n - 1 - i] == '1') << i;
    auto r = v.rtl->get_value("m.a");
    CHECK(r.has_value(), "a wide signal has a value");
    CHECK(width == 32 ? static_cast<uint32_t>(*r) == want : static_cast<uint64_t>(*r) == want, "the value is the recorded one");
    auto s = v.rtl->get_str_value("m.a");
    CHECK(s.has_value(), "and can be formatted");
    digitsAre(*s, raw, width, width - 1, 0);
    sx_reach("end");
    sx_done();
}
// elements of packed arrays, which a trace has as one signal; and slices
SX_HARNESS(replay_arrays) {
    bool two = sx_choose("dimensions", 2);
    std::vector<std::string> names;
    static const char *const forms[] = {"tb.dut.a.%d", "tb.dut.a[%d]", "tb.dut.a.%d.%d", "tb.dut.a[%d][%d]"};
    bool other = sx_choose("form", 2);
    auto *form = forms[2 * two + other];
    char buf[64];
    for (int i = 0; i < 2; i++)
        for (int k = 0; k < (two ? 2 : 1); k++) {
            snprintf(buf, sizeof buf, form, i, k);
            names.push_back(buf);
        }
    if (other) std::reverse(names.begin(), names.end());
    int each = two ? 1 + sx_choose("each", 2) : 2 + sx_choose("each", 2);
    int width = each * (two ? 4 : 2);
    int n = sx_choose("recorded", std::min(width, sx_tier() ? 5 : 3) + 1);
    if (n == 1 && width <= (sx_tier() ? 8 : 6) && sx_choose("full", 2)) n = width;
    std::string raw;
    bool slice = sx_choose("slice", 2);   // of known values only: P04 has the others
    bool four = n <= 4 && !slice && sx_choose("four-state", 2), known = true;
    for (int i = 0; i < n; i++) {
        uint8_t c = sx_in_8("bit");
        ASSUME(sx_one_of(c, four ? "01xz" : "01"));
        raw.push_back(static_cast<char>(c));
    }
    Values v(width, raw, names);
    if (raw.empty()) raw = "0";
    for (auto c : raw) known &= (c == '0') | (c == '1');
    int i = sx_choose("i", 2), k = two ? sx_choose("k", 2) : 0;
    int lo = two ? i * 2 * each + k * each : i * each, hi = lo + each - 1;
    std::string name = "m.a[" + std::to_string(i) + "]" + (two ? "[" + std::to_string(k) + "]" : "");
    if (slice) name = "m.a[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
    auto r = v.rtl->get_value(name);
    CHECK(r.has_value(), "an element has a value");
    int64_t want = 0;
    for (int b = lo; b <= hi; b++) want |= static_cast<int64_t>(bitOf(raw, width, b) == '1') << (b - lo);
    CHECK(!known || *r == want, "the value of an element is its part of the recorded one");
    auto s = v.rtl->get_str_value(name);
    CHECK(s.has_value(), "and can be formatted");
    digitsAre(*s, raw, width, hi, lo);
    CHECK(v.rtl->is_valid_signal(name), "an element can be used in an expression");
    CHECK(v.rtl->get_signal_width(v.rtl->get_handle(name)) == std::optional<uint32_t>(each), "an element has the width of its part");
    sx_reach("end");
    sx_done();
}
// the hierarchy of the trace
SX_HARNESS(replay_hierarchy) {
    auto t = std::make_unique<Trace>();
    auto *trace = t.get();
    int n = 1 + sx_choose("instances", sx_tier() ? 3 : 2);
    for (int i = 0; i < n; i++) trace->insts.push_back({std::string(1, static_cast<char>('p' + i)), sx_choose("parent", i + 2)});
    for (size_t i = 0; i < trace->insts.size(); i++)
        for (int k = sx_choose("signals", 3); k > 0; k--) trace->add(k == 2 ? "x" : "y", k, i);
    ReplayVPIProvider vpi(std::move(t));
    auto full = [&](vpiHandle h) { return std::string(vpi.vpi_get_str(vpiFullName, h)); };
    auto name = [&](vpiHandle h) { return std::string(vpi.vpi_get_str(vpiName, h)); };
    auto all = [&](int type, vpiHandle of) {
        std::vector<vpiHandle> r;
        if (auto *i = vpi.vpi_iterate(type, of))
            while (auto *h = vpi.vpi_scan(i)) r.push_back(h);
        return r;
    };
    if (sx_choose("by_name", 2))
        for (size_t i = 0; i < trace->insts.size(); i++) CHECK(vpi.vpi_handle_by_name(const_cast<char *>(trace->path(i).c_str()), nullptr), "an instance is known by its name");
    std::set<std::string> seen;
    std::vector<vpiHandle> todo = all(vpiModule, nullptr);
    CHECK(todo.size() == 1 && full(todo[0]) == "tb", "the top is the top of the trace");
    while (!todo.empty()) {
        auto *m = todo.back();
        todo.pop_back();
        auto path = full(m);
        CHECK(seen.insert(path).second, "an instance is listed once");
        auto id = trace->get_instance_id(path);
        CHECK(id && name(m) == trace->insts[*id].name && vpi.vpi_get(vpiType, m) == vpiModule, "instances have their names");
        CHECK(vpi.vpi_handle_by_name(const_cast<char *>(path.c_str()), nullptr), "and are found by them");
        std::multiset<std::string> nets, want;
        for (auto *s : all(vpiNet, m)) nets.insert(name(s));
        for (auto &s : trace->get_instance_signals(*id))
            if (vpi.vpi_handle_by_name(const_cast<char *>((path + "." + s.name).c_str()), nullptr)) want.insert(s.name);
        CHECK(want.size() == trace->get_instance_signals(*id).size(), "a signal is known by its name");
        nets.clear();
        for (auto *s : all(vpiNet, m)) {
            nets.insert(name(s));
            CHECK(full(s) == path + "." + name(s) && vpi.vpi_get(vpiType, s) == vpiNet, "signals have their names");
            CHECK(vpi.vpi_get(vpiSize, s) == (name(s) == "x" ? 2 : 1), "and widths");
        }
        CHECK(nets == want, "the signals of an instance are listed once each");
        for (auto *c : all(vpiModule, m)) todo.push_back(c);
    }
    CHECK(seen.size() == trace->insts.size(), "all the instances are listed");
    sx_reach("end");
    sx_done();
}
// the arguments of the tool are those of the simulator
SX_HARNESS(replay_arguments) {
    std::vector<std::string> want;
    std::vector<char *> argv;
    int n = sx_choose("given", sx_tier() ? 4 : 3), more = sx_choose("added", 4);
    auto text = [&](int i) {
        auto c = static_cast<char>('a' + sx_choose("letter", 2));
        return std::string(sx_choose("long", 2) ? 30 : 3, c) + std::to_string(i);
    };
    for (int i = 0; i < n; i++) want.push_back(text(i));
    for (auto &s : want) argv.push_back(s.data());
    Trace *t = new Trace;
    auto v = std::make_unique<ReplayVPIProvider>(std::unique_ptr<hgdb::waveform::WaveformProvider>(t));
    v->set_argv(n, argv.data());
    for (int i = 0; i < more; i++) {
        want.push_back(text(n + i));
        v->add_argv(want.back());
    }
    RTLSimulatorClient rtl(std::move(v));
    CHECK(rtl.get_argv() == want, "the arguments are the ones given");
    sx_reach("end");
    sx_done();
}

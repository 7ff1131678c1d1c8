// The debugger end to end: what is reported to the client, in which order, and how it answers (P06-P15, P21, P22).
#include "dbg.hh"
#include "util.hh"

// A design with breakpoints k = 0..n-1 in execution order.
struct Layout {
    struct B {
        uint32_t id, line, inst;
        bool en;
        bool inserted = false;
    };
    std::vector<B> b;
    MockVPI::Obj *en[3], *c[3];
    static constexpr uint32_t ids[6] = {7, 3, 9, 4, 12, 1};
    uint32_t position(uint64_t id) const {
        for (uint32_t k = 0; k < b.size(); k++)
            if (b[k].id == id) return k;
        return 1000;
    }
    void signals(Session &s, int n = 3) {
        for (int i = 0; i < n; i++) {
            en[i] = s.sig(i, "en");
            c[i] = s.sig(i, "c");
        }
    }
    void fill(Session &s, bool reversed) {
        for (auto &x : b) s.table->orders.push_back(x.id);
        for (size_t k = 0; k < b.size(); k++) {
            auto &x = b[reversed ? b.size() - 1 - k : k];
            s.table->bp(x.id, x.inst, x.line, 0, x.en ? "en" : "");
        }
    }
    bool enabled(uint32_t k) const { return !b[k].en | (en[b[k].inst]->value != 0); }
};

// stops [from, to) report each breakpoint that `due` says exactly once, in execution order, in legal batches
template <typename F>
static void checkCycle(Session &s, Layout &l, size_t from, bool single, F due) {
    std::vector<int> count(l.b.size(), 0);
    uint32_t last = 0;
    for (size_t i = from; i < s.stops.size(); i++) {
        auto &st = s.stops[i];
        CHECK(!st.insts.empty(), "a stop reports at least one breakpoint");
        for (size_t j = 0; j < st.insts.size(); j++) {
            auto k = l.position(st.insts[j].bp);
            CHECK(k < l.b.size(), "only known breakpoints are reported");
            CHECK(l.b[k].line == st.line && st.file == "f.cc", "the reported location is the breakpoint's");
            CHECK(l.b[k].inst == st.insts[j].inst, "the reported instance is the breakpoint's");
            CHECK(i == from || j || k > last, "stops follow the execution order");
            if (j == 0) last = k;
            count[k]++;
        }
        CHECK(!single || st.insts.size() == 1, "one breakpoint per stop in single thread mode");
        CHECK(st.time == s.edge_time, "the stop carries the simulation time");
    }
    for (uint32_t k = 0; k < l.b.size(); k++) {
        CHECK(count[k] <= 1, "a breakpoint is reported at most once per cycle");
        CHECK((count[k] == 1) == due(k), "a breakpoint is reported exactly when it is due");
    }
}

SX_HARNESS(cycle_layouts) {
    Session s({"u0", "u1"});
    Layout l;
    l.signals(s);
    int n = 3;
    bool single = sx_choose("single", 2);
    for (int k = 0; k < n; k++) {
        uint32_t inst = sx_choose("inst", k == 0 ? 1 : k == 1 ? 2 : 3);
        uint32_t line = k == 0 ? 10 : 10 + 10 * sx_choose("line", 2);
        bool en = sx_choose("en", 2);
        l.b.push_back({Layout::ids[k], line, inst, en});
    }
    l.fill(s, sx_choose("reversed", 2));
    for (int i = 0; i < 3; i++) l.en[i]->value = sx_in_32("vx");
    int which = sx_choose("which", 3);  // lines 10, 20, both
    s.run([&]() {
        if (single) s.option("single_thread_mode", true);
        if (which != 0) s.breakpoint("add", 20);
        if (which != 1) s.breakpoint("add", 10);
    });
    for (auto &x : l.b) x.inserted = which == 2 || (which == 0) == (x.line == 10);
    s.cycle();
    checkCycle(s, l, 0, single, [&](uint32_t k) { return l.b[k].inserted & l.enabled(k); });
    sx_reach("end");
    sx_done();
}

// What may share a stop: files, lines, columns, instances, enable and user conditions that differ or not.
SX_HARNESS(cycle_batches) {
    struct Loc {
        const char *file;
        uint32_t line, col;
    };
    static const Loc locs[] = {{"f.cc", 10, 1}, {"f.cc", 10, 2}, {"f.cc", 20, 1}, {"g.cc", 10, 1}};
    Session s({"u0", "u1"});
    Layout l;
    l.signals(s);
    Loc at[3];
    uint32_t inst[3];
    int same = 0;
    for (int k = 0; k < 3; k++) {
        int i = k == 0 ? 0 : sx_choose("loc", 4);
        at[k] = locs[i];
        if (i == 0) same++;
        inst[k] = k == 0 ? 0 : k * sx_choose("inst", 2);
    }
    int ens = sx_choose("en", 3), conds = sx_choose("cond", 3);  // none, all, the second one
    bool single = same > 1 && sx_choose("single", 2);
    auto has = [](int which, int k) { return which == 1 || (which == 2 && k == 1); };
    for (int k = 0; k < 3; k++) s.table->orders.push_back(Layout::ids[k]);
    for (int k : {1, 2, 0}) s.table->bp(Layout::ids[k], inst[k], at[k].line, at[k].col, has(ens, k) ? "en" : "", "", at[k].file);
    for (int i = 0; i < 3; i++) {
        l.en[i]->value = sx_in_1("en");
        l.c[i]->value = sx_in_1("c");
    }
    s.run([&]() {
        if (single) s.option("single_thread_mode", true);
        for (int k : {2, 0, 1}) CHECK(s.ok(s.breakpoint_id("add", Layout::ids[k], has(conds, k) ? "c" : "")), "a breakpoint can be set by its id");
    });
    s.cycle();
    int count[3] = {};
    for (auto &st : s.stops) {
        CHECK(!st.insts.empty() && (!single || st.insts.size() == 1), "a stop reports one breakpoint in single thread mode");
        std::set<uint64_t> instances;
        for (auto &i : st.insts) {
            int k = 0;
            while (k < 3 && Layout::ids[k] != i.bp) k++;
            CHECK(k < 3, "only known breakpoints are reported");
            CHECK(st.file == at[k].file && st.line == at[k].line && st.col == at[k].col, "a stop describes the location of each of its breakpoints");
            CHECK(i.inst == inst[k], "the reported instance is the breakpoint's");
            CHECK(instances.insert(i.inst).second, "a stop reports an instance once");
            count[k]++;
        }
    }
    for (int k = 0; k < 3; k++) {
        bool due = (!has(ens, k) | (l.en[inst[k]]->value != 0)) & (!has(conds, k) | (l.c[inst[k]]->value != 0));
        CHECK((count[k] == 1) == due && count[k] <= 1, "a breakpoint is reported exactly once when it is due");
    }
    sx_reach("end");
    sx_done();
}

// Breakpoints added and removed while the simulation is paused, over two cycles with any values.
SX_HARNESS(cycle_edits) {
    Session s({"u0", "u1"});
    Layout l;
    l.signals(s);
    l.b = {{7, 10, 0, false}, {3, 20, 1, true}, {9, 20, 2, true}, {4, 30, 0, true}, {12, 40, 1, false}};
    l.fill(s, true);
    int initial = sx_choose("initial", 8);      // which of the lines 10, 20, 30 are inserted at first
    int when = sx_choose("when", 3);            // the stop (if it comes to it) at which the edit is made
    int line = 10 + 10 * sx_choose("line", 4);  // what is edited
    bool add = sx_choose("add", 2);
    bool by_id = sx_choose("by_id", 2);
    for (auto &x : l.b) x.inserted = x.line == 40 || (x.line < 40 && (initial >> (x.line / 10 - 1) & 1));
    std::vector<uint32_t> extra;  // inserted from now on, but not due in this cycle
    uint32_t passed = 0;
    bool edited = false, gone_now[5] = {}, new_now[5] = {};
    s.at_stop = [&](const Stop &st) {
        if (edited || static_cast<int>(s.stops.size()) - 1 != when || static_cast<int>(st.line) == line) return;
        edited = true;
        passed = l.position(st.insts[0].bp);
        for (uint32_t k = 0; k < l.b.size(); k++) {
            if (l.b[k].line != static_cast<uint32_t>(line)) continue;
            if (add && !l.b[k].inserted) new_now[k] = true;
            if (!add && l.b[k].inserted) gone_now[k] = true;
            if (by_id) s.breakpoint_id(add ? "add" : "remove", l.b[k].id);
        }
        if (!by_id) s.breakpoint(add ? "add" : "remove", line);
        for (auto &x : l.b)
            if (x.line == static_cast<uint32_t>(line)) x.inserted = add;
    };
    s.run([&]() {
        for (int i = 4; i >= 1; i--)
            if (i == 4 || initial >> (i - 1) & 1) s.breakpoint("add", 10 * i);
    });
    for (int cyc = 0; cyc < 2; cyc++) {
        for (int i = 0; i < 3; i++) l.en[i]->value = sx_in_1("en");
        auto from = s.stops.size();
        bool before = edited;
        s.cycle();
        bool now = edited && !before;
        checkCycle(s, l, from, false, [&](uint32_t k) {
            bool ins = l.b[k].inserted;
            // an edit made during this cycle counts for the breakpoints after the stop
            if (now && k < passed) ins = ins ? !new_now[k] : gone_now[k];
            return ins & l.enabled(k);
        });
    }
    if (edited) sx_reach("edited");
    sx_reach("end");
    sx_done();
}

// Stepping: any sequence of run commands against a reference model of the position in the execution order.
struct StepModel {
    enum Cmd { Continue, StepOver, StepBack, Reverse };
    Layout &l;
    int n;
    int pos = -1;  // -1: before the first
    Cmd mode = Continue;
    int hist = 0;  // index of the cycle being looked at
    std::function<bool(int, int)> enabled;   // (breakpoint, cycle)
    std::function<bool(int, int)> holds;     // enabled and inserted and the condition
    std::function<bool()> rewind;            // goes one cycle back if it can
    // index of the next stop in this cycle, or -1
    int next() {
        auto &ok = mode == Continue || mode == Reverse ? holds : enabled;
        if (mode == Continue || mode == StepOver) {
            for (int i = pos + 1; i < n; i++)
                if (ok(i, hist)) return pos = i;
            return -1;
        }
        if (mode == StepBack && pos < 0) return -1;
        if (pos < 0) pos = n;
        for (;;) {
            for (int i = pos - 1; i >= 0; i--)
                if (ok(i, hist)) return pos = i;
            if (!rewind()) break;
            hist--;
            pos = n;
        }
        // nowhere to go: stay at the first one, if it is one to stop at
        int first = first_candidate();
        if (first >= 0 && ok(first, hist)) return pos = first;
        return -1;
    }
    int first_candidate() const {
        for (int i = 0; i < n; i++)
            if (mode == StepBack || l.b[i].inserted) return i;
        return -1;
    }
};

static void stepping(int ncmd, bool rewinding, bool cache = false) {
    Session s({"u0"});
    Layout l;
    l.signals(s, 2);
    l.b = {{7, 10, 0, false}, {3, 20, 1, true}, {9, 30, 0, true}, {4, 40, 1, false}};
    l.fill(s, false);
    int n = 4;
    int ins = 1 + sx_choose("inserted", 15);
    for (int k = 0; k < n; k++) l.b[k].inserted = ins >> k & 1;
    static const char *names[] = {"continue", "step_over", "step_back", "reverse_continue"};
    std::vector<int> cmds;
    for (int i = 0; i < ncmd; i++) cmds.push_back(sx_choose("cmd", 4));
    const int cycles = 2;
    bool v[cycles][2];
    for (auto &c : v)
        for (auto &x : c) x = sx_in_1("en");
    StepModel m{l, n};
    m.enabled = [&](int k, int c) { return !l.b[k].en | v[c][l.b[k].inst]; };
    m.holds = [&](int k, int c) { return l.b[k].inserted && m.enabled(k, c); };
    auto load = [&](int c) {
        for (int i = 0; i < 2; i++) l.en[i]->value = v[c][i];
    };
    int cur = 0;  // the simulator's cycle
    s.vpi->on_rewind = [&](const hgdb::AVPIProvider::rewind_data &d) {
        CHECK(d.time == s.vpi->time, "rewinding starts from the current time");
        if (!rewinding || cur == 0) return false;
        cur--;
        s.vpi->time -= 2;
        load(cur);
        return true;
    };
    m.rewind = [&]() { return rewinding && m.hist > 0; };
    for (auto c : cmds) s.commands.push_back(names[c]);
    size_t used = 0;
    s.at_stop = [&](const Stop &st) {
        int want = m.next();
        CHECK(want >= 0, "the simulation only stops where it should");
        CHECK(st.insts.size() == 1 && st.insts[0].bp == l.b[want].id, "the stop is the next one for the command given");
        CHECK(st.line == l.b[want].line && st.insts[0].inst == l.b[want].inst, "the stop describes the breakpoint");
        CHECK(m.hist == cur, "the simulator is at the cycle of the stop");
        m.mode = static_cast<StepModel::Cmd>(used < cmds.size() ? cmds[used] : 0);
        used++;
    };
    s.run([&]() {
        if (cache) s.option("use_signal_cache", true);
        for (int k = n - 1; k >= 0; k--)
            if (l.b[k].inserted) s.breakpoint("add", l.b[k].line);
    });
    for (int i = 0; i < cycles && cur + 1 <= cycles; i++) {
        // after a rewind the simulation goes on from the cycle it was put back to
        cur = i;
        load(cur);
        m.hist = i;
        m.pos = -1;
        s.vpi->time = 11 + 2 * i;
        s.posedge();
        CHECK(m.next() == -1, "no stop is missed");
    }
    if (s.stops.size() > 2) sx_reach("stops");
    sx_reach("end");
    sx_done();
}
SX_HARNESS(stepping_forward_only) { stepping(sx_tier() ? 4 : 3, false); }
SX_HARNESS(stepping_rewind) { stepping(sx_tier() ? 4 : 3, true); }
SX_HARNESS(stepping_cached) { stepping(2, true, true); }

// The set of breakpoints after any sequence of requests: what is listed and what is hit.
struct Listed {
    std::multiset<uint32_t> normal, data;
};
static Listed listed(Session &s) {
    auto r = s.ask("debugger-info", "{\"command\":\"breakpoints\"}");
    CHECK(Session::ok(r), "listing the breakpoints succeeds");
    rapidjson::Document d;
    d.Parse(r.c_str());
    Listed l;
    for (auto const &b : d["payload"]["breakpoints"].GetArray()) {
        auto id = b["id"].GetUint();
        auto t = b["type"].GetUint();
        if (t & 1) l.normal.insert(id);
        if (t & 2) l.data.insert(id);
        auto *x = &s.db->bps[0];
        for (auto &y : s.db->bps)
            if (y.id == id) x = &y;
        CHECK(x->id == id && b["line_num"].GetUint() == x->line_num && x->filename == b["filename"].GetString(), "the list describes the breakpoint");
    }
    return l;
}

SX_HARNESS(set_requests) {
    Session s({"u0"});
    auto *c = s.sig(0, "c");
    auto *c1 = s.sig(1, "c");
    auto *v0 = s.sig(0, "v0"), *v1 = s.sig(0, "v1");
    s.table->bp(7, 0, 10);
    s.table->bp(3, 0, 20, 1);
    s.table->bp(9, 1, 20, 1);
    s.table->bp(4, 0, 20, 2);
    s.table->orders = {7, 3, 9, 4};
    s.table->assigned["v"] = {{3, "v0", ""}, {4, "v1", ""}};
    int n = sx_tier() ? 4 : 3;
    std::vector<int> ops;
    for (int i = 0; i < n; i++) ops.push_back(sx_choose("op", 15));
    std::map<uint32_t, bool> normal;  // id -> has the condition c
    std::set<uint32_t> data;
    auto add = [&](std::vector<uint32_t> ids, bool cond) {
        for (auto i : ids) normal[i] = cond;
    };
    auto remove = [&](std::vector<uint32_t> ids) {
        for (auto i : ids) normal.erase(i);
    };
    s.run([&]() {
        for (auto op : ops) {
            std::string r;
            switch (op) {
                case 0: r = s.breakpoint("add", 10); add({7}, false); break;
                case 1: r = s.breakpoint("add", 20); add({3, 9, 4}, false); break;
                case 2: r = s.breakpoint("add", 20, "c"); add({3, 9, 4}, true); break;
                case 3: r = s.breakpoint("add", 20, "", 1); add({3, 9}, false); break;
                case 4: r = s.breakpoint("remove", 20); remove({3, 9, 4}); break;
                case 5: r = s.breakpoint("remove", 20, "", 2); remove({4}); break;
                case 6: r = s.breakpoint_id("add", 3, "c"); add({3}, true); break;
                case 7: r = s.breakpoint_id("remove", 3); remove({3}); break;
                case 8: r = s.ask("data-breakpoint", "{\"action\":\"add\",\"var_name\":\"v\",\"breakpoint-id\":3}"); data = {3, 4}; break;
                case 9: r = s.ask("data-breakpoint", "{\"action\":\"remove\",\"breakpoint-id\":3}"); data.erase(3); break;
                case 10: r = s.ask("data-breakpoint", "{\"action\":\"clear\"}"); data.clear(); break;
                case 11: r = s.ask("data-breakpoint", "{\"action\":\"info\",\"var_name\":\"v\",\"breakpoint-id\":3}"); break;
                case 12: r = s.breakpoint("add", 20, "nosuch"); break;
                case 13: r = s.ask("data-breakpoint", "{\"action\":\"add\",\"var_name\":\"v\",\"breakpoint-id\":3,\"condition\":\"c +\"}"); break;
                case 14: r = s.breakpoint("add", 15); break;
            }
            CHECK(s.ok(r) == (op < 12), "requests that can be met succeed and the others fail");
            auto l = listed(s);
            for (uint32_t id : {7, 3, 9, 4}) {
                CHECK(l.normal.count(id) == normal.count(id), "the breakpoints listed are those added and not removed");
                CHECK(l.data.count(id) == data.count(id), "the data breakpoints listed are those added and not removed");
            }
        }
    });
    c->value = sx_in_1("c");
    c1->value = sx_in_1("c");
    v0->value = sx_in_1("v");
    v1->value = sx_in_1("v");
    s.cycle();
    std::map<uint64_t, int> hits, dhits;
    for (auto &st : s.stops)
        for (auto &i : st.insts) (i.type == "data" ? dhits : hits)[i.bp]++;
    for (uint32_t id : {7, 3, 9, 4}) {
        bool due = normal.count(id) && (!normal[id] || (id == 9 ? c1 : c)->value != 0);
        CHECK(hits[id] == due, "breakpoints hit are those in the set");
        if (!data.count(id)) CHECK(dhits[id] == 0, "data breakpoints hit are those in the set");
    }
    sx_reach("end");
    sx_done();
}

// Which condition decides whether a breakpoint is hit: enable and the user's one, however they are written.
struct Cond {
    const char *text;
    std::function<bool(int64_t a, int64_t b, int64_t t)> holds;
    bool valid = true;
};

SX_HARNESS(conditions) {
    Session s({"u0"});
    // instance 0 is mod, instance 1 is mod.u0; both have signals with the same names
    MockVPI::Obj *a[2], *b[2];
    for (int i = 0; i < 2; i++) {
        a[i] = s.sig(i, "a");
        b[i] = s.sig(i, "b_1");
    }
    s.sig(0, "modern");
    auto *modern = s.vpi->byName("tb.dut.modern");
    uint32_t inst = sx_choose("inst", 2);
    int64_t time = 0;
    Cond en[] = {
        {"", [](auto, auto, auto) { return true; }},
        {"a", [](auto x, auto, auto) { return x != 0; }},
        {"a || b_1", [](auto x, auto y, auto) { return (x != 0) | (y != 0); }},
        {"!a", [](auto x, auto, auto) { return x == 0; }},
        {"a == b_1", [](auto x, auto y, auto) { return x == y; }},
    };
    // b is the name in the source of the signal b_1; i is a constant of the generator's context
    Cond user[] = {
        {"", [](auto, auto, auto) { return true; }},
        {"b", [](auto, auto y, auto) { return y != 0; }},
        {"a || b", [](auto x, auto y, auto) { return (x != 0) | (y != 0); }},
        {"a | b", [](auto x, auto y, auto) { return (x | y) != 0; }},
        {"b == i", [](auto, auto y, auto) { return y == 5; }},
        {"$time > 12", [](auto, auto, auto t) { return t > 12; }},
        {"$instance == 1", [inst](auto, auto, auto) { return inst == 1; }},
        {"m == 0", [&](auto, auto, auto) { return modern->value == 0; }},
        {"a < b", [](auto x, auto y, auto) { return x < y; }},
        {"nosuch", [](auto, auto, auto) { return false; }, false},
        {"a &&", [](auto, auto, auto) { return false; }, false},
        {"a) || (b", [](auto, auto, auto) { return false; }, false},
    };
    int e = sx_choose("enable", 5), u = sx_choose("user", 12);
    bool by_id = sx_choose("by_id", 2);
    // the condition is replaced before the second cycle
    int u2 = sx_choose("update", 2) ? (u == 2 ? 1 : u == 1 ? 8 : 2) : -1;
    s.table->bp(7, inst, 10, 0, en[e].text);
    s.table->orders = {7};
    s.table->ctx[7] = {{"b", "b_0"}, {"b", "b_1"}, {"i", "5", false}};
    if (inst == 0) s.table->ctx[7].push_back({"m", "modern"});
    if (inst == 1 && u == 7) return;
    auto set = [&](int k) {
        auto r = by_id ? s.breakpoint_id("add", 7, user[k].text) : s.breakpoint("add", 10, user[k].text);
        CHECK(s.ok(r) == user[k].valid, "a condition is accepted exactly when it can be evaluated");
    };
    s.run([&]() { set(u); });
    int cur = user[u].valid ? u : -1;
    for (int c = u2 >= 0 ? 1 : 0; c < (u2 >= 0 ? 2 : 1); c++) {
        for (int i = 0; i < 2; i++) {
            a[i]->value = static_cast<int32_t>(sx_in_32("a"));
            static const int64_t vals[] = {0, 5, -7};
            b[i]->value = i == static_cast<int>(inst) ? vals[sx_choose("b", 3)] : 1;
        }
        modern->value = sx_in_1("m");
        if (c == 1 && u2 >= 0) {
            set(u2);
            cur = u2;
        }
        s.vpi->time = 10 + c * 2;
        auto n = s.stops.size();
        s.cycle();
        time = static_cast<int64_t>(s.edge_time);
        auto x = a[inst]->value, y = b[inst]->value;
        bool due = false;
        if (cur >= 0) due = en[e].holds(x, y, time) & user[cur].holds(x, y, time);
        CHECK((s.stops.size() - n == 1) == due, "a breakpoint is hit exactly when its enable condition and the user's condition hold");
        CHECK(s.stops.size() - n <= 1, "at most one stop");
    }
    sx_reach("end");
    sx_done();
}

// Triggers: a breakpoint with triggers is only due in cycles in which one of them has changed.
SX_HARNESS(triggers) {
    Session s({"u0"});
    uint32_t inst = sx_choose("inst", 2);
    auto *t0 = s.sig(inst, "t0"), *t1 = s.sig(inst, "t1"), *en = s.sig(inst, "en");
    int nt = 1 + sx_choose("triggers", 2);
    bool has_en = sx_choose("en", 2);
    s.table->bp(7, inst, 10, 0, has_en ? "en" : "", nt == 1 ? "t0" : "t0 t1");
    s.table->orders = {7};
    s.run([&]() { CHECK(s.ok(s.breakpoint("add", 10)), "added"); });
    int64_t p0 = 0, p1 = 0;
    for (int c = 0; c < 3; c++) {
        t0->value = sx_in_32("t");
        t1->value = sx_in_32("t");
        en->value = sx_in_1("en");
        auto n = s.stops.size();
        s.cycle();
        bool changed = (c == 0) | (t0->value != p0) | ((nt == 2) & (t1->value != p1));
        bool due = changed & (!has_en | (en->value != 0));
        CHECK((s.stops.size() - n == 1) == due, "a breakpoint with triggers is hit exactly when one of them has changed");
        p0 = t0->value;
        p1 = t1->value;
    }
    sx_reach("end");
    sx_done();
}

// Data breakpoints on the source variable v, assigned at breakpoints 7 (v0, only if en), 3 (v1) and 9 (v2 with its own condition).
// An assignment is reported when it is executed, the conditions hold, and the value differs from the one seen last at any of them.
struct DataModel {
    bool known = false;
    int64_t last = 0;
    bool see(int64_t v) {
        bool changed = !known | (v != last);
        known = true;
        last = v;
        return changed;
    }
};

SX_HARNESS(data_breakpoints) {
    Session s({"u0"});
    auto *en = s.sig(0, "en"), *q = s.sig(0, "q"), *c = s.sig(0, "c");
    MockVPI::Obj *v[3] = {s.sig(0, "v0"), s.sig(0, "v1"), s.sig(0, "v2")};
    s.table->bp(7, 0, 10, 0, "en");
    s.table->bp(3, 0, 20);
    s.table->bp(9, 0, 30);
    s.table->orders = {7, 3, 9};
    // where the last assignment is to the variable of the first (a register) or to one of its own
    bool shared = sx_choose("shared", 2);
    s.table->assigned["v"] = {{7, "v0", ""}, {3, "v1", ""}, {9, shared ? "v0" : "v2", "q"}};
    int cond = sx_choose("cond", 3);  // the user's condition: none, c, c || q
    static const char *conds[] = {"", "c", "c || q"};
    int act = sx_choose("act", 4);  // after the first cycle: nothing, remove 7, remove all and add again, add again
    std::set<uint32_t> set;
    auto add = [&]() {
        std::string p = "{\"action\":\"add\",\"var_name\":\"v\",\"breakpoint-id\":3";
        if (cond) p += std::string(",\"condition\":\"") + conds[cond] + "\"";
        CHECK(s.ok(s.ask("data-breakpoint", p + "}")), "data breakpoint added");
        set = {7, 3, 9};
    };
    s.run([&]() { add(); });
    DataModel m;
    const uint32_t ids[] = {7, 3, 9};
    for (int cyc = 0; cyc < 2; cyc++) {
        if (cyc == 1) {
            if (act == 1 || act == 2) {
                CHECK(s.ok(s.ask("data-breakpoint", "{\"action\":\"remove\",\"breakpoint-id\":7}")), "removed");
                set.erase(7);
            }
            if (act == 2) {
                for (auto i : {"3", "9"}) CHECK(s.ok(s.ask("data-breakpoint", std::string("{\"action\":\"remove\",\"breakpoint-id\":") + i + "}")), "removed");
                m.known = false;
            }
            if (act >= 2) add();
        }
        en->value = sx_in_1("en");
        q->value = sx_in_1("q");
        c->value = sx_in_1("c");
        for (auto *x : v) x->value = static_cast<int32_t>(sx_in_32("v"));
        auto from = s.stops.size();
        s.cycle();
        auto at = from;
        for (int k = 0; k < 3; k++) {
            if (!set.count(ids[k])) continue;
            bool due = cond == 0 ? true : cond == 1 ? c->value != 0 : (c->value != 0) | (q->value != 0);
            if (k == 0) due = due & (en->value != 0);
            if (k == 2) due = due & (q->value != 0);
            if (due) due = m.see(v[k == 2 && shared ? 0 : k]->value);
            if (due) {
                CHECK(at < s.stops.size(), "every change of the variable is reported");
                auto &st = s.stops[at++];
                CHECK(st.insts.size() == 1 && st.insts[0].bp == ids[k] && st.insts[0].type == "data", "the stop is the assignment that changed the variable");
            }
        }
        CHECK(at == s.stops.size(), "only changes of the variable are reported");
    }
    sx_reach("end");
    sx_done();
}

// One variable watched under several conditions: a change is reported if one of them holds.
SX_HARNESS(data_conditions) {
    Session s({"u0"});
    auto *c = s.sig(0, "c"), *q = s.sig(0, "q"), *v = s.sig(0, "v0");
    s.table->bp(7, 0, 10);
    s.table->orders = {7};
    s.table->assigned["v"] = {{7, "v0", ""}};
    static const char *conds[] = {"c", "q", "!c", ""};
    int first = sx_choose("first", 4), second = sx_choose("second", 4);
    bool late = sx_choose("late", 2), gone = sx_choose("gone", 2);
    auto add = [&](int k) {
        std::string p = "{\"action\":\"add\",\"var_name\":\"v\",\"breakpoint-id\":7";
        if (*conds[k]) p += std::string(",\"condition\":\"") + conds[k] + "\"";
        CHECK(s.ok(s.ask("data-breakpoint", p + "}")), "data breakpoint added");
    };
    s.run([&]() {
        add(first);
        if (!late) add(second);
    });
    uint32_t last = 0;
    for (int cyc = 0; cyc < 3; cyc++) {
        if (cyc == 1 && late) add(second);
        if (cyc == 2 && gone) CHECK(s.ok(s.ask("data-breakpoint", "{\"action\":\"remove\",\"breakpoint-id\":7}")), "removed");
        c->value = sx_in_1("c");
        q->value = sx_in_1("q");
        auto value = static_cast<uint32_t>(sx_in_8("v"));
        if (cyc) ASSUME(value > last);   // a value that has not been seen before
        v->value = static_cast<int32_t>(last = value);
        auto holds = [&](int k) { return k == 0 ? c->value != 0 : k == 1 ? q->value != 0 : k == 2 ? c->value == 0 : true; };
        bool due = holds(first);
        if (cyc || !late) due = due | holds(second);
        if (cyc == 2 && gone) due = false;
        auto from = s.stops.size();
        s.cycle();
        CHECK((s.stops.size() > from) == due, "a change is reported if and only if one of the conditions holds");
        for (auto i = from; i < s.stops.size(); i++)
            for (auto &e : s.stops[i].insts) CHECK(e.bp == 7 && e.type == "data", "the stop is the assignment that changed the variable");
    }
    sx_reach("end");
    sx_done();
}

static std::map<std::string, std::string> mapOf(const std::vector<std::pair<std::string, std::string>> &v) {
    std::map<std::string, std::string> r;
    for (auto &[n, t] : v) {
        CHECK(r.find(n) == r.end(), "a variable is listed once");
        r[n] = t;
    }
    return r;
}

// The design is instantiated twice: everything happens once per copy, on that copy's signals.
SX_HARNESS(namespaces) {
    Session s({"u0"}, 2);
    MockVPI::Obj *en[2][2], *c[2][2];  // [copy][instance]
    for (int k = 0; k < 2; k++)
        for (int i = 0; i < 2; i++) {
            en[k][i] = s.sig(i, "en", 0, 32, k);
            c[k][i] = s.sig(i, "c", 0, 32, k);
        }
    s.table->bp(7, 0, 10, 0, "en");
    s.table->bp(3, 1, 20);
    s.table->bp(9, 1, 20, 2, "en");
    s.table->orders = {7, 3, 9};
    int with = sx_choose("cond", 3);
    const char *cond = with == 2 ? "c[0:0]" : "c";
    int edit = sx_choose("edit", 4);  // nothing, another condition, remove line 20, stepping
    bool single = sx_choose("single", 2);
    s.run([&]() {
        if (single) s.option("single_thread_mode", true);
        if (with == 2) s.option("use_signal_cache", true);
        if (edit == 1) {
            CHECK(s.ok(s.breakpoint("add", 20, with ? "" : cond)), "added");
            CHECK(s.ok(s.breakpoint("add", 20, with ? cond : "")), "updated");
        } else
            CHECK(s.ok(s.breakpoint("add", 20, with ? cond : "")), "added");
        CHECK(s.ok(s.breakpoint("add", 10, with ? cond : "")), "added");
        if (edit == 2) CHECK(s.ok(s.breakpoint("remove", 20)), "removed");
    });
    if (edit == 3) s.commands = {"step_over", "step_over", "step_over"};
    for (auto &r : en)
        for (auto *o : r) o->value = sx_in_1("en");
    for (auto &r : c)
        for (auto *o : r) o->value = sx_in_1("c");
    s.cycle();
    std::map<std::pair<uint64_t, uint64_t>, int> hits;  // (id, namespace)
    for (auto &st : s.stops)
        for (auto &i : st.insts) {
            hits[{i.bp, i.ns}]++;
            CHECK(i.ns < 2, "the namespace is one of the two");
            auto want = std::string(i.ns == 0 ? "tb.dut" : "tb.dut1") + (i.inst == 1 ? ".u0" : "");
            CHECK(i.name == want, "the instance is named in its own copy of the design");
            CHECK(i.inst == (i.bp == 7 ? 0 : 1), "the instance is the breakpoint's");
        }
    if (edit != 3) {
        for (uint32_t id : {7, 3, 9})
            for (int k = 0; k < 2; k++) {
                int i = id == 7 ? 0 : 1;
                bool due = edit != 2 || id == 7;
                if (id != 3) due = due & (en[k][i]->value != 0);
                if (with) due = due & (c[k][i]->value != 0);
                CHECK((hits[{id, k}] == due), "a breakpoint is hit once for each copy in which its condition holds");
            }
    } else if (!s.stops.empty()) {
        // after the first stop every enabled statement of every copy is visited
        uint64_t first = 0;
        const uint32_t order[] = {7, 3, 9};
        while (order[first] != s.stops[0].insts[0].bp) first++;
        for (uint64_t j = first + 1; j < 3; j++)
            for (int k = 0; k < 2; k++) CHECK((hits[{order[j], k}] == (order[j] == 3 || en[k][1]->value != 0)), "stepping visits every copy that is enabled");
    }
    sx_reach("end");
    sx_done();
}

// Requests that name a copy of the design act on that copy only.
// A symbol table that describes two designs, each instantiated once or twice.
SX_HARNESS(two_designs) {
    int copies[2] = {1 + sx_choose("copies", 2), 1 + sx_choose("others", 2)};
    Session s({}, copies[0]);
    s.table->instances[5] = "other";
    MockVPI::Obj *en[2][2], *c[2][2];   // [design][copy]
    std::string full[2][2];
    for (int k = 0; k < copies[0]; k++) full[0][k] = k ? "tb.dut1" : "tb.dut";
    for (int k = 0; k < copies[1]; k++) {
        full[1][k] = k ? "tb.alt1" : "tb.alt";
        s.vpi->module(full[1][k], "other", s.tb);
    }
    for (int d = 0; d < 2; d++)
        for (int k = 0; k < copies[d]; k++) {
            auto *m = s.vpi->byName(full[d][k]);
            en[d][k] = s.vpi->signal(full[d][k] + ".en", m, 32);
            c[d][k] = s.vpi->signal(full[d][k] + ".c", m, 32);
            en[d][k]->value = sx_in_1("en");
            c[d][k]->value = 10 * d + k;
        }
    uint32_t line[2] = {10, sx_choose("same_line", 2) ? 10u : 20u};
    static const uint32_t ids[] = {7, 3}, insts[] = {0, 5};
    for (int d = 0; d < 2; d++) {
        s.table->bp(ids[d], insts[d], line[d], 0, "en");
        s.table->orders.push_back(ids[d]);
        s.table->ctx[ids[d]] = {{"x", "c"}};
        s.table->gen[insts[d]] = {{"c", "c"}};
    }
    int set = 1 + sx_choose("set", 3);
    bool by_id = sx_choose("by_id", 2), user = sx_choose("user", 2);
    s.run([&]() {
        for (int d = 0; d < 2; d++) {
            if (!(set >> d & 1)) continue;
            if (by_id) CHECK(s.ok(s.breakpoint_id("add", ids[d], user ? "c < 100" : "")), "added");
        }
        if (!by_id)
            for (int d = 0; d < 2; d++)
                if (set >> d & 1) CHECK(s.ok(s.breakpoint("add", line[d], user ? "c < 100" : "")), "added");
    });
    if (!by_id && line[0] == line[1]) set = 3;
    s.cycle();
    std::map<std::pair<uint64_t, std::string>, int> count;
    std::map<std::string, uint64_t> number;
    for (auto &st : s.stops)
        for (auto &i : st.insts) {
            count[{i.bp, i.name}]++;
            CHECK(!number.count(i.name) || number[i.name] == i.ns, "a copy has one number");
            number[i.name] = i.ns;
            int d = i.bp == 3;
            CHECK(i.inst == insts[d], "the reported instance is the breakpoint's");
            for (int k = 0; k < copies[d]; k++)
                if (full[d][k] == i.name) {
                    CHECK(mapOf(i.local)["x"] == std::to_string(c[d][k]->value), "values are those of the copy");
                    auto r = s.ask("evaluation", "{\"expression\":\"c\",\"instance_id\":" + std::to_string(i.inst) + ",\"namespace_id\":" + std::to_string(i.ns) + "}");
                    CHECK(s.ok(r) && r.find("\"result\":\"" + std::to_string(c[d][k]->value) + "\"") != std::string::npos, "an expression is evaluated in the copy it names");
                    r = s.ask("evaluation", "{\"expression\":\"c[7:0] + 1\",\"instance_id\":" + std::to_string(i.inst) + ",\"namespace_id\":" + std::to_string(i.ns) + "}");
                    CHECK(s.ok(r) && r.find("\"result\":\"" + std::to_string(c[d][k]->value + 1) + "\"") != std::string::npos, "and so are the slices in it");
                }
        }
    std::set<uint64_t> numbers;
    for (auto &[n, i] : number) CHECK(numbers.insert(i).second, "each copy has a number of its own");
    for (int d = 0; d < 2; d++)
        for (int k = 0; k < copies[d]; k++) {
            bool due = (set >> d & 1) && (en[d][k]->value != 0);
            auto n = count[{ids[d], full[d][k]}];
            CHECK(n <= 1 && (n == 1) == due, "each copy of each design stops exactly when its breakpoint is due");
            count.erase({ids[d], full[d][k]});
        }
    CHECK(count.empty(), "nothing stops anywhere else");
    sx_reach("end");
    sx_done();
}

SX_HARNESS(namespace_requests) {
    Session s({"u0"}, 2);
    MockVPI::Obj *v[2][2];
    for (int k = 0; k < 2; k++)
        for (int i = 0; i < 2; i++) v[k][i] = s.sig(i, "v", 0, 32, k);
    s.table->bp(7, 0, 10);
    s.table->bp(3, 1, 20);
    s.table->orders = {7, 3};
    s.table->assigned["v"] = {{7, "v", ""}};
    s.table->gen[0] = {{"v", "v"}, {"g", "v"}};
    s.table->gen[1] = {{"w", "v"}, {"g", "v"}};
    s.table->ctx[7] = {{"v", "v"}};
    s.table->ctx[3] = {{"w", "v"}};
    uint32_t inst = sx_choose("inst", 2);
    uint64_t ns = sx_choose("namespace", 2);
    int what = sx_choose("what", 4);
    bool by_bp = sx_choose("by_bp", 2);
    std::string scope = by_bp ? std::string(",\"breakpoint_id\":") + (inst ? "3" : "7") : ",\"instance_id\":" + std::to_string(inst);
    scope += ",\"namespace_id\":" + std::to_string(ns);
    std::string name = inst ? "w" : "v";
    if (what == 0 && sx_choose("generator", 2)) name = "g";   // a variable of the instance, not of the breakpoint
    int64_t x[2][2];
    const int64_t vals[] = {0, 1, -2};
    for (int k = 0; k < 2; k++)
        for (int i = 0; i < 2; i++) {
            bool target = k == static_cast<int>(ns) && i == static_cast<int>(inst);
            x[k][i] = v[k][i]->value = target ? vals[sx_choose("v", 3)] : 77 + k * 2 + i;
        }
    s.run([&]() {
        switch (what) {
            case 0: {
                auto r = s.ask("evaluation", "{\"expression\":\"" + name + " + 1\"" + scope + "}");
                CHECK(s.ok(r), "evaluated");
                rapidjson::Document d;
                d.Parse(r.c_str());
                CHECK(d["payload"]["result"].GetString() == std::to_string(x[ns][inst] + 1), "an expression is evaluated in the copy asked for");
                break;
            }
            case 1: {
                auto r = s.ask("set-value", "{\"var_name\":\"" + name + "\",\"value\":5" + scope + "}");
                CHECK(s.ok(r), "value set");
                for (int k = 0; k < 2; k++)
                    for (int i = 0; i < 2; i++) {
                        bool target = k == static_cast<int>(ns) && i == static_cast<int>(inst);
                        CHECK(v[k][i]->value == (target ? 5 : x[k][i]), "exactly the signal asked for is set");
                    }
                break;
            }
            case 2: {
                auto r = s.ask("monitor", "{\"action_type\":\"add\",\"monitor_type\":\"clock_edge\",\"var_name\":\"" + name + "\"" + scope + "}");
                CHECK(s.ok(r), "monitored");
                rapidjson::Document d;
                d.Parse(r.c_str());
                CHECK(d["payload"]["namespace_id"].GetUint64() == ns, "the variable is monitored in the copy asked for");
                break;
            }
            case 3: {
                auto r = s.ask("data-breakpoint", "{\"action\":\"add\",\"var_name\":\"v\",\"breakpoint-id\":7,\"namespace_id\":" + std::to_string(ns) + "}");
                CHECK(s.ok(r), "data breakpoint added");
                break;
            }
        }
    });
    auto from = DebugServer::last->sent.size();
    s.cycle();
    if (what == 2) {
        int n = 0;
        for (auto i = from; i < DebugServer::last->sent.size(); i++) {
            auto &p = DebugServer::last->sent[i].payload;
            rapidjson::Document d;
            d.Parse(p.c_str());
            if (std::string(d["type"].GetString()) != "monitor") continue;
            n++;
            CHECK(d["payload"]["namespace_id"].GetUint64() == ns, "the value is that of the copy asked for");
            CHECK(d["payload"]["value"].GetString() == std::to_string(x[ns][inst]), "the value is that of the signal");
        }
        CHECK(n == 1, "one value per clock edge");
    }
    if (what == 3) {
        CHECK(s.stops.size() == 1 && s.stops[0].insts.size() == 1 && s.stops[0].insts[0].ns == ns, "the data breakpoint is hit in the copy asked for");
        v[ns][0]->value++;
        s.cycle();
        CHECK(s.stops.size() == 2 && s.stops[1].insts[0].ns == ns, "the data breakpoint is hit in the copy asked for");
        v[1 - ns][0]->value++;
        s.cycle();
        CHECK(s.stops.size() == 2, "the data breakpoint is not hit for another copy");
    }
    sx_reach("end");
    sx_done();
}

// ---- monitored variables ------------------------------------------------------------------------------------------
// The monitor itself: every kind of watch on two signals with any values.
SX_HARNESS(monitor_values) {
    using T = hgdb::Monitor::WatchType;
    auto vpi = std::make_shared<MockVPI>();
    auto *top = vpi->module("top", "top");
    MockVPI::Obj *sig[2] = {vpi->signal("top.a", top, 32), vpi->signal("top.b", top, 32)};
    hgdb::RTLSimulatorClient rtl(vpi);
    hgdb::Monitor m(&rtl);
    struct W {
        int signal;
        T type;
        std::optional<int64_t> last;
    };
    std::map<uint64_t, W> watches;
    const T types[] = {T::breakpoint, T::clock_edge, T::changed, T::data};
    int n = sx_tier() ? 4 : 3;
    bool any = false;
    for (int i = 0; i < n; i++) {
        int op = sx_choose("op", 10);  // 0..7: watch, 8: remove the oldest, 9: only values
        if (op < 8) {
            auto t = types[op / 2];
            auto id = m.add_monitor_variable(op % 2 ? "top.b" : "top.a", t);
            bool known = false;
            for (auto &[k, w] : watches)
                if (w.signal == op % 2 && w.type == t) known = k == id;
            bool same = false;
            for (auto &[k, w] : watches) same |= w.signal == op % 2 && w.type == t;
            CHECK(known == same, "the same watch has one id");
            CHECK(same || !watches.count(id), "different watches have different ids");
            if (!same) watches[id] = W{op % 2, t, std::nullopt};
        } else if (op == 8 && !watches.empty()) {
            m.remove_monitor_variable(watches.begin()->first);
            watches.erase(watches.begin());
        } else if (op == 8)
            m.remove_monitor_variable(17);
        CHECK(m.empty() == watches.empty(), "watches are those added and not removed");
        for (auto *s : sig) s->value = static_cast<int32_t>(sx_in_32("value"));
        for (auto t : types) {
            auto r = m.get_watched_values(t);
            size_t want = 0;
            for (auto &[id, w] : watches) {
                if (w.type != t) continue;
                int count = 0;
                for (auto &[k, v] : r)
                    if (k == id) {
                        count++;
                        CHECK(v.has_value() && *v == sig[w.signal]->value, "the value is that of the signal");
                    }
                bool due = true;
                if (t == T::changed || t == T::data) {
                    due = !w.last.has_value();
                    if (!due) due = *w.last != sig[w.signal]->value;
                    w.last = sig[w.signal]->value;
                }
                CHECK(count == due, "each watch has its value once, a change exactly when there is one");
                want += due;
                any |= due;
            }
            CHECK(r.size() == want, "nothing else is reported");
        }
    }
    if (any) sx_reach("values");
    sx_reach("end");
    sx_done();
}

// Delayed values are those of exactly that many cycles ago.
SX_HARNESS(monitor_delayed) {
    using T = hgdb::Monitor::WatchType;
    auto vpi = std::make_shared<MockVPI>();
    auto *top = vpi->module("top", "top");
    auto *a = vpi->signal("top.a", top, 32);
    hgdb::RTLSimulatorClient rtl(vpi);
    hgdb::Monitor m(&rtl);
    int depth = 1 + sx_choose("depth", 4);
    int start = sx_choose("start", 2);
    a->value = static_cast<int32_t>(sx_in_32("value"));
    std::vector<int64_t> seen{a->value};
    auto id = m.add_monitor_variable("top.a", depth, start ? rtl.get_value("top.a") : std::nullopt);
    auto other = m.add_monitor_variable("top.a", depth % 2 + 1, rtl.get_value("top.a"));
    CHECK(id != other, "delays are kept apart");
    for (int i = 0; i < 6; i++) {
        a->value = static_cast<int32_t>(sx_in_32("value"));
        auto r = m.get_watched_values(T::delay_clock_edge);
        CHECK(r.size() == 2, "every delayed variable has an entry");
        for (auto &[k, v] : r) {
            int d = k == id ? depth : depth % 2 + 1;
            int at = static_cast<int>(seen.size()) - d;
            bool have = at > 0 || (at == 0 && (k != id || start));
            CHECK(v.has_value() == have, "a delayed value is there as soon as there was one");
            if (have) CHECK(*v == seen[at], "a delayed value is the one of that many cycles ago");
        }
        seen.push_back(a->value);
    }
    sx_reach("end");
    sx_done();
}

// Monitor requests: each client gets the values it asked for, when it asked for them.
SX_HARNESS(monitor_session) {
    Session s({"u0"});
    MockVPI::Obj *v[2] = {s.sig(0, "v"), s.sig(1, "v")};
    auto *en = s.sig(0, "en");
    s.table->bp(7, 0, 10, 0, "en");
    s.table->bp(3, 1, 20);
    s.table->orders = {7, 3};
    s.table->gen[0] = {{"v", "v"}};
    s.table->gen[1] = {{"w", "v"}};
    s.table->ctx[3] = {{"w", "v"}};
    struct Watch {
        int signal, type;
        uint64_t id;
        bool on = true;
        std::optional<int64_t> last;
    };
    std::vector<Watch> ws;
    static const char *types[] = {"breakpoint", "clock_edge", "changed"};
    static const char *what[] = {R"("var_name":"v","instance_id":0)", R"("var_name":"w","breakpoint_id":3)", R"("var_name":"tb.dut.u0.v")"};
    auto add = [&](int k) {
        int sig = k % 3 != 0, type = k / 3;
        auto r = s.ask("monitor", std::string("{\"action_type\":\"add\",\"monitor_type\":\"") + types[type] + "\"," + what[k % 3] + "}", 1 + k % 2);
        CHECK(s.ok(r), "monitored");
        rapidjson::Document d;
        d.Parse(r.c_str());
        auto id = d["payload"]["track_id"].GetUint64();
        for (auto &w : ws)
            if (w.on) CHECK((w.id == id) == (w.signal == sig && w.type == type), "the same watch has one id and others different ones");
        for (auto &w : ws)
            if (w.on && w.id == id) return;
        ws.push_back(Watch{sig, type, id});
    };
    auto remove = [&](size_t k) {
        if (k >= ws.size() || !ws[k].on) return;
        CHECK(s.ok(s.ask("monitor", "{\"action_type\":\"remove\",\"track_id\":" + std::to_string(ws[k].id) + "}")), "removed");
        ws[k].on = false;
    };
    int first = sx_choose("add", 9), second = sx_choose("add", 9), edit = sx_choose("edit", 6);
    s.run([&]() {
        CHECK(s.ok(s.breakpoint("add", 10)), "added");
        CHECK(s.ok(s.breakpoint("add", 20)), "added");
        add(first);
        add(second);
    });
    size_t at = DebugServer::last->sent.size();
    for (int c = 0; c < (sx_tier() ? 3 : 2); c++) {
        if (c == 1) {
            if (edit == 1 || edit == 4) remove(0);
            if (edit == 2) remove(1);
            if (edit == 3) add(first);
            if (edit == 4) add(first);
            if (edit == 5) CHECK(s.ok(s.ask("set-value", R"({"var_name":"v","value":5,"instance_id":0})")), "set");
        }
        if (edit != 5 || c != 1)
            for (auto *o : v) o->value = sx_choose("value", 2) ? -7 : 12;
        en->value = c == 1 ? sx_in_1("en") : 1;
        s.cycle();
        auto &sent = DebugServer::last->sent;
        std::map<std::pair<uint64_t, std::string>, int> got;
        int total = 0, stops = 0;
        for (; at < sent.size(); at++) {
            rapidjson::Document d;
            d.Parse(sent[at].payload.c_str());
            if (!d.HasMember("type")) continue;
            std::string t = d["type"].GetString();
            if (t == "breakpoint" && sent[at].broadcast) stops++;
            if (t != "monitor" || d.HasMember("request-type") || !d["payload"].HasMember("value")) continue;
            total++;
            got[{d["payload"]["track_id"].GetUint64(), d["payload"]["value"].GetString()}]++;
        }
        int want = 0;
        for (auto &w : ws) {
            if (!w.on) continue;
            auto now = v[w.signal]->value;
            int n = w.type == 0 ? stops : 1;
            if (w.type == 2) {
                if (w.last && *w.last == now) n = 0;
                w.last = now;
            }
            want += n;
            CHECK((got[{w.id, std::to_string(now)}] == n), "each value is reported at each stop, each clock edge or each change, as asked for");
        }
        CHECK(total == want, "nothing else is reported");
    }
    sx_reach("end");
    sx_done();
}

// Source path mapping as the client sees it: the client's names in every request, stop and list.
SX_HARNESS(mapped_session) {
    Session s;
    auto *en = s.sig(0, "en");
    s.table->bp(7, 0, 10, 0, "en", "", "/x/f.cc");
    s.table->bp(3, 0, 20, 0, "en", "", "/x/b/f.cc");
    s.table->bp(9, 0, 10, 0, "en", "", "/xx/f.cc");
    s.table->orders = {7, 3, 9};
    static const char *maps[] = {R"({"/a":"/x"})", R"({"/a":"/x","/c":"/x/b"})", R"({})", R"({"/x":"/y","/q":"/x"})", R"({"/a":"/x","/x":"/xx"})"};
    static const char *names[5][3] = {{"/a/f.cc", "/a/b/f.cc", "/xx/f.cc"},
                                      {"/a/f.cc", "/c/f.cc", "/xx/f.cc"},
                                      {"/x/f.cc", "/x/b/f.cc", "/xx/f.cc"},
                                      {"/q/f.cc", "/q/b/f.cc", "/xx/f.cc"},
                                      {"/a/f.cc", "/a/b/f.cc", "/x/f.cc"}};
    int k = sx_choose("mapping", 5), how = sx_choose("how", 4), which = sx_choose("which", 3);
    const char *name = names[k][which];
    const uint32_t ids[] = {7, 3, 9}, lines[] = {10, 20, 10};
    if (how == 0) s.connection = std::string("{\"db_filename\":\"x\",\"path-mapping\":") + maps[k] + "}";
    if (how >= 2) s.connection = std::string("{\"db_filename\":\"x\",\"path-mapping\":{\"/a\":\"/nosuch\",\"/x\":\"/nowhere\"}}");
    s.run([&]() {
        if (how > 0) CHECK(s.ok(s.ask("path-mapping", std::string("{\"path-mapping\":") + maps[k] + "}")), "the mapping is accepted");
        rapidjson::Document d;
        auto r = s.ask("bp-location", std::string("{\"filename\":\"") + name + "\"}");
        CHECK(s.ok(r), "locations listed");
        d.Parse(r.c_str());
        auto const &l = d["payload"].GetArray();
        CHECK(l.Size() == 1 && l[0]["id"].GetUint() == ids[which] && l[0]["line_num"].GetUint() == lines[which] && std::string(l[0]["filename"].GetString()) == name, "the locations of the client's file are listed under its name");
        if (how == 3)
            CHECK(s.ok(s.breakpoint_id("add", ids[which])), "added");
        else
            CHECK(s.ok(s.breakpoint("add", lines[which], "", 0, name)), "a breakpoint in the client's file is found");
        auto ls = s.ask("debugger-info", "{\"command\":\"breakpoints\"}");
        rapidjson::Document b;
        b.Parse(ls.c_str());
        CHECK(b["payload"]["breakpoints"].Size() == 1, "exactly the one breakpoint is inserted");
        CHECK(std::string(b["payload"]["breakpoints"][0]["filename"].GetString()) == name && b["payload"]["breakpoints"][0]["id"].GetUint() == ids[which], "breakpoints are listed under the client's name");
        for (int i = 0; i < 3; i++)
            if (i != which && lines[i] != lines[which]) CHECK(!s.ok(s.breakpoint("add", lines[which], "", 0, names[k][i])), "there is nothing at that line of another file");
    });
    en->value = sx_in_1("en");
    s.cycle();
    CHECK(s.stops.size() == static_cast<size_t>(en->value != 0), "the breakpoint is hit when it is enabled");
    for (auto &st : s.stops) CHECK(st.file == name && st.line == lines[which] && st.insts.size() == 1 && st.insts[0].bp == ids[which], "the stop names the client's file");
    CHECK(s.ok(s.breakpoint("remove", lines[which], "", 0, name)), "removed");
    en->value = 1;
    auto n = s.stops.size();
    s.cycle();
    CHECK(s.stops.size() == n, "a breakpoint removed by the client's name is gone");
    sx_reach("end");
    sx_done();
}

// ---- the protocol -------------------------------------------------------------------------------------------------
// One answer per message: looks at what was sent since `before` and gives back the status.
static bool answered(size_t before, uint64_t conn, const char *token, const char *type = nullptr) {
    auto &sent = DebugServer::last->sent;
    CHECK(sent.size() == before + 1, "every message is answered exactly once");
    auto &m = sent[before];
    CHECK(!m.broadcast && m.conn == conn, "the answer goes to the client that asked");
    rapidjson::Document d;
    d.Parse(m.payload.c_str());
    CHECK(!d.HasParseError() && d.IsObject(), "the answer is a JSON object");
    CHECK(d.HasMember("request") && d["request"].IsBool() && !d["request"].GetBool(), "the answer is marked as a response");
    CHECK(d.HasMember("type") && d["type"].IsString(), "the answer has a type");
    CHECK(d.HasMember("status") && d["status"].IsString(), "the answer has a status");
    std::string status = d["status"].GetString();
    CHECK(status == "success" || status == "error", "the status is success or error");
    CHECK(d.HasMember("payload"), "the answer has a payload");
    if (token) {
        CHECK(d.HasMember("token") && d["token"].IsString() && std::string(d["token"].GetString()) == token, "the answer carries the token of the request");
    } else
        CHECK(!d.HasMember("token"), "the answer carries no token of its own");
    if (status == "error") {
        auto &p = d["payload"];
        CHECK(p.IsObject() && p.HasMember("reason") && p["reason"].IsString() && p["reason"].GetStringLength() > 0, "an error has a reason");
    }
    if (type) {
        std::string t = d["type"].GetString();
        if (t == "generic")
            CHECK(std::string(d["payload"]["request-type"].GetString()) == type, "the answer names the type of the request");
        else
            CHECK(t == type, "the answer has the type of the request");
    }
    return status == "success";
}

struct ProtoSession : Session {
    MockVPI::Obj *v;
    explicit ProtoSession(int copies = 1) : Session({"u0"}, copies) {
        for (int k = 0; k < copies; k++) {
            auto *o = sig(0, "v", 5, 32, k);
            if (k == 0) v = o;
        }
        sig(1, "v", 6);
        table->bp(7, 0, 10);
        table->bp(3, 1, 20, 1);
        table->orders = {7, 3};
        table->assigned["v"] = {{7, "v", ""}};
        table->gen[0] = {{"v", "v"}};
        table->ctx[7] = {{"v", "v"}};
    }
};

struct Req {
    const char *type, *payload;
    bool ok_nodb, ok_db;
};
static const Req reqs[] = {
    {"breakpoint", R"({"filename":"f.cc","line_num":10,"action":"add"})", false, true},
    {"breakpoint", R"({"filename":"f.cc","line_num":10,"action":"add","condition":"v == 5"})", false, true},
    {"breakpoint", R"({"filename":"f.cc","line_num":20,"column_num":2,"action":"add"})", false, false},
    {"breakpoint", R"({"filename":"f.cc","line_num":10,"action":"remove"})", false, true},
    {"breakpoint", R"({"filename":"f.cc","action":"remove"})", false, true},
    {"breakpoint-id", R"({"id":3,"action":"add"})", false, true},
    {"breakpoint-id", R"({"id":4,"action":"add"})", false, false},
    {"breakpoint-id", R"({"id":3,"action":"remove"})", false, true},
    {"bp-location", R"({"filename":"f.cc"})", false, true},
    {"bp-location", R"({"filename":"f.cc","line_num":20,"column_num":1})", false, true},
    {"debugger-info", R"({"command":"breakpoints"})", false, true},
    {"debugger-info", R"({"command":"status"})", true, true},
    {"debugger-info", R"({"command":"options"})", true, true},
    {"debugger-info", R"({"command":"design"})", true, true},
    {"debugger-info", R"({"command":"filename"})", false, true},
    {"debugger-info", R"({"command":"nosuch"})", false, false},
    {"path-mapping", R"({"path-mapping":{"/a":"/b"}})", false, true},
    {"evaluation", R"({"expression":"v + 1","instance_id":0})", false, true},
    {"evaluation", R"({"expression":"v + 1","breakpoint_id":7})", false, true},
    {"evaluation", R"({"expression":"nosuch","instance_id":0})", false, false},
    {"evaluation", R"({"expression":"v + 1","instance_id":0,"namespace_id":7})", false, false},
    {"evaluation", R"({"expression":"v +","instance_id":0})", false, false},
    {"option-change", R"({"single_thread_mode":true,"nosuch":1,"log_enabled":false})", true, true},
    {"option-change", R"({"single_thread_mode":[]})", false, false},
    {"monitor", R"({"action_type":"add","monitor_type":"changed","var_name":"v","instance_id":0})", false, true},
    {"monitor", R"({"action_type":"add","monitor_type":"clock_edge","var_name":"tb.dut.v"})", true, true},
    {"monitor", R"({"action_type":"add","monitor_type":"clock_edge","var_name":"nosuch","instance_id":0})", false, false},
    {"monitor", R"({"action_type":"add","monitor_type":"clock_edge","var_name":"v","instance_id":0,"namespace_id":7})", false, false},
    {"monitor", R"({"action_type":"remove","track_id":0})", true, true},
    {"set-value", R"({"var_name":"v","value":9,"instance_id":0})", false, true},
    {"set-value", R"({"var_name":"tb.dut.v","value":-9})", true, true},
    {"set-value", R"({"var_name":"nosuch","value":9,"breakpoint_id":7})", false, false},
    {"set-value", R"({"var_name":"v","value":9,"namespace_id":7})", false, false},
    {"data-breakpoint", R"({"action":"add","var_name":"v","breakpoint-id":7})", false, true},
    {"data-breakpoint", R"({"action":"info","var_name":"v","breakpoint-id":7})", false, true},
    {"data-breakpoint", R"({"action":"add","var_name":"w","breakpoint-id":7})", false, false},
    {"data-breakpoint", R"({"action":"add","var_name":"v","breakpoint-id":8})", false, false},
    {"data-breakpoint", R"({"action":"remove","breakpoint-id":7})", false, true},
    {"data-breakpoint", R"({"action":"clear"})", false, true},
    {"nosuch", "{}", false, false},
};
static constexpr int nreqs = sizeof(reqs) / sizeof(reqs[0]);

// Any sequence of requests in any state of the session: no symbol table, before the run, or paused at a breakpoint.
SX_HARNESS(requests_any_state) {
    ProtoSession s(1);
    int state = sx_choose("state", 3);
    int n = sx_tier() ? 3 : 2;
    std::vector<int> seq;
    for (int i = 0; i < n; i++) seq.push_back(sx_choose("req", nreqs));
    int conn = 1 + sx_choose("conn", 2);
    bool with_token = sx_choose("token", 2);
    auto all = [&](bool db) {
        for (auto k : seq) {
            auto before = DebugServer::last->sent.size();
            std::string m = std::string("{\"request\":true,\"type\":\"") + reqs[k].type + "\",\"payload\":" + reqs[k].payload;
            if (with_token) m += ",\"token\":\"tok\"";
            s.send(m + "}", conn);
            bool ok = answered(before, conn, with_token ? "tok" : nullptr, std::string(reqs[k].type) == "nosuch" ? nullptr : reqs[k].type);
            CHECK(ok == (db ? reqs[k].ok_db : reqs[k].ok_nodb), "requests that can be met succeed and the others fail");
        }
    };
    if (state == 0) {
        hgdb::RuntimeLock::on_wait = [&]() {
            DebugServer::last->running = true;
            all(false);
            auto before = DebugServer::last->sent.size();
            s.send("{\"request\":true,\"type\":\"command\",\"payload\":{\"command\":\"continue\"}}", 1);
            CHECK(!answered(before, 1, nullptr, "command"), "no command without a symbol table");
            sx_reach("end");
            sx_done();  // the simulation goes on waiting
        };
        s.dbg = std::make_unique<hgdb::Debugger>(s.vpi);
        s.dbg->run();
    } else if (state == 1) {
        s.run([&]() { all(true); });
        s.cycle();
    } else {
        bool done = false;
        s.at_stop = [&](const Stop &) {
            if (!done) all(true);
            done = true;
        };
        s.run([&]() { s.breakpoint("add", 10); });
        s.cycle();
        CHECK(done, "stopped");
    }
    sx_reach("end");
    sx_done();
}

// Every request with one member missing or replaced by any kind of JSON value.
SX_HARNESS(malformed_requests) {
    ProtoSession s(1);
    static const struct {
        const char *type;
        std::vector<std::pair<const char *, const char *>> members;
        int required;  // the first so many members are required
    } base[] = {
        {"breakpoint", {{"filename", "\"f.cc\""}, {"line_num", "10"}, {"action", "\"add\""}, {"column_num", "0"}, {"condition", "\"v\""}}, 3},
        {"breakpoint-id", {{"id", "7"}, {"action", "\"add\""}, {"condition", "\"v\""}}, 2},
        {"connection", {{"db_filename", "\"x\""}, {"path-mapping", "{\"a\":\"b\"}"}}, 1},
        {"bp-location", {{"filename", "\"f.cc\""}, {"line_num", "10"}, {"column_num", "0"}}, 1},
        {"command", {{"command", "\"jump\""}, {"time", "3"}}, 2},
        {"debugger-info", {{"command", "\"status\""}}, 1},
        {"path-mapping", {{"path-mapping", "{\"a\":\"b\"}"}}, 1},
        {"evaluation", {{"expression", "\"v\""}, {"instance_id", "0"}, {"breakpoint_id", "7"}, {"namespace_id", "0"}}, 1},
        {"monitor", {{"action_type", "\"add\""}, {"monitor_type", "\"changed\""}, {"var_name", "\"v\""}, {"instance_id", "0"}, {"breakpoint_id", "7"}, {"namespace_id", "0"}}, 3},
        {"monitor", {{"action_type", "\"remove\""}, {"track_id", "0"}}, 2},
        {"set-value", {{"var_name", "\"v\""}, {"value", "1"}, {"instance_id", "0"}, {"breakpoint_id", "7"}, {"namespace_id", "0"}}, 2},
        {"data-breakpoint", {{"action", "\"add\""}, {"var_name", "\"v\""}, {"breakpoint-id", "7"}, {"condition", "\"v\""}, {"namespace_id", "0"}}, 3},
        {"data-breakpoint", {{"action", "\"remove\""}, {"breakpoint-id", "7"}}, 2},
        {"option-change", {{"single_thread_mode", "true"}}, 0},
    };
    static const char *values[] = {"null", "false", "-1", "1.5", "4294967303", "18446744073709551615", "99999999999999999999999", "\"\"", "\"q\"", "\"a\\u0000\"", "[]", "[7]", "{}", "{\"a\":1}"};
    enum { STRING, NUMBER, OBJECT };
    int r = sx_choose("request", 14);
    auto &b = base[r];
    int member = sx_choose("member", static_cast<int>(b.members.size()));
    int value = sx_choose("value", 15);  // 14: missing
    std::string p = "{";
    for (int i = 0; i < static_cast<int>(b.members.size()); i++) {
        if (i == member && value == 14) continue;
        if (p.size() > 1) p += ",";
        p += std::string("\"") + b.members[i].first + "\":" + (i == member ? values[value] : b.members[i].second);
    }
    p += "}";
    char kind = b.members[member].second[0] == '"' ? '"' : b.members[member].second[0] == '{' ? '{' : b.members[member].second[0] == 't' ? 't' : '0';
    bool required = member < b.required;
    bool wrong;  // certainly not acceptable
    if (value == 14)
        wrong = required;
    else if (kind == 't')
        wrong = values[value][0] == 'n' || values[value][0] == '[' || values[value][0] == '{' || value == 3 || value == 5 || value == 6;
    else
        wrong = required && (kind == '0' ? values[value][0] < '0' || values[value][0] > '9' || value == 3 || value == 6 : values[value][0] != kind);
    if (kind == '0' && value == 2 && required && std::string(b.members[member].first) == "value") wrong = false;
    s.run([&]() {
        auto before = DebugServer::last->sent.size();
        s.send(std::string("{\"request\":true,\"type\":\"") + b.type + "\",\"token\":\"t\",\"payload\":" + p + "}", 4);
        bool ok = answered(before, 4, "t", b.type);
        if (wrong) CHECK(!ok, "a request without what it requires is refused");
        // breakpoint 7 is not 2^32 + 7
        if (value == 4 && required && kind == '0' && std::string(b.type).find("breakpoint") != std::string::npos) CHECK(!ok, "a number that is out of range is refused");
        before = DebugServer::last->sent.size();
        s.send("{\"request\":true,\"type\":\"debugger-info\",\"payload\":{\"command\":\"status\"}}", 4);
        CHECK(answered(before, 4, nullptr, "debugger-info"), "the debugger goes on answering");
    });
    s.cycle();
    sx_reach("end");
    sx_done();
}

// The envelope of a message: any kind of value for each of its members, and any kind of document.
SX_HARNESS(malformed_envelope) {
    ProtoSession s(1);
    static const char *docs[] = {"", "null", "true", "5", "-1.5e3", "\"x\"", "[]", "[{}]", "{}", "{", "}", "{\"request\":true", "{\"request\":true,}", "nul", "{\"a\":\"\\ud800\"}", "[[[[[[", "\xff\xfe", "{} {}"};
    static const char *vals[] = {"null", "true", "false", "0", "\"\"", "\"command\"", "\"x\"", "[]", "{}", "{\"command\":\"jump\"}", nullptr};
    int kind = sx_choose("kind", 2);
    std::string m;
    const char *token = nullptr;
    if (kind == 0)
        m = docs[sx_choose("doc", 18)];
    else {
        int a = sx_choose("request", 11), b = sx_choose("type", 11), c = sx_choose("payload", 11), d = sx_choose("token", 3);
        m = "{";
        auto add = [&](const char *n, const char *v) {
            if (!v) return;
            if (m.size() > 1) m += ",";
            m += std::string("\"") + n + "\":" + v;
        };
        add("request", vals[a]);
        add("type", vals[b]);
        add("payload", vals[c]);
        if (d == 1) add("token", "\"k\""), token = "k";
        if (d == 2) add("token", "5");
        m += "}";
    }
    bool db = sx_choose("db", 2);
    auto body = [&]() {
        auto before = DebugServer::last->sent.size();
        s.send(m, 2);
        CHECK(!answered(before, 2, token), "a message that is no proper request is refused");
        before = DebugServer::last->sent.size();
        s.send("{\"request\":true,\"type\":\"debugger-info\",\"payload\":{\"command\":\"status\"}}", 4);
        CHECK(answered(before, 4, nullptr, "debugger-info"), "the debugger goes on answering");
    };
    if (db)
        s.run(body);
    else {
        hgdb::RuntimeLock::on_wait = [&]() {
            DebugServer::last->running = true;
            body();
            sx_reach("end");
            sx_done();
        };
        s.dbg = std::make_unique<hgdb::Debugger>(s.vpi);
        s.dbg->run();
    }
    sx_reach("end");
    sx_done();
}

SX_HARNESS(any_message) {
    ProtoSession s(1);
    auto m = sx_string_of("message", 0, sx_tier() ? 6 : 5, "{}[]\":,0-.e\\u");
    s.run([&]() {
        auto before = DebugServer::last->sent.size();
        s.send(m, 2);
        CHECK(DebugServer::last->sent.size() == before + 1 && !DebugServer::last->sent[before].broadcast && DebugServer::last->sent[before].conn == 2, "every message is answered exactly once");
        CHECK(DebugServer::last->sent[before].payload.find("\"status\":\"error\"") != std::string::npos, "a message that is no proper request is refused");
    });
    sx_reach("end");
    sx_done();
}

// ------------------------------------------------------------------------------------------------
// P22: what a stop says about the variables.

// how a value of a signal of that width is written
static std::string written(int64_t v, int width, bool hex) {
    if (!hex || width == 1) return std::to_string(v);
    auto bits = static_cast<uint64_t>(v);
    if (width < 64) bits &= (1ull << width) - 1;
    std::string r;
    for (int i = (width + 3) / 4 - 1; i >= 0; i--) r += "0123456789ABCDEF"[(bits >> (4 * i)) & 15];
    return "0x" + r;
}


// Scalars of any width, constants, missing signals, arrays and interfaces, in the instance of each breakpoint.
SX_HARNESS(stop_values) {
    Session s({"u0"});
    bool hex = sx_choose("hex", 2);
    uint32_t inst = sx_choose("inst", 2);
    bool cache = sx_choose("cache", 2);
    static const int widths[] = {1, 2, 4, 5, 8, 9, 16, 31, 32};
    int w = widths[sx_choose("width", 9)];
    int kind = sx_choose("kind", 3);   // plain, array of two, interface with two members
    static const int64_t pattern[] = {0, 1, -1, 0x5A5A5A5A, static_cast<int32_t>(0xC3A5F00F)};
    auto pick = [&](const char *n) {
        auto v = pattern[sx_choose(n, 5)] & ((1ll << w) - 1);
        return w == 32 ? static_cast<int64_t>(static_cast<int32_t>(v)) : v;
    };
    MockVPI::Obj *v[2][2], *other[2];
    for (int i = 0; i < 2; i++) {
        std::string full = i ? "tb.dut.u0" : "tb.dut";
        if (kind == 0) {
            v[i][0] = s.sig(i, "v", 0, w);
            v[i][1] = s.sig(i, "v2", 0, w);
        } else if (kind == 1) {
            auto *arr = s.vpi->add(vpiRegArray, full + ".v", s.vpi->byName(full), 2);
            for (int k = 0; k < 2; k++) {
                v[i][k] = s.vpi->add(vpiReg, full + ".v[" + std::to_string(k) + "]", arr, w);
                v[i][k]->is_vector = true;
                arr->elements.push_back(v[i][k]);
            }
        } else {
            auto *m = s.vpi->add(vpiInterface, full + ".v", s.vpi->byName(full), 0);
            v[i][0] = s.vpi->add(vpiNet, full + ".v.p", m, w);
            v[i][1] = s.vpi->add(vpiReg, full + ".v.q", m, w);
        }
        other[i] = s.sig(i, "z", 3 + i, 8);
    }
    s.table->bp(7, inst, 10);
    s.table->bp(3, 1 - inst, 10);
    s.table->orders = {7, 3};
    s.table->ctx[7] = {{"x", "v"}, {"k", "42", false}, {"gone", "nosuch"}};
    s.table->ctx[3] = {{"y", "z"}};
    s.table->gen[inst] = {{"g", "z"}, {"name", "text \\\"", false}, {"full", "mod.z"}};
    if (kind == 0) s.table->ctx[7].push_back({"x2", "v2"});
    s.run([&]() {
        if (hex) s.option("use_hex_str", true);
        if (cache) s.option("use_signal_cache", true);
        CHECK(s.ok(s.breakpoint_id("add", 7)), "added");
    });
    for (int c = 0; c < 2; c++) {
        for (int k = 0; k < 2; k++) {
            v[inst][k]->value = k == c ? pick("v") : 1;
            v[1 - inst][k]->value = 0;
        }
        auto n = s.stops.size();
        s.cycle();
        CHECK(s.stops.size() == n + 1 && s.stops[n].insts.size() == 1, "one stop");
        auto &i = s.stops[n].insts[0];
        auto local = mapOf(i.local), gen = mapOf(i.gen);
        static const char *names[3][2] = {{"x", "x2"}, {"x.0", "x.1"}, {"x.p", "x.q"}};
        for (int k = 0; k < 2; k++) CHECK(local[names[kind][k]] == written(v[inst][k]->value, w, hex), "each variable has the value the simulator has");
        CHECK(local["k"] == "42", "constants have their value");
        CHECK(local["gone"] == "ERROR", "what cannot be read is said to be");
        CHECK(local.size() == 4, "nothing else is listed");
        CHECK(gen["g"] == written(3 + inst, 8, hex) && gen["full"] == written(3, 8, hex), "variables of the instance have the value the simulator has");
        CHECK(gen["name"] == "text \\\"", "texts are kept");
        CHECK(gen.size() == 3, "nothing else is listed");
        CHECK(i.name == (inst ? "tb.dut.u0" : "tb.dut"), "the instance has its full name");
    }
    sx_reach("end");
    sx_done();
}

// A value set while the simulation is paused is what everything sees from then on.
SX_HARNESS(stop_after_set) {
    Session s({"u0"});
    MockVPI::Obj *a[2], *b[2];
    for (int i = 0; i < 2; i++) {
        a[i] = s.sig(i, "a", 0, 8);
        b[i] = s.sig(i, "b", 0, 8);
    }
    bool cache = sx_choose("cache", 2), by_id = sx_choose("by_id", 2), enable = sx_choose("enable", 2);
    uint32_t inst = sx_choose("inst", 2), target = sx_choose("target", 2);   // of the second breakpoint; of the signal set
    auto *name = sx_choose("name", 2) ? "a" : "b";
    int64_t value = 5 + sx_choose("value", 2);
    static const char *const conds[] = {"a < 100 && b < 100", "a < 100", "", "a[2:0] < 100 && b[7:0] < 100"};
    auto *cond = conds[sx_choose("read", 4)];   // what has been read before the stop
    s.table->bp(7, 0, 10, 0, cond);
    s.table->bp(9, 1, 15, 0, cond);
    std::string hit = strchr(cond, '[') ? "a[2:0] == 5" : "a == 5";
    s.table->bp(3, inst, 20, 0, enable ? hit : "");
    s.table->orders = {7, 9, 3};
    for (uint32_t id : {7, 9, 3}) s.table->ctx[id] = {{"a", "a"}, {"b", "b"}};
    for (uint32_t i : {0, 1}) s.table->gen[i] = {{"a", "a"}, {"b", "b"}};
    int64_t want[2][2] = {};   // [instance][a, b]
    auto load = [&]() {
        for (int i = 0; i < 2; i++) {
            want[i][0] = a[i]->value = 5 + sx_choose("a", 2);
            want[i][1] = b[i]->value = 7 + i;
        }
    };
    bool done = false;
    s.at_stop = [&](const Stop &st) {
        auto &i = st.insts[0];
        auto local = mapOf(i.local);
        CHECK(local["a"] == std::to_string(want[i.inst][0]) && local["b"] == std::to_string(want[i.inst][1]), "a stop shows the values the signals have now");
        if (st.line == 20 || (st.line == 10 && target == 1 && inst == 0)) return;
        if (done) return;
        done = true;
        auto where = by_id ? std::string("\"breakpoint_id\":") + (target ? "9" : "7") : "\"instance_id\":" + std::to_string(target);
        auto r = s.ask("set-value", std::string("{\"var_name\":\"") + name + "\",\"value\":" + std::to_string(value) + "," + where + "}");
        sx_note(r.c_str());
        CHECK(s.ok(r), "a value can be set");
        want[target][*name - 'a'] = value;
        CHECK((*name == 'a' ? a : b)[target]->value == value, "the simulator has the value that was set");
        for (int k = 0; k < 2; k++)
            for (int j = 0; j < 2; j++) {
                auto r = s.ask("evaluation", std::string("{\"expression\":\"") + (j ? "b" : "a") + "\",\"instance_id\":" + std::to_string(k) + "}");
                CHECK(s.ok(r) && r.find("\"result\":\"" + std::to_string(want[k][j]) + "\"") != std::string::npos, "an expression is evaluated with the values the signals have now");
            }
    };
    s.run([&]() {
        if (cache) s.option("use_signal_cache", true);
        CHECK(s.ok(s.breakpoint("add", 10)) && s.ok(s.breakpoint("add", 15)) && s.ok(s.breakpoint("add", 20, enable ? "" : hit)), "added");
    });
    for (int c = 0; c < 2; c++) {
        load();
        auto n = s.stops.size();
        s.cycle();
        CHECK(s.stops.size() >= n + 2 && (s.stops.size() == n + 3) == (want[inst][0] == 5), "conditions are evaluated with the values the signals have now");
    }
    CHECK(done, "a value was set");
    sx_reach("end");
    sx_done();
}

// Variables that are shown with the value of some cycles ago.
SX_HARNESS(stop_delayed) {
    int copies = 1 + sx_choose("copies", 2);
    Session s({"u0"}, copies);
    MockVPI::Obj *a[2], *b[2];
    for (int k = 0; k < copies; k++) {
        a[k] = s.sig(0, "a", 0, 8, k);
        b[k] = s.sig(0, "b", 0, 8, k);
    }
    int d1 = 1 + sx_choose("d1", 2), d2 = 1 + sx_choose("d2", 2);
    int other = sx_choose("other", 2);   // the second breakpoint delays the same signal, or another one
    bool second = sx_choose("second", 2);
    bool hex = sx_choose("hex", 2);
    s.table->bp(7, 0, 10);
    s.table->bp(3, 0, 20);
    s.table->orders = {7, 3};
    using D = MemTable::Var;
    s.table->ctx[7] = {D{"a0", "a", true, 1, static_cast<uint32_t>(d1)}, D{"a", "a"}};
    s.table->ctx[3] = {D{"x0", other ? "b" : "a", true, 1, static_cast<uint32_t>(d2)}};
    int add_at = sx_choose("add", 2);
    s.run([&]() {
        if (hex) s.option("use_hex_str", true);
        if (add_at == 0) {
            CHECK(s.ok(s.breakpoint("add", 10)), "added");
            if (second) CHECK(s.ok(s.breakpoint_id("add", 3)), "added");
        }
    });
    // values of each cycle; cycle -1 is the state before the run
    std::vector<int64_t> va[2], vb[2];
    auto sample = [&]() {
        for (int k = 0; k < copies; k++) {
            va[k].push_back(a[k]->value);
            vb[k].push_back(b[k]->value);
        }
    };
    sample();
    for (int c = 0; c < 4; c++) {
        if (c == 1 && add_at == 1) {
            CHECK(s.ok(s.breakpoint("add", 10)), "added");
            if (second) CHECK(s.ok(s.breakpoint_id("add", 3)), "added");
        }
        for (int k = 0; k < copies; k++) {
            a[k]->value = c * 7 + 1 + k * 50 + (c < 2 ? sx_choose("a", 2) : 0);
            b[k]->value = 200 - c * 3 - k;
        }
        auto n = s.stops.size();
        s.cycle();
        sample();
        int since = c - (add_at == 1 ? 1 : 0);   // cycles since the breakpoints were added
        std::map<std::pair<uint64_t, uint64_t>, std::map<std::string, std::string>> seen;
        for (; n < s.stops.size(); n++)
            for (auto &i : s.stops[n].insts) seen[{i.bp, i.ns}] = mapOf(i.local);
        if (since < 0) {
            CHECK(seen.empty(), "no stop before a breakpoint is added");
            continue;
        }
        for (int k = 0; k < copies; k++) {
            auto ago = [&](const std::vector<int64_t> &v, int d) { return v[v.size() - 1 - d]; };
            CHECK((seen.count({7, k}) == 1 && seen.count({3, k}) == second), "each copy stops");
            auto &first = seen[{7, k}], &snd = seen[{3, k}];
            if (since + 1 >= d1) CHECK(first["a0"] == written(ago(va[k], d1), 8, hex), "a delayed variable has the value of that many cycles ago");
            CHECK(first["a"] == written(a[k]->value, 8, hex), "another variable of the same signal has its value now");
            if (second && since + 1 >= d2) CHECK(snd["x0"] == written(ago(other ? vb[k] : va[k], d2), 8, hex), "a delayed variable has the value of that many cycles ago");
        }
    }
    sx_reach("end");
    sx_done();
}

// ------------------------------------------------------------------------------------------------
// P24: a new connection.

// The symbol table is loaded again, by the same client or another one, with other breakpoints or the same.
SX_HARNESS(reconnected) {
    int copies = 1 + sx_choose("copies", 2);
    Session s({"u0"}, copies);
    MockVPI::Obj *en[2][2], *c[2][2];
    for (int k = 0; k < copies; k++)
        for (int i = 0; i < 2; i++) {
            en[k][i] = s.sig(i, "en", 0, 32, k);
            c[k][i] = s.sig(i, "c", 0, 32, k);
        }
    struct B {
        uint32_t id, line, inst;
    };
    static const std::vector<B> designs[2] = {{{7, 10, 0}, {3, 20, 1}, {9, 30, 0}}, {{3, 10, 1}, {7, 20, 0}, {4, 30, 1}}};
    auto fill = [&](MemTable &t, int d) {
        for (auto &b : designs[d]) {
            t.orders.push_back(b.id);
            t.bp(b.id, b.inst, b.line, 0, "en");
            t.ctx[b.id] = {{"x", "c"}};
        }
    };
    fill(*s.table, 0);
    int other = sx_choose("other", 2), when = sx_choose("when", 3);   // before the run, between two cycles, at a stop
    int times = 1 + sx_choose("times", 2);
    int first = sx_choose("first", 4), second = 1 + sx_choose("second", 3);   // lines set before and after: 10, 20
    bool data = sx_choose("data", 2);
    auto instances = s.table->instances;
    auto annotations = s.table->annotations;
    int design = 0, lines = 0;
    auto set = [&](int w) {
        lines = w;
        for (int i = 0; i < 2; i++)
            if (w >> i & 1) CHECK(s.ok(s.breakpoint("add", 10 + 10 * i)), "a breakpoint can be set");
    };
    auto again = [&]() {
        for (int t = 0; t < times; t++) {
            auto n = std::make_unique<MemTable>();
            n->instances = instances;
            n->annotations = annotations;
            fill(*n, other);
            s.db = n.get();
            s.dbg->initialize_db(std::move(n));
            CHECK(s.ok(s.ask("connection", s.connection, 2)), "a client can connect again");
        }
        design = other;
        auto l = listed(s);
        CHECK(l.normal.empty() && l.data.empty(), "a new session starts without breakpoints");
        set(second);
    };
    bool edited = false;
    s.at_stop = [&](const Stop &) {
        if (when != 2 || edited) return;
        edited = true;
        again();
    };
    s.run([&]() {
        set(first);
        if (data) s.db->assigned["v"] = {{3, "c", ""}}, CHECK(s.ok(s.ask("data-breakpoint", R"({"action":"add","var_name":"v","breakpoint-id":3,"namespace_id":0})")), "added");
        if (when == 0) again();
    });
    for (int cyc = 0; cyc < 2; cyc++) {
        if (cyc == 1 && when == 1) again();
        for (int k = 0; k < copies; k++)
            for (int i = 0; i < 2; i++) {
                en[k][i]->value = cyc == 0 ? 1 : sx_in_1("en");
                c[k][i]->value = 10 * k + i + cyc;
            }
        if (cyc == 0 && when) {
            s.cycle();
            continue;
        }
        auto n = s.stops.size();
        s.cycle();
        std::map<std::pair<uint64_t, uint64_t>, int> count;   // breakpoint, copy
        int last = -1;
        for (; n < s.stops.size(); n++) {
            int here = -1;
            for (auto &i : s.stops[n].insts) {
                CHECK(i.type == "normal", "breakpoints of an earlier session are gone");
                count[{i.bp, i.ns}]++;
                CHECK(i.ns < static_cast<uint64_t>(copies), "copies of the design keep their numbers");
                for (int k = 0; k < 3; k++)
                    if (designs[design][k].id == i.bp) here = k;
                CHECK(mapOf(i.local)["x"] == std::to_string(c[i.ns][i.inst]->value), "values are those of the copy");
            }
            CHECK(here >= last, "stops follow the execution order");
            last = here;
        }
        for (auto &b : designs[design])
            for (int k = 0; k < copies; k++) {
                bool due = (b.line == 10 || b.line == 20) && (lines >> (b.line / 10 - 1) & 1);
                due = due & (en[k][b.inst]->value != 0);
                auto n = count[{b.id, k}];
                CHECK(n <= 1 && (n == 1) == due, "a breakpoint of the new session is reported once per copy when it is due");
                count.erase({b.id, k});
            }
        CHECK(count.empty(), "breakpoints of an earlier session are gone");
    }
    auto r = s.ask("debugger-info", R"({"command":"design"})");
    rapidjson::Document d;
    d.Parse(r.c_str());
    CHECK(s.ok(r), "the design can be asked for");
    sx_note(r.c_str());
    sx_reach("end");
    sx_done();
}

// ------------------------------------------------------------------------------------------------
// P20: settings.

static std::map<std::string, std::string> environment;
extern "C" char *sx_getenv(const char *n) {
    auto it = environment.find(n);
    return it == environment.end() ? nullptr : it->second.data();
}

static bool optionValue(Session &s, const std::string &name) {
    rapidjson::Document d;
    d.Parse(s.ask("debugger-info", "{\"command\":\"options\"}").c_str());
    CHECK(!d.HasParseError() && d["payload"]["options"].HasMember(name.c_str()), "every option is listed");
    auto &v = d["payload"]["options"][name.c_str()];
    CHECK(v.IsBool(), "an option that is on or off is listed as such");
    return v.GetBool();
}

SX_HARNESS(plus_args) {
    environment.clear();
    Session s;
    static const char *const other[][3] = {{"", "", ""}, {"x+DEBUG_PORT=1", "+DEBUG_PORTS=2", "DEBUG_PORT=3"}, {"+DEBUG_LOG", "+DEBUG_LOGS", ""},
                                           {"+DEBUG_LOG=1", "", ""}, {"+DEBUG_LOGGING", "x+DEBUG_LOG", "+DEBUG_LOGS=1"}, {"+DEBUG_PORT", "+debug_port=4", ""}};
    int o = sx_choose("other", 6), where = sx_choose("where", 4);   // none, plus arg, environment, both
    int kind = sx_choose("kind", 9);
    bool log_env = sx_choose("log", 2), block_env = sx_choose("block", 2);
    s.vpi->args = {"sim", "+DEBUG_NO_DB"};
    for (auto *x : other[o])
        if (*x) s.vpi->args.emplace_back(x);
    static const char *const texts[] = {"", "abc", "-1", "99999999999999999999999", "65535", "65536", "0", "8888x"};
    std::string text;
    uint64_t value = 0;
    if (kind < 8) text = texts[kind];
    else
    {
        static const char *const prefix[] = {"", "6553", "9", "65", "00", "844674407370955161"};
        text = std::string(sx_choose("prefix", 2) ? "1" : "") + prefix[sx_choose("prefix", 6)] + sx_string_of("port", 1, 1, "0123456789");
    }
    for (char c : text) value = value * 10 + static_cast<unsigned char>(c - '0');
    if (where & 1) s.vpi->args.push_back("+DEBUG_PORT=" + text);
    if (where == 2) environment["DEBUG_PORT"] = text;
    if (where == 3) environment["DEBUG_PORT"] = "1234";
    if (log_env) environment["DEBUG_LOG"] = "1";
    if (block_env) environment["DEBUG_DISABLE_BLOCKING"] = "1";
    int waits = 0;
    hgdb::RuntimeLock::on_wait = [&]() {
        waits++;
        CHECK(hgdb::DebugServer::last->running, "the server is there while the simulation waits");
        CHECK(waits == 1 && s.ok(s.command("continue")), "continue accepted");
    };
    s.dbg = std::make_unique<hgdb::Debugger>(s.vpi);
    s.dbg->initialize_db(std::move(s.table));
    s.dbg->run();
    CHECK(waits == !block_env, "the simulation waits for a client at the start unless it is told not to");
    uint64_t port = hgdb::DebugServer::last->port;
    if (where == 0) CHECK(port == 8888, "the default port");
    else if (kind == 8 && text.size() > 18) CHECK(port == 8888, "what is no port means the default one");
    else if (kind == 8) CHECK(port == (value <= 65535 ? value : 8888), "the port is the one asked for, or the default one if that is none");
    else if (kind < 4 || kind == 5) CHECK(port == 8888, "what is no port means the default one");
    else if (kind < 7) CHECK(port == value, "the port is the one asked for");
    CHECK(optionValue(s, "log_enabled") == (log_env || o == 2 || o == 3), "logging is on exactly if asked for");
    sx_reach("end");
    sx_done();
}

static const char *const optionNames[] = {"single_thread_mode", "use_hex_str", "pause_at_posedge", "use_signal_cache", "detach_after_disconnect", "perf_count", "log_enabled"};

SX_HARNESS(options) {
    environment.clear();
    Session s({"u0"});
    auto *a = s.sig(0, "a", -2, 32), *a1 = s.sig(1, "a", -2, 32);
    s.table->bp(7, 0, 10, 0, "a");
    s.table->bp(3, 1, 10, 0, "a");
    s.table->orders = {7, 3};
    s.table->ctx[7] = s.table->ctx[3] = {{"a", "a"}};
    bool now[7] = {};
    int pauses = 0, n = 0;
    s.run([&]() { CHECK(s.ok(s.breakpoint("add", 10)), "added"); });
    for (int i = 0; i < (sx_tier() ? 3 : 2); i++) {
        int k = sx_choose("option", 8), v = sx_choose("value", 5);
        static const char *const values[] = {"true", "false", "1", "\"true\"", "null"};
        if (k == 7) {
            if (v > 1) return;
            s.dbg->set_option("single_thread_mode", v == 0);
            s.dbg->set_option("no_such_option", v == 0);
            now[0] = v == 0;
            continue;
        }
        auto r = s.ask("option-change", std::string("{\"") + optionNames[k] + "\":" + values[v] + ",\"nothing\":true}");
        CHECK(s.ok(r) == (v != 4), "a value of a kind no option has is refused");
        if (v < 2) now[k] = v == 0;
    }
    for (int k = 0; k < 7; k++) CHECK(optionValue(s, optionNames[k]) == now[k], "an option has the value it was given last");
    bool at_posedge = now[2];
    hgdb::RuntimeLock::on_wait = [&]() {
        pauses++;
        s.collect();
        if (pauses == 1 && at_posedge) CHECK(s.stops.empty(), "the pause at the clock edge is before any stop");
        CHECK(pauses < 9 && s.ok(s.command("continue")), "continue accepted");
    };
    s.cycle();
    n = static_cast<int>(s.stops.size());
    CHECK(n == (now[0] ? 2 : 1), "breakpoints at one place are reported together unless in single thread mode");
    CHECK(pauses == n + at_posedge, "the simulation pauses at each stop and, if asked to, at the clock edge");
    for (auto &st : s.stops)
        for (auto &i : st.insts) CHECK((i.local.size() == 1 && i.local[0].second == written(a->value, 32, now[1])), "values are written as asked for");
    a->value = 0;
    a1->value = 1;
    s.stops.clear();
    pauses = 0;
    s.cycle();
    CHECK((s.stops.size() == 1 && s.stops[0].insts.size() == 1), "the signal cache does not keep values of another cycle");
    // what happens when the last client leaves
    int callbacks = s.vpi->active(cbValueChange);
    DebugServer::last->on_disconnect();
    CHECK((s.vpi->active(cbValueChange) == 0) == (now[4] || callbacks == 0), "the debugger leaves with the last client if asked to");
    sx_reach("end");
    sx_done();
}

SX_HARNESS(option_table) {
    hgdb::util::Options t;
    bool b[2] = {false, true};
    int64_t i[2] = {3, -4};
    std::string x[2] = {"p", "q"};
    t.add_option("b0", &b[0]);
    t.add_option("b1", &b[1]);
    t.add_option("i0", &i[0]);
    t.add_option("i1", &i[1]);
    t.add_option("s0", &x[0]);
    t.add_option("s1", &x[1]);
    bool wb[2] = {false, true};
    int64_t wi[2] = {3, -4};
    std::string wx[2] = {"p", "q"};
    static const char *const names[] = {"b0", "b1", "i0", "i1", "s0", "s1", "none"};
    for (int k = 0; k < 2; k++) {
        int n = sx_choose("name", 7), kind = sx_choose("kind", 3);
        if (kind == 0) {
            bool v = sx_choose("value", 2);
            t.set_option(names[n], v);
            if (n < 2) wb[n] = v;
        } else if (kind == 1) {
            auto v = static_cast<int64_t>(sx_in_64("value"));
            t.set_option(names[n], v);
            if (n == 2 || n == 3) wi[n - 2] = v;
        } else {
            std::string v = sx_choose("value", 2) ? "" : "true";
            t.set_option(names[n], v);
            if (n == 4 || n == 5) wx[n - 4] = v;
        }
    }
    for (int k = 0; k < 2; k++) {
        CHECK(b[k] == wb[k] && x[k] == wx[k], "an option only takes values of its own kind");
        CHECK(i[k] == wi[k], "an option has the value it was given last");
    }
    i[0] = 5, i[1] = -6;
    auto all = t.get_options();
    CHECK(all.size() == 6 && all["b0"] == (wb[0] ? "true" : "false") && all["b1"] == (wb[1] ? "true" : "false") && all["i0"] == "5" && all["i1"] == "-6" && all["s0"] == wx[0] && all["s1"] == wx[1],
          "every option is listed with its value");
    sx_reach("end");
}

__attribute__((noinline)) static void smear(int n) {
    volatile unsigned char waste[4096];
    for (auto &w : waste) w = 0x5A;
    if (n) smear(n - 1);
}

SX_HARNESS(environment_breakpoints) {
    environment.clear();
    Session s;
    auto *c = s.sig(0, "c");
    s.table->bp(7, 0, 10);
    s.table->bp(3, 0, 10, 2, "c");
    s.table->bp(9, 0, 20);
    s.table->orders = {7, 3, 9};
    struct T {
        const char *text;
        int file;   // 0: none
        uint32_t line, col;
        bool cond;
    };
    static const T texts[] = {{"f.cc:10", 1, 10, 0, false}, {"f.cc:10:2", 1, 10, 2, false}, {"f.cc:20@c", 1, 20, 0, true}, {"f.cc:10@c == 1", 1, 10, 0, true},
                              {"f.cc:10:2@c!=0", 1, 10, 2, true}, {"f.cc:20@", 1, 20, 0, false}, {"g.cc:10", 0}, {"f.cc", 0}, {"f.cc:", 0}, {"f.cc:x", 0}, {"f.cc:10:x", 0},
                              {"", 0}, {"@", 0}, {"@c", 0}, {":", 0}, {"f.cc:30", 0}, {"f.cc:10@c &&", 0}, {"f.cc:20@nosuch", 0}};
    int t[3] = {static_cast<int>(sx_choose("first", 18)), static_cast<int>(sx_choose("second", 18)), 2};
    bool gap = sx_choose("gap", 2);
    environment["DEBUG_BREAKPOINT0"] = texts[t[0]].text;
    environment["DEBUG_BREAKPOINT1"] = texts[t[1]].text;
    environment[gap ? "DEBUG_BREAKPOINT3" : "DEBUG_BREAKPOINT2"] = texts[t[2]].text;
    smear(4);
    s.run();
    int in[3] = {0, 0, 0};   // 7, 3, 9: 0 no, 1 yes, 2 with a condition
    static const uint32_t lines[] = {10, 10, 20}, cols[] = {0, 2, 0};
    for (int k = 0; k < 3; k++) {
        auto &x = texts[t[k]];
        if (!x.file || (k == 2 && gap)) continue;
        for (int j = 0; j < 3; j++)
            if (x.line == lines[j] && (x.col == 0 || x.col == cols[j])) in[j] = x.cond ? 2 : 1;
    }
    for (int cyc = 0; cyc < 2; cyc++) {
        c->value = sx_in_1("c");
        auto n = s.stops.size();
        s.cycle();
        int hits[3] = {0, 0, 0};
        for (; n < s.stops.size(); n++)
            for (auto &i : s.stops[n].insts) hits[i.bp == 7 ? 0 : i.bp == 3 ? 1 : 2]++;
        for (int j = 0; j < 3; j++) {
            bool due = in[j] != 0;
            if (in[j] == 2 || j == 1) due = due & (c->value != 0);
            CHECK((hits[j] == 1) == due && hits[j] <= 1, "exactly the breakpoints named in the environment are there, with their conditions");
        }
    }
    sx_reach("end");
    sx_done();
}

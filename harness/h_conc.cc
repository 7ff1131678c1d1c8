// The simulation and the server run at the same time (P17): requests arrive at any point of the evaluation.
#include "dbg.hh"
#include <sys/single_threaded.h>

struct Conc : Session {
    sxs::Sched sched;
    bool over = false, simulating = false;
    size_t told = 0;            // stops answered so far
    bool released = false;      // the first continue was sent
    std::vector<std::function<void()>> async;   // what the server thread does while the simulation runs
    std::function<void()> before, cycles, late;
    bool disconnected = false;
    int wait_told = 0;          // stops to answer before the first request

    explicit Conc(std::vector<std::string> children = {}, int copies = 1) : Session(std::move(children), copies) {}
    size_t reported() {
        size_t n = 0;
        for (auto &m : DebugServer::last->sent)
            if (m.broadcast && m.payload.find("\"type\":\"breakpoint\"") != std::string::npos) n++;
        return n;
    }
    void start(int preemptions) {
        sx_race_start();
        __libc_single_threaded = 0;
        dbg = std::make_unique<hgdb::Debugger>(vpi);
        db = table.get();
        dbg->initialize_db(std::move(table));
        sched.max_preemptions = 0;
        bool up = false;
        sched.add([&]() {  // the simulation
            up = true;
            {
                SX_WATCH;
                dbg->run();
            }
            sched.max_preemptions = sched.preemptions + preemptions;
            simulating = true;
            cycles();
            over = true;
        });
        sched.add([&]() {  // the server
            sxs::block([&]() { return up && DebugServer::last->running; });
            CHECK(ok(ask("connection", connection)), "connection accepted");
            if (before) before();
            released = true;
            CHECK(ok(command("continue")), "continue accepted");
            size_t next = 0;
            while (!over || next < async.size()) {
                bool more = next < async.size() && (over || told >= static_cast<size_t>(wait_told));
                sxs::block([this, more]() { return over || (more && simulating) || (!disconnected && reported() > told); });
                if (!disconnected && reported() > told && !over) {
                    // a stop is answered before or after the request
                    if (!more || told < static_cast<size_t>(wait_told) || sx_choose("answer_first", 2)) {
                        told++;
                        command("continue");
                        continue;
                    }
                }
                if (more) async[next++]();
            }
        });
        CHECK(sched.run(), "the simulation goes on whenever it is not at a stop");
        collect();
    }
    std::vector<std::pair<uint64_t, uint64_t>> hits_at(uint64_t time) {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (auto &st : stops)
            if (st.time == time)
                for (auto &i : st.insts) r.emplace_back(i.bp, i.type == "data");
        return r;
    }
};

// One request that arrives at any point while two cycles are evaluated.
static void async_request(int preemptions) {
    Conc s({"u0"});
    auto *en = s.sig(0, "en"), *c = s.sig(0, "c"), *v = s.sig(0, "v");
    auto *en1 = s.sig(1, "en");
    s.sig(1, "c");
    s.table->bp(7, 0, 10, 0, "en");
    s.table->bp(3, 0, 20);
    s.table->bp(9, 1, 20, 0, "en");
    s.table->bp(4, 0, 30);
    s.table->orders = {7, 3, 9, 4};
    s.table->assigned["v"] = {{4, "v", ""}};
    s.table->gen[0] = {{"v", "v"}};
    s.table->ctx[7] = {{"v", "v"}};
    int what = sx_choose("request", 15);
    std::string answer;
    auto add = [](std::set<uint32_t> s, std::initializer_list<uint32_t> l) {
        s.insert(l);
        return s;
    };
    std::set<uint32_t> before{7, 3, 9}, after = before;
    if (what == 0) after = {7};
    if (what == 1) after = {3, 9};
    if (what == 2) after = {7, 9};
    if (what == 3) after = add(before, {4});
    s.before = [&]() {
        CHECK(s.ok(s.breakpoint("add", 10)), "added");
        CHECK(s.ok(s.breakpoint("add", 20)), "added");
        if (what == 6 || what == 7) CHECK(s.ok(s.ask("data-breakpoint", R"({"action":"add","var_name":"v","breakpoint-id":4})")), "added");
        if (what == 9) CHECK(s.ok(s.ask("monitor", R"({"action_type":"add","monitor_type":"clock_edge","var_name":"v","instance_id":0})")), "added");
    };
    bool done = false;
    int cycle_when_done = 0, cycle = 0;
    s.async.push_back([&]() {
        switch (what) {
            case 0: answer = s.breakpoint("remove", 20); break;
            case 1: answer = s.breakpoint_id("remove", 7); break;
            case 2: answer = s.breakpoint_id("remove", 3); break;
            case 3: answer = s.breakpoint("add", 30); break;
            case 4: answer = s.breakpoint("add", 20, "en || !en"); break;
            case 5: answer = s.ask("data-breakpoint", R"({"action":"add","var_name":"v","breakpoint-id":4})"); break;
            case 6: answer = s.ask("data-breakpoint", R"({"action":"remove","breakpoint-id":4})"); break;
            case 7: answer = s.ask("data-breakpoint", R"({"action":"clear"})"); break;
            case 8: answer = s.ask("monitor", R"({"action_type":"add","monitor_type":"clock_edge","var_name":"v","instance_id":0})"); break;
            case 9: answer = s.ask("monitor", R"({"action_type":"remove","track_id":0})"); break;
            case 10: answer = s.ask("set-value", R"({"var_name":"v","value":9,"instance_id":0})"); break;
            case 11: answer = s.ask("evaluation", R"({"expression":"v + en","instance_id":0})"); break;
            case 12: answer = s.ask("debugger-info", "{\"command\":\"breakpoints\"}"); break;
            case 14: answer = s.ask("evaluation", R"({"expression":"v[3:0] + 1","instance_id":0})"); break;
            case 13: answer = s.ask("path-mapping", R"({"path-mapping":{"/a":"/b"}})"); break;
        }
        done = true;
        cycle_when_done = cycle;
    });
    uint64_t t[2];
    s.cycles = [&]() {
        for (cycle = 0; cycle < 2; cycle++) {
            en->value = 1;
            en1->value = cycle;
            t[cycle] = s.vpi->time + 1;
            s.vpi->time++;
            s.clk->value = 1;
            s.vpi->fire(cbValueChange, s.clk);
            s.vpi->time++;
            s.negedge();
        }
    };
    s.start(preemptions);
    CHECK(done && s.ok(answer), "a request that arrives while the simulation runs is met");
    (void)c, (void)v;
    for (int k = 0; k < 2; k++) {
        std::map<uint64_t, int> normal;
        for (auto [id, data] : s.hits_at(t[k]))
            if (!data) normal[id]++;
        for (uint32_t id : {7, 3, 9, 4}) {
            bool enabled = id != 9 || k;
            int lo = enabled && before.count(id) && after.count(id), hi = enabled && (before.count(id) || after.count(id));
            if (k > cycle_when_done) lo = hi = enabled && after.count(id);
            CHECK(normal[id] >= lo && normal[id] <= hi, "breakpoints that are not edited are hit as ever, edited ones from the edit on");
        }
    }
    sx_reach("end");
    sx_done();
}
SX_HARNESS(async_requests) { async_request(sx_tier() ? 2 : 1); }

// All clients leave at any point: the simulation runs to its end.
SX_HARNESS(async_disconnect) {
    Conc s({"u0"});
    auto *en = s.sig(0, "en");
    en->value = 1;
    s.table->bp(7, 0, 10, 0, "en");
    s.table->bp(3, 1, 20);
    s.table->orders = {7, 3};
    bool stop = sx_choose("stop", 2);
    s.before = [&]() {
        if (!stop) CHECK(s.ok(s.option("detach_after_disconnect", true)), "option set");
        CHECK(s.ok(s.breakpoint("add", 10)), "added");
        CHECK(s.ok(s.breakpoint("add", 20)), "added");
    };
    s.async.push_back([&]() {
        s.disconnected = true;
        if (stop)
            s.command("stop");
        else if (DebugServer::last->on_disconnect)
            {
            SX_WATCH;
            DebugServer::last->on_disconnect();
            }
    });
    int cycles = 0;
    s.cycles = [&]() {
        for (; cycles < 3; cycles++) {
            s.vpi->time++;
            s.clk->value = 1;
            s.vpi->fire(cbValueChange, s.clk);
        }
    };
    s.start(sx_tier() ? 3 : 2);
    CHECK(cycles == 3, "the simulation runs to its end");
    sx_reach("end");
    sx_done();
}

// Every client is told of every stop, and all may answer it: the next stop is held all the same.
SX_HARNESS(two_answers) {
    Conc s({"u0"});
    s.table->bp(7, 0, 10);
    s.table->orders = {7};
    static const char *const what[] = {"continue", "step_over"};
    auto *again = what[sx_choose("again", 2)];
    int after = sx_choose("after", 3);   // sent once that many stops have been answered
    s.before = [&]() { CHECK(s.ok(s.breakpoint("add", 10)), "added"); };
    bool sending = false;
    size_t answered = 0;
    s.async.push_back([&]() {
        sxs::block([&]() { return s.over || s.told >= static_cast<size_t>(after); });
        if (s.over) return;
        sending = true;
        CHECK(s.ok(s.command(again)), "a run command is acknowledged");
        answered = s.reported();
        sending = false;
    });
    s.wait_told = after;
    s.cycles = [&]() {
        for (int i = 0; i < 3; i++) {
            s.vpi->time++;
            s.clk->value = 1;
            s.vpi->fire(cbValueChange, s.clk);
            CHECK(sending || std::max(answered, s.told) == s.reported(), "the simulation is held at every stop until it is answered");
        }
    };
    s.start(sx_tier() ? 2 : 1);
    sx_reach("end");
    sx_done();
}

// More breakpoints at one place than one thread evaluates: each is still reported exactly if it holds, and the
// evaluation threads share nothing they change.
SX_HARNESS(many_breakpoints) {
    const int n = 34 + sx_choose("n", 3);
    std::vector<std::string> names;
    for (int i = 1; i < n; i++) names.push_back("u" + std::to_string(i));
    Conc s(names);
    std::vector<MockVPI::Obj *> en;
    for (int i = 0; i < n; i++) {
        en.push_back(s.sig(static_cast<uint32_t>(i), "en", 1));
        s.table->bp(static_cast<uint32_t>(i + 1), static_cast<uint32_t>(i), 10, 0, "en");
        s.table->orders.push_back(static_cast<uint32_t>(i + 1));
    }
    const int off[] = {0, n / 2 - 1, n / 2, n - 1};
    en[off[sx_choose("off", 4)]]->value = 0;
    auto sym = sx_in_1("en");
    en[5]->value = sym;
    s.before = [&]() { CHECK(s.ok(s.breakpoint("add", 10)), "added"); };
    uint64_t t = 0;
    s.cycles = [&]() {
        t = s.vpi->time + 1;
        s.vpi->time++;
        s.clk->value = 1;
        s.vpi->fire(cbValueChange, s.clk);
    };
    s.start(sx_tier() ? 1 : 0);
    std::map<uint64_t, int> count;
    for (auto [id, data] : s.hits_at(t)) count[id]++;
    for (int i = 0; i < n; i++) CHECK(count[i + 1] == (en[i]->value ? 1 : 0), "every breakpoint that holds is reported once");
    sx_reach("end");
    sx_done();
}

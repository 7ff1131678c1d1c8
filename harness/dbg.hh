// A whole debugger around the real code: the simulator, the websocket server and the lock the
// simulation waits on are stand-ins; everything else (request parsing, scheduler, expressions,
// simulator client, monitor, responses) is the code under test.
#pragma once
#include "debug.hh"
#include "mock_vpi.hh"
#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"

using hgdb::BreakPoint;
using hgdb::DebugServer;

struct MemTable : public hgdb::SymbolTableProvider {
    std::vector<BreakPoint> bps;
    std::map<uint32_t, std::string> instances;
    std::vector<uint32_t> orders;
    struct Var {
        std::string name, value;
        bool rtl = true;
        uint32_t type = 0, depth = 0;
    };
    std::map<uint32_t, std::vector<Var>> ctx, gen;
    std::map<std::string, std::vector<std::string>> annotations;
    std::map<std::string, std::vector<std::tuple<uint32_t, std::string, std::string>>> assigned;
    std::vector<std::string> arrays;

    BreakPoint copy(const BreakPoint &b) {
        return BreakPoint{b.id, std::make_unique<uint32_t>(*b.instance_id), resolve_filename_to_client(b.filename), b.line_num, b.column_num, b.condition, b.trigger};
    }
    BreakPoint &bp(uint32_t id, uint32_t inst, uint32_t line, uint32_t col = 0, const std::string &cond = "", const std::string &trig = "",
                   const std::string &file = "f.cc") {
        bps.push_back(BreakPoint{id, std::make_unique<uint32_t>(inst), file, line, col, cond, trig});
        return bps.back();
    }
    template <typename F>
    std::vector<BreakPoint> select(F f) {
        std::vector<BreakPoint> r;
        for (auto &b : bps)
            if (f(b)) r.emplace_back(copy(b));
        return r;
    }
    std::vector<BreakPoint> get_breakpoints(const std::string &f, uint32_t line) override { return get_breakpoints(f, line, 0); }
    std::vector<BreakPoint> get_breakpoints(const std::string &fn, uint32_t line, uint32_t col) override {
        auto f = resolve_filename_to_db(fn);
        return select([&](auto &b) { return b.filename == f && (line == 0 || b.line_num == line) && (col == 0 || b.column_num == col); });
    }
    std::vector<BreakPoint> get_breakpoints(const std::string &fn) override { return get_breakpoints(fn, 0, 0); }
    std::optional<BreakPoint> get_breakpoint(uint32_t id) override {
        for (auto &b : bps)
            if (b.id == id) return copy(b);
        return std::nullopt;
    }
    std::optional<std::string> get_instance_name(uint32_t id) override {
        auto it = instances.find(id);
        if (it == instances.end()) return std::nullopt;
        return it->second;
    }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        for (auto &[i, s] : instances)
            if (s == n) return i;
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(uint64_t bp_id) override {
        for (auto &b : bps)
            if (b.id == bp_id) return *b.instance_id;
        return std::nullopt;
    }
    std::vector<std::string> get_filenames() override {
        std::set<std::string> s;
        for (auto &b : bps) s.insert(b.filename);
        return {s.begin(), s.end()};
    }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        SX_QUIET;
        std::vector<ContextVariableInfo> r;
        uint32_t n = 0;
        for (auto &v : ctx[id]) {
            hgdb::ContextVariable c{.name = v.name, .breakpoint_id = std::make_unique<uint32_t>(id), .variable_id = std::make_unique<uint32_t>(n), .type = v.type, .depth = v.depth};
            hgdb::Variable x{.id = n++, .value = v.value, .is_rtl = v.rtl};
            r.emplace_back(std::move(c), std::move(x));
        }
        return r;
    }
    std::vector<ContextVariableInfo> get_context_delayed_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        for (auto &i : get_context_variables(id))
            if (i.first.type == static_cast<uint32_t>(VariableType::delay)) r.emplace_back(std::move(i));
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        SX_QUIET;
        std::vector<GeneratorVariableInfo> r;
        uint32_t n = 0;
        for (auto &v : gen[id]) {
            hgdb::GeneratorVariable g{.name = v.name, .instance_id = std::make_unique<uint32_t>(id), .variable_id = std::make_unique<uint32_t>(n), .annotation = ""};
            hgdb::Variable x{.id = n++, .value = v.value, .is_rtl = v.rtl};
            r.emplace_back(std::move(g), std::move(x));
        }
        return r;
    }
    std::vector<std::string> get_instance_names() override {
        std::vector<std::string> r;
        for (auto &[i, s] : instances) r.push_back(s);
        return r;
    }
    std::vector<std::string> get_annotation_values(const std::string &n) override {
        SX_QUIET;
        return annotations[n];
    }
    std::vector<std::string> get_all_array_names() override { return arrays; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string &v, uint32_t) override {
        SX_QUIET;
        return assigned[v];
    }
    std::vector<uint32_t> execution_bp_orders() override { return orders; }
    bool bad() const override { return false; }
};

// one reported stop
struct Stop {
    uint64_t time = 0;
    std::string file;
    uint64_t line = 0, col = 0;
    struct Inst {
        uint64_t bp, inst, ns;
        std::string name, type;
        std::vector<std::pair<std::string, std::string>> local, gen;
    };
    std::vector<Inst> insts;
};

struct Session {
    std::shared_ptr<MockVPI> vpi = std::make_shared<MockVPI>();
    std::unique_ptr<MemTable> table = std::make_unique<MemTable>();
    MemTable *db = nullptr;
    MockVPI::Obj *tb, *dut, *clk;
    std::unique_ptr<hgdb::Debugger> dbg;
    std::vector<Stop> stops;
    std::vector<std::string> commands;   // one per stop; "continue" afterwards
    size_t next = 0, seen = 0;
    uint64_t tokens = 0;
    int max_stops = 24;
    std::function<void(const Stop &)> at_stop;   // inspects the state while the simulation is paused
    bool paused_at_start = false;
    std::string connection = "{\"db_filename\":\"x\"}";

    // tb.dut : mod, with the children the design asks for
    explicit Session(std::vector<std::string> children = {}, int copies = 1) {
        tb = vpi->module("tb", "tb");
        for (int i = 0; i < copies; i++) {
            auto base = i == 0 ? std::string("tb.dut") : "tb.dut" + std::to_string(i);
            auto *d = vpi->module(base, "mod", tb);
            for (auto &c : children) vpi->module(base + "." + c, "child_" + c, d);
            auto *k = vpi->signal(base + ".clk", d, 1);
            if (i == 0) dut = d, clk = k;
        }
        vpi->args = {"sim", "+DEBUG_NO_DB"};
        table->instances[0] = "mod";
        for (size_t i = 0; i < children.size(); i++) table->instances[static_cast<uint32_t>(i + 1)] = "mod." + children[i];
        table->annotations["clock"] = {"mod.clk"};
    }
    // a signal of instance i (0 is the top)
    MockVPI::Obj *sig(uint32_t inst, const std::string &name, int64_t value = 0, int size = 32, int copy = 0) {
        auto full = std::string(copy == 0 ? "tb.dut" : "tb.dut" + std::to_string(copy)) + table_()->instances[inst].substr(3);
        auto *o = vpi->signal(full + "." + name, vpi->byName(full), size);
        o->value = value;
        return o;
    }
    MemTable *table_() { return db ? db : table.get(); }
    static void send(const std::string &m, uint64_t conn = 1) {
        SX_WATCH;
        DebugServer::last->on_message(m, conn);
    }
    // sends a request and gives back the answer to it
    std::string ask(const std::string &type, const std::string &payload, uint64_t conn = 1) {
        auto before = DebugServer::last->sent.size();
        send("{\"request\":true,\"type\":\"" + type + "\",\"token\":\"t" + std::to_string(++tokens) + "\",\"payload\":" + payload + "}", conn);
        auto &s = DebugServer::last->sent;
        for (size_t i = s.size(); i > before; i--)
            if (!s[i - 1].broadcast) return s[i - 1].payload;
        return "";
    }
    static bool ok(const std::string &resp) {
        return resp.find("\"status\":\"success\"") != std::string::npos || resp.find("\"status\": \"success\"") != std::string::npos;
    }
    std::string command(const std::string &c) { return ask("command", "{\"command\":\"" + c + "\"}"); }
    std::string breakpoint(const std::string &action, uint32_t line, const std::string &cond = "", uint32_t col = 0, const std::string &file = "f.cc") {
        std::string p = "{\"filename\":\"" + file + "\",\"line_num\":" + std::to_string(line) + ",\"action\":\"" + action + "\"";
        if (col) p += ",\"column_num\":" + std::to_string(col);
        if (!cond.empty()) p += ",\"condition\":\"" + cond + "\"";
        return ask("breakpoint", p + "}");
    }
    std::string breakpoint_id(const std::string &action, uint32_t id, const std::string &cond = "") {
        std::string p = "{\"id\":" + std::to_string(id) + ",\"action\":\"" + action + "\"";
        if (!cond.empty()) p += ",\"condition\":\"" + cond + "\"";
        return ask("breakpoint-id", p + "}");
    }
    std::string option(const std::string &name, bool v) { return ask("option-change", "{\"" + name + "\":" + (v ? "true" : "false") + "}"); }

    static void pairs(const rapidjson::Value &v, std::vector<std::pair<std::string, std::string>> &out) {
        for (auto const &m : v.GetObject()) out.emplace_back(m.name.GetString(), m.value.GetString());
    }
    // collects the stops sent since the last look
    void collect() {
        auto &sent = DebugServer::last->sent;
        for (; seen < sent.size(); seen++) {
            if (!sent[seen].broadcast) continue;
            rapidjson::Document d;
            d.Parse(sent[seen].payload.c_str());
            CHECK(!d.HasParseError() && d.IsObject(), "what the debugger sends is a JSON object");
            if (std::string(d["type"].GetString()) != "breakpoint") continue;
            sx_note(sent[seen].payload.c_str());
            auto &p = d["payload"];
            Stop s;
            s.time = p["time"].GetUint64();
            s.file = p["filename"].GetString();
            s.line = p["line_num"].GetUint64();
            s.col = p["column_num"].GetUint64();
            for (auto const &i : p["instances"].GetArray()) {
                Stop::Inst x;
                x.bp = i["breakpoint_id"].GetUint64();
                x.inst = i["instance_id"].GetUint64();
                x.ns = i["namespace_id"].GetUint64();
                x.name = i["instance_name"].GetString();
                x.type = i["bp_type"].GetString();
                pairs(i["local"], x.local);
                pairs(i["generator"], x.gen);
                s.insts.push_back(std::move(x));
            }
            stops.push_back(std::move(s));
        }
    }
#ifndef SX_CONC
    void on_wait() {
        if (!dbg || paused_at_start) {
            paused_at_start = false;
            DebugServer::last->running = true;
            start();
            return;
        }
        auto n = stops.size();
        collect();
        CHECK(stops.size() == n + 1, "the simulation pauses exactly once per reported stop");
        CHECK(static_cast<int>(stops.size()) <= max_stops, "the number of stops in the session is bounded");
        if (at_stop) at_stop(stops.back());
        auto c = next < commands.size() ? commands[next++] : std::string("continue");
        auto r = command(c);
        CHECK(ok(r), "a run command is acknowledged");
    }
    std::function<void()> setup;   // requests made before the simulation starts
    void start() {
        CHECK(ok(ask("connection", connection)), "connection accepted");
        if (setup) setup();
        CHECK(ok(command("continue")), "continue accepted");
    }
    // brings up the debugger; returns when the simulation may run
    void run(std::function<void()> requests = {}) {
        setup = std::move(requests);
        hgdb::RuntimeLock::on_wait = [this]() { on_wait(); };
        dbg = std::make_unique<hgdb::Debugger>(vpi);
        db = table.get();
        dbg->initialize_db(std::move(table));
        paused_at_start = true;
        dbg->run();
        collect();
    }
#endif
    // one clock edge
    uint64_t edge_time = 0;
    int posedge() {
        edge_time = vpi->time;
        clk->value = 1;
        int n = vpi->fire(cbValueChange, clk);
        collect();
        return n;
    }
    int negedge() {
        clk->value = 0;
        return vpi->fire(cbValueChange, clk);
    }
    int cycle() {
        vpi->time++;
        int n = posedge();
        vpi->time++;
        negedge();
        return n;
    }
};

"""Targets (what is linked together) and properties (which harnesses decide them)."""

COMMON_ASSUMPTIONS = [
    "sequential C++ semantics of clang 18 at -O1 -fwrapv for x86-64 (the IR that is executed symbolically)",
    "memory allocation never fails",
    "libc/libstdc++ functions outside the encoded program behave as documented; those that can see symbolic data are replaced by the models in engine/sxmodels.cc",
    "std::hash of strings is an arbitrary function of the bytes (modelled by the length)",
    "log output has no effect",
]


def H(name, bounds, reach=("end",), **kw):
    return dict(name=name, bounds=bounds, reach=list(reach), **kw)


DBG_SOURCES = ["src/%s.cc" % n for n in "debug scheduler namespace monitor rtl proto symbol db eval util log perf".split()]
DBG_STUBS = {
    "src/server.hh": "server.hh",
    "src/thread.hh": "thread.hh",
    "include/sxthread.hh": "sxthread.hh",
    "include/asio.hpp": "asio.hpp",
    "include/websocketpp/client.hpp": "websocketpp/client.hpp",
    "include/websocketpp/config/asio_no_tls_client.hpp": "websocketpp/config/asio_no_tls_client.hpp",
}

TARGETS = {
    "rtl": {"sources": ["src/rtl.cc", "src/util.cc", "src/log.cc"], "harness": ["h_rtl.cc", "vpi_stubs.cc"]},
    "eval": {"sources": ["src/eval.cc", "src/log.cc"], "harness": ["h_eval.cc"]},
    "db": {"sources": ["src/%s.cc" % n for n in "db symbol util log eval proto".split()], "harness": ["h_db.cc"], "stub": DBG_STUBS},
    "lock": {"race": True, "sources": ["src/thread.cc"], "harness": ["h_sync.cc"], "stub": {"include/sxsync.hh": "sxsync.hh"}, "flags": ["-include", "sxsync.hh"]},
    "conc": {"race": True, "sources": DBG_SOURCES + ["src/thread.cc"], "harness": ["h_conc.cc", "vpi_stubs.cc"],
             "stub": {**{k: v for k, v in DBG_STUBS.items() if k != "src/thread.hh"}, "include/sxsync.hh": "sxsync.hh", "include/sxthread.hh": "sxthread_coop.hh"},
             "flags": ["-include", "sxsync.hh", "-DSX_CONC"]},
    "srv": {"race": True, "sources": ["src/server.cc"], "harness": ["h_srv.cc"],
            "stub": {"include/sxsync.hh": "sxsync.hh", "include/websocketpp/server.hpp": "websocketpp/server.hpp",
                     "include/websocketpp/config/asio_no_tls.hpp": "websocketpp/config/asio_no_tls.hpp"}, "flags": ["-include", "sxsync.hh"]},
    "vcd": {"sources": ["tools/vcd/vcd.cc"], "harness": ["h_vcd.cc"], "stub": {"include/sxstream.hh": "sxstream.hh"}, "flags": ["-include", "sxstream.hh"]},
    "replay": {"sources": ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc", "src/rtl.cc", "src/util.cc", "src/log.cc"], "harness": ["h_replay.cc", "vpi_stubs.cc"],
               "stub": {"tools/hgdb-replay/vcd_db.hh": "vcd_db.hh", "include/sxregex.hh": "sxregex.hh"}, "flags": ["-include", "sxregex.hh"]},
    "dbg": {"sources": DBG_SOURCES, "harness": ["h_dbg.cc", "vpi_stubs.cc"], "stub": {**DBG_STUBS, "include/sxenv.hh": "sxenv.hh"},
            "pre": ["-include", "sxenv.hh"]},   # the harness sets the environment
}

DBG_CYCLE = [
    "hgdb::Debugger::eval/start_breakpoint_evaluation/eval_breakpoint/send_breakpoint_hit",
    "hgdb::Scheduler::next_breakpoints/next_normal_breakpoints/scan_breakpoints/reorder_breakpoints",
    "hgdb::RTLSimulatorClient::get_value", "hgdb::DebugExpression::eval", "hgdb::BreakPointResponse::str",
]
DBG_PROTO = [
    "hgdb::Debugger::on_message and every handle_* function", "hgdb::Request::parse_request and every *Request::parse_payload",
    "the responses' str functions", "rapidjson's parser and writer",
]

PROPS = {
    "P01": {
        "targets": {"eval": [
            H("eval_binary", "16 binary operators, all 2^128 operand pairs"),
            H("eval_unary", "8 unary prefixes, all 2^64 operands"),
            H("eval_nested", "16x16 operators in two bracketed shapes, all 64-bit operands (8-bit signed where *, / or % takes part)"),
            H("eval_repeat", "16 operators, three successive evaluations, all 64-bit operands (8-bit signed for *, /, %)"),
        ]},
        "functions": ["hgdb::expr::Expr::eval", "hgdb::DebugExpression::eval", "hgdb::DebugExpression::set_value", "hgdb::expr::parse"],
    },
    "P02": {
        "targets": {"eval": [
            H("parse_precedence", "a op b op c, 16x16 operators, unary prefix in any position, all 64-bit operands (8-bit signed where *, / or % takes part)"),
            H("parse_precedence4", "a op b op c op d, 16^3 operators, 8-bit operands", thorough_only=True),
            H("parse_brackets", "6 bracket shapes, 6^3 operators, 8-bit signed operands"),
            H("parse_any_bytes", "every byte string of length <= 2 (thorough: 3)", reach=("accepted", "rejected")),
            H("parse_alphabet", "every string of length 3..4 (5) over {a 1 + & | ! ( < space}", reach=("accepted", "rejected")),
            H("parse_alphabet2", "every string of length 3..4 (5) over {a 0 ' h = - ) . [}", reach=("accepted", "rejected")),
            H("parse_variable", "every string of length 1..5 (6) over {x _ 9 . [ : ]}", reach=("accepted", "rejected")),
            H("parse_spaces", "any two of the 9 gaps of (a+!b)*c filled with any white-space bytes, all 64-bit operands"),
        ]},
        "functions": ["hgdb::expr::parse and the PEG grammar's match/action functions", "hgdb::DebugExpression::DebugExpression"],
    },
    "P03": {
        "targets": {"eval": [
            H("literal_decimal", "every decimal literal of 1..18 digits"),
            H("literal_hex", "hex literals of 1..16 digits, 7 patterns of digit classes (0-9, a-f, A-F), any digits"),
            H("symbols", "expressions over 8 overlapping names, any static subset, all 64-bit values"),
        ]},
        "functions": ["hgdb::DebugExpression::add_symbol/set_static_values/get_required_symbols/set_resolved_symbol_handle/eval"],
    },
    "P04": {
        "targets": {"rtl": [
            H("slice_int", "slices with bounds 0..99 in either order, all 2^32 signal values, two reads"),
            H("slice_str", "signals of 1..7 (10) bits, every pattern of 0/1 (0/1/x/z up to 5 bits), every slice up to 1 bit beyond"),
            H("whole_value", "signal widths 1..32 (65..200 on verilator), all values, verilator and others"),
            H("wide_value", "signals of 33, 40, 63, 64, 65 and 100 bits, every pattern of 0/1/x/z, whole and 36 slices (all slices)"),
            H("set_value", "all 32-bit values"),
            H("set_wide", "signals of 1, 5, 32, 33, 40 and 64 bits, every old and new value, whole and 25 slices"),
            H("sim_time", "all 64-bit times"),
        ]},
        "functions": ["hgdb::RTLSimulatorClient::get_value/get_str_value/set_value/get_signal_width/get_simulation_time/rewind", "get_slice", "extract_slice"],
    },
    "P05": {
        "targets": {"rtl": [
            H("full_name", "names of 1..5 (6) characters over {m t . $}, with and without $root., two tops"),
            H("array_access", "two-dimensional arrays up to 3x2, indices of 1, 2 and 11 digits", reach=("inside", "outside")),
            H("any_name", "suffixes of 0..4 (5) characters over { [ ] : . 0 1 a - } on a signal, an array, a missing name and an instance", reach=("resolved", "unresolved")),
            H("parent_path", "paths of 2..5 tokens over {a b $x $parent}"),
            H("mapping_by_def", "every hierarchy of 2..4 modules, 3 definitions"),
            H("mapping_by_name", "every hierarchy of 2..4 modules with names a..c, 4 instance paths"),
            H("find_clock", "6 clock names in the design and above, 1 and 2 bits"),
            H("callbacks", "5 add/remove operations on 2 names, 2 monitored signals"),
        ]},
        "functions": ["hgdb::RTLSimulatorClient::get_handle/get_full_name/is_valid_signal/resolve_rtl_variable/compute_instance_mapping/get_clocks_from_design/add_call_back/remove_call_back/monitor_signals", "hgdb::util::get_tokens"],
    },
    "P06": {
        "targets": {"dbg": [
            H("cycle_layouts", "every layout of 3 breakpoints over 3 instances and 2 lines, with and without enable conditions, two orders in the symbol table, every selection of inserted lines, single thread mode on and off, any 32-bit enable values"),
            H("cycle_batches", "3 breakpoints that share file, line, column, instance, enable and user condition or not, in every way; set by id; single thread mode on and off; any enable and condition values"),
            H("cycle_edits", "5 breakpoints on 4 lines in 3 instances, 8 initial selections, one line or its breakpoints added or removed at the first, second or third stop, two cycles with any enable values", reach=("edited", "end")),
        ]},
        "functions": DBG_CYCLE,
    },
    "P07": {
        "targets": {"dbg": [
            H("stepping_forward_only", "every sequence of 3 (4) run commands on a simulator that cannot go back; 4 breakpoints in 2 instances, 15 selections of inserted ones, two cycles with any enable values", reach=("stops", "end")),
            H("stepping_rewind", "the same with a simulator that can go back", reach=("stops", "end")),
            H("stepping_cached", "the same with 2 commands and the signal cache on", reach=("stops", "end")),
        ]},
        "functions": DBG_CYCLE + ["hgdb::Scheduler::set_evaluation_mode/next_step_over_breakpoints/next_step_back_breakpoints/next_reverse_breakpoints/update_delayed_values", "hgdb::Debugger::handle_command", "hgdb::RTLSimulatorClient::reverse_last_posedge"],
    },
    "P08": {
        "targets": {"dbg": [
            H("set_requests", "every sequence of 3 (4) of 15 requests (add, update, remove by location, line, column or id, data breakpoints, requests that must fail) on 4 breakpoints, then a cycle with any condition values"),
        ]},
        "functions": ["hgdb::Debugger::handle_breakpoint/handle_breakpoint_id/handle_data_breakpoint/handle_debug_info", "hgdb::Scheduler::add_breakpoint/remove_breakpoint/add_data_breakpoint/remove_data_breakpoint/clear_data_breakpoints/get_current_breakpoints"] + DBG_CYCLE,
    },
    "P09": {
        "targets": {"dbg": [
            H("conditions", "5 enable conditions x 12 user conditions, set by location or by id, replaced between cycles or not, in 2 instances, any 32-bit signal values"),
            H("triggers", "1 or 2 triggers, with and without an enable condition, 3 cycles with any 32-bit values"),
        ]},
        "functions": DBG_CYCLE + ["hgdb::Scheduler::add_breakpoint", "hgdb::Debugger::eval_breakpoint/should_trigger", "hgdb::SymbolTableProvider::resolve_scoped_name_breakpoint", "hgdb::util::validate_expr"],
    },
    "P10": {
        "targets": {"dbg": [
            H("data_breakpoints", "a variable assigned in 3 places (one of them guarded, one to the register of another), 3 user conditions, 4 edits between two cycles, any values"),
            H("data_conditions", "a variable watched under any two of 4 conditions, given together or one after the other, removed or not; 3 cycles, any signal values"),
        ]},
        "functions": DBG_CYCLE + ["hgdb::Debugger::handle_data_breakpoint/eval_breakpoint", "hgdb::Scheduler::add_data_breakpoint/remove_data_breakpoint", "hgdb::Monitor::add_monitor_variable/var_changed/add_shared_value"],
    },
    "P11": {
        "targets": {"dbg": [
            H("monitor_values", "monitors of two signals added and removed, every kind, any 32-bit values", reach=("values", "end")),
            H("monitor_delayed", "delays of 1..3 samples, any 32-bit values"),
            H("monitor_session", "2 clients add and remove monitors of each kind at any point of two cycles with stops, any values"),
        ]},
        "functions": ["hgdb::Monitor::*", "hgdb::Debugger::handle_monitor/send_monitor_values", "hgdb::MonitorResponse::str"] + DBG_CYCLE,
    },
    "P12": {
        "targets": {"dbg": [
            H("requests_any_state", "every sequence of 2 (3) of 40 requests, with and without a token, from 2 clients, without a symbol table, before the run and while paused"),
        ]},
        "functions": DBG_PROTO,
    },
    "P13": {
        "targets": {"dbg": [
            H("malformed_requests", "14 requests with one member missing or replaced by one of 14 values of any JSON kind"),
            H("malformed_envelope", "18 documents that are no request; request/type/payload/token each replaced by one of 11 values or missing; with and without a symbol table"),
            H("any_message", "every string of up to 5 (6) characters over { } [ ] \" : , 0 - . e \\ u}"),
        ]},
        "functions": DBG_PROTO,
    },
    "P14": {
        "targets": {"db": [
            H("json_order", "5 (6) statements in 4 block shapes, with and without reordering, all lines and columns 1..9", reach=("end",)),
            H("json_locations", "statements in 3 files and nested blocks in 2 instances, all lines and columns 0..9 asked for"),
            H("json_unknown_ids", "every query with any 32-bit id or an unknown name"),
            H("json_assigned", "12 variable names (also elements and members), 2 instances, assignments in nested blocks and by reference"),
            H("json_malformed", "24 documents that lack something or refer to nothing"),
            H("json_truncated", "a document cut off at any place"),
            H("json_mutated", "2 (3) documents with any byte replaced by any byte", reach=("accepted", "refused")),
        ]},
        "functions": ["hgdb::JSONSymbolTableProvider::parse and every query", "hgdb::db::json::* (parsers, build_execution_order, visitors)", "rapidjson's parser and schema validator"],
    },
    "P15": {
        "targets": {"db": [
            H("json_scope", "declarations and assignments before, after, in and next to nested blocks; every stop"),
            H("json_shadowing", "up to 3 definitions of one name as signal, constant or delayed variable, in 6 kinds each"),
            H("json_indexed", "an array element written through an index, readable or not"),
        ]},
        "functions": ["hgdb::JSONSymbolTableProvider::get_context_variables/get_context_delayed_variables/get_generator_variable", "hgdb::SymbolTableProvider::resolve_scoped_name_breakpoint/resolve_scoped_name_instance/get_context_static_values"],
    },
    "P16": {
        "targets": {"db": [
            H("path_mapping", "11 mappings, every normal absolute name of up to 6 (7) characters over {/ a b .} or {/ x y z}, both directions"),
            H("json_mapping", "7 mappings, 4 files (also in nested blocks), 12 names asked for, all lines 0..9"),
        ], "dbg": [
            H("mapped_session", "5 mappings given with the connection or later, 3 files, breakpoints by location or id, any enable value"),
        ]},
        "functions": ["hgdb::SymbolTableProvider::resolve_filename_to_db/resolve_filename_to_client/set_src_mapping", "resolve, is_inside", "hgdb::JSONSymbolTableProvider::get_breakpoints/get_breakpoint", "hgdb::Debugger::handle_connection/handle_path_mapping/handle_breakpoint/handle_bp_location"],
    },
    "P17": {
        "targets": {"lock": [
            H("lock_one_server", "2 waits of the simulation, 2 (3) releases, spurious wake-ups or not, every schedule with at most 3 (4) preemptions", reach=("all", "waiting", "end")),
            H("lock_two_servers", "1 (2) waits, 2 threads that release once each, every schedule with at most 3 (4) preemptions", reach=("all", "end")),
            H("lock_handshake", "3 (4) stops, each answered once at any time after it was reported, every schedule with at most 3 (4) preemptions"),
        ], "conc": [
            H("async_requests", "14 requests, arriving at any point (between any two synchronisation operations) of two cycles of the simulation, answered before or after a pending stop; 1 (2) preemptions; data races of any two accesses"),
            H("async_disconnect", "the clients leave or stop the debugger at any point of three cycles; 2 (3) preemptions; data races of any two accesses"),
            H("two_answers", "a second answer after 0..2 of the stops of three cycles, at any point; 1 (2) preemptions"),
            H("many_breakpoints", "34..36 breakpoints at one place evaluated by two threads, any of 4 disabled, any enable value; data races of any two accesses"),
        ]},
        "functions": ["hgdb::RuntimeLock::wait/ready", "hgdb::Debugger::run/eval/eval_breakpoints/on_message and what they call"],
    },
    "P18": {
        "targets": {"vcd": [
            H("vcd_values", "every sequence of 2 (3) items in the value section: scalars, vectors, times, reals, comments, dump sections; 4 identifiers, two kinds of white space, with and without a last line break"),
            H("vcd_time", "times of 1..5 (8) digits, all values, and around 2^64"),
            H("vcd_header", "every sequence of 3 definitions: meta information, scopes, variables with any identifier character; two kinds of white space"),
            H("vcd_truncated", "a file that ends anywhere"),
            H("vcd_mutated", "a file with any byte replaced by any byte", reach=("accepted", "refused")),
            H("vcd_any_values", "every text of up to 5 (6) characters over {0 1 b r # space newline $ 9 !} as the values or as the whole file", reach=("accepted", "end")),
        ]},
        "functions": ["hgdb::vcd::VCDParser::parse and everything it calls", "next_token"],
    },
    "P19": {
        "targets": {"replay": [
            H("replay_forward", "every recording of one signal over 6 (7) time units and of two over 4 (5), time units of 1 or 10, a signal watched once or twice"),
            H("replay_rewind", "every recording of one signal over 4 (6) time units and of two over 3; the time turned back at any of 4 callbacks to the last edge before any time, of one or both signals", reach=("rewound", "end")),
            H("replay_callbacks", "2 signals over 3 (4) time units with every recording that starts with 0, callbacks added or removed before the run and at any of 3 callbacks"),
            H("replay_values", "4 widths up to 8 bits, every recorded value of up to 4 (5) characters 0 1 x z"),
            H("replay_wide_values", "6 widths 31..100 bits, recorded with 6 lengths and 4 bit patterns"),
            H("replay_arrays", "packed arrays of 1 and 2 dimensions with elements of 1..3 bits, by element and by slice, every recorded value of up to 3 (5) characters and of the full width up to 6 (8)"),
            H("replay_hierarchy", "every tree of up to 4 (5) instances with up to 2 signals each, looked up before or not"),
            H("replay_arguments", "up to 2 (3) arguments given and 3 added, short and long"),
        ]},
        "functions": ["hgdb::replay::EmulationEngine::*", "hgdb::replay::ReplayVPIProvider::*", "hgdb::RTLSimulatorClient::get_value/get_str_value/get_simulation_time/rewind/reverse_last_posedge/get_argv"],
    },
    "P23": {
        "targets": {"srv": [
            H("server_routing", "2 clients with a topic each, every sequence of 3 (4) events: connect, leave, ask, subscribe, unsubscribe, send to one, all or a topic"),
            H("server_topics", "4 clients, every set of subscribers, of those that left and of those that unsubscribed, one joining late or not, 2 topics"),
            H("server_threads", "2 messages of each kind while clients come, ask, unsubscribe and leave in every sequence of 2, or the server is stopped; every schedule with at most 2 (3) preemptions; data races of any two accesses"),
        ]},
        "functions": ["hgdb::DebugServer::*"],
    },
    "P24": {
        "targets": {"dbg": [
            H("reconnected", "a symbol table loaded again once or twice, before the run, between two cycles or at a stop; the same design or another one, in one or two copies; 4 selections of breakpoints before, 3 after, with and without a data breakpoint, any enable values"),
        ]},
        "functions": DBG_CYCLE + ["hgdb::Debugger::initialize_db/handle_connection", "hgdb::DebuggerNamespaceManager::compute_instance_mapping", "hgdb::Scheduler::Scheduler"],
    },
    "P22": {
        "targets": {"dbg": [
            H("stop_values", "scalars, arrays and interfaces of 9 widths with any of 5 bit patterns, constants, missing signals and variables of the instance, in either of 2 instances, two cycles, hexadecimal or not, with and without the signal cache"),
            H("stop_after_set", "a value set in the middle of each of two cycles, in either instance, by instance or by breakpoint, with and without the signal cache; conditions and values of the stops before and after it"),
            H("stop_delayed", "2 breakpoints with variables delayed by 1 or 2 cycles of one or two signals, in one or two copies of the design, added before or during the run, 4 cycles"),
        ]},
        "functions": DBG_CYCLE + ["hgdb::Debugger::get_value_str/update_delayed_values/process_delayed_breakpoint", "hgdb::Monitor::get_watched_values", "hgdb::RTLSimulatorClient::resolve_rtl_variable"],
    },
    "P20": {
        "targets": {"dbg": [
            H("plus_args", "12 families of port numbers that differ in the last digit, and 8 other texts, as plus arg or in the environment, among 6 sets of other arguments"),
            H("options", "every sequence of 2 (3) option changes with a value of any kind, and their effect on two cycles"),
            H("option_table", "util::Options with two options of each kind, every sequence of 2 changes, any 64-bit value", reach=("end",)),
            H("environment_breakpoints", "two of 18 texts as DEBUG_BREAKPOINT0/1, a third one with or without a gap, two cycles with any values"),
        ]},
        "functions": ["hgdb::Debugger::Debugger/run/get_port/get_value_plus_arg/get_test_plus_arg/get_logging/get_options/handle_option_change/setup_init_breakpoint_from_env/set_option", "hgdb::util::Options::*", "hgdb::RTLSimulatorClient::get_argv", "hgdb::OptionChangeRequest::parse_payload", "hgdb::DebuggerInformationResponse::str"] + DBG_CYCLE,
    },
    "P21": {
        "targets": {"dbg": [
            H("namespaces", "two copies of a design with two instances and 3 breakpoints, with and without a user condition, 4 edits, single thread mode on and off, any enable and condition values"),
            H("two_designs", "a symbol table with two designs in 1 or 2 copies each, on the same line or not, every selection of breakpoints by location or by id, any enable values; expressions in each copy"),
            H("namespace_requests", "evaluation, set-value, monitor and data-breakpoint requests in each instance of each of two copies, by breakpoint or by instance"),
        ]},
        "functions": DBG_CYCLE + ["hgdb::DebuggerNamespaceManager::compute_instance_mapping/operator[]", "hgdb::Debugger::handle_evaluation/handle_set_value/handle_monitor/handle_data_breakpoint"],
    },
}

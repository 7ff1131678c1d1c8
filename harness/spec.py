"""The properties (single source of properties.jsonl and MANIFEST.json; see gen.py)."""


def P(id, title, statement, over, text, why, files, mech, note=None, reason=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a, "note": note, "reason": reason}


NOTE = ("Bounded: the assertion holds on every path of the real code for every value of the symbolic inputs within the "
        "bounds stated per harness in the evidence file; counterexamples are replayed on a plain ASan build. Trusts clang's "
        "-O1 IR, the symbolic executor in engine/ (cross-checked by native replays), Z3 and the library models. ")

DNOTE = NOTE + ("The simulator, the websocket server and the blocking lock are stand-ins (harness/mock_vpi.hh, harness/stub); request "
                "parsing, scheduling, expression evaluation, value access and responses are the real code. Threads run to completion where they are started. ")

PROPERTIES = [
    P("P01", "Expressions evaluate with C semantics on 64-bit values and never trap",
      "Every accepted condition or watch expression evaluates to the value that C's operators give on 64-bit signed two's-complement "
      "operands, where logical and relational operators yield 0 or 1, arithmetic wraps around, and division or remainder by zero yields 0. "
      "Evaluation never traps or aborts the simulation, whatever the signal values are, and always uses the values set last.",
      ["inputs", "histories"], "for every operator and nesting, every operand value, and every sequence of re-evaluations",
      "Tests evaluate a dozen fixed expressions on small numbers; traps and wrap-around need particular 64-bit operands.",
      ["src/eval.cc", "src/eval.hh"], [("expression tree evaluation", "src/eval.cc"), ("symbol values", "src/eval.cc")], NOTE),
    P("P02", "Expressions parse with C precedence and are accepted iff well-formed",
      "Operators bind with C's precedence and associativity, brackets override them at any nesting, and white space between tokens never matters. "
      "A text that is not a complete well-formed expression is reported as incorrect, and every text that is one is accepted; parsing any byte string terminates without crashing.",
      ["inputs"], "for every combination of operators and brackets and every text up to a length bound",
      "Tests parse about ten expressions; precedence has to hold for every combination of operators and every malformed text has to be rejected.",
      ["src/eval.cc"], [("PEG grammar and its actions", "src/eval.cc")], NOTE),
    P("P03", "Expression literals and variables carry exactly their own values",
      "A decimal or hexadecimal literal has the value it spells (hexadecimal: any 64-bit pattern). "
      "Each variable of an expression, including hierarchical, indexed and sliced names, is listed exactly once, is required from the simulator exactly if it has no static value, and contributes its own value wherever it occurs.",
      ["inputs", "configurations"], "for every literal up to 18/16 digits, every set of names and every subset of statically known ones",
      "Tests use a handful of literals below 2^32 and one variable set.",
      ["src/eval.cc", "src/eval.hh"], [("literal actions", "src/eval.cc"), ("symbol bookkeeping", "src/eval.cc")], NOTE),
    P("P04", "Signal values are read, sliced, formatted and forced exactly",
      "Reading a signal yields its exact bits at that moment; a slice yields precisely the selected bits, in either order of the bounds and however wide the signal, as a number or formatted with one digit per unknown bit group. "
      "Forcing a signal writes precisely the requested value to that signal, and the reported simulation time is the simulator's 64-bit time.",
      ["inputs", "histories"], "for every signal value, width, slice range and time within the bounds",
      "Tests read a few small two-state signals; slices near the word boundary and x/z bits need particular widths and values.",
      ["src/rtl.cc"], [("value access and slices", "src/rtl.cc"), ("simulation time", "src/rtl.cc")], NOTE),
    P("P05", "Names in the symbol table resolve to the intended signal, or to nothing",
      "A name resolves to the design object it denotes, through instance mapping, parent references, brackets, dots and slices, and anything else resolves to nothing without crashing or touching an unrelated object. "
      "The hierarchy of the generated design is located wherever it is instantiated, by definition or by instance name, and callback registration by name never leaks, duplicates or loses a callback.",
      ["inputs", "configurations", "histories"], "for every name up to the length bound and every small design hierarchy",
      "Tests use three fixed hierarchies with well-formed names.",
      ["src/rtl.cc", "src/util.cc"], [("name resolution", "src/rtl.cc"), ("instance mapping", "src/rtl.cc"), ("callback table", "src/rtl.cc")], NOTE),
    P("P06", "In each cycle every due breakpoint is reported exactly once, in execution order",
      "At every clock edge, each inserted breakpoint whose enable condition, user condition and triggers hold for the values of that moment stops the simulation exactly once, and no other one does. "
      "Stops follow the execution order of the symbol table; breakpoints at the same source location are reported in one stop (or one by one in single thread mode) with the right location, instance and time. Breakpoints added or removed while the simulation is paused count for the rest of the cycle and for later ones.",
      ["inputs", "histories", "configurations"], "for every layout of breakpoints over instances and lines, every selection inserted, all signal values and every edit at any stop within the bounds",
      "Tests use one small design with fixed values and look at the first stops; batching, skipping and edits while paused depend on which neighbours are enabled.",
      ["src/scheduler.cc", "src/debug.cc"], [("batching in execution order", "src/scheduler.cc"), ("evaluation loop", "src/debug.cc")], DNOTE),
    P("P07", "Run commands go to exactly the next or previous breakpoint, across cycles",
      "From any stop, continue goes to the next inserted breakpoint that is due, step-over to the next enabled statement in execution order, step-back to the previous enabled one and reverse-continue to the previous inserted one that is due, going on in the previous cycle if the simulator can rewind and staying at the first one otherwise. "
      "No stop is skipped or repeated, the simulation never gets stuck, values are those of the cycle looked at, and the signal cache does not change any of it.",
      ["histories", "inputs", "configurations"], "for every sequence of run commands up to the bound, every selection of inserted breakpoints and all enable values in two cycles",
      "Tests issue two or three commands in a fixed design; the position has to be right after any history of commands.",
      ["src/scheduler.cc", "src/debug.cc", "src/rtl.cc"], [("step and reverse evaluation", "src/scheduler.cc"), ("commands", "src/debug.cc"), ("rewinding", "src/rtl.cc")], DNOTE),
    P("P08", "The set of breakpoints is exactly what the requests made it",
      "After any sequence of requests to add, update, remove or clear breakpoints and data breakpoints, by location, column or id, the debugger lists and hits exactly those added and not removed since, each with its latest condition. "
      "Normal and data breakpoints with the same id do not affect each other, and a request that cannot be met is answered with an error and changes nothing.",
      ["histories"], "for every sequence of requests up to the bound",
      "Tests add and remove one or two breakpoints; interference between requests needs particular sequences.",
      ["src/scheduler.cc", "src/debug.cc"], [("inserted breakpoints", "src/scheduler.cc"), ("request handlers", "src/debug.cc")], DNOTE),
    P("P09", "A breakpoint is hit iff enable, user condition and trigger hold in its scope",
      "A breakpoint is hit exactly when its enable condition and the user's condition both hold, however either is written, with names resolved in the breakpoint's scope, instance and time, and - if it has triggers - one of them has changed since the previous cycle. "
      "A condition that cannot be parsed or resolved is refused and the breakpoint is not inserted; a new condition replaces the previous one.",
      ["inputs", "configurations"], "for every combination of condition forms and all signal values",
      "Tests use one or two conditions with fixed values; combining texts, scoping and prefixes of names fail for particular forms only.",
      ["src/scheduler.cc", "src/debug.cc", "src/symbol.cc"], [("condition construction", "src/scheduler.cc"), ("trigger values", "src/debug.cc"), ("scoped names", "src/symbol.cc")], DNOTE),
    P("P10", "A data breakpoint reports every change of its variable and nothing else",
      "With a data breakpoint on a variable, the simulation stops at each executed assignment of it (whose conditions hold) that leaves a value different from the one seen last, at that assignment, as a data stop; "
      "assignments that are not executed, do not change the value, or were removed do not stop. Assignments sharing a register or a previous breakpoint on the same variable make no difference.",
      ["inputs", "histories"], "for every pair of cycles with any values, any user condition form and edits in between",
      "The tests cover one variable with a fixed series of values; a missed or spurious change depends on values and on which assignments are executed.",
      ["src/scheduler.cc", "src/monitor.cc", "src/debug.cc"], [("data breakpoints", "src/scheduler.cc"), ("value tracking", "src/monitor.cc")], DNOTE),
    P("P11", "Monitored variables are reported exactly when asked, with their values",
      "A monitor of kind breakpoint reports its variable with every stop, kind clock_edge with every cycle, and kind changed with every cycle in which the value differs from the one last reported; each report carries the value the simulator has at that moment. "
      "Nothing is reported before a monitor is added or after it is removed, and monitors of other variables are not affected.",
      ["inputs", "histories"], "for every sequence of added and removed monitors, every value and every cycle within the bounds",
      "Tests add one monitor and look at one value; changes that are missed or reported twice need particular histories.",
      ["src/monitor.cc", "src/debug.cc"], [("watched variables", "src/monitor.cc"), ("monitor requests and reports", "src/debug.cc")], DNOTE),
    P("P12", "Every request is answered once, to its sender, with the right outcome",
      "In any state of the session (no symbol table, before the run, paused) and after any previous requests, each message gets exactly one answer, sent to the client that asked, that carries its token and type, says success exactly if the request can be met, and gives a reason otherwise.",
      ["histories", "inputs"], "for every sequence of requests up to the bound in each state of the session",
      "Tests check the answers of single requests in one state.",
      ["src/debug.cc", "src/proto.cc"], [("request dispatch and handlers", "src/debug.cc"), ("responses", "src/proto.cc")], DNOTE),
    P("P13", "Malformed messages are refused and never disturb the debugger",
      "Whatever bytes arrive - not JSON, the wrong kind of document, members missing, of the wrong kind or out of range - the debugger answers with an error instead of crashing, hanging or taking the request for a different one, and goes on answering later requests.",
      ["inputs"], "for every short text, every kind of document and every member of every request replaced by every kind of JSON value",
      "Tests send well-formed requests and a few malformed ones.",
      ["src/proto.cc", "src/debug.cc"], [("request parsing", "src/proto.cc"), ("dispatch", "src/debug.cc")], DNOTE),
    P("P14", "The JSON symbol table answers every query as the document says, or is refused",
      "Each statement of the document is one breakpoint per instance, listed under its file, line and column with the conditions of all its blocks, in execution order (by line within a block unless reordering is off); assignments of a variable are found exactly, with conditions, per instance. "
      "A document that is malformed, incomplete or refers to things that do not exist is refused or used without crashing, and unknown ids and names have empty answers.",
      ["inputs", "configurations"], "for every small document, location asked for and id, every truncation and every one-byte change",
      "Tests load a handful of well-formed tables and make a few queries.",
      ["src/db.cc", "src/symbol.cc"], [("JSON parser and tree", "src/db.cc"), ("query visitors", "src/db.cc")], NOTE),
    P("P15", "At every stop exactly the variables in scope are visible, at their newest value",
      "The local variables of a breakpoint are those declared or assigned before it in its own and the enclosing blocks of its instance, each with its newest definition, together with the module's variables; names resolve to that definition and constants to their latest value. "
      "Nothing of later statements, sibling blocks or other instances is visible; variables delayed by n cycles and indexed elements are kept apart.",
      ["inputs", "configurations"], "for every arrangement of definitions within the bounds and every stop in it",
      "Tests look at the variables of a few breakpoints; shadowing and block order matter in particular arrangements only.",
      ["src/db.cc", "src/symbol.cc"], [("context variables", "src/db.cc"), ("name resolution in a scope", "src/symbol.cc")], NOTE),
    P("P16", "Source path mapping translates exactly the files inside mapped directories",
      "With a mapping from the client's directories to the symbol table's, a file inside a mapped directory (component-wise; the innermost one decides) is found under its client name and reported under it in every location, list and stop, whatever exists on the local disk; all other names are unchanged. "
      "A new mapping replaces the old one, whether given with the connection or by its own request.",
      ["inputs", "configurations"], "for every normal file name up to the length bound, a family of overlapping and swapped mappings, and both directions",
      "Tests map one directory; prefixes that are not directories, nested mappings and the reverse direction need particular names.",
      ["src/symbol.cc", "src/db.cc", "src/debug.cc"], [("mapping of names", "src/symbol.cc"), ("queries by file", "src/db.cc"), ("requests that set the mapping", "src/debug.cc")], NOTE),
    P("P17", "Client requests never race with the simulation, and no continue is lost",
      "The simulation pauses at a stop until it is released and goes on once it is; no release is lost, a command given before the stop is reported does not release it, and it never goes on by itself, in whatever order the two threads run. "
      "Requests that arrive while a cycle is evaluated are met without a data race or a use of freed memory, breakpoints they do not edit are hit as ever, and when all clients leave or stop the debugger the simulation runs to its end.",
      ["schedules", "histories"], "for every schedule within the preemption bound, with the request arriving between any two synchronisation operations",
      "A test runs one schedule; lost wake-ups and races need a particular one.",
      ["src/thread.cc", "src/debug.cc", "src/scheduler.cc"], [("the lock the simulation waits on", "src/thread.cc"), ("evaluation and requests", "src/debug.cc"), ("breakpoint lists", "src/scheduler.cc")],
      DNOTE.replace("and the blocking lock are stand-ins", "are stand-ins").replace("Threads run to completion where they are started. ", "Threads are cooperative and sequentially consistent; the schedule is chosen at every operation on a mutex, condition variable or atomic, and data races are found with vector clocks. ")),
    P("P18", "A waveform file is read completely, in order and without invention",
      "Each scope, variable, meta information, time and value change of a VCD file is reported exactly once, in the file's order, with its own name, type, width, identifier, value and time, however it is laid out and whether or not the last line is terminated. "
      "Text inside comments and values of kinds that are not supported are never taken for value changes; a file that is cut off or malformed is read as far as it goes or refused with a reason, and reading always comes to an end.",
      ["inputs"], "for every sequence of items, every time and every truncation and one-byte change within the bounds",
      "No test of the build reads a waveform.",
      ["tools/vcd/vcd.cc"], [("tokens and definitions", "tools/vcd/vcd.cc"), ("value section", "tools/vcd/vcd.cc")], NOTE + "The streams are in-memory stand-ins (harness/stub/sxstream.hh). "),
    P("P19", "A replayed waveform behaves like the simulation it was recorded from",
      "Replaying a recording calls each callback on a signal exactly once for each time the signal changes, in the order of time and to the end of the recording, with the time of the change, the new value of that signal and, for everything else, the value from right before it. "
      "Turning back the time goes to the last rising edge before the given time and the replay goes on from there, telling every later change again; without an earlier edge nothing changes. Signals, their elements and slices have the recorded value, whatever their width, with unknown bits shown as such; the hierarchy and the arguments are those recorded and given.",
      ["histories", "inputs"], "for every recording of up to two signals, every point and target of turning back, every registration and removal of callbacks and every recorded value within the bounds",
      "The replay tools are not part of the tests that run; upstream's replay a few recorded waveforms with one clock.",
      ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc", "src/rtl.cc"], [("emulation loop and time reversal", "tools/hgdb-replay/engine.cc"), ("recorded values and hierarchy", "tools/hgdb-replay/vpi.cc")], NOTE + "The recording is the harness's implementation of the tool's WaveformProvider; the tool's SQLite-backed one can't be built here. "),
    P("P20", "Settings take effect exactly as given, whichever way they are given",
      "The port, logging and start-up blocking follow the simulator's plus arguments or the environment, plus arguments first, and text that is not a valid setting means the default. "
      "Each option has the value it was given last, is listed with that value and changes just what it names; values of another kind are refused. "
      "The breakpoints named in DEBUG_BREAKPOINT0, 1, .. are inserted with exactly their location and condition, malformed ones are skipped.",
      ["configurations", "inputs"], "for every port number and family of arguments, every sequence of option changes and every pair of environment breakpoints within the bounds",
      "Tests check a single plus argument and two options; defaults, overflow and left-over values need particular settings.",
      ["src/debug.cc", "src/util.cc", "src/rtl.cc"], [("plus arguments and environment", "src/debug.cc"), ("option table", "src/util.cc"), ("simulator arguments", "src/rtl.cc")], DNOTE),
    P("P21", "Each copy of a design instantiated several times is debugged independently",
      "When the design occurs several times in the simulation, breakpoints are evaluated and reported once for each copy, with that copy's signals and names; requests that name a namespace read, set, watch or monitor that copy only.",
      ["configurations", "inputs"], "for two copies of a design, all enable and condition values and every request that takes a namespace",
      "Tests have one test with two copies and fixed values.",
      ["src/namespace.cc", "src/debug.cc", "src/scheduler.cc"], [("namespaces", "src/namespace.cc"), ("per-namespace breakpoints", "src/scheduler.cc")], DNOTE),
    P("P22", "A stop lists each variable in scope with the value the simulator has",
      "In each stop, the local and generator variables of each reported breakpoint are listed once, under their own name, with the value the simulator has at that moment in that instance - in decimal, or hexadecimal if so chosen, negative and wide values included; constants with their text, "
      "arrays and interfaces by element or member, and signals that do not exist as an error. A delayed variable has the value of that many clock cycles ago in that copy of the design.",
      ["inputs", "configurations", "histories"], "for every kind, width and bit pattern of variable, delay and copy of the design within the bounds",
      "Tests look at the variables of a few stops with small positive values.",
      ["src/debug.cc", "src/rtl.cc", "src/monitor.cc"], [("values in a stop", "src/debug.cc"), ("members of arrays and interfaces", "src/rtl.cc"), ("delayed values", "src/monitor.cc")], DNOTE),
    P("P23", "Messages reach exactly the clients they are meant for, who may come and go",
      "Each connection has an identity of its own for as long as the server runs. A message of a client is handed over once, unchanged and with that client's identity; an answer goes to the client that asked, a broadcast once to every client that is connected, and a message on a topic to the connected subscribers of that topic. "
      "Clients may connect, ask, subscribe and leave, and the server may be stopped, while the simulation sends: without a data race, a deadlock or a message lost, repeated or out of order. The debugger is told each time the last client has left.",
      ["schedules", "histories"], "for every sequence of events within the bounds, and every schedule of the simulation's and the server's thread within the preemption bound",
      "Tests connect one or two clients and never send while one connects or leaves.",
      ["src/server.cc", "src/server.hh"], [("connections and their identities", "src/server.cc"), ("topics", "src/server.cc")],
      NOTE + "The websocket library is a stand-in (harness/stub/websocketpp/server.hpp): it delivers what is sent on an open connection. Threads are cooperative and sequentially consistent; data races are found with vector clocks. "),
    P("P24", "A new connection starts a new session on the same simulation",
      "When a symbol table is loaded again - by the same or another client, before the run, between cycles or while the simulation is at a stop - the breakpoints and data breakpoints of the earlier session are gone, "
      "and every breakpoint set from then on is reported exactly once per copy of the design and cycle in which it is due, with its values, order and namespace numbers, as if it had been the first session.",
      ["histories", "configurations"], "for every point of a two-cycle session, the same or another symbol table loaded once or twice, and any enable values within the bounds",
      "Tests connect once per simulation.",
      ["src/debug.cc", "src/namespace.cc", "src/scheduler.cc"], [("loading a symbol table", "src/debug.cc"), ("namespaces", "src/namespace.cc"), ("scheduler", "src/scheduler.cc")], DNOTE),
]

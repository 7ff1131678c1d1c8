#!/usr/bin/env python3
"""Writes known_findings.json from the list below (commit ids looked up by subject in /repo)."""
import json, subprocess, os
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
F = [  # property, commit subject, what failed
 ("P01", "fix: division or modulo by zero in an expression traps the simulator", "a / b or a % b with b = 0, or INT64_MIN / -1, raises SIGFPE"),
 ("P03", "fix: hex literals with the 64th bit set are clamped", "0xffffffffffffffff has the value 0x7fffffffffffffff"),
 ("P01", "fix: symbols are destroyed through a base class without virtual destructor", "undefined behaviour (sized delete of the wrong size) whenever an expression is destroyed"),
 ("P04", "fix: slices that reach bit 63 or beyond shift by too much", "sig[63:0] yields 0 and sig[70:65] shifts by more than 63"),
 ("P04", "fix: formatted slices contain all the bits above the slice", "the formatted value of sig[1:0] of 0b1101 is 1101"),
 ("P04", "fix: formatting a slice with x or z bits throws", "reading the text of a slice of a signal with unknown bits throws std::invalid_argument"),
 ("P05", "fix: made-up slice handles are passed to the simulator", "the handle of sig[3:0] is passed to vpi_get/vpi_register_cb although it is no simulator object"),
 ("P05", "fix: handles resolved by brute force are cached under the wrong name", "after resolving a[0][1] by iteration a second look-up of another name yields the wrong handle"),
 ("P05", "fix: large array indices throw", "a[99999999999] throws std::out_of_range in the simulator"),
 ("P05", "fix: instance matching without definition names reads out of bounds and maps one level too deep", "instance names of one token, or a hierarchy one level below the root"),
 ("P05", "fix: consecutive $parent in a path only go up one level", "a.b.$parent.$parent.c resolves below a"),
 ("P06", "fix: don't skip breakpoints that cannot be evaluated in the same batch", "with breakpoints A(line 10), B(line 20), C(line 10) hit in one cycle, B or C is skipped"),
 ("P06", "fix: keep the execution order when a breakpoint is added by id", "a breakpoint inserted by id is evaluated last"),
 ("P07", "fix: continue from the current breakpoint after stepping", "continue after step_over goes back to the first inserted breakpoint or skips some"),
 ("P07", "fix: reverse continue from a breakpoint that is not inserted", "reverse_continue after step_over to a breakpoint that is not inserted goes to the wrong one"),
 ("P07", "fix: don't loop forever when there is nothing left to go back to", "step_back at the first breakpoint with nothing enabled hangs the simulator"),
 ("P08", "fix: breakpoints and data breakpoints with the same ID affect each other", "removing a data breakpoint removes the breakpoint with the same id and the reverse"),
 ("P09", "fix: conditions that contain || are combined without brackets", "enable 'a || b' with the condition 'c' is evaluated as a || (b && c)"),
 ("P08", "fix: breakpoints that cannot be inserted are acknowledged or half inserted", "a condition with an unknown name is acknowledged and the breakpoint never hit"),
 ("P09", "fix: conditions with unbalanced brackets are combined with the enable condition", "the condition 'a) || (b' is accepted"),
 ("P09", "fix: variables whose name starts with the instance name cannot be resolved", "the variable modern in the instance mod is looked up as 'ern'"),
 ("P10", "fix: data breakpoints that watch the same signal, or in one of several namespaces, are never hit", "two assignments of the same register: the second data breakpoint never fires"),
 ("P13", "fix: malformed requests abort the simulator or are taken for other ones", "e.g. a request that is a JSON array, line_num of 2^32+10, a null payload"),
 ("P13", "fix: strings with NUL characters are cut off", "the file name \"f.cc\\u0000x\" is taken for f.cc"),
 ("P12", "fix: requests without a symbol table or for an unknown namespace crash the simulator", "set-value, monitor, bp-location without a symbol table; namespace_id 7"),
 ("P20", "fix: plus args without a value of their own, ports out of range and an empty command line", "+DEBUG_PORT=70000, a plus arg that is the prefix of another one, argc = 0"),
 ("P11", "fix: variables delayed by more than one cycle abort the simulator", "a delayed variable of depth 2 reads an empty ring"),
 ("P11", "fix: monitored changes are never reported", "a monitor of type 'changed' never sends a value"),
 ("P07", "fix: cached signal values survive going back in time", "with use_signal_cache, step_back into the previous cycle evaluates enables with the later values"),
 ("P12", "fix: path mapping and evaluation errors without a symbol table have no reason", "the error response to path-mapping before a connection has an empty reason"),
 ("P14", "fix: symbol tables with unknown variables and empty instance names are read out of bounds", "an entry whose variable id does not exist, or the empty instance name"),
 ("P14", "fix: modules that contain themselves overflow the stack", "a module with an instance of itself, directly or not"),
 ("P15", "fix: constants that are overwritten, empty or out of range", "a constant overwritten by a signal is still a constant; the value '' or 2^64 throws"),
 ("P14", "fix: numbers out of range and incomplete attributes in a symbol table abort the simulator", "\"line\": 4294967299, an attribute without a value"),
 ("P14", "fix: relative file names with a directory never match", "breakpoints of \"src/a.cc\" cannot be found by that name"),
 ("P14", "fix: breakpoints of a nested block are found under the file around it", "a block with a file of its own inside another file's block"),
 ("P16", "fix: path mappings depend on local files and apply to directories that share a prefix", "/a -> /x moves /ab/f.cc; symbolic links of the local disk are followed"),
 ("P17", "fix: requests that arrive while the simulation runs free breakpoints under evaluation", "breakpoint remove (or continue, evaluation, ...) while a cycle is evaluated: use after free in Debugger::eval"),
 ("P17", "fix: results of breakpoints evaluated by several threads are lost", "more than 32 breakpoints at one place: two threads write bits of one word of vector<bool>"),
 ("P18", "fix: waveform values at the end of a file, real values, comments and long times are misread", "a last line without a line break has the identifier '!\\0'; 'r1.5 1a' is a change of a; #3000000000 throws; a file that ends in $dumpvars loops forever"),
 ("P05", "fix: names that do not exist resolve to the module around them", "the handle of a missing signal mod.nosuch is the one of the outermost module, and its value is shown as 0"),
 ("P22", "fix: members of interfaces and structs are looked up under a name that is gone", "vpi_get_str reuses its buffer, so every member of an interface or struct is shown as ERROR"),
 ("P22", "fix: negative values are shown with a minus sign in hexadecimal", "a 32-bit signal of 0xC3A5F00F is shown as 0x-3C5A0FF1"),
 ("P22", "fix: delayed variables get the value of another depth or of another copy of the design", "two copies of a design with a delayed variable show the same value; one signal delayed by 1 and by 2 cycles"),
 ("P20", "fix: breakpoints from the environment have an arbitrary column", "DEBUG_BREAKPOINT0=f.cc:10 without a column is looked up at whatever is on the stack"),
 ("P20", "fix: +DEBUG_LOG=1 does not turn on the log", "the documented plus arg +DEBUG_LOG=1 is ignored"),
 ("P23", "fix: clients that connect or leave while the simulation sends messages", "the list of connections is read by the simulation while the server changes it: a data race, use after free"),
 ("P17", "fix: a run command given before a stop is reported releases that stop", "two clients both answer a stop: the next stop is reported but not held"),
 ("P24", "fix: every breakpoint is set twice after a second connection", "the symbol table loaded a second time: each breakpoint is reported twice, or over and over"),
 ("P16", "fix: path mappings are ignored with a JSON symbol table", "breakpoints are never found by the client's file name"),
 ("P04", "fix: signals wider than 32 bits are truncated, and slices can't be set", "a 40-bit signal of 2^32 is 0 in a condition, a slice [39:36] is 0, set-value of a slice sets nothing"),
 ("P21", "fix: slices of different designs share their handles", "two copies of a design: a[3:0] of one is read from the other"),
 ("P19", "fix: the replay skips changes and reports ones that don't happen", "a signal that changes in consecutive time units; a second clock that doesn't change; removing one of two callbacks; going back before the first edge"),
 ("P19", "fix: callbacks added by a callback invalidate the replay's iteration", "a callback that registers another one: the table is rehashed while iterated"),
 ("P19", "fix: the replay's arguments dangle once one is added", "an argument added to those given: the other pointers dangle"),
 ("P19", "fix: values of array elements and wide signals in a replay", "an element of an array without a value is a null string; 'z' of a 5-bit signal is shown as one digit; bit 31 sets all the upper bits"),
]
KNOWN = []  # findings that are recorded rather than repaired: property, harness, match, what
out = list(KNOWN)
for p, s, w in F:
    out.append({"property": p, "status": "fixed", "commit": log[s], "entry": "fixed: property=%s %s %s" % (p, log[s], w)})
missing = set(x for x in log if x.startswith("fix:")) - set(s for _, s, _ in F)
assert not missing, missing
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)

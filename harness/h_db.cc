// The JSON symbol table: every query answers what the document says (P14), scopes of variables (P15),
// source path mapping (P16).
#include <memory>
#include "db.hh"
#include "eval.hh"
#include "sx.h"
#include "util.hh"

using hgdb::BreakPoint;
using hgdb::JSONSymbolTableProvider;

// ---- documents ----------------------------------------------------------------------------------------------------
static std::string quoted(const std::string &s) { return "\"" + s + "\""; }
static std::string var(const std::string &name, const std::string &value, bool rtl = true, int delay = -1) {
    std::string r = "{\"name\":" + quoted(name) + ",\"value\":" + quoted(value) + ",\"rtl\":" + (rtl ? "true" : "false");
    if (delay >= 0) r += ",\"type\":\"delay\"";
    if (delay > 0) r += ",\"depth\":" + std::to_string(delay);
    return r + "}";
}
struct Node {
    std::string type, cond, file, variable, extra;
    uint32_t line = 0, col = 0;
    std::string line_text, col_text;   // what is written in the document (may be symbolic)
    int parent = -1;                   // index of the enclosing block
    std::vector<int> children;
    bool leaf() const { return type != "block"; }
};
struct Doc {
    std::vector<Node> n;
    int add(Node x) {
        n.push_back(std::move(x));
        int k = static_cast<int>(n.size()) - 1;
        if (n[k].parent >= 0) n[n[k].parent].children.push_back(k);
        return k;
    }
    std::string text(int k) const {
        auto &x = n[k];
        std::string r = "{\"type\":" + quoted(x.type);
        if (!x.line_text.empty()) r += ",\"line\":" + x.line_text;
        if (!x.col_text.empty()) r += ",\"column\":" + x.col_text;
        if (!x.cond.empty()) r += ",\"condition\":" + quoted(x.cond);
        if (!x.file.empty()) r += ",\"filename\":" + quoted(x.file);
        if (!x.variable.empty()) r += ",\"variable\":" + x.variable;
        r += x.extra;
        if (x.type == "block") r += ",\"scope\":" + list(x.children);
        return r + "}";
    }
    std::string list(const std::vector<int> &v) const {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + text(v[i]);
        return r + "]";
    }
    std::vector<int> top() const {
        std::vector<int> r;
        for (size_t i = 0; i < n.size(); i++)
            if (n[i].parent < 0) r.push_back(static_cast<int>(i));
        return r;
    }
    // the file of an entry: that of the innermost block that has one
    const std::string &file(int k) const {
        static const std::string none;
        for (; k >= 0; k = n[k].parent)
            if (!n[k].file.empty()) return n[k].file;
        return none;
    }
    std::set<std::string> conditions(int k) const {
        std::set<std::string> r;
        for (; k >= 0; k = n[k].parent)
            if (!n[k].cond.empty()) r.insert(n[k].cond);
        return r;
    }
};
static std::string module(const std::string &name, const std::string &scope, const std::string &variables = "[]", const std::string &instances = "") {
    return "{\"type\":\"module\",\"name\":" + quoted(name) + ",\"variables\":" + variables + ",\"scope\":" + scope +
           (instances.empty() ? "" : ",\"instances\":" + instances) + "}";
}
static std::string table(const std::string &modules, const std::string &top = "\"mod\"", const std::string &extra = "") {
    return "{\"generator\":\"x\",\"table\":[" + modules + "],\"top\":" + top + extra + "}";
}
// a digit 1..9, written in the document
static uint32_t digit(const char *name, std::string &text) {
    uint8_t c = sx_in_8(name);
    ASSUME((c >= '1') & (c <= '9'));
    text = std::string(1, static_cast<char>(c));
    return static_cast<uint32_t>(c - '0');
}
// the names in a conjunction; checks that it is one
static std::set<std::string> names(const std::string &cond) {
    std::set<std::string> r;
    CHECK(cond.find("||") == std::string::npos && cond.find('!') == std::string::npos, "conditions are joined by &&");
    std::string cur;
    for (char c : cond + " ") {
        if (isalnum(static_cast<unsigned char>(c)) || c == '_')
            cur += c;
        else if (!cur.empty()) {
            r.insert(cur);
            cur.clear();
        }
    }
    return r;
}

// ---- execution order and locations -----------------------------------------------------------------------------------
SX_HARNESS(json_order) {
    Doc d;
    int a = d.add({.type = "block", .file = "/a.cc"});
    int shape = sx_choose("shape", 4);
    bool reorder = sx_choose("reorder", 2);
    int inner = -1;
    if (shape == 1) inner = d.add({.type = "block", .cond = "cb", .parent = a});
    if (shape == 2) inner = d.add({.type = "block", .file = "/b.cc", .parent = a});
    if (shape == 3) inner = d.add({.type = "block", .cond = "cb", .file = "/b.cc"});
    static const char *types[] = {"none", "decl", "assign"};
    const int leaves = sx_tier() ? 6 : 5;
    std::vector<int> leaf;
    for (int i = 0; i < leaves; i++) {
        Node x;
        x.type = types[i % 3];
        x.cond = "c" + std::to_string(i);
        x.parent = inner >= 0 && (i == 1 || i == 2) ? inner : a;
        x.line = digit("line", x.line_text);
        if (i < 2) x.col = digit("column", x.col_text);
        if (x.type != "none") x.variable = var("v" + std::to_string(i), "r" + std::to_string(i));
        leaf.push_back(d.add(x));
    }
    JSONSymbolTableProvider t;
    bool ok = t.parse(table(module("mod", d.list(d.top())), "\"mod\"", reorder ? "" : ",\"reorder\":false"));
    CHECK(ok && !t.bad(), "a well-formed symbol table is accepted");
    auto order = t.execution_bp_orders();
    CHECK(order.size() == static_cast<size_t>(leaves), "every statement is one breakpoint");
    std::vector<int> pos(leaves, -1);
    for (size_t i = 0; i < order.size(); i++) {
        auto b = t.get_breakpoint(order[i]);
        CHECK(b.has_value(), "every breakpoint in the order exists");
        auto cs = names(b->condition);
        int k = -1;
        for (int j = 0; j < leaves; j++)
            if (cs.count("c" + std::to_string(j))) k = j;
        CHECK(k >= 0 && pos[k] < 0, "each statement is in the order once");
        pos[k] = static_cast<int>(i);
        CHECK(cs == d.conditions(leaf[k]), "the condition is that of the statement and the blocks around it");
        CHECK(b->line_num == d.n[leaf[k]].line && b->column_num == d.n[leaf[k]].col, "the location is the statement's");
        CHECK(b->filename == d.file(leaf[k]), "the file is that of the innermost block");
        CHECK(t.get_instance_id(static_cast<uint64_t>(order[i])) == *b->instance_id, "the breakpoint belongs to its instance");
    }
    for (std::string f : {"/a.cc", "/b.cc"}) {
        std::set<uint32_t> ids, want;
        for (auto &b : t.get_breakpoints(f)) ids.insert(b.id);
        for (int k = 0; k < leaves; k++)
            if (d.file(leaf[k]) == f) want.insert(order[pos[k]]);
        CHECK(ids == want, "a file has exactly its own breakpoints");
    }
    // siblings are executed in the order of their places (as written without reordering)
    auto first = [&](int k) {
        uint32_t m = 100;
        if (d.n[k].leaf()) return d.n[k].line;
        for (auto c : d.n[k].children) m = d.n[c].line < m ? d.n[c].line : m;
        return m;
    };
    auto leaves_of = [&](int k) {
        std::vector<int> r;
        for (int j = 0; j < leaves; j++)
            if (leaf[j] == k || d.n[leaf[j]].parent == k) r.push_back(j);
        return r;
    };
    auto check_siblings = [&](const std::vector<int> &c) {
        for (size_t i = 0; i < c.size(); i++)
            for (size_t j = 0; j < c.size(); j++) {
                if (i == j) continue;
                bool before;
                if (reorder) {
                    auto x = first(c[i]), y = first(c[j]);
                    before = (x < y) | ((x == y) & (d.n[c[i]].col < d.n[c[j]].col) & d.n[c[i]].leaf() & d.n[c[j]].leaf());
                } else
                    before = i < j;
                bool is = true;
                for (auto p : leaves_of(c[i]))
                    for (auto q : leaves_of(c[j])) is = is & (pos[p] < pos[q]);
                CHECK(!before | is, "statements are executed in the order of lines and columns");
            }
    };

    check_siblings(d.n[a].children);
    if (inner >= 0) check_siblings(d.n[inner].children);
    sx_reach("end");
    sx_done();
}

// ---- instances and queries by location ---------------------------------------------------------------------------------
// mod { a: child { g: leaf }, b: child, l: leaf }, and the second top top2 { a: leaf }
SX_HARNESS(json_locations) {
    std::string t1, t2, t3, t4;
    uint32_t l[4] = {digit("line", t1), digit("line", t2), digit("line", t3), digit("line", t4)};
    static const char *files[] = {"/a.cc", "b.cc", "src/c.cc"};
    auto *f_child = files[sx_choose("file", 3)];
    bool two = sx_choose("tops", 2);
    auto block = [](const std::string &f, const std::string &s) { return "{\"type\":\"block\",\"filename\":\"" + f + "\",\"scope\":[" + s + "]}"; };
    auto none = [](const std::string &line, const char *c, int col = 0) {
        return "{\"type\":\"none\",\"line\":" + line + ",\"condition\":\"" + c + "\"" + (col ? ",\"column\":" + std::to_string(col) : "") + "}";
    };
    std::string modules = module("mod", "[" + block("/a.cc", none(t1, "m", 3)) + "]", "[]", R"([{"name":"a","module":"child"},{"name":"b","module":"child"},{"name":"l","module":"leaf"}])") + "," +
                          module("leaf", "[" + block("/l.cc", none(t2, "l")) + "]") + "," +
                          module("child", "[" + block(f_child, none(t3, "c", 5) + "," + none(t4, "d")) + "]", "[]", R"([{"name":"g","module":"leaf"}])");
    if (two) modules += "," + module("top2", "[" + block("/a.cc", none("7", "t")) + "]", "[]", R"([{"name":"a","module":"leaf"}])");
    JSONSymbolTableProvider t;
    CHECK(t.parse(table(modules, two ? "[\"mod\",\"top2\"]" : "\"mod\"")), "a well-formed symbol table is accepted");
    struct I {
        const char *name;
        std::vector<const char *> conds;
    };
    std::vector<I> insts = {{"mod", {"m"}}, {"mod.a", {"c", "d"}}, {"mod.a.g", {"l"}}, {"mod.b", {"c", "d"}}, {"mod.b.g", {"l"}}, {"mod.l", {"l"}}};
    if (two) insts.insert(insts.end(), {{"top2", {"t"}}, {"top2.a", {"l"}}});
    struct B {
        const char *inst;
        std::string cond, file;
        uint32_t line, col;
        uint32_t id = 0;
        int found = 0;
    };
    std::vector<B> want;
    std::set<uint64_t> ids;
    for (auto &i : insts) {
        auto id = t.get_instance_id(std::string(i.name));
        CHECK(id.has_value(), "every instance is found by its name");
        CHECK(ids.insert(*id).second, "instances have different ids");
        CHECK(t.get_instance_name(static_cast<uint32_t>(*id)) == std::string(i.name), "the id leads back to the name");
        for (std::string c : i.conds) {
            B b{i.name, c, "", 0, 0};
            if (c == "m") b.file = "/a.cc", b.line = l[0], b.col = 3;
            if (c == "l") b.file = "/l.cc", b.line = l[1];
            if (c == "c") b.file = f_child, b.line = l[2], b.col = 5;
            if (c == "d") b.file = f_child, b.line = l[3];
            if (c == "t") b.file = "/a.cc", b.line = 7;
            want.push_back(b);
        }
    }
    auto inames = t.get_instance_names();
    CHECK(inames.size() == insts.size() && std::set<std::string>(inames.begin(), inames.end()).size() == insts.size(), "every instance is listed once");
    for (auto &n : inames) CHECK(t.get_instance_id(n).has_value(), "what is listed exists");
    for (auto *n : {"", ".", "mo", "mod.c", "mod.a.g.x", "child", "mod.g", "mod.a.", "a"}) {
        auto id = t.get_instance_id(std::string(n));
        CHECK(!id || std::string(n) == "mod.a.", "what does not exist is not found");
    }
    auto fs = t.get_filenames();
    std::set<std::string> fset(fs.begin(), fs.end());
    CHECK((fset == std::set<std::string>{"/a.cc", "/l.cc", f_child}), "every file is listed");
    auto check = [&](const BreakPoint &b) -> B * {
        auto name = t.get_instance_name(*b.instance_id);
        CHECK(name.has_value(), "a breakpoint belongs to an instance");
        for (auto &w : want)
            if (w.inst == *name && w.cond == b.condition) {
                CHECK(b.filename == w.file && b.line_num == w.line && b.column_num == w.col, "the location is the statement's");
                return &w;
            }
        CHECK(false, "only statements of the table are breakpoints");
        return nullptr;
    };
    auto order = t.execution_bp_orders();
    CHECK(order.size() == want.size(), "every statement of every instance is one breakpoint");
    for (auto id : order) {
        auto b = t.get_breakpoint(id);
        CHECK(b && b->id == id, "every breakpoint is found by its id");
        auto *w = check(*b);
        CHECK(w->found++ == 0, "breakpoints have different ids");
        w->id = id;
        CHECK(t.get_instance_id(static_cast<uint64_t>(id)) == static_cast<uint64_t>(*b->instance_id), "the breakpoint leads to its instance");
    }
    // a query
    static const char *queries[] = {"/a.cc", "b.cc", "/x/b.cc", "src/c.cc", "/x/a.cc", "", "/l.cc", "/", "c.cc"};
    int q = sx_choose("query", 9);
    uint32_t line = sx_in_32("q_line"), col = sx_in_32("q_column");
    int kind = sx_choose("kind", 3);
    std::vector<BreakPoint> r;
    if (kind == 0) r = t.get_breakpoints(queries[q]);
    if (kind == 1) {
        ASSUME(line != 0);
        r = t.get_breakpoints(queries[q], line);
    }
    if (kind == 2) {
        ASSUME(line != 0);
        r = t.get_breakpoints(queries[q], line, col);
    }
    std::map<const B *, int> got;
    for (auto &b : r) {
        auto *w = check(b);
        CHECK(w->id == b.id, "the breakpoint has its id");
        got[w]++;
    }
    for (auto &w : want) {
        std::string qs = queries[q];
        bool file = qs == w.file || (w.file == "b.cc" && qs == "/x/b.cc");
        if (w.file == "src/c.cc" && qs == "c.cc") continue;
        bool m = file && kind == 0 ? true : file & (w.line == line) & (kind == 1 | col == 0 | w.col == col);
        CHECK(got[&w] == m, "a query returns exactly the breakpoints at the location");
    }
    sx_reach("end");
    sx_done();
}

// ids that do not exist
SX_HARNESS(json_unknown_ids) {
    JSONSymbolTableProvider t;
    CHECK(t.parse(table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"decl","line":3,"variable":{"name":"v","value":"v","rtl":true}},{"type":"none","line":4}]}])", "[" + var("g", "g") + "]",
                               R"([{"name":"a","module":"mod2"}])") +
                        "," + module("mod2", "[]"))),
          "accepted");
    uint32_t id = sx_in_32("id");
    bool is_bp = id < 2, is_inst = t.get_instance_name(id).has_value();
    std::set<uint64_t> inst = {*t.get_instance_id(std::string("mod")), *t.get_instance_id(std::string("mod.a"))};
    bool in = false;
    for (auto i : inst) in = in | (i == id);
    CHECK(is_inst == in, "exactly the instances have names");
    CHECK(t.get_breakpoint(id).has_value() == is_bp, "only breakpoints are found");
    CHECK(t.get_instance_id(static_cast<uint64_t>(id)).has_value() == is_bp, "only breakpoints belong to an instance");
    CHECK(t.get_context_variables(id).size() == static_cast<size_t>(id == 1), "only breakpoints have a context");
    CHECK(t.get_context_delayed_variables(id).empty(), "only breakpoints have a context");
    CHECK(t.get_generator_variable(id).size() == static_cast<size_t>(id == *t.get_instance_id(std::string("mod"))), "only instances have variables");
    CHECK(t.get_assigned_breakpoints("v", id).empty(), "declarations are no assignments");
    CHECK(t.get_context_static_values(id).empty(), "no static values");
    CHECK(t.resolve_scoped_name_breakpoint("v", id).has_value() == (id == 1), "a name is resolved where it is in scope");
    CHECK(t.resolve_scoped_name_instance("g", id).has_value() == (id == *t.get_instance_id(std::string("mod"))), "a name is resolved where it is in scope");
    sx_reach("end");
    sx_done();
}

// ---- variables in scope ----------------------------------------------------------------------------------------------
// Statements in nested blocks; a variable is visible after its statement in the same block and the blocks inside.
SX_HARNESS(json_scope) {
    Doc d;
    int a = d.add({.type = "block", .file = "/a.cc"});
    int shape = sx_choose("shape", 3);
    int b = shape ? d.add({.type = "block", .parent = a}) : a;
    int c = shape == 2 ? d.add({.type = "block", .parent = b}) : shape == 1 ? d.add({.type = "block", .parent = a}) : a;
    const int leaves = 5;
    std::vector<int> leaf;
    int parents[leaves] = {a, b, b, c, a};
    static const char *types[leaves] = {"decl", "assign", "none", "assign", "none"};
    int delayed = sx_choose("delayed", 4);  // depth of the delayed variable in statement 1
    for (int i = 0; i < leaves; i++) {
        Node x;
        x.type = types[i];
        x.cond = "c" + std::to_string(i);
        x.parent = parents[i];
        x.line = digit("line", x.line_text);
        if (x.type != "none") x.variable = i == 1 ? var("v1", "r1", true, delayed - 1) : i == 3 ? var("v3", "33", false) : var("v0", "r0");
        leaf.push_back(d.add(x));
    }
    JSONSymbolTableProvider t;
    bool ok = t.parse(table(module("mod", d.list(d.top()))));
    CHECK(ok, "accepted");
    std::vector<uint32_t> id(leaves), pos(leaves);
    auto order = t.execution_bp_orders();
    for (size_t i = 0; i < order.size(); i++) {
        auto bp = t.get_breakpoint(order[i]);
        auto cs = names(bp->condition);
        for (int k = 0; k < leaves; k++)
            if (cs.count("c" + std::to_string(k))) id[k] = order[i], pos[k] = static_cast<uint32_t>(i);
    }
    int at = sx_choose("at", leaves);
    auto encloses = [&](int block, int k) {
        for (; k >= 0; k = d.n[k].parent)
            if (k == block) return true;
        return false;
    };
    std::vector<int> visible;  // in execution order
    for (size_t p = 0; p < order.size(); p++)
        for (int k = 0; k < leaves; k++)
            if (pos[k] == p && p < pos[at] && d.n[leaf[k]].type != "none" && encloses(d.n[leaf[k]].parent, leaf[at])) visible.push_back(k);
    auto vars = t.get_context_variables(id[at]);
    CHECK(vars.size() == visible.size(), "exactly the variables set before, in this scope and those around it, are visible");
    static const char *values[] = {"r0", "r1", "", "33"};
    for (size_t i = 0; i < vars.size(); i++) {
        int k = visible[i];
        auto &[cv, v] = vars[i];
        CHECK(cv.name == "v" + std::to_string(k) && v.value == values[k] && v.is_rtl == (k != 3), "the variables are listed in the order they are set in");
        bool del = k == 1 && delayed;
        CHECK((cv.type == static_cast<uint32_t>(hgdb::SymbolTableProvider::VariableType::delay)) == del, "delayed variables are marked");
        if (del) CHECK(cv.depth == static_cast<uint32_t>(delayed == 1 ? 1 : delayed - 1), "the depth is the one given, or 1");
    }
    bool sees1 = std::find(visible.begin(), visible.end(), 1) != visible.end();
    auto dv = t.get_context_delayed_variables(id[at]);
    CHECK(dv.size() == static_cast<size_t>(sees1 && delayed), "exactly the delayed variables in scope are listed");
    for (auto &[cv, v] : dv) CHECK(cv.name == "v1" && v.value == "r1", "the delayed variable");
    for (int k : {0, 1, 3}) {
        bool sees = std::find(visible.begin(), visible.end(), k) != visible.end();
        auto r = t.resolve_scoped_name_breakpoint("v" + std::to_string(k), id[at]);
        CHECK(r.has_value() == sees, "a name is resolved exactly where it is visible");
        if (r) CHECK(*r == (k == 3 ? "33" : "mod." + std::string(values[k])), "a name resolves to its variable");
    }
    auto st = t.get_context_static_values(id[at]);
    bool sees3 = std::find(visible.begin(), visible.end(), 3) != visible.end();
    CHECK(st.size() == static_cast<size_t>(sees3) && (!sees3 || st.at("v3") == 33), "constants in scope have their values");
    sx_reach("end");
    sx_done();
}

// One name set several times: the latest assignment before the statement counts.
SX_HARNESS(json_shadowing) {
    Doc d;
    int a = d.add({.type = "block", .file = "/a.cc"});
    bool nested = sx_choose("nested", 2);
    int b = nested ? d.add({.type = "block", .parent = a}) : a;
    const int n = 3;
    uint32_t line[n];
    int kind[n];
    static const char *consts[] = {"7", "", "99999999999999999999", "-4", "0"};
    for (int i = 0; i < n; i++) {
        Node x;
        x.type = i == 0 ? "decl" : "assign";
        x.parent = i == 2 ? b : a;
        x.line = line[i] = digit("line", x.line_text);
        kind[i] = sx_choose("kind", i == 0 ? 2 : 6);  // 0: a signal, otherwise a constant
        x.variable = kind[i] == 0 ? var("v", "r" + std::to_string(i)) : var("v", consts[kind[i] - 1], false);
        d.add(x);
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) ASSUME(line[i] != line[j]);
    int stop = d.add({.type = "none", .parent = b, .line_text = "9"});
    ASSUME((line[0] != 9) & (line[1] != 9) & (line[2] != 9));
    JSONSymbolTableProvider t;
    CHECK(t.parse(table(module("mod", d.list(d.top())))), "accepted");
    auto bps = t.get_breakpoints("/a.cc", 9);
    CHECK(bps.size() == 1, "the statement");
    auto id = bps[0].id;
    // what is in the same block comes last when blocks are nested (the block is where its first statement is)
    uint32_t lb = nested ? (line[2] < 9u ? line[2] : 9u) : 0;
    int latest = -1;
    uint32_t best = 0;
    for (int i = 0; i < n; i++) {
        if (nested && i == 2) continue;
        if (nested && line[i] > lb) continue;
        if (latest < 0 || line[i] > best) best = line[i], latest = i;
    }
    if (nested) latest = 2;
    auto r = t.resolve_scoped_name_breakpoint("v", id);
    CHECK(r.has_value(), "the name is visible");
    CHECK(*r == (kind[latest] == 0 ? "mod.r" + std::to_string(latest) : consts[kind[latest] - 1]), "a name means its latest assignment");
    auto st = t.get_context_static_values(id);
    if (kind[latest] == 0) CHECK(!st.count("v"), "a constant that has been overwritten by a signal has no effect");
    if (kind[latest] == 1) CHECK(st.count("v") && st.at("v") == 7, "a constant has its latest value");
    if (kind[latest] == 5) CHECK(st.count("v") && st.at("v") == 0, "a constant has its latest value");
    (void)stop;
    sx_reach("end");
    sx_done();
}

// ---- assignments of a variable -----------------------------------------------------------------------------------------
SX_HARNESS(json_assigned) {
    // two instances of child: v and arr[] are assigned in nested blocks
    static const char *names_[] = {"v", "a.b", "a[1]", "a.1", "w", "arr.2", "arr[3]", "arr.4", "arr", "", "arr.x", "arr.2.1"};
    std::string l1, l2, l3, l4;
    digit("line", l1), digit("line", l2), digit("line", l3), digit("line", l4);
    bool ref = sx_choose("ref", 2);
    std::string scope = "[{\"type\":\"block\",\"filename\":\"/a.cc\",\"scope\":["
                        "{\"type\":\"assign\",\"line\":" + l1 + ",\"variable\":" + (ref ? "\"7\"" : var("v", "v0")) + "},"
                        "{\"type\":\"decl\",\"line\":" + l2 + ",\"variable\":" + var("v", "v9") + "},"
                        "{\"type\":\"block\",\"condition\":\"c1 || d1\",\"scope\":[{\"type\":\"assign\",\"line\":" + l2 + ",\"condition\":\"c2 || d2\",\"variable\":" + var("v", "v1") + "},"
                        "{\"type\":\"assign\",\"line\":" + l3 + ",\"variable\":" + var("a.b", "a_b") + "},"
                        "{\"type\":\"assign\",\"line\":" + l3 + ",\"condition\":\"c3\",\"variable\":" + var("a[1]", "a_1") + "}]},"
                        "{\"type\":\"assign\",\"line\":" + l4 + ",\"condition\":\"c1 || d1\",\"variable\":" + var("arr", "arr_r") + ",\"indices\":[{\"var\":" + var("i", "i_r") + ",\"min\":2,\"max\":3}]},"
                        "{\"type\":\"none\",\"line\":1}]}]";
    JSONSymbolTableProvider t;
    CHECK(t.parse(table(module("mod", "[]", "[]", R"([{"name":"x","module":"child"},{"name":"y","module":"child"}])") + "," + module("child", scope), "\"mod\"",
                        ",\"variables\":[{\"id\":\"7\",\"name\":\"v\",\"value\":\"v0\",\"rtl\":true}]")),
          "accepted");
    int q = sx_choose("name", 12);
    bool y = sx_choose("inst", 2);
    auto inst = *t.get_instance_id(std::string(y ? "mod.y" : "mod.x"));
    uint32_t from = 1000;
    for (auto i : t.execution_bp_orders())
        if (t.get_instance_id(static_cast<uint64_t>(i)) == inst) from = i;
    auto r = t.get_assigned_breakpoints(names_[q], from);
    struct W {
        std::string value;
        std::set<std::string> cond;
    };
    std::vector<W> want;
    switch (q) {
        case 0: want = {{"v0", {}}, {"v1", {"c1", "d1", "c2", "d2"}}}; break;
        case 1: want = {{"a_b", {"c1", "d1"}}}; break;
        case 2: case 3: want = {{"a_1", {"c1", "d1", "c3"}}}; break;
        case 5: want = {{"arr_r[2]", {"c1", "d1"}}}; break;
        case 6: want = {{"arr_r[3]", {"c1", "d1"}}}; break;
        case 8: want = {{"arr_r", {"c1", "d1"}}}; break;
    }
    CHECK(r.size() == want.size(), "exactly the assignments of the variable are found");
    for (auto &w : want) {
        int n = 0;
        for (auto &[id, value, cond] : r) {
            if (value != w.value) continue;
            n++;
            CHECK(t.get_instance_id(static_cast<uint64_t>(id)) == inst, "the assignments are in the same instance");
            if (w.cond.empty()) CHECK(cond.empty(), "with the conditions under which they are executed");
            if (!w.cond.empty()) {
                hgdb::DebugExpression e(cond);
                CHECK(e.correct(), "which are expressions");
                auto bit = [&](const char *n) {
                    int64_t x = sx_in_1(n);
                    e.set_static_values({{n, x}});
                    return x != 0;
                };
                bool c1 = bit("c1"), d1 = bit("d1"), c2 = w.cond.count("c2") ? bit("c2") : true, d2 = w.cond.count("d2") ? bit("d2") : false, c3 = w.cond.count("c3") ? bit("c3") : true;
                bool index = true;
                if (q == 5 || q == 6) {   // written only if it is the element selected
                    int64_t i = sx_in_8("i");
                    e.set_static_values({{"i_r", i}});
                    index = i == (q == 5 ? 2 : 3);
                }
                CHECK((e.eval() != 0) == ((c1 | d1) & (c2 | d2) & c3 & index), "all of which have to hold");
            }
            auto b = t.get_breakpoint(id);
            CHECK(b.has_value(), "assignments are breakpoints");
        }
        CHECK(n == 1, "each assignment is found once");
    }
    sx_reach("end");
    sx_done();
}

// Assignments to an indexed array: the element that was written is visible, as long as the index can be read.
SX_HARNESS(json_indexed) {
    JSONSymbolTableProvider t;
    std::string scope = "[{\"type\":\"block\",\"filename\":\"/a.cc\",\"scope\":[{\"type\":\"assign\",\"line\":3,\"variable\":" + var("arr", "arr_r") + ",\"indices\":[{\"var\":" + var("i", "i_r") +
                        ",\"min\":0,\"max\":3}]},{\"type\":\"none\",\"line\":4}]}]";
    CHECK(t.parse(table(module("mod", scope, "[" + var("i", "i_r") + "]"))), "accepted");
    bool readable = sx_choose("readable", 2);
    int64_t value = sx_choose("value", 4);
    bool asked = false;
    t.set_get_symbol_value([&](const std::string &n) -> std::optional<int64_t> {
        CHECK(n == "mod.i_r", "the index is read from the instance");
        asked = true;
        if (!readable) return std::nullopt;
        return value;
    });
    auto vars = t.get_context_variables(1);
    CHECK(asked, "the index is read");
    CHECK(vars.size() == static_cast<size_t>(readable), "the element written is visible");
    if (readable) CHECK(vars[0].first.name == "arr." + std::to_string(value) && vars[0].second.value == "arr_r[" + std::to_string(value) + "]" && vars[0].second.is_rtl, "the element written is visible");
    sx_reach("end");
    sx_done();
}

// ---- documents that cannot be used ----------------------------------------------------------------------------------
static void touch(JSONSymbolTableProvider &t) {
    for (auto *n : {"mod", "mod.a", ""}) t.get_instance_id(std::string(n));
    for (uint32_t i = 0; i < 4; i++) {
        t.get_breakpoint(i);
        t.get_instance_name(i);
        t.get_context_variables(i);
        t.get_context_delayed_variables(i);
        t.get_generator_variable(i);
        t.get_assigned_breakpoints("v", i);
        t.get_context_static_values(i);
    }
    t.get_breakpoints("/a.cc", 3);
    t.get_instance_names();
    t.get_filenames();
    t.get_annotation_values("clock");
    t.execution_bp_orders();
}

SX_HARNESS(json_malformed) {
    int what = sx_choose("what", 24);
    std::string good = R"([{"type":"block","filename":"/a.cc","scope":[{"type":"assign","line":3,"variable":{"name":"v","value":"v","rtl":true}},{"type":"none","line":4}]}])";
    std::string doc;
    bool bad = true;
    switch (what) {
        case 0: doc = table(module("mod", good), "\"nosuch\""); break;                                                     // top that does not exist
        case 1: doc = table(module("mod", good, "[]", R"([{"name":"a","module":"nosuch"}])")); break;                      // module that does not exist
        case 2: doc = table(module("mod", good, "[]", R"([{"name":"a","module":"mod"}])")); break;                         // a module in itself
        case 3: doc = table(module("mod", good, "[]", R"([{"name":"a","module":"m2"}])") + "," + module("m2", "[]", "[]", R"([{"name":"b","module":"mod"}])")); break;
        case 4: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"assign","line":3,"variable":"nosuch"},{"type":"none","line":4}]}])")); break;
        case 5: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"decl","line":3,"variable":"nosuch"},{"type":"none","line":4}]}])")); break;
        case 6: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"assign","line":3,"variable":{"name":"v","value":"v","rtl":true},"indices":[{"var":"nosuch","min":0,"max":1}]},{"type":"none","line":4}]}])")); break;
        case 7: doc = table(module("mod", good, R"(["nosuch"])")); break;
        case 8: doc = table(""); break;
        case 9: doc = table(module("mod", good), "[]"); break;
        case 10: doc = table(module("mod", good), "[\"nosuch\",\"mod\"]"), bad = false; break;  // not judged whether it is accepted
        case 11: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"wrong","line":3}]}])")); break;
        case 12: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"none","line":-3}]}])")); break;
        case 13: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"none","line":"3"}]}])")); break;
        case 14: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"none","line":4294967299},{"type":"none","line":3,"column":4294967299},{"type":"decl","line":3,"variable":{"name":"v","value":"v","rtl":true,"type":"delay","depth":-1}},{"type":"assign","line":4.0,"variable":{"name":"v","value":"v","rtl":true},"indices":[{"var":{"name":"v","value":"v","rtl":true},"min":-1,"max":4294967299}]}]}])")), bad = false; break;
        case 15: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"assign","line":3}]}])")); break;
        case 16: doc = "{\"table\":[]}"; break;
        case 17: doc = "[]"; break;
        case 18: doc = "{}"; break;
        case 19: doc = ""; break;
        case 20: doc = "{\"table\":[],\"top\":5}"; break;
        case 21: doc = table(module("mod", good), "\"mod\"", R"(,"variables":[{"name":"v","value":"v","rtl":true}])"); break;
        case 22: doc = table(module("mod", good), "\"mod\"", R"(,"attributes":[{"name":"clock"}])"), bad = false; break;
        case 23: doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"block","scope":[]},{"type":"none"}]}])")), bad = false; break;
    }
    JSONSymbolTableProvider t;
    bool ok = t.parse(doc);
    CHECK(ok == !t.bad(), "the answer is the state");
    if (bad) CHECK(!ok, "a symbol table that cannot be used is refused");
    touch(t);
    sx_reach("end");
    sx_done();
}

// A well-formed document cut off at any place.
SX_HARNESS(json_truncated) {
    std::string doc = table(module("mod", R"([{"type":"block","filename":"/a.cc","scope":[{"type":"none","line":4}]}])"));
    size_t n = sx_in_8("length");
    ASSUME(n < doc.size());
    n = __sxconc(static_cast<uint32_t>(n));
    JSONSymbolTableProvider t;
    CHECK(!t.parse(doc.substr(0, n)), "an incomplete document is refused");
    touch(t);
    sx_reach("end");
    sx_done();
}

// A well-formed document in which any one byte is replaced by any other.
SX_HARNESS(json_mutated) {
    static const std::string docs[] = {
        table(module("m", R"([{"type":"block","filename":"/a","scope":[{"type":"none","line":4}]}])"), "\"m\""),
        table(module("m", R"([{"type":"assign","line":3,"variable":"7"}])", "[]", R"([{"name":"a","module":"n"}])") + "," + module("n", "[]", R"(["7"])"), "[\"m\"]",
              R"(,"variables":[{"id":"7","name":"v","value":"w","rtl":true}])"),
        table(module("m", R"([{"type":"decl","line":3,"variable":{"name":"v","value":"w","rtl":true,"type":"delay","depth":2}},{"type":"assign","line":3,"variable":{"name":"v","value":"w","rtl":true},"indices":[{"var":{"name":"i","value":"1","rtl":false},"min":0,"max":1}]}])"), "\"m\"",
              R"(,"attributes":[{"name":"clock","value":"m.c"}])"),
    };
    int which = sx_choose("doc", sx_tier() ? 3 : 2);
    std::string doc = docs[which];
    uint32_t at = sx_in_8("at");
    if (which == 2) at += sx_in_8("at");
    ASSUME(at < doc.size());
    at = __sxconc(at);
    doc[at] = static_cast<char>(sx_in_8("byte"));
    JSONSymbolTableProvider t;
    bool ok = t.parse(doc);
    CHECK(ok == !t.bad(), "the answer is the state");
    touch(t);
    sx_reach(ok ? "accepted" : "refused");
    sx_done();
}

// ---- source path mapping --------------------------------------------------------------------------------------------
static std::vector<std::string> components(const std::string &path) {
    std::vector<std::string> r;
    std::string cur;
    for (char c : path + "/") {
        if (c != '/')
            cur += c;
        else if (!cur.empty()) {
            if (cur != ".") r.push_back(cur);
            cur.clear();
        }
    }
    return r;
}
static std::string joined(const std::vector<std::string> &v) {
    std::string r;
    for (auto &x : v) r += "/" + x;
    return r;
}
using Mapping = std::vector<std::pair<std::string, std::string>>;  // directory of the client, directory in the symbol table
// moves a file to the other side; the innermost directory that contains it decides
static std::string moved(const Mapping &m, const std::string &file, bool to_db) {
    auto f = components(file);
    int best = -1;
    std::vector<std::string> r = f;
    for (auto &[c, d] : m) {
        auto from = components(to_db ? c : d), to = components(to_db ? d : c);
        if (from.size() > f.size() || !std::equal(from.begin(), from.end(), f.begin())) continue;
        if (static_cast<int>(from.size()) <= best) continue;
        best = static_cast<int>(from.size());
        r = to;
        r.insert(r.end(), f.begin() + best, f.end());
    }
    return joined(r);
}
static const Mapping mappings[] = {
    {},
    {{"/a", "/x"}},
    {{"/a", "/x"}, {"/a/b", "/y"}},
    {{"/a/", "/x/y/"}},
    {{"/a", "/b"}, {"/b", "/a"}},
    {{"/ab", "/x"}, {"/a", "/y/z"}},
    {{"/", "/x"}},
    {{"/a/b", "/"}},
    {{"/a", "/a"}},
    {{"/a/b/a", "/x"}, {"/b", "/y"}, {"/a", "/z"}},
    {{"/tmp", "/etc"}},   // directories that exist here
};
static constexpr int nmappings = sizeof(mappings) / sizeof(mappings[0]);

SX_HARNESS(path_mapping) {
    int k = sx_choose("mapping", nmappings);
    bool to_db = sx_choose("to_db", 2);
    // a normal name of a file below the root
    std::string f = "/" + sx_string_of("file", 1, sx_tier() ? 6 : 5, to_db ? "/ab." : (k == 4 || k == 8) ? "/ab." : "/xyz");
    for (size_t i = 0; i + 1 < f.size(); i++) {
        ASSUME(!((f[i] == '/') & (f[i + 1] == '/')));
        ASSUME(!((f[i] == '.') & (f[i + 1] == '.')));
        ASSUME(!((f[i] == '/') & (f[i + 1] == '.') & (i + 2 < f.size() ? f[i + 2] == '/' : true)));
    }
    ASSUME(f.back() != '/');
    ASSUME(f.back() != '.');
    if (k == 3) ASSUME(f != (to_db ? "/a" : "/x/y"));  // the directory itself is no file in it
    JSONSymbolTableProvider t;
    t.set_src_mapping({mappings[k].begin(), mappings[k].end()});
    auto r = to_db ? t.resolve_filename_to_db(f) : t.resolve_filename_to_client(f);
    CHECK(!r.empty() && r[0] == '/', "absolute names stay absolute");
    CHECK(joined(components(r)) == moved(mappings[k], f, to_db), "exactly the files in a mapped directory are moved, to the same place below its counterpart");
    if (k <= 6 && to_db) {
        // the directories of the symbol table don't overlap
        auto back = t.resolve_filename_to_client(r);
        bool mapped = k == 6 || moved(mappings[k], f, true) != joined(components(f));
        if (mapped) CHECK(joined(components(back)) == joined(components(f)), "mapping there and back gives the same file");
    }
    // replaced mappings have no effect any more
    t.set_src_mapping({});
    CHECK(t.resolve_filename_to_db(f) == f && t.resolve_filename_to_client(f) == f, "without a mapping names are the same");
    sx_reach("end");
    sx_done();
}

// Breakpoints of the JSON symbol table are found under, and reported with, the client's file names.
SX_HARNESS(json_mapping) {
    static const char *files[] = {"/x/p.cc", "/x/b/p.cc", "/xb/p.cc", "/y/p.cc"};
    int in_db = sx_choose("file", 4), k = sx_choose("mapping", 7);
    std::string line;
    uint32_t n = digit("line", line);
    bool nested = sx_choose("nested", 2);
    std::string leaf = "{\"type\":\"none\",\"line\":" + line + "}";
    std::string other = ",{\"type\":\"block\",\"filename\":\"/zz/q.cc\",\"scope\":[{\"type\":\"none\",\"line\":3}]}";
    std::string blk = "{\"type\":\"block\",\"filename\":" + quoted(files[in_db]) + ",\"scope\":[" + leaf + "]}";
    if (nested) blk = "{\"type\":\"block\",\"filename\":\"/zz/q.cc\",\"scope\":[" + blk + "]}";
    JSONSymbolTableProvider t;
    CHECK(t.parse(table(module("mod", "[" + blk + other + "]"))), "accepted");
    t.set_src_mapping({mappings[k].begin(), mappings[k].end()});
    static const char *asked[] = {"/a/p.cc", "/a/b/p.cc", "/ab/p.cc", "/b/p.cc", "/x/p.cc", "/xb/p.cc", "/a/b/b/p.cc", "/p.cc", "/b/a/p.cc", "/y/p.cc", "/x/b/p.cc", "/xb/b/p.cc"};
    int q = sx_choose("asked", 12);
    uint32_t l = sx_in_8("asked_line");
    ASSUME(l < 10);
    auto r = t.get_breakpoints(asked[q], l);
    bool same = moved(mappings[k], asked[q], true) == files[in_db];
    size_t want = same && ((l == 0) | (l == n)) ? 1 : 0;
    CHECK(r.size() == want, "breakpoints are found under the client's name of their file");
    auto shown = moved(mappings[k], files[in_db], false);
    for (auto &b : r) CHECK(joined(components(b.filename)) == shown, "breakpoints are reported with the client's name of their file");
    int found = 0;
    for (auto id : t.execution_bp_orders()) {
        auto b = t.get_breakpoint(id);
        CHECK(b.has_value(), "every breakpoint exists");
        found += joined(components(b->filename)) == shown;
    }
    CHECK(found == 1, "breakpoints are reported with the client's name of their file");
    sx_reach("end");
    sx_done();
}

// Runtime of the symbolic execution: expressions (Z3), shadow memory, checked heap, path exploration.
//
// Exploration: a path is identified by the assignment of the symbolic inputs that drives it. A worker
// process (forked from a pristine parent, so every path starts from the same memory image) runs the
// harness under that assignment; at every decision that depends on a symbolic value it asserts the
// outcome taken and asks Z3 whether the opposite outcome is satisfiable under the path condition. If
// it is, the model becomes a new path to run; if it is not, that side is discharged. When the work
// list is empty, every feasible path within the harness bounds has been executed symbolically.
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <execinfo.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <new>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>
#include "race.hh"

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_calloc(size_t, size_t);

namespace {
using u8 = uint8_t;
using u32 = uint32_t;
using i64 = int64_t;
using u64 = uint64_t;

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ expressions
struct Expr {
    Z3_ast a;
    u32 w;
    Expr *zsrc;  // set when this is zext(zsrc)
    u32 sb;      // the value is known to fit in sb signed bits (w if nothing is known)
    Expr *isrc;  // set when this is the bit pattern of the double that equals this (64-bit signed) integer
};

Z3_context ctx;
Z3_solver solver;
Z3_sort boolSort;
Z3_sort bvSort[65];
Z3_sort bv(u32 w) {
    if (w <= 64) {
        if (!bvSort[w]) {
            bvSort[w] = Z3_mk_bv_sort(ctx, w);
        }
        return bvSort[w];
    }
    return Z3_mk_bv_sort(ctx, w);
}
Z3_ast keep(Z3_ast a) { return a; }
Expr *mk(Z3_ast a, u32 w, Expr *z = nullptr) {
    auto *e = static_cast<Expr *>(__libc_malloc(sizeof(Expr)));
    e->a = keep(a);
    e->w = w;
    e->zsrc = z;
    e->isrc = nullptr;
    e->sb = z && z->w < w ? z->w + 1 : w;
    return e;
}
u64 mask(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
Z3_ast cst(u64 v, u32 w) {
    if (w == 1) return v & 1 ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    return Z3_mk_unsigned_int64(ctx, v & mask(w), bv(w));
}
u32 sbits(Expr *e, u64 v, u32 w) {
    if (e) return e->sb;
    i64 x = static_cast<i64>(v << (64 - w)) >> (64 - w);
    u32 n = 1;
    while (n < w && (x >> (n - 1)) != 0 && (x >> (n - 1)) != -1) n++;
    return n;
}
Expr *withBits(Expr *e, u32 n) {
    if (e && n < e->sb) e->sb = n;
    return e;
}
Z3_ast lowBits(Z3_ast x, u32 nw) {
    if (Z3_is_numeral_ast(ctx, x)) {
        u64 v = 0;
        Z3_get_numeral_uint64(ctx, x, &v);
        return cst(v, nw);
    }
    Z3_app app = Z3_to_app(ctx, x);
    Z3_decl_kind k = Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, app));
    if (k == Z3_OP_SIGN_EXT || k == Z3_OP_ZERO_EXT) {
        Z3_ast s = Z3_get_app_arg(ctx, app, 0);
        u32 aw = Z3_get_bv_sort_size(ctx, Z3_get_sort(ctx, s));
        if (aw == nw) return s;
        if (aw < nw) return k == Z3_OP_SIGN_EXT ? Z3_mk_sign_ext(ctx, nw - aw, s) : Z3_mk_zero_ext(ctx, nw - aw, s);
    }
    return Z3_mk_extract(ctx, nw - 1, 0, x);
}
// operands of commutative operations in a fixed order, so that equal terms are identical
void order(Z3_ast &x, Z3_ast &y) {
    bool nx = Z3_is_numeral_ast(ctx, x), ny = Z3_is_numeral_ast(ctx, y);
    if (nx != ny ? nx : Z3_get_ast_id(ctx, x) > Z3_get_ast_id(ctx, y)) std::swap(x, y);
}
Z3_ast lift(Expr *e, u64 v, u32 w) {
    if (!e) return cst(v, w);
    return e->a;
}
Z3_ast boolToBv(Z3_ast b, u32 w) { return Z3_mk_ite(ctx, b, cst(1, w), cst(0, w)); }

// ------------------------------------------------------------------ path state (child)
struct In {
    u32 w;
    u64 v;
};
std::vector<In> assignment;
std::vector<Expr *> inputs;
std::vector<std::string> inputNames;
int outfd = -1;
bool active = false;  // inside a path
u64 depth, bound, expectHash, curHash;
u64 nQueries, nSat, nUnsat, nUnknown, nBranches, nAsserts, nSymAsserts, nConc, nExtMem;
double solverTime;
bool selfCheck = false;
u64 nSelf;
u32 tier;
std::unordered_map<u32, bool> known;  // ast id -> value implied by the path condition
u32 queryTimeoutMs = 30000;
std::map<std::string, u64> concWhy;
std::set<std::string> reached;

void send(char type, const std::string &payload) {
    std::string m;
    u32 len = payload.size();
    m.push_back(type);
    m.append(reinterpret_cast<char *>(&len), 4);
    m += payload;
    size_t off = 0;
    while (off < m.size()) {
        ssize_t r = write(outfd, m.data() + off, m.size() - off);
        if (r < 0) {
            if (errno == EINTR) continue;
            _exit(99);
        }
        off += r;
    }
}
void put64(std::string &s, u64 v) { s.append(reinterpret_cast<char *>(&v), 8); }
u64 get64(const std::string &s, size_t &p) {
    u64 v;
    memcpy(&v, s.data() + p, 8);
    p += 8;
    return v;
}
void putStr(std::string &s, const std::string &x) {
    put64(s, x.size());
    s += x;
}
std::string getStr(const std::string &s, size_t &p) {
    u64 n = get64(s, p);
    std::string r = s.substr(p, n);
    p += n;
    return r;
}

void sendStats() {
    std::string s;
    for (u64 v : {nQueries, nSat, nUnsat, nUnknown, nBranches, nAsserts, nSymAsserts, nConc, nExtMem, nSelf, depth}) put64(s, v);
    put64(s, static_cast<u64>(solverTime * 1e6));
    put64(s, reached.size());
    for (auto &r : reached) putStr(s, r);
    put64(s, concWhy.size());
    for (auto &[k, v] : concWhy) {
        putStr(s, k);
        put64(s, v);
    }
    send('S', s);
}

[[noreturn]] void finish(char type, const std::string &msg) {
    active = false;
    std::string p;
    put64(p, inputNames.size());
    for (size_t i = 0; i < inputNames.size(); i++) {
        putStr(p, inputNames[i]);
        put64(p, inputs[i]->w);
        put64(p, i < assignment.size() ? assignment[i].v : 0);
    }
    putStr(p, msg);
    sendStats();
    send(type, p);
    _exit(0);
}

u64 evalNum(Z3_model m, Z3_ast a, u32 w) {
    Z3_ast r;
    if (!Z3_model_eval(ctx, m, a, true, &r)) return 0;
    if (w == 1) return Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
    u64 v = 0;
    Z3_get_numeral_uint64(ctx, r, &v);
    return v;
}

const bool slowQueries = getenv("SX_SLOW");
Z3_lbool check(Z3_ast extra, std::vector<u64> *model) {
    double t0 = now();
    nQueries++;
    Z3_lbool r;
    Z3_ast as[1] = {extra};
    Z3_solver_push(ctx, solver);
    Z3_solver_assert(ctx, solver, as[0]);
    r = Z3_solver_check(ctx, solver);
    if (r == Z3_L_TRUE && model) {
        Z3_model m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, m);
        for (auto *i : inputs) model->push_back(evalNum(m, i->a, i->w));
        Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, solver, 1);
    solverTime += now() - t0;
    if (r == Z3_L_TRUE) nSat++;
    else if (r == Z3_L_FALSE) nUnsat++;
    else nUnknown++;
    if (slowQueries && now() - t0 > 1) fprintf(stderr, "SLOW %d %.1f: %.3000s\n--ctx %.6000s\n", r, now() - t0, std::string(Z3_ast_to_string(ctx, extra)).c_str(), Z3_solver_to_string(ctx, solver));
    return r;
}

u64 hashStep(u64 h, u32 site, bool outcome) {
    h ^= (static_cast<u64>(site) << 1) | outcome;
    h *= 0x9E3779B97F4A7C15ull;
    return h ^ (h >> 29);
}

u64 modelOf(Expr *e) {  // evaluate under the current assignment, by substitution (self check only)
    std::vector<Z3_ast> from, to;
    for (size_t i = 0; i < inputs.size(); i++) {
        from.push_back(inputs[i]->a);
        to.push_back(cst(i < assignment.size() ? assignment[i].v : 0, inputs[i]->w));
    }
    Z3_ast r = Z3_substitute(ctx, e->a, from.size(), from.data(), to.data());
    Z3_ast s = Z3_simplify(ctx, r);
    if (e->w == 1) return Z3_get_bool_value(ctx, s) == Z3_L_TRUE;
    u64 v = 0;
    Z3_get_numeral_uint64(ctx, s, &v);
    return v;
}
void self(Expr *e, u64 v, const char *what) {
    if (!selfCheck || !e) return;
    nSelf++;
    u64 m = modelOf(e);
    if ((m & mask(e->w)) != (v & mask(e->w))) {
        char buf[512];
        snprintf(buf, sizeof buf, "self-check %s: encoding 0x%llx, execution 0x%llx (w=%u): %.200s", what, (unsigned long long)m, (unsigned long long)v, e->w,
                 Z3_ast_to_string(ctx, e->a));
        finish('X', buf);
    }
}

// A decision: cond (Bool) currently evaluates to `outcome`.
void decide(Z3_ast cond, bool outcome, u32 site, char kind, bool passed = false) {
    if (!active) return;
    // normalise negations
    while (Z3_get_ast_kind(ctx, cond) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(ctx, cond);
        Z3_decl_kind k = Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, app));
        if (k == Z3_OP_NOT) {
            cond = Z3_get_app_arg(ctx, app, 0);
            outcome = !outcome;
        } else break;
    }
    {
        Z3_lbool b = Z3_get_bool_value(ctx, cond);
        if (b != Z3_L_UNDEF) {
            if ((b == Z3_L_TRUE) != outcome) finish('X', "encoding disagrees with execution on a constant decision");
            return;
        }
    }
    u32 id = Z3_get_ast_id(ctx, cond);
    auto it = known.find(id);
    if (it != known.end()) {
        if (it->second != outcome) finish('X', "encoding disagrees with execution on a repeated decision");
        return;
    }
    keep(cond);
    nBranches++;
    Z3_ast notc = keep(Z3_mk_not(ctx, cond));
    Z3_ast taken = outcome ? cond : notc, other = outcome ? notc : cond;
    if (depth < bound) {
        curHash = hashStep(curHash, site, outcome);
        depth++;
        if (depth == bound && curHash != expectHash) finish('X', "path diverged from the solver's prediction");
    } else {
        std::vector<u64> model;
        Z3_lbool r = check(other, &model);
        if (r == Z3_L_TRUE) {
            std::string p;
            p.push_back(kind);
            put64(p, depth + 1);
            put64(p, hashStep(curHash, site, !outcome));
            put64(p, model.size());
            for (size_t i = 0; i < model.size(); i++) {
                put64(p, inputs[i]->w);
                put64(p, model[i]);
            }
            put64(p, 0);
            send('N', p);
        }
        curHash = hashStep(curHash, site, outcome);
        depth++;
    }
    // a passed CHECK adds nothing: its negation was refuted, or is reported as a violation
    if (!passed) Z3_solver_assert(ctx, solver, taken);
    known[id] = outcome;
}

// A value that must become concrete (symbolic address, length, argument of un-instrumented code): the
// path fixes it to its current value, and every other feasible value gets a path of its own. `excl`
// carries the values other paths already took at this event.
std::vector<u64> excl;
void concretizeValue(Z3_ast e, u64 v, u32 w) {
    if (!active) return;
    Z3_ast eq = w == 1 ? (v & 1 ? e : Z3_mk_not(ctx, e)) : Z3_mk_eq(ctx, e, cst(v, w));
    if (Z3_get_bool_value(ctx, eq) == Z3_L_TRUE) return;
    u32 id = Z3_get_ast_id(ctx, eq);
    auto it = known.find(id);
    if (it != known.end() && it->second) return;
    nBranches++;
    const u32 site = 0xffff0000u;
    bool mine = depth + 1 == bound && !excl.empty();
    if (depth >= bound || mine) {
        std::vector<u64> out;
        if (mine) out = excl;
        out.push_back(v);
        std::vector<Z3_ast> ne;
        for (u64 x : out) ne.push_back(Z3_mk_not(ctx, w == 1 ? (x & 1 ? e : Z3_mk_not(ctx, e)) : Z3_mk_eq(ctx, e, cst(x, w))));
        std::vector<u64> model;
        Z3_lbool r = check(Z3_mk_and(ctx, ne.size(), ne.data()), &model);
        if (r == Z3_L_TRUE) {
            std::string p;
            p.push_back('c');
            put64(p, depth + 1);
            put64(p, hashStep(curHash, site, true));
            put64(p, model.size());
            for (size_t i = 0; i < model.size(); i++) {
                put64(p, inputs[i]->w);
                put64(p, model[i]);
            }
            put64(p, out.size());
            for (u64 x : out) put64(p, x);
            send('N', p);
        }
    }
    curHash = hashStep(curHash, site, true);
    depth++;
    if (depth == bound && curHash != expectHash) finish('X', "path diverged from the solver's prediction (value)");
    Z3_solver_assert(ctx, solver, eq);
    known[id] = true;
}

// ------------------------------------------------------------------ shadow memory
struct SB {
    Expr *e;
    u8 idx, conc;
};
struct Page {
    SB b[4096];
};
std::unordered_map<u64, Page *> *pages;
u8 pageBloom[1 << 16];
Page *lastPage;
u64 lastNo = ~0ull;
Page *findPage(u64 no) {
    if (!pageBloom[no & 0xffff]) return nullptr;
    if (no == lastNo) return lastPage;
    auto it = pages->find(no);
    if (it == pages->end()) return nullptr;
    lastNo = no;
    lastPage = it->second;
    return lastPage;
}
Page *getPage(u64 no) {
    Page *p = findPage(no);
    if (p) return p;
    p = static_cast<Page *>(__libc_calloc(1, sizeof(Page)));
    (*pages)[no] = p;
    pageBloom[no & 0xffff] = 1;
    lastNo = no;
    lastPage = p;
    return p;
}
SB *liveByte(u64 a) {
    Page *p = findPage(a >> 12);
    if (!p) return nullptr;
    SB *s = &p->b[a & 4095];
    if (!s->e) return nullptr;
    if (*reinterpret_cast<u8 *>(a) != s->conc) {  // overwritten by un-instrumented code
        s->e = nullptr;
        return nullptr;
    }
    return s;
}
void clearBytes(u64 a, u64 n) {
    while (n) {
        u64 off = a & 4095, k = std::min<u64>(n, 4096 - off);
        if (Page *p = findPage(a >> 12)) memset(&p->b[off], 0, k * sizeof(SB));
        a += k;
        n -= k;
    }
}

// ------------------------------------------------------------------ checked heap
const u64 kArena = 0x200000000000ull, kArenaSize = 1ull << 32;
u64 arenaNext;
u8 *valid;  // one byte per arena byte: 1 = addressable
bool inArena(u64 a) { return a >= kArena && a < kArena + kArenaSize; }
void initArena() {
    if (valid) return;
    void *p = mmap(reinterpret_cast<void *>(kArena), kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) abort();
    valid = static_cast<u8 *>(mmap(nullptr, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (valid == MAP_FAILED) abort();
    arenaNext = kArena + 64;
}
void *arenaAlloc(u64 n, u64 al = 16) {
    initArena();
    u64 hdr = (arenaNext + 32 + al - 1) / al * al;
    u64 end = hdr + n;
    if (n > kArenaSize / 2 || end + 64 > kArena + kArenaSize) return nullptr;
    *reinterpret_cast<u64 *>(hdr - 16) = n;
    memset(valid + (hdr - kArena), 1, n);
    arenaNext = (end + 16 + 15) / 16 * 16;
    return reinterpret_cast<void *>(hdr);
}
[[noreturn]] void memError(const char *what, u64 a) {
    char buf[128];
    snprintf(buf, sizeof buf, "memory error: %s at 0x%llx", what, (unsigned long long)a);
    if (active) finish('V', buf);
    fprintf(stderr, "%s\n", buf);
    abort();
}
void arenaFree(void *p) {
    u64 a = reinterpret_cast<u64>(p);
    u64 n = *reinterpret_cast<u64 *>(a - 16);
    if (n && !valid[a - kArena]) memError("double free", a);
    if (race::used)
        if (u64 b = race::access(a, n, true)) memError("data race with the release of memory", b);
    memset(valid + (a - kArena), 0, n);
    clearBytes(a, n);
}
bool atomicAccess;
inline void checkAccess(u64 a, u64 n, const char *what) {
    if (!inArena(a)) return;
    for (u64 i = 0; i < n; i++)
        if (!valid[a - kArena + i]) memError(what, a + i);
    if (race::used) {
        if (atomicAccess)
            atomicAccess = false;
        else if (u64 b = race::access(a, n, what[5] == 'w'))
            memError("data race", b);
    }
}
}  // namespace
extern "C" void __sx_atomic(const void *p) {
    if (!race::used) return;
    sx_race_acquire(p);
    sx_race_release(p);
    atomicAccess = inArena(reinterpret_cast<u64>(p));
}

extern "C" {
void *__sx_args[256], *__sx_rets[256], *__sx_tag;
extern void *__sx_fntable[];
extern char __sx_fnnames[];

void *__sx_malloc(size_t n) { return arenaAlloc(n); }
void *__sx_new(size_t n) {
    void *p = arenaAlloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *__sx_new_nt(size_t n, const std::nothrow_t &) { return arenaAlloc(n); }
void *__sx_new_al(size_t n, size_t al) { return arenaAlloc(n, al < 16 ? 16 : al); }
void *__sx_calloc(size_t n, size_t m) {
    void *p = arenaAlloc(n * m);
    if (p) memset(p, 0, n * m);
    return p;
}
void free(void *p) {
    if (!p) return;
    if (inArena(reinterpret_cast<u64>(p))) arenaFree(p);
    else __libc_free(p);
}
void __sx_free(void *p) { free(p); }
void __sx_sfree(void *p, size_t) { free(p); }
void __sx_sfree3(void *p, size_t, size_t) { free(p); }
void __sx_memmove(void *d, Expr *ds, const void *s, Expr *ss, u64 n, Expr *ns);
void *__sx_realloc(void *p, size_t n) {
    if (!p) return arenaAlloc(n);
    if (!inArena(reinterpret_cast<u64>(p))) return __libc_realloc(p, n);
    u64 old = *reinterpret_cast<u64 *>(reinterpret_cast<u64>(p) - 16);
    void *q = arenaAlloc(n);
    if (!q) return nullptr;
    u64 k = std::min<u64>(old, n);
    __sx_memmove(q, nullptr, p, nullptr, k, nullptr);
    memcpy(q, p, k);
    arenaFree(p);
    return q;
}

// ------------------------------------------------------------------ operations
Expr *__sx_cast(u32 kind, Expr *e, u32 fw, u32 tw) {
    if (!e) return nullptr;
    if (kind == 2) {  // trunc
        if (tw == 1) {
            if (e->zsrc && e->zsrc->w == 1) return e->zsrc;
            return mk(Z3_mk_eq(ctx, Z3_mk_extract(ctx, 0, 0, e->a), Z3_mk_unsigned_int64(ctx, 1, bv(1))), 1);
        }
        if (e->zsrc) {
            if (e->zsrc->w == tw) return e->zsrc;
            if (e->zsrc->w < tw) return __sx_cast(0, e->zsrc, e->zsrc->w, tw);
        }
        return mk(Z3_mk_extract(ctx, tw - 1, 0, e->a), tw);
    }
    if (kind == 0) {
        Expr *src = e->zsrc ? e->zsrc : e;
        if (src->w == 1) return mk(boolToBv(src->a, tw), tw, src);
        return mk(Z3_mk_zero_ext(ctx, tw - src->w, src->a), tw, src);
    }
    if (fw == 1) return mk(Z3_mk_ite(ctx, e->a, cst(~0ull, tw), cst(0, tw)), tw);
    if (e->zsrc && e->zsrc->w < fw) return __sx_cast(0, e, fw, tw);
    return withBits(mk(Z3_mk_sign_ext(ctx, tw - fw, e->a), tw), e->sb);
}

enum { ADD = 13, FADD, SUB, FSUB, MUL, FMUL, UDIV, SDIV, FDIV, UREM, SREM, FREM, SHL, LSHR, ASHR, AND, OR, XOR };

Expr *__sx_bin(u32 op, Expr *a, u64 av, Expr *b, u64 bv_, u32 w) {
    if (!a && !b) return nullptr;
    av &= mask(w);
    bv_ &= mask(w);
    if (w == 1) {
        Z3_ast x = lift(a, av, 1), y = lift(b, bv_, 1), r;
        Z3_ast as[2] = {x, y};
        switch (op) {
            case AND: case MUL:
                if (!a) return av ? b : nullptr;
                if (!b) return bv_ ? a : nullptr;
                r = Z3_mk_and(ctx, 2, as);
                break;
            case OR:
                if (!a) return av ? nullptr : b;
                if (!b) return bv_ ? nullptr : a;
                r = Z3_mk_or(ctx, 2, as);
                break;
            case XOR: case ADD: case SUB:
                if (!a) return av ? mk(Z3_mk_not(ctx, y), 1) : b;
                if (!b) return bv_ ? mk(Z3_mk_not(ctx, x), 1) : a;
                r = Z3_mk_xor(ctx, x, y);
                break;
            case 102: case 101: r = Z3_mk_or(ctx, 2, as); break;
            case 103: case 100: r = Z3_mk_and(ctx, 2, as); break;
            default: finish('X', "unsupported boolean operation");
        }
        return mk(r, 1);
    }
    // peepholes
    switch (op) {
        case ADD: case OR: case XOR:
            if (!a && av == 0) return b;
            if (!b && bv_ == 0) return a;
            break;
        case SUB: case SHL: case LSHR: case ASHR:
            if (!b && bv_ == 0) return a;
            break;
        case MUL:
            if ((!a && av == 0) || (!b && bv_ == 0)) return nullptr;
            if (!a && av == 1) return b;
            if (!b && bv_ == 1) return a;
            break;
        case UDIV: case SDIV:
            if (!b && bv_ == 1) return a;
            break;
        case AND: {
            if ((!a && av == 0) || (!b && bv_ == 0)) return nullptr;
            if (!a && av == mask(w)) return b;
            if (!b && bv_ == mask(w)) return a;
            Expr *e = a ? a : b;
            u64 c = a ? bv_ : av;
            if (!(a && b) && e->zsrc) {
                u32 sw = e->zsrc->w;
                if ((c & mask(sw)) == mask(sw)) return e;
                if ((c & mask(sw)) == 0) return nullptr;
            }
            break;
        }
        default: break;
    }
    Z3_ast x = lift(a, av, w), y = lift(b, bv_, w), r;
    u32 sa = sbits(a, av, w), sbb = sbits(b, bv_, w), res = w;
    switch (op) {
        case ADD: case SUB: res = std::max(sa, sbb) + 1; break;
        case MUL: res = sa + sbb; break;
        case SDIV: res = sa + 1; break;
        case SREM: res = std::min(sa, sbb); break;
        case AND: case OR: case XOR: res = std::max(sa, sbb); break;
        case ASHR: res = sa; break;
        default: break;
    }
    if (res > w) res = w;
    if (op == ADD || op == MUL || op == AND || op == OR || op == XOR) order(x, y);
    // multiplication and division of small numbers: do it in as few bits as the operands need
    u32 nw = op == MUL ? (a && b ? sa + sbb : w) : op == SDIV || op == SREM ? std::max(sa, sbb) + 1 : w;
    if (nw < w) {
        Z3_ast xl = lowBits(x, nw), yl = lowBits(y, nw);
        r = op == MUL ? Z3_mk_bvmul(ctx, xl, yl) : op == SDIV ? Z3_mk_bvsdiv(ctx, xl, yl) : Z3_mk_bvsrem(ctx, xl, yl);
        if (op == SDIV || op == SREM) {
            // division by zero does not get here (it is a path of its own), but keep the terms equivalent
            Z3_ast z = Z3_mk_eq(ctx, yl, cst(0, nw));
            Z3_ast full = op == SDIV ? Z3_mk_bvsdiv(ctx, x, cst(0, w)) : x;
            return withBits(mk(Z3_mk_ite(ctx, z, full, Z3_mk_sign_ext(ctx, w - nw, r)), w), res);
        }
        return withBits(mk(Z3_mk_sign_ext(ctx, w - nw, r), w), res);
    }
    switch (op) {
        case ADD: r = Z3_mk_bvadd(ctx, x, y); break;
        case SUB: r = Z3_mk_bvsub(ctx, x, y); break;
        case MUL: r = Z3_mk_bvmul(ctx, x, y); break;
        case UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
        case SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case UREM: r = Z3_mk_bvurem(ctx, x, y); break;
        case SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
        case SHL: r = Z3_mk_bvshl(ctx, x, y); break;
        case LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
        case ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
        case AND: r = Z3_mk_bvand(ctx, x, y); break;
        case OR: r = Z3_mk_bvor(ctx, x, y); break;
        case XOR: r = Z3_mk_bvxor(ctx, x, y); break;
        case 100: r = Z3_mk_ite(ctx, Z3_mk_bvsge(ctx, x, y), x, y); break;
        case 101: r = Z3_mk_ite(ctx, Z3_mk_bvsle(ctx, x, y), x, y); break;
        case 102: r = Z3_mk_ite(ctx, Z3_mk_bvuge(ctx, x, y), x, y); break;
        case 103: r = Z3_mk_ite(ctx, Z3_mk_bvule(ctx, x, y), x, y); break;
        case 104: r = Z3_mk_ite(ctx, Z3_mk_bvuge(ctx, x, y), Z3_mk_bvsub(ctx, x, y), cst(0, w)); break;
        case 105: {
            Z3_ast s = Z3_mk_bvadd(ctx, x, y);
            r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, s, x), cst(~0ull, w), s);
            break;
        }
        default: finish('X', "unsupported operation");
    }
    return withBits(mk(r, w), res);
}

Expr *__sx_abs(Expr *e, u32 w) {
    if (!e) return nullptr;
    return mk(Z3_mk_ite(ctx, Z3_mk_bvslt(ctx, e->a, cst(0, w)), Z3_mk_bvneg(ctx, e->a), e->a), w);
}
Expr *__sx_bswap(Expr *e, u32 w) {
    if (!e) return nullptr;
    Z3_ast r = Z3_mk_extract(ctx, 7, 0, e->a);
    for (u32 i = 1; i < w / 8; i++) r = Z3_mk_concat(ctx, r, Z3_mk_extract(ctx, 8 * i + 7, 8 * i, e->a));
    return mk(r, w);
}
Expr *__sx_fsh(u32 right, Expr *a, u64 av, Expr *b, u64 bv_, Expr *c, u64 cv, u32 w) {
    if (!a && !b && !c) return nullptr;
    Z3_ast cat = Z3_mk_concat(ctx, lift(a, av, w), lift(b, bv_, w));
    Z3_ast sh = Z3_mk_bvurem(ctx, lift(c, cv, w), cst(w, w));
    Z3_ast shx = Z3_mk_zero_ext(ctx, w, sh);
    if (right) return mk(Z3_mk_extract(ctx, w - 1, 0, Z3_mk_bvlshr(ctx, cat, shx)), w);
    return mk(Z3_mk_extract(ctx, 2 * w - 1, w, Z3_mk_bvshl(ctx, cat, shx)), w);
}
Expr *__sx_bits(u32 kind, Expr *e, u32 w) {
    if (!e) return nullptr;
    Z3_ast r;
    auto bit = [&](u32 i) { return Z3_mk_eq(ctx, Z3_mk_extract(ctx, i, i, e->a), Z3_mk_unsigned_int64(ctx, 1, bv(1))); };
    if (kind == 0) {
        r = cst(0, w);
        for (u32 i = 0; i < w; i++) r = Z3_mk_bvadd(ctx, r, boolToBv(bit(i), w));
    } else {
        r = cst(w, w);
        for (u32 k = 0; k < w; k++) {
            u32 i = kind == 1 ? k : w - 1 - k;
            r = Z3_mk_ite(ctx, bit(i), cst(kind == 1 ? w - 1 - i : i, w), r);
        }
    }
    return mk(r, w);
}
Expr *__sx_ovf(u32 op, u32 sgn, Expr *a, u64 av, Expr *b, u64 bv_, u32 w) {
    if (!a && !b) return nullptr;
    Z3_ast x = lift(a, av, w), y = lift(b, bv_, w);
    u32 ext = op == MUL ? w : 1;
    Z3_ast ex = sgn ? Z3_mk_sign_ext(ctx, ext, x) : Z3_mk_zero_ext(ctx, ext, x);
    Z3_ast ey = sgn ? Z3_mk_sign_ext(ctx, ext, y) : Z3_mk_zero_ext(ctx, ext, y);
    Z3_ast full = op == ADD ? Z3_mk_bvadd(ctx, ex, ey) : op == SUB ? Z3_mk_bvsub(ctx, ex, ey) : Z3_mk_bvmul(ctx, ex, ey);
    Z3_ast nar = Z3_mk_extract(ctx, w - 1, 0, full);
    Z3_ast back = sgn ? Z3_mk_sign_ext(ctx, ext, nar) : Z3_mk_zero_ext(ctx, ext, nar);
    return mk(Z3_mk_not(ctx, Z3_mk_eq(ctx, full, back)), 1);
}

// integer of at most 33 significant bits to double: exact
Expr *__sx_i2d(Expr *e, u64 v, u32 fw, u32 isSigned) {
    if (!e || !active) return nullptr;
    if (fw == 1 || (isSigned ? e->sb > 33 : fw > 32 && !(e->zsrc && e->zsrc->w <= 32))) {
        concretizeValue(e->a, v & mask(fw), fw);
        return nullptr;
    }
    Expr *x = fw < 64 ? __sx_cast(isSigned, e, fw, 64) : e;
    Z3_ast neg = Z3_mk_bvslt(ctx, x->a, cst(0, 64));
    Z3_ast m = Z3_mk_ite(ctx, neg, Z3_mk_bvneg(ctx, x->a), x->a), r = cst(0, 64);
    for (u32 k = 0; k <= 33; k++) {
        Z3_ast ge = Z3_mk_bvuge(ctx, m, cst(1ull << k, 64));
        Z3_ast man = Z3_mk_bvand(ctx, Z3_mk_bvshl(ctx, m, cst(52 - k, 64)), cst((1ull << 52) - 1, 64));
        r = Z3_mk_ite(ctx, ge, Z3_mk_bvor(ctx, man, cst((1023ull + k) << 52, 64)), r);
    }
    r = Z3_mk_ite(ctx, neg, Z3_mk_bvor(ctx, r, cst(1ull << 63, 64)), r);
    Expr *d = mk(r, 64);
    d->isrc = x;
    return d;
}
Expr *__sx_d2i(Expr *e, u64 v, u32 tw) {
    if (!e || !active) return nullptr;
    if (!e->isrc) {
        concretizeValue(e->a, v, 64);
        return nullptr;
    }
    return tw < 64 ? __sx_cast(2, e->isrc, 64, tw) : e->isrc;
}
Expr *__sx_icmp(u32 pred, Expr *a, u64 av, Expr *b, u64 bv_, u32 w);
Expr *__sx_fcmp(u32 pred, Expr *a, u64 av, Expr *b, u64 bv_) {
    if ((!a && !b) || !active) return nullptr;
    double da, db;
    memcpy(&da, &av, 8);
    memcpy(&db, &bv_, 8);
    if ((a && !a->isrc) || (b && !b->isrc) || da != da || db != db || pred == 0 || pred == 7 || pred == 8 || pred == 15) {
        if (a) concretizeValue(a->a, av, 64);
        if (b) concretizeValue(b->a, bv_, 64);
        return nullptr;
    }
    u32 p = pred & 7;  // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
    static const u32 ip[8] = {0, 32, 38, 39, 40, 41, 33, 0};
    if (a && b) return __sx_icmp(ip[p], a->isrc, static_cast<u64>(static_cast<i64>(da)), b->isrc, static_cast<u64>(static_cast<i64>(db)), 64);
    if (!a) {
        std::swap(a, b);
        std::swap(da, db);
        if (p >= 2 && p <= 5) p = p < 4 ? p + 2 : p - 2;
    }
    double c = db > 1e17 ? 1e17 : db < -1e17 ? -1e17 : db, fl = __builtin_floor(c);
    if ((p == 1 || p == 6) && fl != c) return mk(p == 1 ? Z3_mk_false(ctx) : Z3_mk_true(ctx), 1);
    i64 k = static_cast<i64>(fl);
    if (fl != c && (p == 3 || p == 4)) k++;  // x >= c, x < c: the next integer
    return __sx_icmp(ip[p], a->isrc, static_cast<u64>(static_cast<i64>(da)), nullptr, static_cast<u64>(k), 64);
}
Expr *__sx_icmp(u32 pred, Expr *a, u64 av, Expr *b, u64 bv_, u32 w) {
    if (!a && !b) return nullptr;
    av &= mask(w);
    bv_ &= mask(w);
    // compare of zext(x) with a constant or another zext: narrow (unsigned/equality predicates)
    if (w > 1) {
        Expr *za = a ? a->zsrc : nullptr, *zb = b ? b->zsrc : nullptr;
        u32 nw = 0;
        if (a && b && za && zb && za->w == zb->w) nw = za->w;
        else if (a && !b && za && bv_ <= mask(za->w)) nw = za->w;
        else if (b && !a && zb && av <= mask(zb->w)) nw = zb->w;
        if (nw && nw < w) {
            u32 p = pred;
            if (p >= 38) p -= 4;  // sgt..sle -> ugt..ule (both non-negative after zext)
            return __sx_icmp(p, a ? za : nullptr, av, b ? zb : nullptr, bv_, nw);
        }
    }
    if (w == 1) {
        Z3_ast x = lift(a, av, 1), y = lift(b, bv_, 1), r;
        if (pred == 32 || pred == 33) {
            bool neg = pred == 33;
            if (!a || !b) {
                Expr *e = a ? a : b;
                bool c = a ? bv_ & 1 : av & 1;
                if (c != neg) return e;
                return mk(Z3_mk_not(ctx, e->a), 1);
            }
            r = neg ? Z3_mk_xor(ctx, x, y) : Z3_mk_iff(ctx, x, y);
            return mk(r, 1);
        }
        x = boolToBv(x, 2), y = boolToBv(y, 2);
        bool s = pred >= 38;
        u32 p = s ? pred - 4 : pred;
        if (s) std::swap(x, y);  // i1: true is -1
        switch (p) {
            case 34: r = Z3_mk_bvugt(ctx, x, y); break;
            case 35: r = Z3_mk_bvuge(ctx, x, y); break;
            case 36: r = Z3_mk_bvult(ctx, x, y); break;
            default: r = Z3_mk_bvule(ctx, x, y); break;
        }
        return mk(r, 1);
    }
    Z3_ast x = lift(a, av, w), y = lift(b, bv_, w), r;
    switch (pred) {
        case 32: order(x, y); r = Z3_mk_eq(ctx, x, y); break;
        case 33: order(x, y); r = Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)); break;
        case 34: r = Z3_mk_bvugt(ctx, x, y); break;
        case 35: r = Z3_mk_bvuge(ctx, x, y); break;
        case 36: r = Z3_mk_bvult(ctx, x, y); break;
        case 37: r = Z3_mk_bvule(ctx, x, y); break;
        case 38: r = Z3_mk_bvsgt(ctx, x, y); break;
        case 39: r = Z3_mk_bvsge(ctx, x, y); break;
        case 40: r = Z3_mk_bvslt(ctx, x, y); break;
        case 41: r = Z3_mk_bvsle(ctx, x, y); break;
        default: finish('X', "icmp predicate");
    }
    return mk(r, 1);
}

Expr *__sx_select(Expr *c, bool cv, Expr *t, u64 tv, Expr *f, u64 fv, u32 w) {
    if (!c) return cv ? t : f;
    tv &= mask(w);
    fv &= mask(w);
    if (!t && !f && tv == fv) return nullptr;
    if (w == 1) {
        Z3_ast as[2];
        if (!t && tv && !f && !fv) return c;
        if (!t && !tv && !f && fv) return mk(Z3_mk_not(ctx, c->a), 1);
        if (!t && tv) { as[0] = c->a; as[1] = lift(f, fv, 1); return mk(Z3_mk_or(ctx, 2, as), 1); }
        if (!f && !fv) { as[0] = c->a; as[1] = lift(t, tv, 1); return mk(Z3_mk_and(ctx, 2, as), 1); }
        return mk(Z3_mk_ite(ctx, c->a, lift(t, tv, 1), lift(f, fv, 1)), 1);
    }
    return withBits(mk(Z3_mk_ite(ctx, c->a, lift(t, tv, w), lift(f, fv, w)), w), std::max(sbits(t, tv, w), sbits(f, fv, w)));
}

void __sx_branch(Expr *c, bool v, u32 site) {
    if (!c || !active) return;
    self(c, v, "branch");
    decide(c->a, v, site, 'b');
}
void __sx_branch_i(Expr *c, u64 v, u32 w, u32 site) {
    if (!c || !active) return;
    self(c, v, "cond");
    if (w == 1) return decide(c->a, v & 1, site, 'a');
    Expr *e = __sx_icmp(33, c, v, nullptr, 0, w);
    decide(e->a, (v & mask(w)) != 0, site, 'a');
}
void __sx_check_i(Expr *c, u64 v, u32 w, u32 site) {
    if (!c || !active) return;
    self(c, v, "check");
    v &= mask(w);
    if (w == 1) return decide(c->a, v, site, 'a', v);
    Expr *e = __sx_icmp(33, c, v, nullptr, 0, w);
    decide(e->a, v != 0, site, 'a', v != 0);
}
void __sx_concretize(Expr *e, u64 v, u32 w, const char *why) {
    if (!e || !active) return;
    v &= mask(w);
    self(e, v, why);
    nConc++;
    concWhy[why]++;
    concretizeValue(e->a, v, w);
}
void __sx_divcheck(u32 op, Expr *a, u64 av, Expr *b, u64 bv_, u32 w, u32 site) {
    if (!active || (!a && !b)) return;
    av &= mask(w);
    bv_ &= mask(w);
    if (b) decide(Z3_mk_eq(ctx, b->a, cst(0, w)), bv_ == 0, site, 'b');
    if (op == SDIV || op == SREM) {
        u64 mn = 1ull << (w - 1);
        Expr *x = __sx_icmp(32, a, av, nullptr, mn, w), *y = __sx_icmp(32, b, bv_, nullptr, mask(w), w);
        bool xv = av == mn, yv = bv_ == mask(w);
        Expr *c = __sx_bin(AND, x, xv, y, yv, 1);
        if (c) decide(c->a, xv && yv, site, 'b');
    }
}

// ------------------------------------------------------------------ memory operations
static void resolveAddr(Expr *ps, u64 a) {
    if (ps && active) __sx_concretize(ps, a, 64, "address");
}

Expr *__sx_load(const void *ptr, Expr *ps, u32 bits, u32 n) {
    u64 a = reinterpret_cast<u64>(ptr);
    if (ps) resolveAddr(ps, a);
    checkAccess(a, n, "heap read out of bounds or after free");
    if (!active) return nullptr;
    Page *p0 = findPage(a >> 12), *p1 = (a + n - 1) >> 12 == a >> 12 ? p0 : findPage((a + n - 1) >> 12);
    if (!p0 && !p1) return nullptr;
    SB *s[8];
    bool any = false;
    for (u32 i = 0; i < n; i++) {
        s[i] = liveByte(a + i);
        any |= s[i] != nullptr;
    }
    if (!any) return nullptr;
    Expr *r = nullptr;
    if (s[0]) {  // whole value stored as one expression
        Expr *e = s[0]->e;
        if (e->w == n * 8) {
            bool ok = true;
            for (u32 i = 0; i < n; i++) ok = ok && s[i] && s[i]->e == e && s[i]->idx == i;
            if (ok) r = e;
        }
        if (!r && e->zsrc && false) r = e;
    }
    if (!r) {
        // little endian: byte n-1 most significant; merge runs of one expression
        Z3_ast acc = nullptr;
        int i = static_cast<int>(n) - 1;
        while (i >= 0) {
            Z3_ast part;
            if (s[i]) {
                Expr *e = s[i]->e;
                int hi = s[i]->idx, j = i;
                while (j - 1 >= 0 && s[j - 1] && s[j - 1]->e == e && s[j - 1]->idx == s[j]->idx - 1) j--;
                int lo = s[j]->idx;
                if (lo == 0 && static_cast<u32>(hi * 8 + 8) == e->w) part = e->a;
                else part = Z3_mk_extract(ctx, hi * 8 + 7, lo * 8, e->a);
                i = j - 1;
            } else {
                part = Z3_mk_unsigned_int64(ctx, reinterpret_cast<const u8 *>(a)[i], bv(8));
                i--;
            }
            acc = acc ? Z3_mk_concat(ctx, acc, part) : part;
        }
        r = mk(acc, n * 8);
        // all upper bytes concrete zero: remember as a zero extension of the low byte run
        u32 k = n;
        while (k > 0 && !s[k - 1] && reinterpret_cast<const u8 *>(a)[k - 1] == 0) k--;
        if (k < n && k > 0) {
            bool all = true;
            for (u32 q = 0; q < k; q++) all = all && s[q];
            if (all && s[0]->e->w == k * 8) {
                bool same = true;
                for (u32 q = 0; q < k; q++) same = same && s[q]->e == s[0]->e && s[q]->idx == q;
                if (same) r = __sx_cast(0, s[0]->e, k * 8, n * 8);
            }
        }
    }
    if (bits < n * 8) r = __sx_cast(2, r, n * 8, bits);
    return r;
}
void __sx_load_conc(const void *ptr, Expr *ps, u32 n) {
    u64 a = reinterpret_cast<u64>(ptr);
    if (ps) resolveAddr(ps, a);
    checkAccess(a, n, "heap read out of bounds or after free");
    if (!active) return;
    for (u32 i = 0; i < n; i++)
        if (SB *s = liveByte(a + i)) {
            Z3_ast b = s->e->w == 8 ? s->e->a : Z3_mk_extract(ctx, s->idx * 8 + 7, s->idx * 8, s->e->a);
            concWhy["wide load"]++;
            nConc++;
            concretizeValue(b, s->conc, 8);
        }
}
void __sx_store_pre(void *ptr, Expr *ps, u32 n) {
    u64 a = reinterpret_cast<u64>(ptr);
    if (ps) resolveAddr(ps, a);
    checkAccess(a, n, "heap write out of bounds or after free");
}
void __sx_store(void *ptr, Expr *e, u32 bits, u32 n) {
    u64 a = reinterpret_cast<u64>(ptr);
    if (!active) return;
    if (!e) {
        if (pageBloom[(a >> 12) & 0xffff] || pageBloom[((a + n - 1) >> 12) & 0xffff]) clearBytes(a, n);
        return;
    }
    if (bits < n * 8) e = __sx_cast(0, e, bits, n * 8);
    for (u32 i = 0; i < n; i++) {
        Page *p = getPage((a + i) >> 12);
        p->b[(a + i) & 4095] = {e, static_cast<u8>(i), reinterpret_cast<u8 *>(a)[i]};
    }
}
void __sx_memmove(void *d, Expr *ds, const void *s, Expr *ss, u64 n, Expr *ns) {
    u64 da = reinterpret_cast<u64>(d), sa = reinterpret_cast<u64>(s);
    if (ns) __sx_concretize(ns, n, 64, "copy length");
    if (ds) resolveAddr(ds, da);
    if (ss) resolveAddr(ss, sa);
    if (!n) return;
    checkAccess(sa, n, "heap read out of bounds or after free");
    checkAccess(da, n, "heap write out of bounds or after free");
    if (!active || da == sa) return;
    bool any = false;
    for (u64 p = sa >> 12; p <= (sa + n - 1) >> 12 && !any; p++) any |= findPage(p) != nullptr;
    if (!any) {
        clearBytes(da, n);
        return;
    }
    std::vector<SB> tmp(n);
    for (u64 i = 0; i < n; i++) {
        SB *b = liveByte(sa + i);
        tmp[i] = b ? *b : SB{nullptr, 0, 0};
    }
    for (u64 i = 0; i < n; i++) {
        if (tmp[i].e) getPage((da + i) >> 12)->b[(da + i) & 4095] = tmp[i];
        else if (Page *p = findPage((da + i) >> 12)) p->b[(da + i) & 4095].e = nullptr;
    }
}
void __sx_byval(void *d, const void *s, u64 n) {
    if (s) __sx_memmove(d, nullptr, s, nullptr, n, nullptr);
}
void __sx_memset_pre(void *d, Expr *ds, u64 n, Expr *ns) {
    if (ns) __sx_concretize(ns, n, 64, "set length");
    if (ds) resolveAddr(ds, reinterpret_cast<u64>(d));
    if (n) checkAccess(reinterpret_cast<u64>(d), n, "heap write out of bounds or after free");
}
void __sx_memset(void *d, Expr *v, u64 n) {
    if (!n || !active) return;
    u64 a = reinterpret_cast<u64>(d);
    if (!v) return clearBytes(a, n);
    for (u64 i = 0; i < n; i++) getPage((a + i) >> 12)->b[(a + i) & 4095] = {v, 0, reinterpret_cast<u8 *>(a)[i]};
}
int __sxr_memcmp(const void *x, const void *y, size_t n) {
    const u8 *a = static_cast<const u8 *>(x), *b = static_cast<const u8 *>(y);
    __sx_rets[0] = nullptr;
    checkAccess(reinterpret_cast<u64>(a), n, "heap read out of bounds or after free");
    checkAccess(reinterpret_cast<u64>(b), n, "heap read out of bounds or after free");
    int r = 0;
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) {
            r = a[i] < b[i] ? -1 : 1;
            break;
        }
    if (!active) return r;
    size_t last = n;  // beyond the first concrete difference nothing matters
    bool any = false;
    for (size_t i = 0; i < n; i++) {
        bool s = liveByte(reinterpret_cast<u64>(a + i)) || liveByte(reinterpret_cast<u64>(b + i));
        any |= s;
        if (!s && a[i] != b[i]) {
            last = i + 1;
            break;
        }
    }
    if (!any) return r;
    Z3_ast acc = cst(0, 32);
    auto byteOf = [&](const u8 *p) -> Z3_ast {
        SB *s = liveByte(reinterpret_cast<u64>(p));
        if (!s) return cst(*p, 8);
        return s->e->w == 8 ? s->e->a : Z3_mk_extract(ctx, s->idx * 8 + 7, s->idx * 8, s->e->a);
    };
    for (size_t k = last; k-- > 0;) {
        bool s = liveByte(reinterpret_cast<u64>(a + k)) || liveByte(reinterpret_cast<u64>(b + k));
        if (!s) {
            if (a[k] != b[k]) acc = cst(static_cast<u64>(static_cast<int64_t>(a[k] < b[k] ? -1 : 1)), 32);
            continue;
        }
        Z3_ast p = byteOf(a + k), q = byteOf(b + k);
        acc = Z3_mk_ite(ctx, Z3_mk_eq(ctx, p, q), acc, Z3_mk_ite(ctx, Z3_mk_bvult(ctx, p, q), cst(~0ull, 32), cst(1, 32)));
    }
    __sx_rets[0] = mk(acc, 32);
    self(static_cast<Expr *>(__sx_rets[0]), static_cast<u32>(r), "memcmp");
    return r;
}
void __sx_ext_mem(const void *p, const char *fn) {
    if (!active) return;
    u64 a = reinterpret_cast<u64>(p);
    for (int i = 0; i < 32; i++) {
        Page *pg = findPage((a + i) >> 12);
        if (!pg) continue;
        if (pg->b[(a + i) & 4095].e && liveByte(a + i)) {
            nExtMem++;
            concWhy[std::string("extmem:") + fn]++;
            return;
        }
    }
}
static std::unordered_set<void *> *fnset;
static bool isInstr(void *p) {
    if (!fnset) {
        fnset = new std::unordered_set<void *>;
        for (void **q = __sx_fntable; *q; q++) fnset->insert(*q);
    }
    return fnset->count(p) > 0;
}
void __sx_icall(void *, u32) {}
int __sx_icall_ext(void *p) { return !isInstr(p); }
void __sx_concretize_if(int f, Expr *e, u64 v, u32 w) {
    if (f) __sx_concretize(e, v, w, "external virtual/indirect call");
}

// ------------------------------------------------------------------ harness API
static u64 newInput(const char *name, u32 w) {
    if (!active) return 0;
    size_t i = inputs.size();
    std::string n = "in" + std::to_string(i) + "_" + std::to_string(w);
    Z3_symbol s = Z3_mk_string_symbol(ctx, n.c_str());
    Expr *e = mk(Z3_mk_const(ctx, s, w == 1 ? boolSort : bv(w)), w);
    inputs.push_back(e);
    inputNames.emplace_back(name);
    if (assignment.size() <= i) assignment.push_back({w, 0});
    if (assignment[i].w != w) finish('X', "input width changed between runs of one path");
    __sx_rets[0] = e;
    return assignment[i].v & mask(w);
}
u8 sx_in_8(const char *n) { return newInput(n, 8); }
uint16_t sx_in_16(const char *n) { return newInput(n, 16); }
u32 sx_in_32(const char *n) { return newInput(n, 32); }
u64 sx_in_64(const char *n) { return newInput(n, 64); }
bool sx_in_1(const char *n) { return newInput(n, 1); }
void sx_branch_assume(bool c) {
    if (!c && active) finish('A', "");
}
void sx_branch_assert(bool c, const char *msg) {
    nAsserts++;
    if (!c) {
        if (active) finish('V', std::string("assertion: ") + msg);
        fprintf(stderr, "assertion outside path: %s\n", msg);
        abort();
    }
}
u32 __sxconc(u32 v) { return v; }  // argument is concretised by the instrumentation (external call)
void sx_reach(const char *l) { reached.insert(l); }
int sx_symbolic_run(void) { return 1; }
int sx_tier(void) { return tier; }
void sx_note(const char *) {}
void sx_noteu(const char *, u64) {}
static std::map<std::string, void (*)(void)> *registry;
void sx_register(const char *n, void (*f)(void)) {
    if (!registry) registry = new std::map<std::string, void (*)(void)>;
    (*registry)[n] = f;
}
void sx_done(void) { finish('E', ""); }
}

// ------------------------------------------------------------------ exploration (parent)
namespace {
struct Item {
    u64 bound = 0, hash = 0x1234567;
    std::vector<In> in;
    std::vector<u64> excl;
    char kind = 'b';
};
struct Worker {
    pid_t pid = -1;
    int fd = -1;
    Item item;
    std::string buf;
    bool ended = false;
    double start = 0;
};
volatile sig_atomic_t timedOut = 0;

std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void childSignal(int sig) {
    if (getenv("SX_BT")) {
        void *b[60];
        backtrace_symbols_fd(b, backtrace(b, 60), 2);
    }
    // report, then die
    if (active) {
        const char *n = sig == SIGALRM || sig == SIGXCPU ? "timeout" : strsignal(sig);
        finish(sig == SIGALRM || sig == SIGXCPU ? 'T' : 'V', std::string("signal: ") + n);
    }
    _exit(98);
}

[[noreturn]] void runChild(void (*fn)(void), const Item &item, int fd, int pathTimeout) {
    outfd = fd;
    assignment = item.in;
    bound = item.bound;
    excl = item.excl;
    expectHash = item.hash;
    curHash = 0x1234567;
    depth = 0;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);  // no reference counting: terms live as long as the (short-lived) worker
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { finish('X', std::string("z3: ") + Z3_get_error_msg(c, e)); });
    boolSort = Z3_mk_bool_sort(ctx);
    solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solver);
    Z3_params pr = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, pr);
    Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), queryTimeoutMs);
    Z3_solver_set_params(ctx, solver, pr);
    pages = new std::unordered_map<u64, Page *>;
    static char altstack[1 << 20];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = childSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGTRAP, SIGALRM, SIGXCPU}) sigaction(s, &sa, nullptr);
    alarm(pathTimeout);
    active = true;
    fn();
    finish('E', "");
}
}  // namespace

int main(int argc, char **argv) {
    std::string harness, out;
    int jobs = 8, pathTimeout = 60;
    double budget = 600;
    u64 maxPaths = ~0ull;
    int maxViol = 4;
    bool verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--harness") harness = nx();
        else if (a == "--jobs") jobs = std::stoi(nx());
        else if (a == "--budget") budget = std::stod(nx());
        else if (a == "--path-timeout") pathTimeout = std::stoi(nx());
        else if (a == "--out") out = nx();
        else if (a == "--max-paths") maxPaths = std::stoull(nx());
        else if (a == "--max-viol") maxViol = std::stoi(nx());
        else if (a == "--self-check") selfCheck = true;
        else if (a == "--tier") tier = std::stoi(nx());
        else if (a == "-v") verbose = true;
        else if (a == "--list") {
            if (registry) for (auto &[k, v] : *registry) puts(k.c_str());
            return 0;
        }
    }
    if (!registry || !registry->count(harness)) {
        fprintf(stderr, "no harness %s\n", harness.c_str());
        return 2;
    }
    initArena();
    isInstr(nullptr);
    auto fn = (*registry)[harness];
    std::deque<Item> work;
    work.push_back({});
    std::vector<Worker> ws(jobs);
    double t0 = now(), tPrint = t0;
    u64 paths = 0, completed = 0, assumed = 0, tot[12] = {0}, maxDepth = 0, samplesKept = 0;
    double solveT = 0;
    std::set<std::string> allReached;
    std::map<std::string, u64> allConc;
    struct Viol { std::string msg, inputs, raw; char type; };
    std::vector<Viol> viols;
    std::vector<std::string> errors, samples;
    std::map<std::string, int> violSeen;
    u64 timeouts = 0;
    bool stop = false;
    std::string stopWhy;
    while (true) {
        int running = 0;
        for (auto &w : ws) running += w.pid > 0;
        if (!stop && now() - t0 > budget) { stop = true; stopWhy = "time budget"; }
        if (!stop && paths >= maxPaths && !work.empty()) { stop = true; stopWhy = "path budget"; }
        if (!stop && (int)viols.size() >= maxViol) { stop = true; stopWhy = "enough violations"; }
        if (!stop && errors.size() >= 3) { stop = true; stopWhy = "engine errors"; }
        if (stop)
            for (auto &w : ws) if (w.pid > 0) kill(w.pid, SIGKILL);
        if ((work.empty() || stop) && running == 0) break;
        for (auto &w : ws) {
            if (stop || w.pid > 0 || work.empty()) continue;
            Item it = std::move(work.back());
            work.pop_back();
            int p[2];
            if (pipe(p)) return 2;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                for (auto &o : ws) if (o.pid > 0) close(o.fd);
                runChild(fn, it, p[1], pathTimeout);
            }
            close(p[1]);
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            w.pid = pid;
            w.fd = p[0];
            w.item = std::move(it);
            w.buf.clear();
            w.ended = false;
            w.start = now();
            paths++;
        }
        std::vector<pollfd> pf;
        std::vector<Worker *> pw;
        for (auto &w : ws) if (w.pid > 0) { pf.push_back({w.fd, POLLIN, 0}); pw.push_back(&w); }
        if (pf.empty()) continue;
        poll(pf.data(), pf.size(), 200);
        for (size_t k = 0; k < pf.size(); k++) {
            Worker &w = *pw[k];
            if (now() - w.start > pathTimeout + 60) kill(w.pid, SIGKILL);
            if (!pf[k].revents) continue;
            char tmp[65536];
            bool eof = false;
            while (true) {
                ssize_t r = read(w.fd, tmp, sizeof tmp);
                if (r > 0) { w.buf.append(tmp, r); continue; }
                if (r == 0) eof = true;
                break;
            }
            size_t pos = 0;
            while (w.buf.size() - pos >= 5) {
                char type = w.buf[pos];
                u32 len;
                memcpy(&len, w.buf.data() + pos + 1, 4);
                if (w.buf.size() - pos - 5 < len) break;
                std::string p = w.buf.substr(pos + 5, len);
                pos += 5 + len;
                size_t q = 0;
                if (type == 'N') {
                    Item n;
                    n.kind = p[q++];
                    n.bound = get64(p, q);
                    n.hash = get64(p, q);
                    u64 c = get64(p, q);
                    for (u64 i = 0; i < c; i++) { u32 wd = get64(p, q); u64 v = get64(p, q); n.in.push_back({wd, v}); }
                    c = get64(p, q);
                    for (u64 i = 0; i < c; i++) n.excl.push_back(get64(p, q));
                    work.push_back(std::move(n));
                } else if (type == 'S') {
                    for (int i = 0; i < 11; i++) { u64 v = get64(p, q); tot[i] += v; if (i == 10) maxDepth = std::max(maxDepth, v); }
                    solveT += get64(p, q) / 1e6;
                    u64 c = get64(p, q);
                    for (u64 i = 0; i < c; i++) allReached.insert(getStr(p, q));
                    c = get64(p, q);
                    for (u64 i = 0; i < c; i++) { auto s = getStr(p, q); allConc[s] += get64(p, q); }
                } else {
                    w.ended = true;
                    std::string ins = "[", raw;
                    u64 c = get64(p, q);
                    for (u64 i = 0; i < c; i++) {
                        auto nm = getStr(p, q);
                        u64 wd = get64(p, q), v = get64(p, q);
                        ins += (i ? "," : "") + std::string("[") + jstr(nm) + "," + std::to_string(wd) + "," + std::to_string(v) + "]";
                        raw += std::to_string(wd) + " " + std::to_string(v) + "\n";
                    }
                    ins += "]";
                    auto msg = getStr(p, q);
                    if (type == 'E') {
                        completed++;
                        if (samplesKept < 3 || (completed & (completed - 1)) == 0) { if (samples.size() < 8) { samples.push_back(ins); samplesKept++; } }
                    } else if (type == 'A') assumed++;
                    else if (type == 'V' || type == 'T') {
                        if (type == 'T') timeouts++;
                        if (violSeen[msg]++ < 2) viols.push_back({msg, ins, raw, type});
                    } else errors.push_back(msg + " inputs=" + ins);
                }
            }
            w.buf.erase(0, pos);
            if (eof) {
                int st = 0;
                waitpid(w.pid, &st, 0);
                close(w.fd);
                if (!w.ended && !stop) {
                    std::string raw;
                    for (auto &x : w.item.in) raw += std::to_string(x.w) + " " + std::to_string(x.v) + "\n";
                    std::string m = WIFSIGNALED(st) ? std::string("killed: ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
                    if (violSeen[m]++ < 2) viols.push_back({m, "[]", raw, 'K'});
                }
                w.pid = -1;
            }
        }
        if (verbose && now() - tPrint > 5) {
            tPrint = now();
            fprintf(stderr, "[%.0fs] paths %llu done %llu queue %zu queries %llu viol %zu\n", now() - t0, (unsigned long long)paths, (unsigned long long)completed, work.size(),
                    (unsigned long long)tot[0], viols.size());
        }
    }
    bool complete = !stop && tot[3] == 0 && errors.empty() && timeouts == 0;
    std::string j = "{\n";
    j += " \"harness\": " + jstr(harness) + ",\n";
    j += std::string(" \"complete\": ") + (complete ? "true" : "false") + ",\n";
    j += " \"stop\": " + jstr(stopWhy) + ",\n";
    auto num = [&](const char *k, u64 v) { j += std::string(" \"") + k + "\": " + std::to_string(v) + ",\n"; };
    num("paths", paths);
    num("paths_completed", completed);
    num("paths_outside_assumptions", assumed);
    num("left", work.size());
    num("queries", tot[0]);
    num("sat", tot[1]);
    num("unsat", tot[2]);
    num("unknown", tot[3]);
    num("symbolic_decisions", tot[4]);
    num("assertions", tot[5]);
    num("concretizations", tot[7]);
    num("extmem", tot[8]);
    num("self_checks", tot[9]);
    num("max_depth", maxDepth);
    num("timeouts", timeouts);
    j += " \"solver_s\": " + std::to_string(solveT) + ",\n \"wall_s\": " + std::to_string(now() - t0) + ",\n";
    j += " \"reached\": [";
    { bool f = true; for (auto &r : allReached) { j += (f ? "" : ",") + jstr(r); f = false; } }
    j += "],\n \"concretized\": {";
    { bool f = true; for (auto &[k, v] : allConc) { j += (f ? "" : ",") + jstr(k) + ":" + std::to_string(v); f = false; } }
    j += "},\n \"errors\": [";
    { bool f = true; for (auto &r : errors) { j += (f ? "" : ",") + jstr(r); f = false; } }
    j += "],\n \"samples\": [";
    { bool f = true; for (auto &r : samples) { j += (f ? "" : ",") + r; f = false; } }
    j += "],\n \"violations\": [";
    { bool f = true; for (auto &v : viols) { j += std::string(f ? "" : ",") + "{\"msg\":" + jstr(v.msg) + ",\"type\":\"" + v.type + "\",\"raw\":" + jstr(v.raw) + ",\"inputs\":" + v.inputs + "}"; f = false; } }
    j += "]\n}\n";
    // \u000a in raw strings is decoded by the driver
    if (out.empty()) fputs(j.c_str(), stdout);
    else { FILE *f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); }
    return 0;
}

// A simulator stand-in: a fixed object table, values set by the harness, every call checked.
#pragma once
#include <cstdarg>
#include <memory>
#include <string>
#include <vector>
#include "rtl.hh"
#include "sv_vpi_user.h"
#include "sx.h"

#ifdef SX_CONC
#include "sxsync.hh"
#define SX_QUIET sxs::Quiet sx_quiet_
#define SX_WATCH sxs::Watched sx_watched_
#else
#define SX_QUIET
#define SX_WATCH
#endif

class MockVPI : public hgdb::AVPIProvider {
public:
    struct Obj {
        int type = vpiNet;
        std::string full, name, def;
        int size = 32;
        int64_t value = 0;
        Obj *parent = nullptr;
        std::vector<Obj *> elements;
        std::string str;          // vpiHexStrVal / vpiBinStrVal / vpiStringVal answer
        int const_type = 0;
        bool is_vector = false;
    };
    struct Cb {
        s_cb_data data{};
        bool removed = false;
        bool released = false;
    };
    struct Iter {
        std::vector<Obj *> list;
        size_t pos = 0;
    };
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Cb>> cbs;
    std::vector<std::unique_ptr<Iter>> iters;
    std::vector<int> ops;
    std::vector<std::pair<Obj *, int64_t>> writes;
    std::string product = "Mock", version = "1";
    std::vector<std::string> args;
    std::vector<char *> argv;
    uint64_t time = 0;
    bool defnames = true, rewind_ok = true, refuse_cb = false;
    uint64_t reads = 0;
    std::vector<hgdb::AVPIProvider::rewind_data> rewinds;
    std::string buf;
    std::vector<t_vpi_vecval> vec;
    std::function<bool(const hgdb::AVPIProvider::rewind_data &)> on_rewind;

    static vpiHandle h(void *p) { return reinterpret_cast<vpiHandle>(p); }
    Obj *find(vpiHandle x) const {
        for (auto &o : objs)
            if (h(o.get()) == x) return o.get();
        return nullptr;
    }
    Obj *known(vpiHandle x) const {
        auto *o = find(x);
        CHECK(o != nullptr, "the simulator is only asked about objects it handed out");
        return o;
    }
    Obj *add(int type, const std::string &full, Obj *parent = nullptr, int size = 32, const std::string &def = "") {
        objs.emplace_back(std::make_unique<Obj>());
        auto *o = objs.back().get();
        o->type = type;
        o->full = full;
        auto p = full.rfind('.');
        o->name = p == std::string::npos ? full : full.substr(p + 1);
        o->parent = parent;
        o->size = size;
        o->def = def;
        return o;
    }
    Obj *module(const std::string &full, const std::string &def, Obj *parent = nullptr) { return add(vpiModule, full, parent, 0, def); }
    Obj *signal(const std::string &full, Obj *parent = nullptr, int size = 32) { return add(vpiNet, full, parent, size); }
    Obj *byName(const std::string &n) const {
        for (auto &o : objs)
            if (!o->full.empty() && o->full == n) return o.get();
        return nullptr;
    }

    static char bit(const Obj *o, int i) {  // 01xz
        if (!o->str.empty()) return i < static_cast<int>(o->str.size()) ? o->str[o->str.size() - 1 - i] : '0';
        return static_cast<char>('0' + ((static_cast<uint64_t>(o->value) >> (i < 64 ? i : 63)) & 1));
    }
    // the value written by any of the formats; bits the format doesn't give are 0, an integer is sign extended
    static void put(Obj *o, p_vpi_value v) {
        CHECK(v->format == vpiIntVal || v->format == vpiBinStrVal || v->format == vpiVectorVal, "a value is written in a number format");
        if (v->format == vpiIntVal) {
            o->value = v->value.integer;
            o->str.clear();
            return;
        }
        std::string s(o->size, '0');
        if (v->format == vpiBinStrVal) {
            std::string given = v->value.str;
            for (size_t i = 0; i < given.size() && i < s.size(); i++) s[s.size() - 1 - i] = given[given.size() - 1 - i];
        } else {
            for (int i = 0; i < o->size; i++) {
                auto &x = v->value.vector[i / 32];
                auto a = (static_cast<uint32_t>(x.aval) >> (i % 32)) & 1, b = (static_cast<uint32_t>(x.bval) >> (i % 32)) & 1;
                s[o->size - 1 - i] = b ? (a ? 'x' : 'z') : static_cast<char>('0' + a);
            }
        }
        uint64_t value = 0;
        for (int i = 0; i < o->size && i < 64; i++) value |= static_cast<uint64_t>(s[o->size - 1 - i] == '1') << i;
        o->value = o->size == 32 ? static_cast<int32_t>(value) : static_cast<int64_t>(value);
        if (!o->str.empty() || o->size > 64) o->str = s;
    }
    void vpi_get_value(vpiHandle expr, p_vpi_value v) override {
        SX_QUIET;
        auto *o = known(expr);
        reads++;
        switch (v->format) {
            case vpiIntVal: v->value.integer = static_cast<int>(o->value); return;
            case vpiVectorVal:
                vec.clear();
                for (int w = 0; w * 32 < o->size; w++) {
                    t_vpi_vecval x{0, 0};
                    for (int i = 0; i < 32 && w * 32 + i < o->size; i++) {
                        char c = bit(o, w * 32 + i);
                        x.aval |= static_cast<uint32_t>((c == '1') | (c == 'x')) << i;
                        x.bval |= static_cast<uint32_t>((c == 'x') | (c == 'z')) << i;
                    }
                    vec.push_back(x);
                }
                v->value.vector = vec.data();
                return;
            case vpiBinStrVal:
                if (o->str.empty()) {
                    buf.assign(o->size, '0');
                    for (int i = 0; i < o->size; i++) buf[o->size - 1 - i] = bit(o, i);
                    break;
                }
                [[fallthrough]];
            default: buf = o->str;
        }
        v->value.str = const_cast<char *>(buf.c_str());
    }
    PLI_INT32 vpi_get(PLI_INT32 property, vpiHandle object) override {
        SX_QUIET;
        auto *o = known(object);
        if (property == vpiType) return o->type;
        if (property == vpiSize) return o->size;
        if (property == vpiConstType) return o->const_type;
        if (property == vpiVector) return o->is_vector;
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        SX_QUIET;
        auto it = std::make_unique<Iter>();
        Obj *r = ref ? known(ref) : nullptr;
        for (auto &o : objs) {
            if (o->parent != r) continue;
            if (o->type == type && (r || type == vpiModule)) it->list.emplace_back(o.get());
        }
        if (type == vpiMember || type == vpiRange || type == vpiArgument)
            if (r) it->list = r->elements;
        if (it->list.empty()) return nullptr;
        iters.emplace_back(std::move(it));
        return h(iters.back().get());
    }
    vpiHandle vpi_scan(vpiHandle iterator) override {
        SX_QUIET;
        for (auto &i : iters)
            if (h(i.get()) == iterator) return i->pos < i->list.size() ? h(i->list[i->pos++]) : nullptr;
        CHECK(false, "scan of an iterator the simulator handed out");
        return nullptr;
    }
    char *vpi_get_str(PLI_INT32 property, vpiHandle object) override {
        SX_QUIET;
        auto *o = known(object);
        buf = property == vpiDefName ? o->def : property == vpiFullName ? o->full : o->name;
        return const_cast<char *>(buf.c_str());
    }
    vpiHandle vpi_handle_by_name(char *name, vpiHandle) override {
        SX_QUIET;
        auto *o = byName(name);
        return o ? h(o) : nullptr;
    }
    vpiHandle vpi_handle_by_index(vpiHandle object, PLI_INT32 index) override {
        SX_QUIET;
        auto *o = known(object);
        CHECK(index >= 0, "array index is not negative");
        for (size_t i = 0; i < o->elements.size(); i++)
            if (static_cast<int>(i) == index) return h(o->elements[i]);
        return nullptr;
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info i) override {
        SX_QUIET;
        argv.clear();
        for (auto &a : args) argv.push_back(const_cast<char *>(a.c_str()));
        i->argc = static_cast<int>(argv.size());
        i->argv = argv.data();
        i->product = const_cast<char *>(product.c_str());
        i->version = const_cast<char *>(version.c_str());
        return 1;
    }
    void vpi_get_time(vpiHandle, p_vpi_time t) override {
        SX_QUIET;
        t->low = static_cast<uint32_t>(time);
        t->high = static_cast<uint32_t>(time >> 32);
    }
    vpiHandle vpi_register_cb(p_cb_data d) override {
        SX_QUIET;
        if (refuse_cb) return nullptr;
        cbs.emplace_back(std::make_unique<Cb>());
        cbs.back()->data = *d;
        return h(cbs.back().get());
    }
    PLI_INT32 vpi_remove_cb(vpiHandle c) override {
        SX_QUIET;
        for (auto &x : cbs)
            if (h(x.get()) == c) {
                CHECK(!x->removed, "a callback is removed once");
                x->removed = true;
                return 1;
            }
        CHECK(false, "only registered callbacks are removed");
        return 0;
    }
    PLI_INT32 vpi_release_handle(vpiHandle c) override {
        SX_QUIET;
        for (auto &x : cbs)
            if (h(x.get()) == c) {
                CHECK(!x->removed && !x->released, "a handle is released once, and not after its callback is gone");
                x->released = true;
            }
        return 1;
    }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        SX_QUIET;
        ops.push_back(op);
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle object, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        SX_QUIET;
        auto *o = known(object);
        put(o, v);
        writes.emplace_back(o, o->value);
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data) override { return nullptr; }
    vpiHandle vpi_handle(int, vpiHandle) override { return nullptr; }
    bool vpi_rewind(rewind_data *d) override {
        SX_QUIET;
        rewinds.push_back(*d);
        if (on_rewind) return on_rewind(*d);
        if (rewind_ok) time = d->time;
        return rewind_ok;
    }
    bool has_defname() override { return defnames; }

    int active(int reason) const {
        int n = 0;
        for (auto &c : cbs) n += !c->removed && c->data.reason == reason;
        return n;
    }
    // fires the callbacks of a reason (value changes: those on `on`)
    int fire(int reason, Obj *on = nullptr) {
        int n = 0;
        for (size_t i = 0; i < cbs.size(); i++) {
            auto &c = *cbs[i];
            if (c.removed || c.data.reason != reason) continue;
            if (on && c.data.obj != h(on)) continue;
            n++;
            s_cb_data d = c.data;
            s_vpi_value v{};
            if (on) {
                v.format = vpiIntVal;
                v.value.integer = static_cast<int>(on->value);
                d.value = &v;
            }
            SX_WATCH;
            d.cb_rtn(&d);
        }
        return n;
    }
};

// A simulator stand-in: a fixed object table, values set by the harness, every call checked.
#pragma once
#include <cstdarg>
#include <memory>
#include <string>
#include <vector>
#include "rtl.hh"
#include "sv_vpi_user.h"
#ifndef CHECK
#define CHECK(c, m) ((void)(c))
#endif

class MockVPI : public hgdb::AVPIProvider {
public:
    struct Obj {
        int type = vpiNet;
        std::string full, name, def;
        int size = 32;
        int64_t value = 0;
        Obj *parent = nullptr;
        std::vector<Obj *> elements;
        std::string str;          // vpiHexStrVal / vpiBinStrVal / vpiStringVal answer
        int const_type = 0;
        bool is_vector = false;
    };
    struct Cb {
        s_cb_data data{};
        bool removed = false;
        bool released = false;
    };
    struct Iter {
        std::vector<Obj *> list;
        size_t pos = 0;
    };
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Cb>> cbs;
    std::vector<std::unique_ptr<Iter>> iters;
    std::vector<int> ops;
    std::vector<std::pair<Obj *, int64_t>> writes;
    std::string product = "Mock", version = "1";
    std::vector<std::string> args;
    std::vector<char *> argv;
    uint64_t time = 0;
    bool defnames = true, rewind_ok = true, refuse_cb = false;
    uint64_t reads = 0;
    std::vector<hgdb::AVPIProvider::rewind_data> rewinds;
    std::string buf;

    static vpiHandle h(void *p) { return reinterpret_cast<vpiHandle>(p); }
    Obj *find(vpiHandle x) const {
        for (auto &o : objs)
            if (h(o.get()) == x) return o.get();
        return nullptr;
    }
    Obj *known(vpiHandle x) const {
        auto *o = find(x);
        CHECK(o != nullptr, "the simulator is only asked about objects it handed out");
        return o;
    }
    Obj *add(int type, const std::string &full, Obj *parent = nullptr, int size = 32, const std::string &def = "") {
        objs.emplace_back(std::make_unique<Obj>());
        auto *o = objs.back().get();
        o->type = type;
        o->full = full;
        auto p = full.rfind('.');
        o->name = p == std::string::npos ? full : full.substr(p + 1);
        o->parent = parent;
        o->size = size;
        o->def = def;
        return o;
    }
    Obj *module(const std::string &full, const std::string &def, Obj *parent = nullptr) { return add(vpiModule, full, parent, 0, def); }
    Obj *signal(const std::string &full, Obj *parent = nullptr, int size = 32) { return add(vpiNet, full, parent, size); }
    Obj *byName(const std::string &n) const {
        for (auto &o : objs)
            if (!o->full.empty() && o->full == n) return o.get();
        return nullptr;
    }

    void vpi_get_value(vpiHandle expr, p_vpi_value v) override {
        auto *o = known(expr);
        reads++;
        if (v->format == vpiIntVal) v->value.integer = static_cast<int>(o->value);
        else {
            buf = o->str;
            v->value.str = const_cast<char *>(buf.c_str());
        }
    }
    PLI_INT32 vpi_get(PLI_INT32 property, vpiHandle object) override {
        auto *o = known(object);
        if (property == vpiType) return o->type;
        if (property == vpiSize) return o->size;
        if (property == vpiConstType) return o->const_type;
        if (property == vpiVector) return o->is_vector;
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        auto it = std::make_unique<Iter>();
        Obj *r = ref ? known(ref) : nullptr;
        for (auto &o : objs) {
            if (o->parent != r) continue;
            if (o->type == type && (r || type == vpiModule)) it->list.emplace_back(o.get());
        }
        if (type == vpiMember || type == vpiRange || type == vpiArgument)
            if (r) it->list = r->elements;
        if (it->list.empty()) return nullptr;
        iters.emplace_back(std::move(it));
        return h(iters.back().get());
    }
    vpiHandle vpi_scan(vpiHandle iterator) override {
        for (auto &i : iters)
            if (h(i.get()) == iterator) return i->pos < i->list.size() ? h(i->list[i->pos++]) : nullptr;
        CHECK(false, "scan of an iterator the simulator handed out");
        return nullptr;
    }
    char *vpi_get_str(PLI_INT32 property, vpiHandle object) override {
        auto *o = known(object);
        buf = property == vpiDefName ? o->def : property == vpiFullName ? o->full : o->name;
        return const_cast<char *>(buf.c_str());
    }
    vpiHandle vpi_handle_by_name(char *name, vpiHandle) override {
        auto *o = byName(name);
        return o ? h(o) : nullptr;
    }
    vpiHandle vpi_handle_by_index(vpiHandle object, PLI_INT32 index) override {
        auto *o = known(object);
        CHECK(index >= 0, "array index is not negative");
        for (size_t i = 0; i < o->elements.size(); i++)
            if (static_cast<int>(i) == index) return h(o->elements[i]);
        return nullptr;
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info i) override {
        argv.clear();
        for (auto &a : args) argv.push_back(const_cast<char *>(a.c_str()));
        i->argc = static_cast<int>(argv.size());
        i->argv = argv.data();
        i->product = const_cast<char *>(product.c_str());
        i->version = const_cast<char *>(version.c_str());
        return 1;
    }
    void vpi_get_time(vpiHandle, p_vpi_time t) override {
        t->low = static_cast<uint32_t>(time);
        t->high = static_cast<uint32_t>(time >> 32);
    }
    vpiHandle vpi_register_cb(p_cb_data d) override {
        if (refuse_cb) return nullptr;
        cbs.emplace_back(std::make_unique<Cb>());
        cbs.back()->data = *d;
        return h(cbs.back().get());
    }
    PLI_INT32 vpi_remove_cb(vpiHandle c) override {
        for (auto &x : cbs)
            if (h(x.get()) == c) {
                CHECK(!x->removed, "a callback is removed once");
                x->removed = true;
                return 1;
            }
        CHECK(false, "only registered callbacks are removed");
        return 0;
    }
    PLI_INT32 vpi_release_handle(vpiHandle c) override {
        for (auto &x : cbs)
            if (h(x.get()) == c) {
                CHECK(!x->removed && !x->released, "a handle is released once, and not after its callback is gone");
                x->released = true;
            }
        return 1;
    }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        ops.push_back(op);
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle object, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        auto *o = known(object);
        o->value = v->value.integer;
        writes.emplace_back(o, v->value.integer);
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data) override { return nullptr; }
    vpiHandle vpi_handle(int, vpiHandle) override { return nullptr; }
    bool vpi_rewind(rewind_data *d) override {
        rewinds.push_back(*d);
        if (rewind_ok) time = d->time;
        return rewind_ok;
    }
    bool has_defname() override { return defnames; }

    int active(int reason) const {
        int n = 0;
        for (auto &c : cbs) n += !c->removed && c->data.reason == reason;
        return n;
    }
    // fires the callbacks of a reason (value changes: those on `on`)
    int fire(int reason, Obj *on = nullptr) {
        int n = 0;
        for (size_t i = 0; i < cbs.size(); i++) {
            auto &c = *cbs[i];
            if (c.removed || c.data.reason != reason) continue;
            if (on && c.data.obj != h(on)) continue;
            n++;
            s_cb_data d = c.data;
            s_vpi_value v{};
            if (on) {
                v.format = vpiIntVal;
                v.value.integer = static_cast<int>(on->value);
                d.value = &v;
            }
            d.cb_rtn(&d);
        }
        return n;
    }
};

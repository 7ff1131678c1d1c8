// Cooperative threads: the code under test runs on several stacks, and at every operation on a mutex, condition
// variable or atomic (and wherever the harness asks for it) the solver-chosen schedule decides who goes on.
// Sequentially consistent. Replaces the std:: names by macros, so that the code itself is compiled unchanged.
#ifndef SXSYNC_HH
#define SXSYNC_HH
#include <ucontext.h>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <semaphore>
#include <shared_mutex>
#include <thread>
#include <vector>
#include "sx.h"

namespace sxs {
// the harness and the stand-ins are not looked at for data races
struct Quiet {
    Quiet() { sx_race_quiet(1); }
    ~Quiet() { sx_race_quiet(-1); }
};
// the code under test is
struct Watched {
    Watched() { sx_race_quiet(-1); }
    ~Watched() { sx_race_quiet(1); }
};
struct Thread {
    int id = 0;
    ucontext_t ctx;
    std::function<void()> fn;
    bool done = false;
    std::function<bool()> ready;   // what it waits for
    std::vector<char> stack;
};
struct Sched {
    std::vector<std::unique_ptr<Thread>> threads;
    Thread *current = nullptr;
    ucontext_t main;
    int preemptions = 0, max_preemptions = 1000, spurious = 0;
    int64_t switches = 0;
    size_t stack_size = 1 << 18;
    static inline Sched *active = nullptr;

    int add(std::function<void()> f) {
        auto t = std::make_unique<Thread>();
        t->fn = std::move(f);
        t->id = static_cast<int>(threads.size()) + 1;
        sx_race_fork(t->id);
        threads.push_back(std::move(t));
        return static_cast<int>(threads.size());
    }
    void prepare(Thread &t) {
        t.stack.resize(stack_size);
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack.data();
        t.ctx.uc_stack.ss_size = t.stack.size();
        t.ctx.uc_link = nullptr;
        makecontext(&t.ctx, &Sched::entry, 0);
    }
    int spawn(std::function<void()> f) {
        int id = add(std::move(f));
        prepare(*threads.back());
        return id;
    }
    static void entry() {
        active->current->fn();
        sx_race_quiet(1);
        active->current->done = true;
        active->next(false);
    }
    bool can_run(Thread *t) { return !t->done && (!t->ready || t->ready()); }
    // hands over to the thread chosen; back to run() if there is none
    void next(bool voluntary) {
        Thread *self = current;
        std::vector<Thread *> c;
        bool self_ok = self && can_run(self);
        if (self_ok) c.push_back(self);
        if (!self_ok || preemptions < max_preemptions)
            for (auto &t : threads)
                if (t.get() != self && can_run(t.get())) c.push_back(t.get());
        Thread *to = c.empty() ? nullptr : c[c.size() > 1 ? sx_choose("schedule", static_cast<int>(c.size())) : 0];
        if (to == self && to) {
            to->ready = nullptr;
            return;
        }
        if (self_ok) preemptions++;
        switches++;
        current = to;
        if (to) to->ready = nullptr;
        sx_race_switch(to ? to->id : 0);
        auto *from = self ? &self->ctx : &main;
        if (to)
            swapcontext(from, &to->ctx);
        else if (self)
            swapcontext(from, &main);
    }
    // true: every thread has finished; false: those left wait forever
    bool run() {
        active = this;
        for (auto &t : threads) prepare(*t);
        current = nullptr;
        next(false);
        active = nullptr;
        for (auto &t : threads)
            if (t->done) sx_race_join(t->id);
        for (auto &t : threads)
            if (!t->done) return false;
        return true;
    }
};
inline bool on() { return Sched::active && Sched::active->current; }
inline void yield() {
    Quiet q;
    if (on()) Sched::active->next(true);
}
inline void block(std::function<bool()> f) {
    Quiet q;
    if (!on()) {
        CHECK(f(), "nothing is waited for outside of threads");
        return;
    }
    Sched::active->current->ready = std::move(f);
    Sched::active->next(false);
}
}  // namespace sxs

namespace std {
// what a synchronisation object orders: everything done by whoever let go of it before
inline void sx_got(const void *o) { sx_race_acquire(o); }
inline void sx_let_go(const void *o) { sx_race_release(o); }
struct sx_mutex {
    sxs::Thread *owner = nullptr;
    int count = 0;
    constexpr sx_mutex() = default;
    sx_mutex(const sx_mutex &) = delete;
    sxs::Thread *me() { return sxs::on() ? sxs::Sched::active->current : reinterpret_cast<sxs::Thread *>(8); }
    void lock() {
        sxs::Quiet q;
        sxs::yield();
        if (count) sxs::block([this]() { return count == 0; });
        owner = me();
        count = 1;
        sx_got(this);
    }
    bool try_lock() {
        sxs::Quiet q;
        sxs::yield();
        if (count) return false;
        owner = me();
        count = 1;
        sx_got(this);
        return true;
    }
    void unlock() {
        sxs::Quiet q;
        CHECK(count == 1 && owner == me(), "a mutex is unlocked by the thread that holds it");
        sxs::yield();
        sx_let_go(this);
        count = 0;
        owner = nullptr;
    }
    void lock_shared() { lock(); }
    void unlock_shared() { unlock(); }
};
struct sx_recursive_mutex : sx_mutex {
    void lock() {
        sxs::Quiet q;
        if (count && owner == me()) {
            count++;
            return;
        }
        sx_mutex::lock();
    }
    void unlock() {
        sxs::Quiet q;
        CHECK(count >= 1 && owner == me(), "a mutex is unlocked by the thread that holds it");
        if (count > 1) {
            count--;
            return;
        }
        sx_mutex::unlock();
    }
};
struct sx_condition_variable {
    struct W {
        bool woken = false;
    };
    std::vector<std::shared_ptr<W>> waiters;
    template <typename L>
    void wait(L &l) {
        sxs::Quiet q;
        sxs::yield();   // after the condition was found not to hold
        auto w = std::make_shared<W>();
        // the wait may end for no reason
        bool early = sxs::Sched::active && sxs::Sched::active->spurious > 0 && sx_choose("spurious", 2);
        if (early) sxs::Sched::active->spurious--;
        waiters.push_back(w);
        // unlocking and starting to wait is one step
        auto *m = l.release();
        CHECK(m->count == 1 && m->owner == m->me(), "the lock is held when a condition is waited for");
        sx_let_go(m);
        m->count = 0;
        m->owner = nullptr;
        sxs::block([w, early]() { return w->woken || early; });
        waiters.erase(std::remove(waiters.begin(), waiters.end(), w), waiters.end());
        m->lock();
        l = L(*m, std::adopt_lock);
    }
    template <typename L, typename P>
    void wait(L &l, P p) {
        while (!p()) wait(l);
    }
    template <typename L, typename D>
    std::cv_status wait_for(L &l, const D &) {
        l.unlock();
        l.lock();
        return std::cv_status::timeout;
    }
    template <typename L, typename D, typename P>
    bool wait_for(L &l, const D &d, P p) {
        // time passes as the schedule likes: as often as it takes
        while (!p()) wait(l);
        return true;
    }
    void notify_one() {
        sxs::Quiet q;
        sxs::yield();
        std::vector<W *> c;
        for (auto &w : waiters)
            if (!w->woken) c.push_back(w.get());
        if (!c.empty()) c[c.size() > 1 ? sx_choose("notified", static_cast<int>(c.size())) : 0]->woken = true;
    }
    void notify_all() {
        sxs::Quiet q;
        sxs::yield();
        for (auto &w : waiters) w->woken = true;
    }
};
template <typename T>
struct sx_atomic {
    T v;
    constexpr sx_atomic() : v() {}
    constexpr sx_atomic(T x) : v(x) {}
    sx_atomic(const sx_atomic &) = delete;
    using O = std::memory_order;
    static constexpr O SC = std::memory_order_seq_cst;
    // an operation is one step
    template <typename F>
    auto op(F f) const {
        sxs::Quiet q;
        sxs::yield();
        sx_got(this);
        auto r = f();
        sx_let_go(this);
        return r;
    }
    T load(O = SC) const {
        return op([&]() { return v; });
    }
    void store(T x, O = SC) { exchange(x); }
    T exchange(T x, O = SC) {
        return op([&]() {
            auto o = v;
            v = x;
            return o;
        });
    }
    bool compare_exchange_strong(T &e, T x, O = SC, O = SC) {
        return op([&]() {
            if (v == e) {
                v = x;
                return true;
            }
            e = v;
            return false;
        });
    }
    bool compare_exchange_weak(T &e, T x, O = SC, O = SC) { return compare_exchange_strong(e, x); }
    operator T() const { return load(); }
    T operator=(T x) {
        store(x);
        return x;
    }
    T fetch_add(T x, O = SC) {
        return op([&]() {
            auto o = v;
            v = static_cast<T>(v + x);
            return o;
        });
    }
    T fetch_sub(T x, O = SC) { return fetch_add(static_cast<T>(-x)); }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    void wait(T old, O = SC) const {
        sxs::Quiet q;
        sxs::yield();
        if (v == old) sxs::block([this, old]() { return v != old; });
        sx_got(this);
    }
    void notify_one() { sxs::yield(); }
    void notify_all() { sxs::yield(); }
};
using sx_atomic_bool = sx_atomic<bool>;
}  // namespace std
#define mutex sx_mutex
#define recursive_mutex sx_recursive_mutex
#define shared_mutex sx_mutex
#define condition_variable sx_condition_variable
#define condition_variable_any sx_condition_variable
#define atomic sx_atomic
#define atomic_bool sx_atomic_bool
#endif

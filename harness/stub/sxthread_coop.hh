// Threads of the code under test are cooperative threads (sxsync.hh).
#ifndef SXTHREAD_HH
#define SXTHREAD_HH
#include "sxsync.hh"
namespace std {
struct sx_thread {
    std::shared_ptr<bool> finished;
    int id = 0;
    sx_thread() = default;
    template <typename F, typename... A>
    explicit sx_thread(F f, A... a) : finished(std::make_shared<bool>(false)) {
        sxs::Quiet q;
        auto fn = [f = std::move(f), fin = finished, a...]() mutable {
            {
                sxs::Watched w;
                f(a...);
            }
            *fin = true;
        };
        if (sxs::on())
            id = sxs::Sched::active->spawn(std::move(fn));
        else
            fn();
    }
    sx_thread(sx_thread &&o) noexcept : finished(std::move(o.finished)), id(o.id) {}
    sx_thread &operator=(sx_thread &&o) noexcept {
        CHECK(!joinable(), "a running thread is not overwritten");
        finished = std::move(o.finished);
        id = o.id;
        return *this;
    }
    ~sx_thread() { CHECK(!joinable(), "a thread is joined or detached before it is destroyed"); }
    bool joinable() const { return !!finished; }
    void join() {
        sxs::Quiet q;
        auto f = finished;
        if (!*f) sxs::block([f]() { return *f; });
        if (id) sx_race_join(id);
        finished.reset();
    }
    void detach() { finished.reset(); }
    static unsigned hardware_concurrency() { return 2; }
};
}  // namespace std
#define thread sx_thread
#define jthread sx_thread
#endif

// Threads of the code under test run to completion where they are started (one legal schedule).
#ifndef SXTHREAD_HH
#define SXTHREAD_HH
#include <thread>
#include <utility>
namespace std {
struct sxthread {
    bool j = false;
    sxthread() = default;
    template <typename F>
    explicit sxthread(F f) : j(true) { f(); }
    sxthread(sxthread &&o) noexcept : j(o.j) { o.j = false; }
    sxthread &operator=(sxthread &&o) noexcept {
        j = o.j;
        o.j = false;
        return *this;
    }
    bool joinable() const { return j; }
    void join() { j = false; }
    void detach() { j = false; }
};
}  // namespace std
#define thread sxthread
#endif

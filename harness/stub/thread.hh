// Stand-in for the lock the simulation waits on: while it is not released, the harness acts.
#ifndef HGDB_THREAD_HH
#define HGDB_THREAD_HH
#include <atomic>
#include <functional>
namespace hgdb {
class RuntimeLock {
public:
    static inline std::function<void()> on_wait;
    static inline int waits = 0;
    void wait() {
        waits++;
        while (!ready_) on_wait();
        ready_ = false;
    }
    void ready() { ready_ = true; }
    void reset() { ready_ = false; }

private:
    bool ready_ = false;
};
}  // namespace hgdb
#endif

// The lock the simulation waits on (P17).
#include "sx.h"
#include "thread.hh"

// One simulation that waits, one or two threads that release it.
static void no_lost_wakeup(int waits, int servers, int readies, int spurious) {
    hgdb::RuntimeLock lock;
    sxs::Sched s;
    s.spurious = spurious;
    s.max_preemptions = sx_tier() ? 4 : 3;
    int started = 0;       // releases begun
    int finished = 0;      // releases done
    int waited = 0;        // waits over
    int after_last = 0;    // releases begun since the last wait was over
    s.add([&]() {
        for (int i = 0; i < waits; i++) {
            lock.wait();
            waited++;
            CHECK(waited <= started, "the simulation goes on only if it has been released");
            after_last = 0;
        }
    });
    for (int k = 0; k < servers; k++)
        s.add([&]() {
            for (int i = 0; i < readies; i++) {
                started++;
                after_last++;
                lock.ready();
                finished++;
            }
        });
    bool all = s.run();
    CHECK(finished == servers * readies, "a release never blocks");
    if (waited < waits) CHECK(after_last == 0, "a release is never lost");
    if (all) sx_reach("all");
    if (!all) sx_reach("waiting");
    sx_reach("end");
    sx_done();
}

SX_HARNESS(lock_one_server) { no_lost_wakeup(2, 1, sx_tier() ? 3 : 2, sx_choose("spurious", 2)); }
SX_HARNESS(lock_two_servers) { no_lost_wakeup(sx_tier() ? 2 : 1, 2, 1, 0); }
// As the debugger uses it: the client answers each stop once, at any time after it was told.
SX_HARNESS(lock_handshake) {
    hgdb::RuntimeLock lock;
    sxs::Sched s;
    s.spurious = sx_choose("spurious", 2);
    s.max_preemptions = sx_tier() ? 4 : 3;
    int stops = 0, answered = 0, rounds = sx_tier() ? 4 : 3;
    s.add([&]() {
        for (int i = 0; i < rounds; i++) {
            stops++;
            lock.wait();
            CHECK(answered == stops, "the simulation pauses at every stop until it is answered");
        }
    });
    s.add([&]() {
        for (int i = 0; i < rounds; i++) {
            sxs::block([&]() { return stops > i; });
            answered++;
            lock.ready();
        }
    });
    CHECK(s.run(), "the simulation goes on once it is told to");
    sx_reach("end");
    sx_done();
}

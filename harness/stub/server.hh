// Stand-in for the websocket server: records what is sent, hands over what arrives.
#ifndef HGDB_SERVER_HH
#define HGDB_SERVER_HH
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "sxthread.hh"

#ifdef SX_CONC
#include "sxsync.hh"
#define SX_QUIET sxs::Quiet sx_quiet_
#else
#define SX_QUIET
#endif

namespace hgdb {
class DebugServer {
public:
    struct Sent {
        std::string payload;
        bool broadcast = true;
        uint64_t conn = 0;
        std::string topic;
    };
    static inline DebugServer *last = nullptr;
    std::vector<Sent> sent;
    std::map<std::string, std::set<uint64_t>> topics;
    std::function<void(const std::string &, uint64_t)> on_message;
    std::function<void(void)> on_disconnect;
    bool running = false;
    int stopped = 0;
    uint16_t port = 0;

    explicit DebugServer() { last = this; }
    explicit DebugServer(bool) { last = this; }
    ~DebugServer() {
        if (last == this) last = nullptr;
    }
    void run(uint16_t p) {
        SX_QUIET;
        port = p;
        running = true;
    }
    void stop() { SX_QUIET; stopped++; }
    void send(const std::string &payload) { SX_QUIET; sent.push_back({payload, true, 0, ""}); }
    void send(const std::string &payload, const std::string &topic) { SX_QUIET; sent.push_back({payload, false, 0, topic}); }
    void send(const std::string &payload, uint64_t conn_id) { SX_QUIET; sent.push_back({payload, false, conn_id, ""}); }
    void set_on_message(const std::function<void(const std::string &, uint64_t)> &f) { SX_QUIET; on_message = f; }
    void set_on_call_client_disconnect(const std::function<void(void)> &f) { SX_QUIET; on_disconnect = f; }
    void add_to_topic(const std::string &t, uint64_t c) { SX_QUIET; topics[t].insert(c); }
    void remove_from_topic(const std::string &t, uint64_t c) { SX_QUIET; topics[t].erase(c); }
};
}  // namespace hgdb
#endif

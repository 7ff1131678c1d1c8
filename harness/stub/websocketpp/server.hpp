// Stand-in for the websocket library's server: the harness is the network.
#pragma once
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
#include "sxsync.hh"
namespace websocketpp {
using connection_hdl = std::weak_ptr<void>;
class exception : public std::exception {};
namespace lib {
using std::bind;
using error_code = std::error_code;
}  // namespace lib
namespace log {
struct alevel {
    static constexpr int all = 0xff, frame_payload = 2, none = 0;
};
struct elevel : alevel {};
}  // namespace log
namespace close::status {
constexpr int going_away = 1001, normal = 1000;
}
namespace frame::opcode {
enum value { text = 1, binary = 2 };
}
namespace config {
struct asio {};
struct asio_no_tls {};
}  // namespace config
template <typename C>
struct connection {
    int peer = 0;
    bool open = true, closing = false;
    std::vector<std::string> received;
    lib::error_code send(const std::string &p, frame::opcode::value = frame::opcode::text) {
        sxs::Quiet q;
        sxs::yield();
        if (open && !closing) received.push_back(p);
        return {};
    }
    void close(int, const std::string &) {
        sxs::Quiet q;
        sxs::yield();
        closing = true;
    }
};
struct message {
    std::string p;
    const std::string &get_payload() const { return p; }
};
template <typename C>
struct server {
    using connection_type = connection<C>;
    using connection_ptr = std::shared_ptr<connection_type>;
    using message_ptr = std::shared_ptr<message>;
    static inline server *last = nullptr;
    std::function<void(connection_hdl)> opened, closed;
    std::function<void(connection_hdl, message_ptr)> arrived;
    bool listening = false, stopped = false;
    server() { last = this; }
    void set_access_channels(int) {}
    void clear_access_channels(int) {}
    void set_error_channels(int) {}
    void clear_error_channels(int) {}
    void set_reuse_addr(bool) {}
    void set_open_handler(std::function<void(connection_hdl)> f) { sxs::Quiet q; opened = f; }
    void set_close_handler(std::function<void(connection_hdl)> f) { sxs::Quiet q; closed = f; }
    void set_fail_handler(std::function<void(connection_hdl)>) {}
    void set_message_handler(std::function<void(connection_hdl, message_ptr)> f) { sxs::Quiet q; arrived = f; }
    void init_asio() {}
    void listen(uint16_t) { sxs::Quiet q; listening = true; }
    void start_accept() {}
    void run() {}
    void stop_listening() {
        sxs::Quiet q;
        if (!listening) throw exception();
        listening = false;
    }
    bool is_listening() const { return listening; }
    void stop() { sxs::Quiet q; stopped = true; }
    connection_ptr get_con_from_hdl(connection_hdl h) {
        sxs::Quiet q;
        auto p = std::static_pointer_cast<connection_type>(h.lock());
        if (!p) throw exception();
        return p;
    }
    void send(connection_hdl h, const std::string &p, frame::opcode::value = frame::opcode::text) { get_con_from_hdl(h)->send(p); }
    void close(connection_hdl h, int c, const std::string &r) { get_con_from_hdl(h)->close(c, r); }
};
}  // namespace websocketpp

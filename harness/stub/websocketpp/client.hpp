// Stand-in websocket client: every message is answered at once by the harness's peer.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include "sxthread.hh"
namespace sxws {
inline std::function<std::string(const std::string &)> peer;
}
namespace websocketpp {
using connection_hdl = std::weak_ptr<void>;
namespace log { struct alevel { static constexpr int all = 0; }; }
namespace lib { using error_code = std::error_code; }
namespace frame { namespace opcode { constexpr int text = 1; } }
namespace config {
struct asio_client {
    struct message_type {
        std::string p;
        using ptr = std::shared_ptr<message_type>;
        const std::string &get_payload() const { return p; }
    };
};
}  // namespace config
template <typename T>
struct client {
    using connection_ptr = int;
    std::function<void(const connection_hdl &, const config::asio_client::message_type::ptr &)> m;
    std::function<void(const connection_hdl &)> o;
    void clear_access_channels(int) {}
    void init_asio() {}
    template <typename F> void set_message_handler(F f) { m = f; }
    template <typename F> void set_open_handler(F f) { o = f; }
    connection_ptr get_connection(const std::string &, lib::error_code &ec) {
        if (!sxws::peer) ec = std::make_error_code(std::errc::connection_refused);
        return 0;
    }
    void connect(connection_ptr) { o(connection_hdl{}); }
    void run() {}
    void stop() {}
    void send(const connection_hdl &h, const std::string &msg, int, lib::error_code &) {
        auto p = std::make_shared<config::asio_client::message_type>();
        p->p = sxws::peer(msg);
        m(h, p);
    }
};
}  // namespace websocketpp

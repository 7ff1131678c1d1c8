// Stand-in: there is no network.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include "sxthread.hh"
namespace asio {
struct system_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct io_context {};
struct mutable_buffer {
    void *data() const { return nullptr; }
    size_t size() const { return 0; }
};
inline mutable_buffer buffer(const std::string &) { return {}; }
namespace ip {
struct tcp {
    struct endpoint_t {};
    struct entry {
        endpoint_t endpoint() const { return {}; }
    };
    struct results {
        const entry *operator->() const {
            static entry e;
            return &e;
        }
    };
    struct socket {
        explicit socket(io_context &) {}
        template <typename T>
        void connect(const T &) { throw system_error("no network"); }
    };
    struct resolver {
        explicit resolver(io_context &) {}
        results resolve(const std::string &, const std::string &) { return {}; }
    };
};
}  // namespace ip
template <typename S, typename B>
void write(S &, const B &) {}
template <typename S, typename B>
void read(S &, B &) {}
}  // namespace asio

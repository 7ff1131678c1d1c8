// The websocket server of the debugger: who gets which message (P23).
#include "sxsync.hh"
#include "server.hh"
#include <sys/single_threaded.h>

using Ws = hgdb::WSServer;
struct Net {
    struct Client {
        Ws::connection_ptr conn;
        uint64_t id = 0;
        bool there = true;
        std::set<std::string> topics;
        std::vector<std::string> due;   // what it must have received
    };
    hgdb::DebugServer server;
    Ws *ws = Ws::last;
    std::vector<Client> clients;
    uint64_t heard_from = 0;
    std::string heard;
    int arrivals = 0, all_left = 0;
    Net() {
        server.set_on_message([this](const std::string &m, uint64_t id) {
            sxs::Quiet q;
            heard = m, heard_from = id, arrivals++;
        });
        server.set_on_call_client_disconnect([this]() {
            sxs::Quiet q;
            all_left++;
        });
        server.run(8888);
    }
    int present() const {
        int n = 0;
        for (auto &c : clients) n += c.there;
        return n;
    }
    void message(size_t i, const std::string &m) {
        auto p = std::make_shared<websocketpp::message>();
        p->p = m;
        auto &c = clients[i];
        int before = arrivals;
        {
            sxs::Watched w;
            ws->arrived(c.conn, p);
        }
        CHECK(arrivals == before + 1 && heard == m, "a message is handed over once, as it was sent");
    }
    void connect() {
        // a connection may live where an earlier one did
        Ws::connection_ptr conn;
        for (auto &c : clients)
            if (!conn && c.conn && !c.there && sx_choose("same_place", 2)) {
                conn = std::move(c.conn);
                conn->received.clear();
                conn->open = true;
            }
        clients.emplace_back();
        clients.back().conn = conn ? conn : std::make_shared<Ws::connection_type>();
        {
            sxs::Watched w;
            ws->opened(clients.back().conn);
        }
        message(clients.size() - 1, "hello");
        clients.back().id = heard_from;
        for (size_t i = 0; i + 1 < clients.size(); i++) CHECK(clients[i].id != heard_from, "every connection has an id of its own");
    }
    void leave(size_t i) {
        clients[i].there = false;
        clients[i].conn->open = false;
        sxs::Watched w;
        ws->closed(clients[i].conn);
    }
    void check() {
        for (auto &c : clients) CHECK(!c.conn || c.conn->received == c.due, "a client receives the messages meant for it, and no others");
    }
};

// a message on a topic, after any of its subscribers have left or unsubscribed
SX_HARNESS(server_topics) {
    sxs::Quiet q;
    Net n;
    const int num = 4;
    static const char *topics[] = {"a", "b"};
    for (int i = 0; i < num; i++) n.connect();
    for (int i = 0; i < num; i++)
        for (int j = 0; j < 2; j++)
            if (j == 0 ? sx_choose("subscribed", 2) : i & 1) {
                sxs::Watched w;
                n.server.add_to_topic(topics[j], n.clients[i].id);
                n.clients[i].topics.insert(topics[j]);
            }
    for (int i = 0; i < num; i++) {
        int gone = sx_choose("gone", 3);
        if (gone == 1) n.leave(i);
        if (gone == 2) {
            sxs::Watched w;
            n.server.remove_from_topic("a", n.clients[i].id);
            n.clients[i].topics.erase("a");
        }
    }
    if (sx_choose("joins", 2)) n.connect();
    for (auto *t : topics) {
        {
            sxs::Watched w;
            n.server.send(std::string("on ") + t, std::string(t));
        }
        for (auto &x : n.clients)
            if (x.there && x.topics.count(t)) x.due.push_back(std::string("on ") + t);
        n.check();
    }
    sx_reach("end");
    sx_done();
}

SX_HARNESS(server_routing) {
    sxs::Quiet q;
    Net n;
    static const char *topics[] = {"a", "b"};
    for (size_t i = 0; i < 2; i++) {
        n.connect();
        sxs::Watched w;
        n.server.add_to_topic(topics[i], n.clients[i].id);
        n.clients[i].topics.insert(topics[i]);
    }
    int ops = sx_tier() ? 4 : 3, left = 0;
    for (int k = 0; k < ops; k++) {
        int what = sx_choose("event", 8);
        size_t who = what == 0 || what == 4 || what == 7 ? 0 : static_cast<size_t>(sx_choose("client", static_cast<int>(n.clients.size())));
        auto &c = n.clients[who];
        auto text = "m" + std::to_string(k);
        auto *t = topics[what == 7 ? sx_choose("topic", 2) : who & 1];
        switch (what) {
            case 0:
                if (n.clients.size() < 3) n.connect();
                break;
            case 1:
                if (!c.there) break;
                n.leave(who);
                if (!n.present()) left++;
                break;
            case 2:
                if (!c.there) break;
                n.message(who, text);
                CHECK(n.heard_from == c.id, "a message comes with the id of the client that sent it");
                break;
            case 3: {
                sxs::Watched w;
                n.server.send(text, c.id);
            }
                if (c.there) c.due.push_back(text);
                break;
            case 4: {
                sxs::Watched w;
                n.server.send(text);
            }
                for (auto &x : n.clients)
                    if (x.there) x.due.push_back(text);
                break;
            case 5: {
                sxs::Watched w;
                n.server.add_to_topic(t, c.id);
            }
                c.topics.insert(t);
                break;
            case 6: {
                sxs::Watched w;
                n.server.remove_from_topic(t, c.id);
            }
                c.topics.erase(t);
                break;
            case 7: {
                sxs::Watched w;
                n.server.send(text, std::string(t));
            }
                for (auto &x : n.clients)
                    if (x.there && x.topics.count(t)) x.due.push_back(text);
                break;
        }
        CHECK(n.all_left == left, "the debugger is told whenever the last client has left");
        n.check();
    }
    sx_reach("end");
    sx_done();
}

// The simulation sends while clients come, ask and leave, or the simulation ends.
SX_HARNESS(server_threads) {
    sx_race_start();
    __libc_single_threaded = 0;   // reference counts are atomic
    Net n;
    std::mutex evaluation;   // as the debugger: held while the simulation evaluates and while a request is handled
    int kind = sx_choose("kind", 3);            // broadcast, topic, one client
    int events[2] = {sx_choose("event", 4), sx_choose("event", 4)};
    bool stops = sx_choose("stops", 2);
    n.server.set_on_message([&](const std::string &m, uint64_t id) {
        {
            sxs::Quiet q;
            n.heard = m, n.heard_from = id, n.arrivals++;
            if (m == "hello") return;
        }
        std::lock_guard guard(evaluation);
        if (m == "subscribe") n.server.add_to_topic("a", id);
        if (m == "unsubscribe") n.server.remove_from_topic("a", id);
        n.server.send("answer", id);
    });
    n.server.set_on_call_client_disconnect([&]() {
        std::lock_guard guard(evaluation);
        sxs::Quiet q;
        n.all_left++;
    });
    n.clients.reserve(4);
    n.connect();
    n.message(0, "subscribe");
    n.clients[0].conn->received.clear();
    sxs::Sched s;
    s.max_preemptions = sx_tier() ? 3 : 2;
    int sent = 0, before = 0;     // messages the simulation has sent; those sent before the client began to leave
    bool left = false, asked = false, stopped = false, unsubscribed = false;
    s.add([&]() {  // the simulation
        for (int i = 0; i < 2; i++) {
            auto m = "m" + std::to_string(i);
            {
                sxs::Watched w;
                std::lock_guard guard(evaluation);
                if (kind == 0) n.server.send(m);
                if (kind == 1) n.server.send(m, std::string("a"));
                if (kind == 2) n.server.send(m, n.clients[0].id);
            }
            sent++;
        }
        if (stops) {
            stopped = true;
            sxs::Watched w;
            n.server.stop();
        }
    });
    s.add([&]() {  // the server
        for (auto e : events) {
            if (n.ws->stopped) break;
            if (e == 0) {
                n.clients.emplace_back();
                n.clients.back().conn = std::make_shared<Ws::connection_type>();
                sxs::Watched w;
                n.ws->opened(n.clients.back().conn);
            }
            if (e == 1 && !left) {
                before = sent;
                left = true;
                n.leave(0);
            }
            if ((e == 2 || e == 3) && !left && !n.clients[0].conn->closing) {
                auto p = std::make_shared<websocketpp::message>();
                p->p = e == 2 ? "question" : "unsubscribe";
                if (e == 3 && !unsubscribed) unsubscribed = true, before = sent;
                sxs::Watched w;
                n.ws->arrived(n.clients[0].conn, p);
                asked = true;
            }
        }
    });
    CHECK(s.run(), "the simulation and the server never wait for each other forever");
    for (size_t i = 0; i < n.clients.size(); i++) {
        auto &c = n.clients[i];
        std::vector<std::string> m;
        int answers = 0;
        for (auto &r : c.conn->received) {
            if (r == "answer")
                answers++;
            else
                m.push_back(r);
        }
        for (size_t k = 1; k < m.size(); k++) CHECK(m[k - 1] < m[k], "messages arrive once and in order");
        if (i == 0 && !left && !(unsubscribed && kind == 1)) CHECK(m.size() == 2, "a client that is there receives every message");
        if (i == 0 && (left || unsubscribed)) CHECK(static_cast<int>(m.size()) >= before, "messages sent before are received");
        if (i > 0 && kind != 0) CHECK(m.empty(), "a message for one client is not sent to another");
        if (i > 0) CHECK(answers == 0, "the answer goes to the client that asked");
    }
    (void)asked;
    sx_reach("end");
    sx_done();
}

// W03: the end of a WebSocket is reported exactly once and is final
#include "http.hpp"
#include "wire.hpp"

MON_RULE("histories of frames, writes and one or several causes of an end (close frame, end of stream, reset, read error, write error), with a handler that may write, or destroy the WebSocket, and destruction at random moments with operations pending; monitors on the handlers and on the simulated socket, in an ASan build; non-trivial = one ended or destroyed WebSocket; distinct by causes, way of destruction and network trace");
MON_REQUIRE("ends", 2500);
MON_REQUIRE("ended by close frame", 300);
MON_REQUIRE("ended by end of stream", 200);
MON_REQUIRE("ended by reset", 200);
MON_REQUIRE("ended by read error", 150);
MON_REQUIRE("ended by write error", 150);
MON_REQUIRE("destroyed in the close handler", 300);
MON_REQUIRE("destroyed with operations pending", 300);
MON_REQUIRE("frames after a close frame", 200);
MON_REQUIRE("writes after the end", 300);
MON_REQUIRE("close frames within a message", 100);
MON_REQUIRE("stopped by a message handler", 100);

using WebSocket = webfront::websocket::WebSocket<web::Net>;
using webfront::websocket::CloseEvent;

struct Monitor {
    std::unique_ptr<WebSocket> ws;
    std::size_t closes = 0, messages = 0, spontaneous = 0;
    bool destroyed = false, stoppedByUser = false, destroyInHandler = false, writeInHandler = false, hasHandler = true, keepOthers = false;
    std::size_t most = 0, stopAt = 0; // messages sent before a close frame; the handler of this one stops
    std::size_t messagesAtEnd = 0, writesAtEnd = 0, receivedAtEnd = 0;
    bool ended = false;
    bool socketOpenInHandler = false;
    std::string causes, log;
};

static void play(mon::Rng& rng) {
    simnet::World w;
    std::experimental::net::io_context io;
    w.pick = [&](std::size_t k) { return rng.below(k); };
    auto n = 1 + rng.below(3);
    std::vector<Monitor> all(n);
    std::vector<web::Client> clients(n);
    auto end = [&](Monitor& m, simnet::Link& l) {
        if (m.ended) return;
        m.ended = true;
        m.messagesAtEnd = m.messages;
        m.writesAtEnd = l.writesStarted;
        m.receivedAtEnd = l.received.size();
    };
    for (std::size_t i = 0; i < n; ++i) {
        auto& m = all[i];
        auto& c = clients[i];
        c.link = w.makeLink();
        c.connected = true;
        auto& l = *c.link;
        if (rng.coin()) l.window = rng.below(60);
        if (rng.coin()) l.maxWrite = 1 + rng.below(30);
        if (rng.chance(30)) l.maxRead = 1 + rng.below(9);
        l.writesFailAfterClose = rng.coin();
        auto frame = [&](int opcode, std::size_t size) { return wire::clientFrame(static_cast<std::uint8_t>(opcode), rng.bytes(size), static_cast<std::uint32_t>(rng.next())); };
        std::string bytes;
        std::size_t complete = 0; // messages before the close frame
        for (std::size_t f = rng.below(5); complete < f; ++complete)
            if (rng.chance(20)) // in two frames
                bytes += wire::fragment(frame(rng.coin() ? 1 : 2, rng.below(100)), false) + (rng.coin() ? frame(10, 3) : "") + frame(0, rng.below(100));
            else bytes += frame(rng.coin() ? 1 : 2, rng.below(200));
        bool closeFrame = rng.chance(35);
        m.most = complete;
        if (!closeFrame && rng.chance(10)) bytes += wire::fragment(frame(1, rng.below(100)), false); // never completed
        std::size_t after = 0;
        if (closeFrame) {
            bool within = rng.chance(20); // a message is not complete
            if (within) bytes += wire::fragment(frame(rng.coin() ? 1 : 2, rng.below(60)), false), mon::count("close frames within a message");
            bytes += rng.coin() ? frame(8, 0) : wire::clientFrame(8, std::string("\x03\xe8", 2) + rng.from("abc ", rng.below(20)), 0x12345678);
            m.causes += "close frame;";
            if (rng.chance(60)) {
                after = 1 + rng.below(3);
                if (within) bytes += frame(0, rng.below(60));
                for (std::size_t k = 0; k < after; ++k) bytes += frame(rng.chance(30) ? 8 : rng.chance(20) ? 9 : rng.coin() ? 1 : 2, rng.below(60));
                mon::count("frames after a close frame");
            }
        }
        else if (rng.chance(20)) bytes.resize(bytes.size() - std::min(bytes.size(), rng.below(4))); // ends inside a frame
        c.steps = web::cut(rng, bytes, static_cast<unsigned>(rng.below(5)));
        auto insert = [&](web::Step s) { c.steps.insert(c.steps.begin() + static_cast<std::ptrdiff_t>(rng.below(c.steps.size() + 1)), s); };
        if (!closeFrame || rng.chance(40)) {
            switch (rng.below(4)) {
            case 0: c.steps.push_back({web::Step::close, "", 0}), m.causes += "end of stream;"; break;
            case 1: insert({web::Step::reset, "", 0}), m.causes += "reset;"; break;
            case 2: // a failing read
                l.failRead = rng.chance(20);
                if (!l.failRead) insert({web::Step::send, "", simnet::unlimited});
                m.causes += "read error;";
                break;
            default:
                l.failWriteAt = rng.below(120), l.window = simnet::unlimited, m.causes += "write error;";
                if (rng.coin()) c.steps.push_back({web::Step::close, "", 0}), m.causes += "end of stream;";
                break;
            }
        }
        m.hasHandler = rng.chance(90);
        m.destroyInHandler = rng.chance(40);
        m.writeInHandler = rng.chance(30);
        if (rng.chance(12)) m.stopAt = 1 + rng.below(3);
        m.ws = std::make_unique<WebSocket>(web::Net::Socket(c.link));
        auto received = [&, i] {
            auto& m = all[i];
            ++m.messages;
            m.log += "m";
            if (m.ended) mon::fail("message delivered after the end", m.causes + " " + m.log);
            if (m.messages > m.most) mon::fail("message that was not completed is delivered", m.causes + " " + m.log);
            if (m.stopAt == m.messages) { // the application ends it
                m.stoppedByUser = true;
                m.log += "S";
                m.ws->stop();
                end(m, *clients[i].link);
                mon::count("stopped by a message handler");
            }
        };
        m.ws->onMessage([received](std::string_view) { received(); });
        m.ws->onMessage([&, i, received](std::span<const std::byte> d) {
            received();
            if (rng.chance(30)) all[i].ws->write(d);
        });
        if (m.hasHandler)
            m.ws->onClose([&, i](CloseEvent) {
                auto& m = all[i];
                ++m.closes;
                m.log += "C";
                m.socketOpenInHandler = clients[i].link->open;
                end(m, *clients[i].link);
                if (m.writeInHandler && m.ws) m.ws->write(std::string_view("too late"));
                if (m.destroyInHandler) {
                    m.ws.reset();
                    m.destroyed = true;
                    mon::count("destroyed in the close handler");
                }
            });
    }
    auto destroyAt = rng.chance(35) ? rng.below(30) : simnet::unlimited;
    std::size_t turn = 0;
    auto check = [&] {
        for (std::size_t i = 0; i < n; ++i) {
            auto& m = all[i];
            auto& l = *clients[i].link;
            if (m.closes > 1) mon::fail("close handler called " + std::to_string(m.closes) + " times", m.causes + " " + m.log);
            if (m.ended) {
                if (l.open && !m.stoppedByUser) mon::fail("socket still open after the end", m.causes + " " + m.log);
                if (l.received.size() != m.receivedAtEnd || l.writesStarted != m.writesAtEnd) mon::fail("sent after the end", m.causes + " " + m.log);
            }
        }
    };
    web::drive(rng, w, clients, [&] {
        for (std::size_t i = 0; i < n; ++i) {
            auto& m = all[i];
            if (m.ws && m.spontaneous < 12 && rng.chance(30)) {
                ++m.spontaneous;
                m.log += m.ended ? "x" : "w";
                if (m.ended) mon::count("writes after the end");
                m.ws->write(std::string_view("hello from the server").substr(0, rng.below(22)));
            }
        }
        if (turn++ == destroyAt) {
            auto& m = all[rng.below(n)];
            if (m.ws && !m.ended) {
                auto& l = *clients[static_cast<std::size_t>(&m - all.data())].link;
                bool pending = !l.reads.empty() || !l.writes.empty();
                bool stop = rng.chance(40);
                if (stop) {
                    m.ws->stop();
                    m.stoppedByUser = true;
                    m.log += "S";
                }
                end(m, l);
                if (!stop || rng.coin()) {
                    m.ws.reset();
                    m.destroyed = true;
                    m.log += "D";
                }
                else {
                    m.receivedAtEnd = l.received.size();
                    m.writesAtEnd = l.writesStarted;
                }
                if (pending || !w.ready.empty()) mon::count("destroyed with operations pending");
                if (l.open) mon::fail("socket still open after the WebSocket was stopped or destroyed", m.causes + " " + m.log);
            }
        }
        for (auto& c : clients) // the planned read errors
            if (!c.steps.empty() && c.steps.front().n == simnet::unlimited) {
                c.steps.pop_front();
                c.link->failRead = true;
                c.link->progress();
            }
        io.run_one();
        check();
    });
    for (auto& c : clients)
        if (!c.link->writes.empty() && c.link->open) c.link->progress();
    while (!w.ready.empty()) {
        io.run_one();
        check();
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto& m = all[i];
        auto& l = *clients[i].link;
        auto where = [&] { return m.causes + " history " + m.log; };
        bool mustEnd = m.causes.find("close frame") != m.causes.npos || m.causes.find("end of stream") != m.causes.npos || m.causes.find("reset") != m.causes.npos;
        mustEnd |= l.readErrors || l.writeErrors;
        if (!m.destroyed && !m.stoppedByUser && mustEnd) {
            if (l.open) mon::fail("end of the connection not noticed", where());
            if (m.hasHandler && m.closes != 1) mon::fail("close handler called " + std::to_string(m.closes) + " times", where());
        }
        if (!l.open && m.hasHandler && !m.stoppedByUser && m.closes == 0 && !(m.destroyed && m.ended)) mon::fail("socket closed without a call of the close handler", where());
        if (m.closes && m.socketOpenInHandler) mon::count("close handler saw an open socket");
        if (m.closes == 1 || m.destroyed || m.stoppedByUser) {
            mon::count("ends");
            // the first cause in the list of this history
            for (auto c : {"close frame", "end of stream", "reset", "read error", "write error"})
                if (m.closes && m.causes == std::string(c) + ";") mon::count(std::string("ended by ") + c);
            mon::nontrivial(mon::mix(mon::mix(w.traceHash, mon::fnv(m.causes + m.log)), i));
        }
        if (m.ws) { // later writes go nowhere
            auto before = l.received.size();
            bool dead = !l.open;
            m.ws->write(std::string_view("much later"));
            if (dead) mon::count("writes after the end");
            while (!w.ready.empty()) io.run_one();
            if (dead && l.received.size() != before) mon::fail("sent after the end", where());
            if (m.closes > 1) mon::fail("close handler called again by a late write", where());
        }
        mon::sample(where() + " closes " + std::to_string(m.closes));
    }
    // whatever is left goes away, then the operations that were pending complete
    for (auto& m : all) {
        auto before = m.closes;
        bool was = m.ws != nullptr;
        m.ws.reset();
        m.destroyed = true;
        while (!w.ready.empty()) io.run_one();
        if (was && m.closes != before) mon::fail("close handler called after the destruction", m.causes + " " + m.log);
    }
}
MON_SECTION(histories, 3000, 100000) { play(rng); }

// read and write fail together, in either order
MON_SECTION(together, 600, 20000) {
    simnet::World w;
    std::experimental::net::io_context io;
    w.pick = [&](std::size_t k) { return rng.below(k); };
    auto link = w.makeLink();
    link->window = rng.below(20);
    auto ws = std::make_unique<WebSocket>(web::Net::Socket(link));
    std::size_t closes = 0, messages = 0;
    bool destroy = rng.coin();
    ws->onClose([&](CloseEvent) {
        ++closes;
        if (destroy) ws.reset();
    });
    ws->onMessage([&](std::span<const std::byte>) {
        ++messages;
        if (closes) mon::fail("message delivered after the end", "");
    });
    for (std::size_t i = 0, k = 1 + rng.below(6); i < k; ++i) ws->write(std::string_view("a message that waits for the window"));
    for (std::size_t i = 0, k = rng.below(10); i < k && !w.ready.empty(); ++i) io.run_one();
    if (rng.coin()) link->send(wire::clientFrame(2, "x", 7) + wire::clientFrame(8, "", 9) + wire::clientFrame(2, "y", 7));
    for (std::size_t i = 0, k = rng.below(3); i < k && !w.ready.empty(); ++i) io.run_one();
    if (rng.coin()) link->clientResetNow();
    else {
        link->writesFailAfterClose = true;
        link->clientClose();
        link->setWindow(simnet::unlimited);
    }
    while (!w.ready.empty()) io.run_one();
    if (closes != 1) mon::fail("close handler called " + std::to_string(closes) + " times", "read and write failing together");
    if (link->open) mon::fail("socket still open after the end", "");
    mon::count("ends");
    mon::nontrivial(w.traceHash);
}

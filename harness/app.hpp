// Whole-application side of the harnesses: simulated browsers that upgrade, shake hands and exchange messages with a real
// BasicWF over the simulated network. Only the bytes each browser receives and what the public API reports are judged.
#pragma once
#include <experimental/net>

#include "WebFront.hpp"
#include "http.hpp"
#include "wire.hpp"

namespace app {
namespace wlog = webfront::log;
using WF = webfront::BasicWF<web::Net, web::MemFS>;
using UI = WF::UI;
#ifndef MON_REAL
using web::Client;
using web::Step;
#endif

struct LogLevel { // of one case
    explicit LogLevel(int level) {
        static constexpr std::uint8_t levels[5] = {0, 1, 2, 3, 4};
        wlog::setLogLevel(levels[level]);
    }
    ~LogLevel() { wlog::setLogLevel(wlog::Disabled); }
};

#ifndef MON_REAL
/// bytes received after the 101
inline std::string_view wsBytes(const simnet::Link& l) {
    std::string_view b = l.received;
    auto e = b.find("\r\n\r\n");
    if (e == b.npos || b.compare(0, 13, "HTTP/1.1 101 ") != 0) return {};
    return b.substr(e + 4);
}
inline bool upgraded(const simnet::Link& l) {
    std::string_view b = l.received;
    return b.find("\r\n\r\n") != b.npos && b.compare(0, 13, "HTTP/1.1 101 ") == 0;
}
struct Traffic {
    std::vector<wire::Message> messages; // binary frames but debug logs
    std::vector<std::string> logs, texts;
    std::size_t acks = 0, rest = 0;
};
/// what a browser received, strictly parsed; whole: nothing may be left over
inline Traffic traffic(const simnet::Link& l, bool whole = true) {
    Traffic t;
    for (auto& f : wire::serverFrames(wsBytes(l), whole ? nullptr : &t.rest)) {
        if (f.opcode == wire::text) {
            t.texts.push_back(f.payload);
            continue;
        }
        try {
            auto m = wire::parse(f.payload);
            if (m.command == wire::textCommand && m.detail == 0) t.logs.push_back(m.text);
            else {
                t.acks += m.command == wire::ack;
                t.messages.push_back(std::move(m));
            }
        }
        catch (const wire::Malformed& e) {
            mon::fail("malformed message sent", std::string(e.what()) + ": '" + mon::show(f.payload, 120) + "'");
        }
    }
    return t;
}
inline bool acked(const simnet::Link& l) {
    auto b = wsBytes(l);
    wire::Frame f;
    while (wire::parseFrame(b, f)) {
        if (f.opcode == wire::binary && !f.payload.empty() && f.payload[0] == wire::ack) return true;
        b.remove_prefix(f.size);
    }
    return false;
}
#endif // MON_REAL
/// the bytes of a message: one masked frame or, sometimes, several with unrelated control frames in between
inline std::string frame(mon::Rng& rng, std::string_view payload, std::uint8_t opcode = wire::binary) {
    auto mask = [&] { return rng.chance(10) ? 0 : static_cast<std::uint32_t>(rng.next()); };
    if (opcode > wire::binary || !rng.chance(12)) return wire::clientFrame(opcode, payload, mask());
    std::string bytes;
    std::size_t at = 0, parts = 2 + rng.below(3);
    for (std::size_t k = 1; k <= parts; ++k) {
        auto size = k == parts ? payload.size() - at : rng.below(payload.size() - at + 1);
        bytes += wire::fragment(wire::clientFrame(k == 1 ? opcode : 0, payload.substr(at, size), mask()), k == parts);
        if (k < parts && rng.chance(20)) bytes += wire::clientFrame(wire::pong, rng.bytes(rng.below(20)), mask());
        at += size;
    }
    return bytes;
}
#ifndef MON_REAL
inline void append(std::deque<Step>& to, std::deque<Step> more) {
    for (auto& s : more) to.push_back(std::move(s));
}
inline Step await(std::function<bool()> c) {
    Step s;
    s.kind = Step::await;
    s.condition = std::move(c);
    return s;
}
inline Step act(std::function<void()> f) {
    Step s;
    s.kind = Step::act;
    s.todo = std::move(f);
    return s;
}
/// the steps of a browser up to its handshake; the client must stay where it is
inline void connectSteps(mon::Rng& rng, Client& c, bool handshake = true, bool waitForAck = false) {
    append(c.steps, web::cut(rng, web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text(), rng.chance(70) ? 0 : static_cast<unsigned>(rng.below(5))));
    c.steps.push_back(await([&c] { return upgraded(*c.link); }));
    if (handshake) append(c.steps, web::cut(rng, frame(rng, wire::handshakeMessage()), rng.chance(70) ? 0 : 1));
    if (waitForAck) c.steps.push_back(await([&c] { return acked(*c.link); }));
}
/// a browser that connects and links at once
inline std::pair<std::shared_ptr<simnet::Link>, UI> join(simnet::World& w, WF& wf) {
    auto drain = [&] {
        while (!w.ready.empty()) wf.runOne();
    };
    std::optional<UI> ui;
    wf.onUIStarted([&](UI u) { ui.emplace(u); });
    auto l = w.connect();
    mon::Rng rng(1);
    l->send(web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text());
    drain();
    l->send(wire::clientFrame(wire::binary, wire::handshakeMessage(), 0x01020304));
    drain();
    wf.onUIStarted([](UI) {});
    if (!ui) mon::fail("client not announced", "received '" + mon::show(l->received, 200) + "'");
    return {l, *ui};
}
/// transport conditions of a client
inline void conditions(mon::Rng& rng, Client& c, unsigned percent = 40) {
    if (rng.chance(percent)) c.window = rng.below(400);
    if (rng.chance(percent)) c.maxWrite = 1 + rng.below(rng.coin() ? 20 : 300);
    if (rng.chance(percent)) c.maxRead = 1 + rng.below(rng.coin() ? 10 : 600);
}
/// every step was made: nobody waits for something that did not come
inline void settled(const std::vector<Client>& clients) {
    for (std::size_t i = 0; i < clients.size(); ++i)
        if (!clients[i].steps.empty()) {
            auto& l = *clients[i].link;
            mon::fail(upgraded(l) ? "handshake not acknowledged" : "upgrade not answered", "client " + std::to_string(i) + " received '" + mon::show(l.received, 200) + "'");
        }
}
#endif // MON_REAL
} // namespace app

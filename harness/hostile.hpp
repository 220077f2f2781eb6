// Hostile peers: byte streams no server may trust, and transport faults.
#pragma once
#include "app.hpp"

namespace hostile {
using wire::Value;

/// text that means something to formatters, paths, browsers or terminals
inline std::string words(mon::Rng& rng) {
    static const std::vector<std::string> all{"{", "}", "{}", "{:s}", "{0}", "{:x}", "{:{}}", "{{", "}}", "%s", "%n", "%", "\x1b[2J", "<script>", "'", "\"", "..", "/", "a", "word", std::string(1, '\0'), "\xc3\xa9", "\xff"};
    std::string r;
    for (std::size_t k = 1 + rng.below(5); k-- > 0;) r += rng.of(all);
    return r;
}
inline Value value(mon::Rng& rng, unsigned depth = 0) {
    switch (rng.below(depth > 3 ? 5 : 8)) {
    case 0: return Value::boolean(rng.coin());
    case 1: return Value::num(std::bit_cast<double>(rng.next()));
    case 2: return Value::num(static_cast<double>(rng.below(100)));
    case 3: return Value::str(rng.coin() ? words(rng) : rng.bytes(rng.size(300)));
    case 4: return Value::longStr(rng.from("ab{}%\n", rng.size(rng.chance(5) ? 65535 : 200)));
    case 5: {
        Value v;
        v.kind = rng.coin() ? Value::exception : Value::undefined;
        v.s = "what";
        return v;
    }
    default: {
        std::vector<Value> v;
        for (std::size_t k = rng.below(5); k-- > 0;) v.push_back(value(rng, depth + 1));
        return Value::list(std::move(v));
    }
    }
}
/// bytes changed, removed, inserted, repeated or cut
inline std::string mutate(mon::Rng& rng, std::string b) {
    for (std::size_t k = 1 + rng.below(4); k-- > 0;) {
        auto at = [&] { return rng.chance(50) ? rng.below(std::min<std::size_t>(b.size(), 12)) : rng.below(b.size()); };
        if (b.empty()) {
            b = rng.bytes(rng.below(20));
            continue;
        }
        switch (rng.below(7)) {
        case 0: b[at()] = static_cast<char>(rng.below(256)); break;
        case 1: b[at()] = "\0\1\2\3\4\5\6\x12\x7f\x80\xfe\xff"[rng.below(12)]; break;
        case 2: b.resize(at()); break;
        case 3: b.insert(at(), rng.bytes(1 + rng.below(9))); break;
        case 4: b.erase(at(), 1 + rng.below(9)); break;
        case 5: b[at()] ^= static_cast<char>(1 << rng.below(8)); break;
        default: {
            auto i = at();
            b += b.substr(i, 1 + rng.below(40));
        }
        }
    }
    return b;
}
/// the payload of a binary message
inline std::string message(mon::Rng& rng, const std::vector<std::string>& names) {
    switch (rng.below(10)) {
    case 0: return "";
    case 1: return rng.bytes(rng.size(300));
    case 2: return std::string(1, static_cast<char>(rng.below(7))) + rng.bytes(rng.size(40));
    case 3: return wire::handshakeMessage() + rng.bytes(rng.below(3));
    case 4: return std::string(1, '\0');
    default: {
        std::vector<Value> args;
        auto name = rng.chance(85) ? rng.of(names) : rng.coin() ? words(rng) : rng.bytes(rng.size(300));
        if (name == "note" && rng.chance(60)) args = {Value::str(rng.bytes(rng.size(300))), Value::num(std::bit_cast<double>(rng.next()))};
        else if (name == "mixed" && rng.chance(60)) args = {Value::boolean(rng.coin()), Value::num(static_cast<double>(rng.below(9))), Value::str(rng.bytes(rng.below(9))), Value::list({Value::str(rng.bytes(rng.size(rng.chance(5) ? 65535 : 300))), Value::num(0)})};
        else
            for (std::size_t k = rng.below(7); k-- > 0;) args.push_back(value(rng));
        auto c = wire::call(name, args);
        if (rng.chance(10)) c[0] = static_cast<char>(wire::functionReturn);
        return rng.chance(70) ? mutate(rng, c) : c;
    }
    }
}
/// one frame, well-formed or not
inline std::string frame(mon::Rng& rng, const std::vector<std::string>& names) {
    auto mask = rng.chance(10) ? 0u : static_cast<std::uint32_t>(rng.next());
    switch (rng.below(12)) {
    case 0: return wire::clientFrame(wire::text, rng.coin() ? words(rng) : rng.bytes(rng.size(rng.chance(5) ? 70000 : 300)), mask);
    case 1: return wire::clientFrame(static_cast<std::uint8_t>(rng.below(16)), rng.bytes(rng.size(200)), mask, static_cast<int>(rng.of(std::vector<int>{0, 0, 126, 127})));
    case 2: { // not final, reserved bits
        auto f = wire::clientFrame(static_cast<std::uint8_t>(rng.below(16)), message(rng, names), mask);
        f[0] = static_cast<char>(rng.below(256));
        return f;
    }
    case 3: { // not masked
        std::string f = wire::clientFrame(wire::binary, message(rng, names), 0);
        if (f.size() < 130) {
            f[1] = static_cast<char>(f[1] & 0x7f);
            f.erase(2, 4);
        }
        return f;
    }
    case 4: { // a length that lies
        std::string f{static_cast<char>(0x80 | (rng.coin() ? wire::binary : wire::text)), static_cast<char>(0xff)};
        static const std::vector<std::uint64_t> lengths{0, 1, 125, 65535, 65536, 1u << 31, ~0ull, ~0ull >> 1, 1ull << 63, ~0ull - 13, ~0ull - 3, 1ull << 32, (1ull << 32) + 2};
        auto n = rng.of(lengths);
        for (int i = 7; i >= 0; --i) f.push_back(static_cast<char>(n >> (8 * i)));
        return f + rng.bytes(rng.size(600));
    }
    case 5: return rng.bytes(rng.size(400));
    case 6: return mutate(rng, wire::clientFrame(wire::binary, message(rng, names), mask));
    case 7: return wire::clientFrame(rng.coin() ? wire::ping : wire::pong, rng.bytes(rng.below(126)), mask);
    case 8: return rng.chance(20) ? wire::clientFrame(wire::close, rng.bytes(rng.below(3)), mask) : wire::clientFrame(wire::text, "", mask);
    default: return wire::clientFrame(wire::binary, message(rng, names), mask);
    }
}
/// bytes sent instead of a request
inline std::string request(mon::Rng& rng, const std::vector<std::string>& targets) {
    auto ask = [&] {
        web::Ask a = rng.coin() ? web::randomAsk(rng) : web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==");
        if (rng.coin()) a.target = rng.of(targets);
        return a;
    };
    switch (rng.below(13)) {
    case 11: { // headers that mean something elsewhere
        auto a = ask();
        if (rng.coin()) a.method = rng.of(web::methods);
        for (std::size_t k = 1 + rng.below(5); k-- > 0;) a.headers.push_back(web::knownHeader(rng));
        return a.text() + (rng.chance(30) ? rng.bytes(rng.size(300)) : "");
    }
    case 0: return rng.bytes(rng.size(3000));
    case 1: return std::string("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + rng.bytes(500); // TLS
    case 2: return "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + rng.bytes(30);
    case 3: {
        std::string what;
        return web::malform(rng, ask(), what);
    }
    case 4: { // ends early
        auto t = ask().text();
        return t.substr(0, rng.below(t.size()));
    }
    case 5: { // very long parts
        auto a = ask();
        auto n = 1000 + rng.below(40000);
        switch (rng.below(5)) {
        case 0: a.target = "/" + std::string(n, 'a'); break;
        case 1: a.headers.emplace_back("X", std::string(n, 'v')); break;
        case 2: a.headers.emplace_back(std::string(n, 'n'), "v"); break;
        case 3: a.method = std::string(n, 'M'); break;
        default: for (std::size_t k = 0; k < n / 20; ++k) a.headers.emplace_back("H" + std::to_string(k), "v");
        }
        return a.text();
    }
    case 6: { // escapes that are none
        auto a = ask();
        a.target = "/" + rng.from("%%%0123456789abcdefgGXx-+ \x80\xff/.", rng.size(60));
        return a.text();
    }
    case 7: { // upgrades that are odd
        auto a = ask();
        a.headers = {{"Connection", rng.coin() ? "Upgrade" : "keep-alive, Upgrade"}, {"Upgrade", "websocket"}};
        for (std::size_t k = rng.below(3); k-- > 0;) a.headers.emplace_back("Sec-WebSocket-Key", rng.from("ABC=/+ %", rng.size(3000)));
        return a.text();
    }
    case 8: return ask().text() + ask().text(); // pipelined
    case 9: return mutate(rng, ask().text());
    case 10: { // text the server may write elsewhere
        auto a = ask();
        auto readable = [&] {
            auto s = words(rng);
            std::erase_if(s, [](char c) { return (c >= 0 && c < 33) || c == 127; });
            return s;
        };
        if (rng.chance(80)) a.target = "/" + readable();
        if (rng.coin()) a.headers.emplace_back(rng.of(std::vector<std::string>{"Host", "Sec-WebSocket-Key", "Sec-WebSocket-Protocol", "Accept-Encoding", "X"}), readable());
        return a.text();
    }
    default: {
        std::string t = "GET / HTTP/1.1\r\n";
        for (std::size_t k = rng.below(400); k-- > 0;) t += std::string(rng.below(3), ' ') + "\r\n";
        return t;
    }
    }
}
#ifndef MON_REAL
/// faults of a client's transport
inline void faults(mon::Rng& rng, web::Client& c) {
    app::conditions(rng, c, 30);
    auto readFault = rng.chance(8), shutdownFault = rng.chance(25), afterClose = rng.coin();
    auto writeFault = rng.chance(20) ? rng.below(rng.coin() ? 400 : 3000) : simnet::unlimited;
    c.onConnect = [=](simnet::Link& l) {
        l.failRead = readFault;
        l.failShutdown = shutdownFault;
        l.failWriteAt = writeFault;
        l.writesFailAfterClose = afterClose;
    };
    if (rng.chance(10)) {
        auto i = static_cast<std::ptrdiff_t>(rng.below(c.steps.size() + 1));
        c.steps.insert(c.steps.begin() + i, app::act([&c] { // a read that fails later
            c.link->failRead = true;
            c.link->progress();
        }));
    }
}
inline void leave(mon::Rng& rng, web::Client& c) {
    switch (rng.below(5)) {
    case 0: c.steps.push_back({web::Step::close, "", 0}); break;
    case 1: c.steps.push_back({web::Step::reset, "", 0}); break;
    case 2:
        c.steps.push_back({web::Step::close, "", 0});
        c.steps.push_back({web::Step::reset, "", 0});
        break;
    case 3: app::append(c.steps, web::cut(rng, app::frame(rng, rng.bytes(rng.below(8)), wire::close), 0)); break;
    default: break; // stays
    }
}
inline void steps(mon::Rng& rng, web::Client& c, const std::vector<std::string>& names, const std::vector<std::string>& targets, std::size_t frames = 8) {
    if (rng.chance(35)) {
        app::append(c.steps, web::cut(rng, request(rng, targets), static_cast<unsigned>(rng.below(5))));
        if (rng.chance(30)) app::append(c.steps, web::cut(rng, request(rng, targets), static_cast<unsigned>(rng.below(5))));
    }
    else {
        auto ask = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
        if (rng.chance(10)) ask += frame(rng, names); // does not wait for the answer
        app::append(c.steps, web::cut(rng, ask, rng.chance(70) ? 0 : static_cast<unsigned>(rng.below(5))));
        if (rng.chance(85)) c.steps.push_back(app::await([&c] { return app::upgraded(*c.link) || !c.link->open; }));
        if (rng.chance(70)) app::append(c.steps, web::cut(rng, app::frame(rng, wire::handshakeMessage()), 0));
        std::string stream;
        bool framed = rng.coin(); // only the messages are hostile
        for (std::size_t k = rng.below(frames + 1); k-- > 0;) stream += framed ? app::frame(rng, message(rng, names)) : frame(rng, names);
        app::append(c.steps, web::cut(rng, stream, rng.chance(60) ? 4 : static_cast<unsigned>(rng.below(5))));
    }
    leave(rng, c);
    // the client may leave at any point
    if (rng.chance(15)) {
        auto i = static_cast<std::ptrdiff_t>(rng.below(c.steps.size() + 1));
        c.steps.insert(c.steps.begin() + i, web::Step{rng.coin() ? web::Step::reset : web::Step::close, "", 0});
    }
    faults(rng, c);
}
#endif // MON_REAL
} // namespace hostile

// W01: incoming WebSocket messages are delivered exactly once, whole and in order
#include "http.hpp"
#include "wire.hpp"

MON_RULE("sequences of masked frames (text, binary, ping, pong, reserved) of all length classes, fed to the decoder in exactly sized pieces and sent to a WebSocket over the simulated network under every kind of splitting and coalescing; the oracle is the list of frames; non-trivial = one data frame delivered; distinct by payload, size and how the stream was cut");
MON_REQUIRE("frames decoded", 3000);
MON_REQUIRE("messages delivered", 8000);
MON_REQUIRE("16-bit lengths", 500);
MON_REQUIRE("64-bit lengths", 20);
MON_REQUIRE("headers split", 500);
MON_REQUIRE("frames far from complete", 200);
MON_REQUIRE("frames coalesced in one read", 1000);
MON_REQUIRE("frames that are not messages", 800);
MON_REQUIRE("messages in several frames", 1000);

using webfront::websocket::FrameDecoder;
using webfront::websocket::Header;
using WebSocket = webfront::websocket::WebSocket<web::Net>;

static std::size_t payloadSize(mon::Rng& rng, bool big) {
    static const std::size_t edges[] = {0, 1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 8178, 8184, 8186, 8192, 8193, 16384};
    static const std::size_t bigEdges[] = {65534, 65535, 65536, 65537, 70000, 131072, 200000};
    if (big && rng.chance(25)) return bigEdges[rng.below(std::size(bigEdges))];
    switch (rng.below(4)) {
    case 0: return edges[rng.below(std::size(edges))];
    case 1: return rng.below(20);
    case 2: return rng.below(140);
    default: return rng.chance(15) ? rng.below(20000) : rng.below(1000);
    }
}
static std::uint32_t mask(mon::Rng& rng) {
    switch (rng.below(6)) {
    case 0: return 0;
    case 1: return 0xffffffff;
    case 2: return static_cast<std::uint32_t>(rng.below(256)) << (8 * rng.below(4));
    default: return static_cast<std::uint32_t>(rng.next());
    }
}

// the decoder alone: complete exactly at the last byte, never before, and nothing outside the given bytes is read
MON_SECTION(decoder, 2500, 80000) {
    FrameDecoder d;
    for (std::size_t k = 0, frames = 1 + rng.below(4); k < frames; ++k) {
        static const std::vector<int> opcodes{1, 1, 2, 2, 2, 8, 9, 10, 3, 7, 11, 15};
        auto opcode = static_cast<std::uint8_t>(rng.of(opcodes));
        auto n = index < 400 && k == 0 ? index : payloadSize(rng, rng.chance(5));
        auto payload = rng.bytes(n);
        auto text = wire::clientFrame(opcode, payload, mask(rng));
        std::size_t extra = rng.chance(10) ? rng.below(20) : 0; // bytes of what follows, in the last piece
        std::size_t header = text.size() - n, at = 0, pieces = 0;
        bool splitHeader = false, done = false;
        auto style = text.size() > 3000 ? 3 + rng.below(2) : rng.below(5);
        while (at < text.size()) {
            std::size_t take = style == 0 ? text.size() : style == 1 ? 1 : style == 2 ? 1 + rng.below(7) : at < header && rng.coin() ? 1 + rng.below(header - at) : 1 + rng.below(text.size() - at);
            take = std::min(take, text.size() - at);
            if (at + take < header) splitHeader = true;
            bool last = at + take == text.size();
            std::vector<std::byte> piece(take + (last ? extra : 0));
            std::memcpy(piece.data(), text.data() + at, take);
            for (std::size_t i = take; i < piece.size(); ++i) piece[i] = static_cast<std::byte>(rng.next());
            done = d.parse(std::span<const std::byte>(piece.data(), piece.size()));
            at += take;
            ++pieces;
            if (done != last) mon::fail(last ? "frame never completed" : "frame completed too early", "opcode " + std::to_string(opcode) + " payload of " + std::to_string(n) + " bytes, after " + std::to_string(at) + " of " + std::to_string(text.size()) + " bytes in " + std::to_string(pieces) + " pieces");
        }
        auto got = d.payload();
        std::string_view g(reinterpret_cast<const char*>(got.data()), got.size());
        if (g != payload) mon::fail("decoded payload", "of " + std::to_string(n) + " bytes in " + std::to_string(pieces) + " pieces: " + mon::differ(g, payload));
        if (static_cast<int>(d.frameType) != opcode) mon::fail("decoded opcode", std::to_string(static_cast<int>(d.frameType)) + " instead of " + std::to_string(opcode));
        mon::count("frames decoded");
        if (header == 8) mon::count("16-bit lengths");
        if (header == 14) mon::count("64-bit lengths");
        if (splitHeader) mon::count("headers split");
        mon::nontrivial(mon::mix(mon::mix(mon::fnv(payload), pieces), opcode * 16 + splitHeader));
        d.reset();
    }
}

// announced lengths far beyond what arrives: never complete
MON_SECTION(endless, 300, 6000) {
    FrameDecoder d;
    std::uint64_t n = rng.next() >> rng.below(40);
    if (rng.coin()) n = (std::uint64_t{1 + rng.below(255)} << (8 * (3 + rng.below(5)))) + rng.below(40);
    n = std::max<std::uint64_t>(n, 1 << 23) & ~(std::uint64_t{1} << 63); // the most significant bit must be 0
    std::string text{static_cast<char>(0x82), static_cast<char>(0xff)};
    for (int i = 7; i >= 0; --i) text += static_cast<char>(n >> (8 * i));
    text += rng.bytes(4 + rng.below(600));
    for (std::size_t at = 0; at < text.size();) {
        auto take = std::min(text.size() - at, 1 + rng.below(rng.coin() ? 20 : 700));
        std::vector<std::byte> piece(take);
        std::memcpy(piece.data(), text.data() + at, take);
        at += take;
        if (d.parse(std::span<const std::byte>(piece.data(), piece.size()))) mon::fail("frame completed too early", "payload of " + std::to_string(n) + " bytes, after " + std::to_string(at) + " bytes");
    }
    mon::count("frames far from complete");
    mon::nontrivial(n);
}
// payloads whose length needs more than three bytes
MON_SECTION(huge, 4, 12) {
    if (!mon::fullSpeed()) return;
    mon::allow(120);
    FrameDecoder d;
    auto n = (std::size_t{1} << 24) - 2 + (index < 4 ? index : rng.below(9000000));
    auto payload = rng.bytes(1000);
    std::string whole;
    while (whole.size() < n) whole += payload;
    whole.resize(n);
    auto text = wire::clientFrame(2, whole, mask(rng));
    for (std::size_t at = 0; at < text.size();) {
        auto take = std::min(text.size() - at, rng.coin() ? 1 + rng.below(100) : 8192 + rng.below(3000000));
        at += take;
        if (d.parse(std::span(reinterpret_cast<const std::byte*>(text.data()) + at - take, take)) != (at == text.size())) mon::fail(at == text.size() ? "frame never completed" : "frame completed too early", "payload of " + std::to_string(n) + " bytes, after " + std::to_string(at));
    }
    auto got = d.payload();
    if (got.size() != n || std::memcmp(got.data(), whole.data(), n)) mon::fail("decoded payload", "of " + std::to_string(n) + " bytes");
    mon::count("64-bit lengths");
    mon::nontrivial(n);
}

struct Message {
    bool text;
    std::string payload;
    bool operator==(const Message&) const = default;
};
static std::string describe(const std::vector<Message>& m) {
    std::string r;
    for (std::size_t i = 0; i < m.size() && i < 12; ++i) r += (m[i].text ? " T" : " B") + std::to_string(m[i].payload.size());
    return r + (m.size() > 12 ? " ..." : "");
}
static void stream(mon::Rng& rng, std::size_t most, bool big, std::size_t crowd = 0) {
    simnet::World w;
    std::experimental::net::io_context io;
    w.pick = [&](std::size_t k) { return rng.below(k); };
    auto links = crowd ? crowd : 1 + rng.below(3); // several sockets at the same time
    struct Peer {
        std::unique_ptr<WebSocket> ws;
        std::vector<Message> want, got;
        std::string cutAs;
    };
    std::vector<Peer> peers(links);
    std::vector<web::Client> clients(links);
    for (std::size_t k = 0; k < links; ++k) {
        auto& p = peers[k];
        std::string bytes;
        std::vector<std::size_t> ends;
        for (std::size_t i = 0, n = 1 + rng.below(most); i < n; ++i) {
            if (rng.chance(20)) { // not a message
                static const std::vector<int> opcodes{9, 10, 3, 5, 7, 11, 15};
                auto o = static_cast<std::uint8_t>(rng.of(opcodes));
                bytes += wire::clientFrame(o, rng.bytes(rng.below(o > 7 ? 126 : 400)), mask(rng));
                mon::count("frames that are not messages");
            }
            else {
                bool text = rng.coin();
                auto n2 = payloadSize(rng, big);
                auto payload = text ? rng.from("abcdefghijklmnop qrstuvwxyz0123456789", n2) : rng.bytes(n2);
                if (rng.chance(25)) { // in several frames, control frames in between
                    auto parts = 2 + rng.below(4);
                    std::size_t from = 0;
                    for (std::size_t k = 0; k < parts; ++k) {
                        auto n3 = k + 1 == parts ? n2 - from : rng.below(n2 - from + 1);
                        bytes += wire::fragment(wire::clientFrame(k ? 0 : text ? 1 : 2, std::string_view(payload).substr(from, n3), mask(rng)), k + 1 == parts);
                        from += n3;
                        ends.push_back(bytes.size());
                        while (k + 1 < parts && rng.chance(25)) {
                            bytes += wire::clientFrame(rng.coin() ? 9 : 10, rng.bytes(rng.below(126)), mask(rng));
                            ends.push_back(bytes.size());
                        }
                    }
                    ends.pop_back();
                    mon::count("messages in several frames");
                }
                else bytes += wire::clientFrame(text ? 1 : 2, payload, mask(rng));
                p.want.push_back({text, payload});
            }
            ends.push_back(bytes.size());
        }
        auto& c = clients[k];
        c.link = w.makeLink();
        c.connected = true;
        auto style = bytes.size() > 4000 ? (rng.chance(50) ? 0 : 3 + rng.below(3)) : rng.below(6);
        if (style == 5) { // at frame boundaries, give or take a few bytes
            std::size_t from = 0;
            for (auto e : ends) {
                auto to = std::min(bytes.size(), e + rng.below(5) - std::min<std::size_t>(e - from, rng.below(4)));
                if (to <= from) continue;
                c.steps.push_back({web::Step::send, bytes.substr(from, to - from), 0});
                from = to;
            }
            if (from < bytes.size()) c.steps.push_back({web::Step::send, bytes.substr(from), 0});
        }
        else c.steps = web::cut(rng, bytes, static_cast<unsigned>(style));
        if (rng.chance(30)) c.link->maxRead = 1 + rng.below(rng.coin() ? 6 : 200);
        if (bytes.size() > 20000) c.link->maxRead = std::max<std::size_t>(c.link->maxRead, 500);
        p.cutAs = std::to_string(c.steps.size()) + " pieces, reads of " + (c.link->maxRead == simnet::unlimited ? "any size" : "at most " + std::to_string(c.link->maxRead));
        p.ws = std::make_unique<WebSocket>(web::Net::Socket(c.link));
        p.ws->onMessage([&p](std::string_view t) { p.got.push_back({true, std::string(t)}); });
        p.ws->onMessage([&p](std::span<const std::byte> d) { p.got.push_back({false, std::string(reinterpret_cast<const char*>(d.data()), d.size())}); });
        if (c.steps.size() < ends.size() && c.link->maxRead == simnet::unlimited) mon::count("frames coalesced in one read", static_cast<long long>(ends.size() - c.steps.size()));
        mon::nontrivial(mon::mix(mon::fnv(bytes), mon::mix(style, c.steps.size())));
    }
    web::drive(rng, w, clients, [&] { io.run_one(); });
    for (std::size_t k = 0; k < links; ++k) {
        auto& p = peers[k];
        auto where = [&] { return p.cutAs + ": sent" + describe(p.want) + " delivered" + describe(p.got); };
        for (std::size_t i = 0; i < std::min(p.want.size(), p.got.size()); ++i)
            if (!(p.want[i] == p.got[i])) mon::fail("message " + std::string(p.want[i].text == p.got[i].text ? "altered or out of order" : "delivered as another kind"), where() + "; message " + std::to_string(i) + ": " + mon::differ(p.got[i].payload, p.want[i].payload));
        if (p.got.size() != p.want.size()) mon::fail(p.got.size() < p.want.size() ? "message lost" : "message delivered twice or invented", where());
        if (clients[k].link->ended()) mon::fail("connection ended by well-formed frames", where());
        mon::count("messages delivered", static_cast<long long>(p.got.size()));
        for (auto& m : p.want) {
            if (m.payload.size() > 125) mon::count(m.payload.size() < 65536 ? "16-bit lengths" : "64-bit lengths");
            mon::nontrivial(mon::mix(mon::fnv(m.payload), mon::fnv(p.cutAs)));
        }
        mon::sample(where());
    }
}
MON_SECTION(streams, 1000, 40000) { stream(rng, 14, false); }
MON_SECTION(longStreams, 60, 2000) { stream(rng, 400, false); }
MON_SECTION(bigFrames, 120, 3000) { stream(rng, 5, true); }
MON_SECTION(crowds, 3, 40) {
    mon::allow(150);
    stream(rng, 3, false, 40 + rng.below(mon::fullSpeed() ? 250 : 10));
}
// more messages than 16 bits count
MON_SECTION(endurance, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    simnet::World w;
    std::experimental::net::io_context io;
    auto link = w.makeLink();
    WebSocket ws{web::Net::Socket(link)};
    std::size_t sent = 0, got = 0;
    auto take = [&](bool text, std::string payload) {
        if (text != (got % 3 == 0) || payload != "m" + std::to_string(got)) mon::fail("message altered or out of order", "number " + std::to_string(got) + ": '" + mon::show(payload, 40) + "'");
        ++got;
    };
    ws.onMessage([&](std::string_view t) { take(true, std::string(t)); });
    ws.onMessage([&](std::span<const std::byte> d) { take(false, std::string(reinterpret_cast<const char*>(d.data()), d.size())); });
    for (std::size_t total = 65536 + 700; sent < total;) {
        std::string bytes;
        for (std::size_t k = 1 + rng.below(40); k-- > 0; ++sent) bytes += wire::clientFrame(sent % 3 == 0 ? 1 : 2, "m" + std::to_string(sent), mask(rng));
        link->send(bytes);
        while (!w.ready.empty()) io.run_one();
        if (got != sent) mon::fail("message lost", std::to_string(got) + " of " + std::to_string(sent));
    }
    mon::count("messages delivered", static_cast<long long>(got));
    mon::nontrivial(got);
}

// W02: outgoing WebSocket messages arrive whole, in order, as valid frames
#include "http.hpp"
#include "wire.hpp"

MON_RULE("histories of writes (text, binary, two-part, frames assembled from several buffers) of all length classes on 1 to 3 WebSockets, the caller's memory overwritten and freed right after each call, through windows, partial writes and random completion order; a strict frame parser and the list of payloads judge the bytes received; non-trivial = one message; distinct by payload, kind and network trace");
MON_REQUIRE("messages received", 8000);
MON_REQUIRE("written while others were pending", 2000);
MON_REQUIRE("16-bit lengths", 500);
MON_REQUIRE("64-bit lengths", 30);
MON_REQUIRE("memory released while pending", 2000);

using Frame = webfront::websocket::Frame<web::Net>;
using WebSocket = webfront::websocket::WebSocket<web::Net>;

static std::size_t payloadSize(mon::Rng& rng, bool big) {
    static const std::size_t edges[] = {0, 1, 2, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 8191, 8192, 8193};
    static const std::size_t bigEdges[] = {65534, 65535, 65536, 65537, 70000, 131072, 300000};
    if (big && rng.chance(40)) return bigEdges[rng.below(std::size(bigEdges))];
    switch (rng.below(4)) {
    case 0: return edges[rng.below(std::size(edges))];
    case 1: return rng.below(20);
    case 2: return rng.below(140);
    default: return rng.chance(10) ? rng.below(20000) : rng.below(600);
    }
}
/// memory of the caller: overwritten, then freed
struct Owned {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit Owned(std::string_view t) : p(new char[t.size()]), n(t.size()) { std::memcpy(p.get(), t.data(), n); }
    Owned(Owned&&) = default;
    ~Owned() {
        if (p) std::memset(p.get(), '!', n);
    }
    std::span<const std::byte> bytes() const { return {reinterpret_cast<const std::byte*>(p.get()), n}; }
    std::string_view text() const { return {p.get(), n}; }
};
struct Message {
    bool text;
    std::string payload;
};
static Message writeOne(mon::Rng& rng, WebSocket& ws, bool big, const std::string* given = nullptr) {
    auto payload = given ? *given : rng.bytes(payloadSize(rng, big));
    switch (rng.below(4)) {
    case 0: {
        Owned m(payload);
        ws.write(m.text());
        return {true, payload};
    }
    case 1: {
        Owned m(payload);
        ws.write(m.bytes());
        return {false, payload};
    }
    case 2: {
        auto k = rng.below(payload.size() + 1);
        Owned a(payload.substr(0, k)), b(payload.substr(k));
        ws.write(a.bytes(), b.bytes());
        return {false, payload};
    }
    default: {
        std::vector<Owned> parts;
        auto rest = payload;
        bool text = rng.coin();
        auto cut = [&] {
            auto k = rng.below(rest.size() + 1);
            parts.emplace_back(rest.substr(0, k));
            rest.erase(0, k);
        };
        cut();
        auto frame = text ? Frame(parts.back().text()) : Frame(parts.back().bytes());
        for (std::size_t i = 0, n = rng.below(5); i < n; ++i) {
            cut();
            frame.addBuffer(parts.back().bytes());
        }
        parts.emplace_back(rest);
        frame.addBuffer(parts.back().bytes());
        if (rng.coin()) {
            Frame moved = std::move(frame);
            ws.write(std::move(moved));
        }
        else ws.write(std::move(frame));
        return {text, payload};
    }
    }
}

// the frame alone: its buffers are one valid frame
MON_SECTION(frames, 1500, 40000) {
    auto payload = rng.bytes(index < 300 ? index : payloadSize(rng, rng.chance(10)));
    auto k = rng.below(payload.size() + 1), k2 = k + rng.below(payload.size() - k + 1);
    auto span = [&](std::size_t a, std::size_t b) { return std::span(reinterpret_cast<const std::byte*>(payload.data()) + a, b - a); };
    bool text = rng.coin();
    Frame f = text ? Frame(std::string_view(payload).substr(0, k)) : rng.coin() ? Frame(span(0, k)) : Frame(span(0, k / 2), span(k / 2, k));
    f.addBuffer(span(k, k2));
    if (rng.coin()) {
        Frame g = std::move(f);
        f = std::move(g);
    }
    f.addBuffer(span(k2, payload.size()));
    std::string bytes;
    for (auto& b : f.toBuffers()) bytes.append(static_cast<const char*>(b.data()), b.size());
    auto got = wire::serverFrames(bytes);
    if (got.size() != 1 || got[0].payload != payload || got[0].opcode != (text ? 1 : 2)) mon::fail("frame buffers", "payload of " + std::to_string(payload.size()) + " bytes gives '" + mon::show(bytes, 60) + "'");
    mon::nontrivial(mon::mix(mon::fnv(payload), k));
}

// one frame of more than 2^24 bytes
MON_SECTION(huge, 3, 8) {
    if (!mon::fullSpeed()) return;
    mon::allow(120);
    auto n = (std::size_t{1} << 24) - 1 + (index < 3 ? index : rng.below(20000000));
    std::string payload, unit = rng.bytes(997);
    while (payload.size() < n) payload += unit;
    payload.resize(n);
    simnet::World w;
    std::experimental::net::io_context io;
    auto link = w.makeLink();
    WebSocket ws{web::Net::Socket(link)};
    ws.write(std::string_view("before"));
    {
        Owned m(payload);
        ws.write(m.bytes());
    }
    ws.write(std::string_view("after"));
    while (!w.ready.empty()) io.run_one();
    auto got = wire::serverFrames(link->received);
    if (got.size() != 3 || got[0].payload != "before" || got[1].payload != payload || got[2].payload != "after") mon::fail("message altered or out of order", std::to_string(n) + " bytes between two texts gave " + std::to_string(got.size()) + " frames");
    mon::count("64-bit lengths");
    mon::nontrivial(n);
}
static void history(mon::Rng& rng, std::size_t most, bool big, std::size_t crowd = 0) {
    simnet::World w;
    std::experimental::net::io_context io;
    w.pick = [&](std::size_t k) { return rng.below(k); };
    auto n = crowd ? crowd : 1 + rng.below(3);
    struct Peer {
        std::unique_ptr<WebSocket> ws;
        std::vector<Message> want;
        std::size_t left = 0, incoming = 0;
        std::size_t taken = 0; // messages received by the server, one is answered from inside the handler
    };
    std::vector<Peer> peers(n);
    std::vector<web::Client> clients(n);
    for (std::size_t i = 0; i < n; ++i) {
        auto& p = peers[i];
        auto& c = clients[i];
        c.link = w.makeLink();
        c.connected = true;
        if (rng.chance(80)) c.link->window = rng.below(300);
        if (rng.chance(60)) c.link->maxWrite = 1 + rng.below(rng.coin() ? 20 : 5000);
        if (big) c.link->maxWrite = std::max<std::size_t>(c.link->maxWrite, 3000);
        for (std::size_t k = 0, m = rng.below(12); k < m; ++k) c.steps.push_back({web::Step::window, "", 1 + rng.below(rng.coin() ? 9 : 3000)});
        for (std::size_t k = 0, m = rng.below(4); k < m; ++k) {
            c.steps.insert(c.steps.begin() + static_cast<std::ptrdiff_t>(rng.below(c.steps.size() + 1)), {web::Step::send, wire::clientFrame(2, rng.bytes(rng.below(30)), static_cast<std::uint32_t>(rng.next())), 0});
        }
        p.ws = std::make_unique<WebSocket>(web::Net::Socket(c.link));
        p.ws->onMessage([&p, &rng, big](std::span<const std::byte> d) {
            ++p.taken;
            std::string echo(reinterpret_cast<const char*>(d.data()), d.size());
            p.want.push_back(writeOne(rng, *p.ws, big, &echo)); // answered from inside the handler
        });
        p.left = 1 + rng.below(most);
    }
    auto write = [&] {
        auto& p = rng.of(peers);
        if (!p.left) return false;
        --p.left;
        auto& link = clients[static_cast<std::size_t>(&p - peers.data())].link;
        bool pending = !link->writes.empty();
        p.want.push_back(writeOne(rng, *p.ws, big));
        if (pending) mon::count("written while others were pending");
        if (!link->writes.empty()) mon::count("memory released while pending");
        return true;
    };
    auto busy = 20 + rng.below(60);
    web::drive(rng, w, clients, [&] {
        if (rng.chance(static_cast<unsigned>(busy))) write();
        io.run_one();
    });
    while (std::any_of(peers.begin(), peers.end(), [](auto& p) { return p.left; })) {
        write();
        if (rng.coin() && !w.ready.empty()) io.run_one();
    }
    web::drive(rng, w, clients, [&] { io.run_one(); });
    for (std::size_t i = 0; i < n; ++i) {
        auto& p = peers[i];
        auto got = wire::serverFrames(clients[i].link->received);
        auto where = [&] {
            std::string r = "socket " + std::to_string(i) + ": written";
            for (std::size_t k = 0; k < std::min<std::size_t>(p.want.size(), 20); ++k) r += (p.want[k].text ? " T" : " B") + std::to_string(p.want[k].payload.size());
            r += " received";
            for (std::size_t k = 0; k < std::min<std::size_t>(got.size(), 20); ++k) r += (got[k].opcode == 1 ? " T" : " B") + std::to_string(got[k].payload.size());
            return r;
        };
        for (std::size_t k = 0; k < std::min(got.size(), p.want.size()); ++k) {
            if (got[k].payload != p.want[k].payload) mon::fail("message altered or out of order", where() + "; message " + std::to_string(k) + ": " + mon::differ(got[k].payload, p.want[k].payload));
            if ((got[k].opcode == 1) != p.want[k].text) mon::fail("message of another kind", where());
        }
        if (got.size() != p.want.size()) mon::fail(got.size() < p.want.size() ? "message not sent" : "more messages than written", where());
        mon::count("messages received", static_cast<long long>(got.size()));
        for (auto& m : p.want) {
            if (m.payload.size() > 125) mon::count(m.payload.size() < 65536 ? "16-bit lengths" : "64-bit lengths");
            mon::nontrivial(mon::mix(mon::mix(mon::fnv(m.payload), w.traceHash), m.text));
        }
        mon::sample(where());
    }
}
MON_SECTION(histories, 900, 30000) { history(rng, 20, false); }
MON_SECTION(big, 120, 3000) { history(rng, 5, true); }
MON_SECTION(crowds, 3, 40) {
    mon::allow(150);
    history(rng, 5, false, 40 + rng.below(mon::fullSpeed() ? 200 : 10));
}
// more messages than 16 bits count, thousands of them waiting for a client that does not read
MON_SECTION(endurance, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    simnet::World w;
    std::experimental::net::io_context io;
    auto link = w.makeLink();
    WebSocket ws{web::Net::Socket(link)};
    std::size_t written = 0, most = 0;
    for (std::size_t total = 65536 + 700; written < total;) {
        auto batch = written < 6000 ? 6000 : 1 + rng.below(3000);
        link->setWindow(rng.below(9));
        for (std::size_t k = batch; k-- > 0; ++written) {
            Owned m("m" + std::to_string(written));
            if (written % 3) ws.write(m.bytes());
            else ws.write(m.text());
        }
        most = std::max(most, batch);
        while (!w.ready.empty()) io.run_one();
        link->setWindow(simnet::unlimited);
        while (!w.ready.empty()) io.run_one();
    }
    auto got = wire::serverFrames(link->received);
    for (std::size_t k = 0; k < std::min(got.size(), written); ++k)
        if (got[k].payload != "m" + std::to_string(k) || got[k].opcode != (k % 3 ? 2 : 1)) mon::fail("message altered or out of order", "number " + std::to_string(k) + " of " + std::to_string(written) + ": '" + mon::show(got[k].payload, 40) + "'");
    if (got.size() != written) mon::fail(got.size() < written ? "message not sent" : "more messages than written", std::to_string(got.size()) + " of " + std::to_string(written));
    mon::count("messages received", static_cast<long long>(got.size()));
    mon::nontrivial(most);
}

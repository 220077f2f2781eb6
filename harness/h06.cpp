// H06: WebSocket upgrade happens exactly when asked, with the RFC 6455 key
#include "http.hpp"
#include "locales.hpp"

MON_RULE("1 to 4 concurrent clients sending requests with all, some or none of the three upgrade headers (random keys, letter cases, token lists in one line or several, order, other headers and methods), random segmentation and write schedules of the 101, some writes failing; the oracle is an independent SHA-1/base64 and the composition of the request; non-trivial = one request; distinct by request text and schedule");
MON_REQUIRE("switched", 1500);
MON_REQUIRE("lacking a header", 800);
MON_REQUIRE("other method", 100);
MON_REQUIRE("failed 101", 100);
MON_REQUIRE("subprotocol offered", 200);
MON_REQUIRE("subprotocol not offered", 500);
MON_REQUIRE("lists in several lines", 200);
MON_REQUIRE("sockets used after the hand-over", 1000);

using Server = webfront::http::Server<web::Net, web::MemFS>;

struct Plan {
    std::string text, key, what;
    bool upgrade = false;   // must be switched
    bool offered = false;   // the subprotocol of the library is among those offered
    bool several = false;   // a list is given in several lines
    bool failing = false;   // the write of the response fails
    std::size_t handed = 0; // calls of the upgrade handler for this client
    std::string atHandOver; // what the client had received by then
    std::unique_ptr<web::Net::Socket> socket;
    std::string echoed;
};
/// the values of the lines of a list header : RFC 9110 5.3, the tokens may be given in one line or in several
static std::vector<std::string> lines(mon::Rng& rng, const std::vector<std::string>& t) {
    std::vector<std::string> r;
    bool several = rng.chance(30);
    for (auto& x : t)
        if (r.empty() || (several && rng.coin())) r.push_back(x);
        else r.back() += (rng.coin() ? ", " : ",") + x;
    return r;
}
static std::vector<std::string> tokens(mon::Rng& rng, const std::string& wanted, bool include, const std::vector<std::string>& others) {
    std::vector<std::string> t;
    for (std::size_t i = 0, n = rng.below(3); i < n; ++i) t.push_back(rng.of(others));
    if (include) t.insert(t.begin() + static_cast<std::ptrdiff_t>(rng.below(t.size() + 1)), web::randomCase(rng, wanted));
    if (t.empty()) t.push_back(others[0]);
    return lines(rng, t);
}
static Plan make(mon::Rng& rng) {
    Plan p;
    static const std::vector<std::string> lengths{""};
    if (rng.chance(75)) p.key = model::base64(rng.bytes(16));
    else do p.key = web::headerValue(rng, 1 + rng.size(300));
        while (p.key.empty());
    web::Ask a;
    a.method = rng.chance(88) ? "GET" : rng.chance(60) ? "HEAD" : rng.of(web::methods);
    a.target = "/" + rng.from("abc/x", rng.below(6));
    bool connection = rng.chance(80), upgrade = rng.chance(80), key = rng.chance(80);
    if (rng.chance(45)) connection = upgrade = key = true;
    std::vector<std::pair<std::string, std::string>> h;
    auto add = [&](const std::string& name, const std::vector<std::string>& values) {
        for (auto& v : values) h.emplace_back(web::randomCase(rng, name), v);
        if (values.size() > 1) p.several = true;
    };
    if (connection || rng.coin()) add("Connection", tokens(rng, "upgrade", connection, {"keep-alive", "close", "TE", "keep-upgrade", "upgrade-insecure", "upgraded", "up", "up grade"}));
    if (upgrade || rng.coin()) add("Upgrade", tokens(rng, "websocket", upgrade, {"h2c", "TLS/1.0", "IRC/6.9", "websockets", "xwebsocket", "web socket", "websocket2", "web"}));
    if (key) h.emplace_back(web::randomCase(rng, "Sec-WebSocket-Key"), p.key);
    if (rng.chance(60)) h.emplace_back("Sec-WebSocket-Version", "13");
    if (rng.coin()) { // subprotocols offered
        std::vector<std::string> offers{"chat", "superchat", "v1.json", "WebFront_0.12", "xWebFront_0.1", "WebFront_0", "WebFront_0.1-beta"};
        for (std::size_t i = offers.size(); i > 1; --i) std::swap(offers[i - 1], offers[rng.below(i)]);
        offers.resize(rng.below(4));
        if (p.offered = offers.empty() || rng.coin(); p.offered) offers.insert(offers.begin() + static_cast<std::ptrdiff_t>(rng.below(offers.size() + 1)), "WebFront_0.1");
        add("Sec-WebSocket-Protocol", lines(rng, offers));
    }
    if (!key && rng.coin()) h.emplace_back("Sec-WebSocket-Accept", p.key);
    for (std::size_t i = 0, n = rng.below(4); i < n; ++i) {
        auto k = rng.coin() ? web::knownHeader(rng) : std::pair{"X-" + rng.from("abcdef", 4), web::headerValue(rng, rng.below(30))};
        if (!model::iequal(k.first, "Sec-WebSocket-Version")) h.push_back(k);
    }
    for (std::size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[rng.below(i)]);
    p.text = a.text();
    p.text.resize(p.text.size() - 2);
    for (auto& [k, v] : h) p.text += web::field(rng, k, v);
    p.text += "\r\n";
    p.upgrade = a.method == "GET" && connection && upgrade && key;
    p.what = a.method != "GET" ? "other method" : p.upgrade ? "all headers" : "lacking a header";
    return p;
}

static void upgrades(mon::Rng& rng) {
    auto& t = web::MemFS::table();
    t.clear();
    if (rng.coin()) t.emplace("index.html", web::Resource("hello"));
    simnet::World w;
    auto n = 1 + rng.below(4);
    std::vector<Plan> plans;
    for (std::size_t i = 0; i < n; ++i) plans.push_back(make(rng));
    std::vector<web::Client> clients(n);
    Server s("0.0.0.0", "80", ".");
    w.pick = [&](std::size_t k) { return rng.below(k); };
    s.onUpgrade([&](web::Net::Socket&& socket, webfront::http::Protocol protocol) {
        auto id = socket.native_handle();
        for (std::size_t i = 0; i < n; ++i)
            if (clients[i].link && clients[i].link->id == id) {
                ++plans[i].handed;
                plans[i].atHandOver = clients[i].link->received;
                if (protocol != webfront::http::Protocol::WebSocket) mon::report("handed over with another protocol", mon::show(plans[i].text));
                plans[i].socket = std::make_unique<web::Net::Socket>(std::move(socket));
                return;
            }
        mon::report("hand-over of an unknown socket", std::to_string(id));
    });
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = clients[i];
        c.steps = web::cut(rng, plans[i].text, static_cast<unsigned>(rng.below(5)));
        if (rng.coin()) c.window = rng.below(150);
        if (rng.coin()) c.maxWrite = 1 + rng.below(40);
        if (rng.chance(12)) {
            plans[i].failing = true;
            auto at = rng.below(100);
            c.onConnect = [at](simnet::Link& l) {
                l.failWriteAt = at;
                l.window = simnet::unlimited;
            };
        }
    }
    web::drive(rng, w, clients, [&] { s.runOne(); });
    for (std::size_t i = 0; i < n; ++i) {
        auto& p = plans[i];
        auto& l = *clients[i].link;
        auto where = [&] { return "client " + std::to_string(i) + " of " + std::to_string(n) + ", " + p.what + ": '" + mon::show(p.text, 400) + "' received '" + mon::show(l.received, 250) + "' hand-overs " + std::to_string(p.handed); };
        mon::nontrivial(mon::mix(mon::mix(mon::fnv(p.text), w.traceHash), i));
        if (p.failing) {
            if (p.handed) mon::fail("handed over although the response was not sent", where());
            mon::count("failed 101");
            continue;
        }
        auto r = web::parseReply(l.received, p.text.starts_with("HEAD"));
        if (!r.error.empty()) mon::fail("malformed response", where() + " " + r.error);
        mon::count(p.upgrade ? "switched" : p.what);
        if (!p.upgrade) {
            if (r.code == 101 || p.handed) mon::fail("switched without being asked", where());
            continue;
        }
        if (r.code != 101) mon::fail("upgrade request not answered 101", where());
        if (r.countOf("Sec-WebSocket-Accept") != 1 || r.header("Sec-WebSocket-Accept") != model::acceptKey(p.key)) mon::fail("wrong Sec-WebSocket-Accept", where() + " want " + model::acceptKey(p.key));
        if (!model::iequal(r.header("Upgrade").value_or(""), "websocket")) mon::fail("no Upgrade header in the 101", where());
        if (!model::iequal(r.header("Connection").value_or(""), "upgrade")) mon::fail("no Connection header in the 101", where());
        if (r.countOf("Sec-WebSocket-Protocol") != (p.offered ? 1u : 0u) || (p.offered && r.header("Sec-WebSocket-Protocol") != "WebFront_0.1")) mon::fail("subprotocol named is not the one offered", where());
        if (p.several) mon::count("lists in several lines");
        mon::count(p.offered ? "subprotocol offered" : "subprotocol not offered");
        if (!r.rest.empty()) mon::fail("bytes after the 101", where());
        if (p.handed != 1) mon::fail("handed over " + std::to_string(p.handed) + " times", where());
        if (p.atHandOver != l.received) mon::fail("handed over before the response was sent", where() + " at hand-over '" + mon::show(p.atHandOver) + "'");
        if (l.ended()) mon::fail("switched connection ended", where());
        mon::sample(where());
    }
    // what was handed over is the open connection of that client
    std::vector<std::array<char, 8>> buffers(n);
    for (std::size_t i = 0; i < n; ++i)
        if (plans[i].socket && !plans[i].failing) {
            auto& p = plans[i];
            p.socket->async_read_some(web::Net::Buffer(buffers[i]), [&p, &b = buffers[i]](std::error_code ec, std::size_t k) { p.echoed = ec ? "error" : std::string(b.data(), k); });
            clients[i].link->send("ping" + std::to_string(i));
        }
    while (!w.ready.empty()) s.runOne();
    for (std::size_t i = 0; i < n; ++i)
        if (plans[i].socket && !plans[i].failing) {
            if (plans[i].echoed != "ping" + std::to_string(i)) mon::fail("socket handed over does not carry the connection", plans[i].echoed);
            mon::count("sockets used after the hand-over");
        }
    plans.clear();
}
MON_SECTION(upgrades, 1800, 50000) { upgrades(rng); }
MON_SECTION(locales, 6, 60) {
    mon::Locale locale(index);
    for (int i = 0; i < 20; ++i) upgrades(rng);
}
MON_SECTION(keys, 1500, 60000) {
    auto key = index < 400 ? std::string(index, static_cast<char>('A' + index % 26)) : rng.bytes(rng.size(2000));
    auto got = webfront::websocket::getHashedSecKey(key);
    if (got != model::acceptKey(key)) mon::fail("accept key", "of '" + mon::show(key) + "': got " + mon::show(got) + " want " + model::acceptKey(key));
    mon::nontrivial(key);
}

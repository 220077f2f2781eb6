// The stages over real sockets of H05, W01, W02, L01, L02, L06, S01 and S02 (built once per property with REAL_<ID>).
#include "real.hpp"

using HttpServer = webfront::http::Server<web::Net, web::MemFS>;
using WebSocket = webfront::websocket::WebSocket<web::Net>;
using real::Host;
using real::Sock;
MON_RULE("over loopback sockets on Boost.Asio's reactor");

[[maybe_unused]] static std::map<std::string, web::Resource> resources(mon::Rng& rng, std::size_t biggest) {
    std::map<std::string, web::Resource> t;
    t["index.html"] = web::Resource("<html>index</html>");
    for (std::size_t i = 0; i < 6; ++i) t["r" + std::to_string(i) + ".txt"] = web::Resource(rng.bytes(i < 2 ? rng.below(biggest) : rng.size(20000)));
    return t;
}
/// one request of an honest client, judged
[[maybe_unused]] static void honest(mon::Rng& rng, int port, const std::map<std::string, web::Resource>& table) {
    auto it = std::next(table.begin(), static_cast<std::ptrdiff_t>(rng.below(table.size())));
    bool missing = rng.chance(10), head = rng.chance(15), slow = rng.chance(30);
    Sock s(port, slow ? 4096 : 0);
    web::Ask a;
    a.method = head ? "HEAD" : "GET";
    a.target = "/" + (missing ? "none" + std::to_string(rng.below(99)) : it->first);
    for (std::size_t k = rng.below(6); k-- > 0;) a.headers.emplace_back(web::token(rng, 1 + rng.below(20)), web::headerValue(rng, rng.size(300)));
    if (!s.sendPieces(rng, a.text(), static_cast<unsigned>(rng.below(3)))) mon::fail("connection ended before the request was sent", a.target);
    if (rng.chance(15)) s.endSending();
    std::string b;
    while (s.receive(b, slow ? 1 + rng.below(70000) : 65536))
        if (slow && rng.chance(20)) usleep(static_cast<unsigned>(rng.below(2000)));
    mon::check(!s.wasReset, "connection reset before the answer was complete", [&] { return a.method + " " + a.target + ": " + std::to_string(b.size()) + " bytes received"; });
    auto r = web::parseReply(b, head);
    mon::check(r.error.empty() && r.complete && r.rest.empty(), "malformed answer", [&] { return a.target + ": " + r.error + " '" + mon::show(b, 200) + "'"; });
    mon::check(r.code == (missing ? 404 : 200), "wrong status", [&] { return a.target + " " + std::to_string(r.code); });
    if (!missing && !head) mon::check(r.body == it->second.content, "wrong body", [&] { return mon::differ(r.body, it->second.content); });
    mon::nontrivial(mon::fnv(a.text(), b.size()));
    mon::count("reactor: answers judged");
}

#ifdef REAL_H05
MON_SECTION(real_responses, 8, 60) {
    auto table = resources(rng, 4'000'000);
    Host<HttpServer> host([&] {
        web::MemFS::table() = table;
        return std::make_unique<HttpServer>("0.0.0.0", "0", ".");
    });
    real::parallel(rng, 8, [&](std::size_t i, mon::Rng& mine) {
        for (int k = 0; k < 8; ++k) {
            if (i > 5) { // leaves before the end
                Sock s(host.port, 4096);
                s.send("GET /r" + std::to_string(mine.below(6)) + ".txt HTTP/1.1\r\n\r\n");
                std::string b;
                if (mine.coin()) s.receive(b, 1 + mine.below(3000));
                if (mine.coin()) s.reset();
                mon::count("reactor: clients that left early");
            }
            else honest(mine, host.port, table);
        }
    });
}
#endif

#ifdef REAL_S01
MON_SECTION(real_hostile, 24, 300) {
    auto table = resources(rng, 300'000);
    static const std::vector<std::string> names{"note", "mixed", "unknown"};
    static const std::vector<std::string> targets{"/", "/r0.txt", "/r1.txt", "/none", "/../x", "/%"};
    Host<app::WF> host([&] {
        web::MemFS::table() = table;
        auto wf = std::make_unique<app::WF>("0", ".");
        wf->cppFunction<void, std::string, double>("note", [](std::string, double) {});
        wf->cppFunction<void, bool, int, std::string>("mixed", [](bool, int, std::string) {});
        wf->onUIStarted([](app::UI ui) {
            ui.addScript("1");
            ui.jsFunction("f")(1, "two");
        });
        return wf;
    });
    real::parallel(rng, 8, [&](std::size_t i, mon::Rng& mine) {
        for (int k = 0; k < 12; ++k) {
            if (i < 2) {
                honest(mine, host.port, table);
                continue;
            }
            Sock s(host.port, mine.chance(20) ? 4096 : 0);
            std::string stream;
            bool upgraded = mine.chance(65);
            if (!upgraded) stream = hostile::request(mine, targets);
            else if (std::string rest; !real::upgrade(mine, s, rest)) mon::fail("upgrade not answered", "connection ended");
            if (upgraded && mine.coin()) stream += app::frame(mine, wire::handshakeMessage());
            if (upgraded)
                for (std::size_t j = mine.below(8); j-- > 0;) stream += mine.coin() ? hostile::frame(mine, names) : app::frame(mine, hostile::message(mine, names));
            s.sendPieces(mine, stream, static_cast<unsigned>(mine.below(3)));
            std::string b;
            switch (mine.below(4)) {
            case 0: s.reset(); break;
            case 1: s.endSending(); break;
            default: break;
            }
            mon::nontrivial(stream);
            mon::count("reactor: hostile streams");
        }
    });
    mon::check(host.escaped == 0, "exception leaves the event loop", [&] { return std::to_string(host.escaped) + " times"; });
    honest(rng, host.port, table); // still serves
}
#endif

#ifdef REAL_S02
MON_SECTION(real_cycles, 12, 100) {
    auto table = resources(rng, 200'000);
    Host<app::WF> host([&] {
        web::MemFS::table() = table;
        auto wf = std::make_unique<app::WF>("0", ".");
        wf->cppFunction<void, std::string>("note", [](std::string) {});
        wf->onUIStarted([](app::UI ui) { ui.addScript(std::string(3000, 's')); });
        return wf;
    });
    honest(rng, host.port, table);
    auto settle = [&](std::size_t want) {
        std::size_t n = 0;
        for (int k = 0; k < 400; ++k) {
            n = real::descriptors();
            if (n <= want) return n;
            usleep(50'000);
        }
        return n;
    };
    usleep(100'000);
    auto base = real::descriptors();
    real::parallel(rng, 8, [&](std::size_t, mon::Rng& mine) {
        for (int k = 0; k < 20; ++k) {
            Sock s(host.port);
            switch (mine.below(4)) {
            case 0: s.send("GET /r0.txt HTTP/1.1\r\n\r\n"); break;
            case 1: s.send("nonsense\r\n\r\n"); break;
            default: {
                std::string rest;
                if (!real::upgrade(mine, s, rest)) continue;
                if (mine.chance(80)) {
                    s.send(app::frame(mine, wire::handshakeMessage()));
                    if (mine.coin()) s.receive(rest);
                }
                if (mine.coin()) s.send(app::frame(mine, wire::call("note", {wire::Value::str("x")})));
                if (mine.chance(30)) s.send(app::frame(mine, "", wire::close));
                if (mine.chance(30)) s.send(app::frame(mine, "cut short").substr(0, mine.below(12)));
            }
            }
            if (mine.chance(30)) {
                std::string b;
                s.endSending();
                while (s.receive(b)) {}
            }
            else if (mine.coin()) s.reset();
            mon::count("reactor: sessions ended");
            mon::nontrivial(mon::mix(mine.next(), 1));
        }
    });
    auto after = settle(base);
    mon::check(after <= base, "descriptors stay open after their clients left", [&] { return std::to_string(base) + " before, " + std::to_string(after) + " twenty seconds after 160 sessions ended"; });
}
#endif

#if defined(REAL_W01) || defined(REAL_W02)
struct WsServer {
    struct Peer {
        std::unique_ptr<WebSocket> ws;
        std::deque<std::string> out;
        std::size_t received = 0;
    };
    HttpServer server{"0.0.0.0", "0", "."};
    std::list<Peer> peers;
    WsServer() {
        server.onUpgrade([this](web::Net::Socket&& socket, webfront::http::Protocol) {
            auto& p = peers.emplace_back();
            p.ws = std::make_unique<WebSocket>(std::move(socket));
            auto ws = p.ws.get();
            p.ws->onMessage([ws, &p](std::string_view text) {
                ++p.received;
                if (text.substr(0, 6) == "burst ") { // n messages of our own: sizes from a generator the client knows
                    mon::Rng g(std::stoull(std::string(text.substr(6))));
                    for (std::size_t k = g.below(40) + 1; k-- > 0;) {
                        auto size = g.size(g.chance(5) ? 300'000 : 2000);
                        auto m = g.bytes(size);
                        if (g.coin()) ws->write(std::string_view(m));
                        else ws->write(std::span(reinterpret_cast<const std::byte*>(m.data()), m.size()));
                        std::fill(m.begin(), m.end(), '!');
                    }
                }
                else {
                    std::string copy(text);
                    ws->write(std::string_view(copy));
                    std::fill(copy.begin(), copy.end(), '!');
                }
            });
            p.ws->onMessage([ws, &p](std::span<const std::byte> b) {
                ++p.received;
                std::vector<std::byte> copy(b.begin(), b.end());
                ws->write(std::span<const std::byte>(copy));
                std::fill(copy.begin(), copy.end(), std::byte{33});
            });
            p.ws->onClose([](auto) {});
            p.ws->start();
        });
    }
    void runOne() { server.runOne(); }
};
#endif
#ifdef REAL_W01
MON_SECTION(real_echo, 24, 200) {
    Host<WsServer> host([] { return std::make_unique<WsServer>(); });
    real::parallel(rng, 6, [&](std::size_t, mon::Rng& mine) {
        Sock s(host.port);
        std::string rest, stream;
        if (!real::upgrade(mine, s, rest)) mon::fail("upgrade not answered", "connection ended");
        std::vector<std::pair<bool, std::string>> sent;
        for (std::size_t k = 1 + mine.below(60); k-- > 0;) {
            auto text = mine.coin();
            sent.emplace_back(text, "m" + mine.bytes(mine.size(mine.chance(4) ? 200'000 : 3000)));
            stream += app::frame(mine, sent.back().second, text ? wire::text : wire::binary);
            if (mine.chance(20)) stream += app::frame(mine, mine.bytes(mine.below(126)), mine.coin() ? wire::pong : wire::pong);
        }
        std::thread sender([&, seed = mine.next()] {
            mon::Rng g(seed);
            try {
                s.sendPieces(g, stream, static_cast<unsigned>(g.below(3)));
            }
            catch (const real::GaveUp&) {
            }
        });
        struct Join {
            std::thread& t;
            ~Join() { t.join(); }
        } join{sender};
        std::size_t at = 0;
        bool whole = real::frames(s, rest, [&](const wire::Frame& f) {
            auto& w = sent[at];
            if (f.opcode != (w.first ? wire::text : wire::binary) || f.payload != w.second)
                mon::fail("message not delivered as sent", "message " + std::to_string(at) + " opcode " + std::to_string(f.opcode) + ": " + mon::differ(f.payload, w.second));
            mon::nontrivial(f.payload);
            mon::count("reactor: messages echoed");
            return ++at < sent.size();
        });
        mon::check(whole, "connection ended before every message came back", [&] { return std::to_string(at) + " of " + std::to_string(sent.size()); });
    });
}
#endif
#ifdef REAL_W02
MON_SECTION(real_bursts, 24, 200) {
    Host<WsServer> host([] { return std::make_unique<WsServer>(); });
    real::parallel(rng, 6, [&](std::size_t, mon::Rng& mine) {
        Sock s(host.port, mine.coin() ? 4096 : 0);
        std::string rest, stream;
        if (!real::upgrade(mine, s, rest)) mon::fail("upgrade not answered", "connection ended");
        std::vector<std::pair<bool, std::string>> want;
        for (std::size_t b = 1 + mine.below(4); b-- > 0;) {
            auto seed = mine.next();
            stream += app::frame(mine, "burst " + std::to_string(seed), wire::text);
            mon::Rng g(seed);
            for (std::size_t k = g.below(40) + 1; k-- > 0;) {
                auto size = g.size(g.chance(5) ? 300'000 : 2000);
                auto m = g.bytes(size);
                want.emplace_back(g.coin(), m);
            }
        }
        s.sendPieces(mine, stream, static_cast<unsigned>(mine.below(3)));
        std::size_t at = 0;
        bool whole = real::frames(s, rest, [&](const wire::Frame& f) {
            auto& w = want[at];
            if (f.opcode != (w.first ? wire::text : wire::binary) || f.payload != w.second)
                mon::fail("message not received as written", "message " + std::to_string(at) + " opcode " + std::to_string(f.opcode) + ": " + mon::differ(f.payload, w.second));
            if (mine.chance(5)) usleep(static_cast<unsigned>(mine.below(500)));
            mon::nontrivial(f.payload);
            mon::count("reactor: messages received");
            return ++at < want.size();
        });
        mon::check(whole, "connection ended before every message arrived", [&] { return std::to_string(at) + " of " + std::to_string(want.size()); });
    });
}
#endif

#if defined(REAL_L01) || defined(REAL_L02) || defined(REAL_L06)
MON_SECTION(real_application, 24, 200) {
    struct Call {
        double client, sequence;
        std::string text;
        bool flag;
    };
    std::vector<Call> calls; // of the server thread, read once it has ended
    std::size_t announced = 0;
    std::vector<app::UI> uis;
    constexpr std::size_t perUi = 5, clients = 6;
    std::array<std::vector<std::pair<std::string, bool>>, clients> sent;
    std::array<std::string, clients> identity;
    std::array<bool, clients> finished{}, greeted{};
    {
        Host<app::WF> host([&] {
            web::MemFS::table().clear();
            auto wf = std::make_unique<app::WF>("0", ".");
            wf->cppFunction<void, double, double, std::string, bool>("tell", [&](double c, double s, std::string t, bool f) { calls.push_back({c, s, std::move(t), f}); });
            wf->onUIStarted([&](app::UI ui) {
                auto me = announced++;
                uis.push_back(ui);
                auto js = ui.jsFunction("hello");
                for (std::size_t k = 0; k < perUi; ++k) js("ui " + std::to_string(me), static_cast<double>(k), k % 2 == 0, std::string(k * 40000 / perUi, static_cast<char>('a' + me % 26)));
                for (std::size_t other = 0; other < me; ++other) try { // news for those already there
                        uis[other].jsFunction("news")("ui " + std::to_string(other), static_cast<double>(me));
                    }
                    catch (const std::exception&) { // gone
                    }
            });
            return wf;
        });
        real::parallel(rng, clients, [&](std::size_t i, mon::Rng& mine) {
            Sock s(host.port);
            std::string rest;
            if (!real::upgrade(mine, s, rest)) mon::fail("upgrade not answered", "connection ended");
            std::string stream = app::frame(mine, wire::handshakeMessage());
            for (std::size_t k = mine.below(50); k-- > 0;) {
                auto text = mine.bytes(mine.size(mine.chance(5) ? 60000 : 600));
                auto flag = mine.coin();
                stream += app::frame(mine, wire::call("tell", {wire::Value::num(static_cast<double>(i)), wire::Value::num(static_cast<double>(sent[i].size())), wire::Value::str(text), wire::Value::boolean(flag)}));
                sent[i].emplace_back(text, flag);
            }
            if (!s.sendPieces(mine, stream, static_cast<unsigned>(mine.below(3)))) mon::fail("connection ended while the client was sending", std::to_string(i));
            std::size_t hellos = 0;
            double lastNews = -1;
            bool acked = false;
            bool whole = real::frames(s, rest, [&](const wire::Frame& f) {
                if (f.opcode != wire::binary) mon::fail("unexpected text frame", mon::show(f.payload));
                wire::Message m;
                try {
                    m = wire::parse(f.payload);
                }
                catch (const wire::Malformed& e) {
                    mon::fail("malformed message sent", std::string(e.what()) + " " + mon::show(f.payload, 100));
                }
                if (m.command == wire::ack) {
                    if (acked) mon::fail("acknowledged twice", "");
                    acked = true;
                    return true;
                }
                if (m.command == wire::textCommand && m.detail == 0) return true;
                auto bad = [&] { mon::fail("client received what was not meant for it", "client " + std::to_string(i) + " '" + identity[i] + "' hellos " + std::to_string(hellos) + ": " + wire::show(m.values).substr(0, 300)); };
                if (m.command != wire::callFunction || m.values.size() < 3 || m.count != m.values.size()) bad();
                if (identity[i].empty()) identity[i] = m.values[1].s;
                if (m.values[1].s != identity[i]) bad();
                if (m.values[0].s == "hello") {
                    auto me = std::stoul(identity[i].substr(3));
                    std::vector<wire::Value> want{wire::Value::str("hello"), wire::Value::str(identity[i]), wire::Value::num(static_cast<double>(hellos)), wire::Value::boolean(hellos % 2 == 0),
                                                  wire::Value::str(std::string(hellos * 40000 / perUi, static_cast<char>('a' + me % 26)))};
                    if (hellos >= perUi || !(m.values == want)) bad();
                    ++hellos;
                }
                else if (m.values[0].s == "news") {
                    if (m.values[2].d <= lastNews) bad();
                    lastNews = m.values[2].d;
                }
                else bad();
                mon::nontrivial(f.payload);
                mon::count("reactor: calls received");
                return hellos < perUi;
            });
            mon::check(whole && acked, "not acknowledged and announced", [&] { return "client " + std::to_string(i) + " hellos " + std::to_string(hellos); });
            greeted[i] = true;
            s.endSending(); // all that was sent is received before the end
            while (s.receive(rest)) {}
            finished[i] = !s.wasReset;
        });
    }
    for (std::size_t i = 0; i < clients; ++i) {
        if (!finished[i]) continue;
        std::size_t n = 0;
        for (auto& c : calls)
            if (c.client == static_cast<double>(i)) {
                if (n >= sent[i].size() || c.sequence != static_cast<double>(n) || c.text != sent[i][n].first || c.flag != sent[i][n].second)
                    mon::fail("call not received as made", "client " + std::to_string(i) + " call " + std::to_string(n) + " sequence " + std::to_string(c.sequence));
                ++n;
                mon::count("reactor: calls made");
            }
        mon::check(n == sent[i].size(), "calls lost", [&] { return "client " + std::to_string(i) + ": " + std::to_string(n) + " of " + std::to_string(sent[i].size()); });
        for (std::size_t j = 0; j < i; ++j)
            if (greeted[i] && greeted[j]) mon::check(identity[i] != identity[j], "two clients share an identity", [&] { return identity[i]; });
    }
}
#endif

#ifdef REAL_L07
#include "node.hpp"
MON_SECTION(real_browsers, 6, 60) {
    struct Value {
        double k;
        bool b;
        double d;
        std::string s;
        bool operator==(const Value&) const = default;
    };
    using List = std::tuple<double, std::string, bool>;
    struct Seen {
        std::vector<Value> back;
        std::vector<std::pair<double, List>> listed;
        std::vector<double> injected;
    };
    std::map<std::size_t, std::vector<Value>> made; // by browser, in order of announcement
    std::map<std::size_t, std::vector<std::pair<double, List>>> lists;
    Seen seen;
    std::size_t announced = 0;
    auto text = [](mon::Rng& g, std::size_t n) {
        std::string s;
        while (n-- > 0) s += g.of(std::vector<std::string>{"a", "Z", " ", "\"", "\\", "é", "€", "𝄞", "\n", "0"});
        return s;
    };
    auto seed = rng.next();
    std::size_t n = 1 + rng.below(4);
    std::string answer;
    {
        mon::Node node("l07_real.js");
        Host<webfront::WebFront> host([&] {
            auto wf = std::make_unique<webfront::WebFront>("0", "/nonexistent-document-root");
            wf->cppFunction<void, double, bool, double, std::string>("back", [&](double k, bool b, double d, std::string s) { seen.back.push_back({k, b, d, std::move(s)}); });
            wf->cppFunction<void, double, List>("listed", [&](double k, List l) { seen.listed.emplace_back(k, std::move(l)); });
            wf->cppFunction<void, double>("injected", [&](double k) { seen.injected.push_back(k); });
            wf->onUIStarted([&](webfront::UI ui) {
                auto me = announced++;
                mon::Rng g(seed + me);
                auto echo = ui.jsFunction("echo"), list = ui.jsFunction("list");
                for (std::size_t k = 0; k < 30; ++k) {
                    Value v{static_cast<double>(me * 1000 + k), g.coin(), std::bit_cast<double>(g.next()), text(g, g.size(100))};
                    if (v.d != v.d) v.d = 0;
                    echo(v.k, v.b, v.d, v.s);
                    made[me].push_back(v);
                    if (g.chance(30)) {
                        List l{static_cast<double>(g.below(1000)), text(g, g.below(40)), g.coin()};
                        list(v.k, l);
                        lists[me].emplace_back(v.k, l);
                    }
                    if (g.chance(30)) ui.addScript("webFront.cppFunction('injected')(" + std::to_string(me * 1000 + k) + ");" + std::string(g.size(500), ' '));
                }
                ui.jsFunction("finish")();
            });
            return wf;
        });
        answer = node.ask("go " + std::to_string(host.port) + " " + std::to_string(n));
    }
    if (answer.find("unsupported") != answer.npos || answer.find("late") != answer.npos) {
        mon::count("reactor: browsers that gave up waiting");
        return;
    }
    mon::check(answer.find("error") == answer.npos && answer.find("page-without") == answer.npos, "a browser failed against the server", [&] { return answer; });
    mon::check(announced == n, "not every browser was announced", [&] { return std::to_string(announced) + " of " + std::to_string(n); });
    for (std::size_t me = 0; me < n; ++me) {
        std::vector<Value> got;
        for (auto& v : seen.back)
            if (static_cast<std::size_t>(v.k) / 1000 == me) got.push_back(v);
        mon::check(got == made[me], "calls did not come back as made", [&] {
            std::string d = std::to_string(got.size()) + " of " + std::to_string(made[me].size());
            for (std::size_t i = 0; i < std::min(got.size(), made[me].size()); ++i)
                if (!(got[i] == made[me][i])) return d + ", call " + std::to_string(i) + ": '" + mon::show(got[i].s) + "' for '" + mon::show(made[me][i].s) + "', " + std::to_string(got[i].d) + " for " + std::to_string(made[me][i].d);
            return d;
        });
        std::vector<std::pair<double, List>> gotLists;
        for (auto& l : seen.listed)
            if (static_cast<std::size_t>(l.first) / 1000 == me) gotLists.push_back(l);
        mon::check(gotLists == lists[me], "arrays did not come back as sent", [&] { return std::to_string(gotLists.size()) + " of " + std::to_string(lists[me].size()); });
        for (auto& v : got) mon::nontrivial(mon::fnv(v.s, static_cast<std::uint64_t>(v.k)));
    }
    mon::count("reactor: calls made and sent back by node's WebSocket", static_cast<long long>(seen.back.size()));
    mon::count("reactor: browsers", static_cast<long long>(n));
}
#endif

#ifdef REAL_H06
#include "node.hpp"
MON_SECTION(real_handshakes, 4, 40) {
    mon::Node node("l07_real.js");
    std::string answer;
    std::size_t n = 40;
    {
        Host<HttpServer> host([] { return std::make_unique<HttpServer>("0.0.0.0", "0", "."); });
        answer = node.ask("sockets " + std::to_string(host.port) + " " + std::to_string(n));
    }
    if (answer.find("unsupported") != answer.npos || answer.find("late") != answer.npos) return;
    mon::check(answer.find("error") == answer.npos, "node's WebSocket client refuses the answer", [&] { return answer; });
    mon::nontrivial(rng.next());
    mon::count("reactor: upgrades accepted by node's WebSocket", static_cast<long long>(n));
}
#endif

#ifdef REAL_N02
/// true when the port accepts; the address is one of the loopback network
static bool accepts(const char* address, int port) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<std::uint16_t>(port));
    a.sin_addr.s_addr = inet_addr(address);
    timeval t{20, 0};
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t);
    bool r = connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
    close(fd);
    return r;
}
static int freePort() {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    socklen_t n = sizeof a;
    if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) || getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) {
        close(fd);
        throw real::GaveUp{};
    }
    close(fd);
    return ntohs(a.sin_port);
}
MON_SECTION(real_ports, 8, 40) {
    auto table = resources(rng, 20000);
    std::size_t restarted = 0, failed = 0, nowhere = 0, tried = 0;
    for (int round = 0; round < 4; ++round) { // other programs use ports as well: what fails once may be their doing
        auto port = freePort();
        auto text = std::to_string(port);
        bool local = rng.coin();
        const char* address = local ? "127.0.0.1" : "0.0.0.0";
        try {
            Host<HttpServer> first([&] {
                web::MemFS::table() = table;
                return std::make_unique<HttpServer>(address, text, ".");
            });
            real::parallel(rng, 24, [&](std::size_t, mon::Rng& mine) { honest(mine, port, table); });
            mon::check(accepts("127.0.0.2", port) == !local, local ? "client of another address accepted" : "client of another address of the machine refused", [&] { return text; });
            bool threw = false;
            try {
                HttpServer second(address, text, ".");
            }
            catch (const std::exception&) {
                threw = true;
            }
            mon::check(threw, "two servers at one port", [&] { return text; });
            honest(rng, port, table);
            if (rng.coin()) { // a client that is still there when the server ends
                Sock stays(port);
                usleep(2000);
            }
        }
        catch (const real::GaveUp&) {
            continue;
        }
        ++tried;
        if (accepts("127.0.0.1", port)) ++nowhere;
        try {
            Host<HttpServer> again([&] {
                web::MemFS::table() = table;
                return std::make_unique<HttpServer>(address, text, ".");
            });
            mon::check(again.port == port, "server listens at another port", [&] { return std::to_string(again.port) + " for " + text; });
            honest(rng, port, table);
            ++restarted;
            mon::count("reactor: servers started again on their port");
        }
        catch (const real::GaveUp&) {
            ++failed;
        }
    }
    mon::check(tried < 3 || restarted > 0, "no server can be started again on its port", [&] { return std::to_string(failed) + " of " + std::to_string(tried); });
    mon::check(tried < 3 || nowhere < tried, "clients are accepted after the end of the server", [&] { return std::to_string(nowhere) + " of " + std::to_string(tried); });
}
#endif

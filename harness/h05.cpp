// H05: one complete well-formed response per request, whatever the back-pressure
#include "http.hpp"

MON_RULE("1 to 12 concurrent clients of one server sending completed or malformed requests for resources of up to 200 kB, receiving through windows that open a few bytes at a time, partial writes and random completion order; a strict response parser and the resource table judge what each client received; non-trivial = one response that took more than one write step or overlapped another; distinct by request, window schedule and trace of the network");
MON_REQUIRE("responses judged", 3000);
MON_REQUIRE("responses sent in several steps", 1000);
MON_REQUIRE("responses that overlapped another one", 1000);

using Server = webfront::http::Server<web::Net, web::MemFS>;

struct Expectation {
    std::string text, method, what;
    int code;
    const web::Resource* resource;
};
static Expectation make(mon::Rng& rng, const std::vector<std::string>& names) {
    Expectation e{};
    auto& table = web::MemFS::table();
    web::Ask a;
    a.headers.emplace_back("Host", "h");
    switch (rng.below(8)) {
    case 0: {
        a = web::randomAsk(rng);
        a.method = rng.coin() ? "GET" : "POST";
        e.text = web::malform(rng, a, e.what);
        e.method = "GET";
        e.code = 400;
        return e;
    }
    case 1: a.target = "/missing/" + rng.from("abc", 5); e.code = 404; a.method = rng.coin() ? "GET" : "HEAD"; break;
    case 2: a.method = rng.coin() ? "POST" : "OPTIONS"; a.target = "/" + rng.of(names); e.code = 501; break;
    case 3: a.target = rng.coin() ? "/../x" : "nope"; e.code = 400; a.method = rng.coin() ? "GET" : "HEAD"; break;
    default: {
        auto& n = rng.of(names);
        a.target = "/" + n;
        a.method = rng.chance(80) ? "GET" : "HEAD";
        e.resource = &table.at(n);
        e.code = 200;
        if (!e.resource->encoding.empty()) {
            if (rng.chance(70) || a.method == "HEAD") a.headers.emplace_back("Accept-Encoding", e.resource->encoding);
            else e.code = 506;
        }
    }
    }
    e.method = a.method;
    e.what = a.method + " " + a.target;
    e.text = a.text();
    if (rng.chance(20)) e.text += rng.bytes(rng.below(50)); // more than the request: ignored
    return e;
}
static void playCase(mon::Rng& rng, std::size_t most, std::size_t biggest, bool slow) {
    auto& t = web::MemFS::table();
    t.clear();
    std::vector<std::string> names;
    for (std::size_t i = 0, n = 2 + rng.below(4); i < n; ++i) {
        names.push_back("r" + std::to_string(i) + (rng.coin() ? ".html" : ".bin"));
        t.emplace(names.back(), web::Resource(rng.bytes(rng.size(biggest)), rng.chance(20) ? "br" : ""));
    }
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    w.pick = [&](std::size_t k) { return rng.below(k); };
    auto n = 1 + rng.below(most);
    std::vector<Expectation> want;
    std::vector<web::Client> clients(n);
    for (std::size_t i = 0; i < n; ++i) {
        want.push_back(make(rng, names));
        auto& c = clients[i];
        c.steps = web::cut(rng, want[i].text, rng.chance(50) ? 0 : static_cast<unsigned>(rng.below(5)));
        if (slow || rng.chance(70)) {
            c.window = rng.below(100);
            for (std::size_t k = 0, m = rng.below(20); k < m; ++k) c.steps.push_back({web::Step::window, "", 1 + rng.below(rng.coin() ? 4 : 300)});
        }
        if (rng.chance(60)) c.maxWrite = biggest > 1'000'000 ? 50000 + rng.below(3'000'000) : 1 + rng.below(rng.coin() ? 10 : 2000);
    }
    std::vector<bool> overlapped(n), several(n);
    web::drive(rng, w, clients, [&] {
        std::size_t pending = 0;
        for (auto& c : clients) pending += c.link && !c.link->received.empty() && !c.link->ended();
        for (std::size_t i = 0; i < n; ++i)
            if (clients[i].link && !clients[i].link->received.empty() && !clients[i].link->ended()) {
                several[i] = true;
                if (pending > 1) overlapped[i] = true;
            }
        s.runOne();
    });
    for (std::size_t i = 0; i < n; ++i) {
        auto& e = want[i];
        auto& got = clients[i].link->received;
        bool head = e.method == "HEAD";
        auto r = web::parseReply(got, head);
        auto where = [&] { return "client " + std::to_string(i) + " of " + std::to_string(n) + ", " + e.what + " '" + mon::show(e.text, 100) + "' received '" + mon::show(got, 200) + "' "; };
        if (!r.error.empty()) mon::fail("malformed response", where() + r.error);
        if (r.code != e.code) mon::fail("status " + std::to_string(r.code) + " instead of " + std::to_string(e.code), where());
        if (!r.rest.empty()) mon::fail("more than one response, or bytes after it", where());
        if (r.code == 200 && !head && r.body != e.resource->content) mon::fail("body altered", where() + mon::differ(r.body, e.resource->content));
        if (r.code == 200 && r.header("Content-Length") != std::to_string(e.resource->content.size())) mon::fail("length altered", where());
        if (r.code != 200 && !head) {
            // the page that goes with a status is the one a client gets that is alone and reads all at once
            static std::map<int, std::string> pages;
            if (!pages.count(r.code)) {
                simnet::World alone;
                Server single("0.0.0.0", "80", ".");
                auto c = alone.connect();
                c->send(e.text);
                single.run();
                pages[r.code] = web::parseReply(c->received, false).body;
            }
            if (r.body != pages[r.code]) mon::fail("page altered", where());
        }
        if (!clients[i].link->ended()) mon::fail("connection not ended after the response", where());
        mon::count("responses judged");
        if (several[i]) mon::count("responses sent in several steps");
        if (overlapped[i]) mon::count("responses that overlapped another one");
        if (several[i] || overlapped[i]) mon::nontrivial(mon::mix(mon::mix(w.traceHash, mon::fnv(e.text)), i));
    }
    mon::sample(std::to_string(n) + " clients, " + std::to_string(w.handlersRun) + " handlers, " + want[0].what + " -> " + std::to_string(clients[0].link->received.size()) + " bytes");
}
MON_SECTION(concurrent, 1400, 40000) { playCase(rng, 12, 3000, false); }
MON_SECTION(large, 160, 4000) { playCase(rng, 5, 200000, false); }
MON_SECTION(byteByByte, 250, 6000) { playCase(rng, 4, 600, true); }
MON_SECTION(huge, 2, 20) {
    if (!mon::fullSpeed()) return;
    mon::allow(100);
    auto& t = web::MemFS::table();
    t.clear();
    for (int i = 0; i < 2; ++i) t.emplace("r" + std::to_string(i), web::Resource(rng.bytes((std::size_t{17} << 20) + rng.below(3 << 20))));
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    std::vector<web::Client> clients(3);
    for (std::size_t i = 0; i < clients.size(); ++i) {
        auto& c = clients[i];
        c.steps = web::cut(rng, "GET /r" + std::to_string(i % 2) + " HTTP/1.1\r\n\r\n", 0);
        if (rng.coin()) c.window = rng.below(1 << 24);
        if (rng.coin()) c.maxWrite = 50000 + rng.below(3'000'000);
    }
    web::drive(rng, w, clients, [&] { s.runOne(); });
    for (std::size_t i = 0; i < clients.size(); ++i) {
        auto& want = t.at("r" + std::to_string(i % 2)).content;
        auto r = web::parseReply(clients[i].link->received, false);
        auto where = [&] { return "resource of " + std::to_string(want.size()) + " bytes: " + std::to_string(clients[i].link->received.size()) + " bytes received "; };
        if (!r.error.empty()) mon::fail("malformed response", where() + r.error);
        if (r.code != 200 || r.header("Content-Length") != std::to_string(want.size())) mon::fail("length altered", where());
        if (r.body != want) mon::fail("body altered", where() + mon::differ(r.body, want));
        if (!r.rest.empty()) mon::fail("more than one response, or bytes after it", where());
        if (!clients[i].link->ended()) mon::fail("connection not ended after the response", where());
        mon::count("responses judged");
        mon::nontrivial(w.traceHash + i);
    }
}

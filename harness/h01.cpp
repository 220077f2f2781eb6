// H01: HTTP answers depend only on the bytes that client sent
#include "http.hpp"

MON_RULE("sets of 1 to 5 clients sending generated requests (well-formed, malformed, incomplete, upgrades) to one server, under random segmentation, interleaving, read sizes and back-pressure; the oracle is what each client receives when it sends the same bytes alone in one piece; non-trivial = one client of a run with several, or of one whose bytes were split; distinct by the bytes sent, their segmentation and the schedule");
MON_REQUIRE("clients compared", 3000);
MON_REQUIRE("requests split inside the method", 100);
MON_REQUIRE("requests cut at the size of a buffer", 300);
MON_REQUIRE("responses pending at the same time", 60);

using Server = webfront::http::Server<web::Net, web::MemFS>;

static std::string stream(mon::Rng& rng) {
    std::string what;
    if (rng.chance(12)) { // something that matters lies where a large reception buffer may end
        auto a = rng.coin() ? web::upgradeAsk(rng, rng.from("ABCDEFabcdef0123456789+/", 22) + "==") : web::randomAsk(rng);
        if (rng.coin()) a.method = "GET";
        if (rng.coin()) a.target = rng.coin() ? "/c.js" : "/a.txt";
        if (rng.coin()) a.headers.emplace_back("Accept-Encoding", rng.coin() ? "br" : "gzip, br");
        auto rest = a.text();
        auto head = rest.find("\r\n") + 2;
        auto at = head + rng.below(rest.size() - head);
        if (rng.chance(40)) at = rest.size() - 1 - rng.below(4);
        static const std::vector<std::size_t> sizes{4096, 8192, 8192, 8192, 16384, 24576};
        auto size = rng.of(sizes);
        std::string pad = "X-Pad: ";
        if (at + pad.size() + 2 < size) {
            pad += std::string(size - at - pad.size() - 2 - rng.below(2), 'p');
            mon::count("requests cut at the size of a buffer");
            return rest.insert(head, pad + "\r\n");
        }
    }
    switch (rng.below(8)) {
    case 0: return web::malform(rng, web::randomAsk(rng), what);
    case 1: {
        auto t = web::randomAsk(rng).text();
        return t.substr(0, rng.below(t.size()));
    }
    case 2: return web::upgradeAsk(rng, rng.from("ABCDEFabcdef0123456789+/", 22) + "==").text();
    case 3: {
        auto a = web::randomAsk(rng);
        a.method = "GET";
        return a.text() + rng.bytes(rng.below(40)); // more than a request
    }
    case 4: return rng.bytes(rng.size(300));
    default: {
        auto a = web::randomAsk(rng);
        if (rng.chance(70)) {
            static const std::vector<std::string> names{"/a.txt", "/b/", "/c.js", "/d%20e.bin", "/missing", "/../x"};
            a.target = rng.of(names);
        }
        if (rng.coin()) a.headers.emplace_back("Accept-Encoding", rng.coin() ? "br" : "gzip, br");
        if (rng.chance(8)) a.headers.emplace_back("X-Large", web::headerValue(rng, rng.below(20000)));
        return a.text();
    }
    }
}
struct Seen {
    std::string bytes;
    bool ended;
};
static Seen alone(const std::string& bytes, bool closes) {
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    auto c = w.connect();
    c->send(bytes);
    if (closes) c->clientClose();
    s.run();
    return {c->received, c->ended()};
}
static void setup(mon::Rng& rng) {
    auto& t = web::MemFS::table();
    t.clear();
    t.emplace("a.txt", web::Resource(rng.bytes(rng.size(3000))));
    t.emplace("b/index.html", web::Resource("<html>" + rng.from("abc\n", rng.size(20000)) + "</html>"));
    t.emplace("c.js", web::Resource(rng.bytes(rng.size(2000)), "br"));
    t.emplace("d e.bin", web::Resource(""));
}

MON_SECTION(interleavings, 8000, 120000) {
    setup(rng);
    auto n = 1 + rng.below(5);
    std::vector<std::string> bytes(n);
    std::vector<bool> closes(n);
    std::vector<Seen> want;
    for (std::size_t i = 0; i < n; ++i) {
        bytes[i] = i && rng.chance(15) ? bytes[0] : stream(rng);
        closes[i] = rng.coin();
        want.push_back(alone(bytes[i], closes[i]));
    }
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    w.pick = [&](std::size_t k) { return rng.below(k); };
    std::vector<web::Client> clients(n);
    std::vector<std::size_t> pieces(n);
    std::uint64_t h = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = clients[i];
        auto style = rng.below(5);
        c.steps = web::cut(rng, bytes[i], static_cast<unsigned>(style));
        pieces[i] = c.steps.size();
        if (!c.steps.empty()) {
            auto& first = c.steps.front().bytes;
            if (first.size() < bytes[i].find(' ') && bytes[i].find(' ') != std::string::npos) mon::count("requests split inside the method");
        }
        if (closes[i]) c.steps.push_back({web::Step::close, "", 0});
        if (rng.chance(40)) c.window = rng.below(200);
        if (rng.chance(40)) c.maxWrite = 1 + rng.below(64);
        if (rng.chance(30)) c.maxRead = 1 + rng.below(9);
        for (auto& st : c.steps) h = mon::mix(h, mon::fnv(st.bytes));
    }
    bool together = false;
    web::drive(rng, w, clients, [&] {
        std::size_t pending = 0;
        for (auto& c : clients) pending += c.link && !c.link->writes.empty();
        together |= pending > 1;
        s.runOne();
    });
    if (together) mon::count("responses pending at the same time");
    for (std::size_t i = 0; i < n; ++i) {
        auto& got = clients[i].link->received;
        auto where = [&](const std::string& d) {
            return "client " + std::to_string(i) + " of " + std::to_string(n) + " sent '" + mon::show(bytes[i], 300) + "' in " + std::to_string(pieces[i]) + " pieces: " + d;
        };
        if (got != want[i].bytes) mon::fail("answer differs from the answer to the same bytes alone", where(mon::differ(got, want[i].bytes)));
        if (clients[i].link->ended() != want[i].ended) mon::fail("connection ends differently", where(want[i].ended ? "still open" : "ended"));
        mon::count("clients compared");
        if (n > 1 || pieces[i] > 1) mon::nontrivial(mon::mix(mon::mix(w.traceHash, h), i));
    }
    mon::sample(std::to_string(n) + " clients, " + std::to_string(w.handlersRun) + " handlers; first sent '" + mon::show(bytes[0], 80) + "' and received '" + mon::show(want[0].bytes, 60) + "'");
}
// hundreds of connections at the same time, all of them in the middle of their requests or of their answers
MON_SECTION(crowds, 4, 60) {
    mon::allow(150);
    setup(rng);
    std::vector<std::string> streams;
    std::vector<Seen> want;
    for (std::size_t i = 0; i < 16; ++i) {
        streams.push_back(stream(rng));
        if (streams.back().size() > 3000) streams.back() = web::randomAsk(rng).text();
        want.push_back(alone(streams.back(), false));
    }
    auto n = 70 + rng.below(mon::fullSpeed() ? 550 : 20);
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    w.pick = [&](std::size_t k) { return rng.below(k); };
    struct One {
        std::shared_ptr<simnet::Link> link;
        std::size_t which, sent = 0;
    };
    std::vector<One> all;
    auto settle = [&] {
        while (!w.ready.empty()) s.runOne();
    };
    for (std::size_t i = 0; i < n; ++i) {
        all.push_back({w.connect(), rng.below(streams.size())});
        if (rng.coin()) all.back().link->setWindow(rng.below(60));
    }
    settle();
    for (unsigned round = 0; round < 3; ++round) { // everyone goes on a bit
        for (std::size_t i = n; i > 1; --i) std::swap(all[i - 1], all[rng.below(i)]);
        for (auto& o : all) {
            auto& text = streams[o.which];
            auto to = round == 2 ? text.size() : o.sent + rng.below(text.size() - o.sent + 1);
            if (to > o.sent) o.link->send(text.substr(o.sent, to - o.sent));
            o.sent = to;
            if (rng.coin()) settle();
        }
        settle();
    }
    std::size_t waiting = 0;
    for (auto& o : all) waiting += !o.link->writes.empty();
    mon::count("most responses waiting at once", static_cast<long long>(waiting));
    for (auto& o : all) {
        o.link->setWindow(simnet::unlimited);
        if (rng.coin()) settle();
    }
    settle();
    for (auto& o : all) {
        if (o.link->received != want[o.which].bytes) mon::fail("answer differs from the answer to the same bytes alone", std::to_string(n) + " clients; one sent '" + mon::show(streams[o.which], 200) + "': " + mon::differ(o.link->received, want[o.which].bytes));
        mon::count("clients compared");
        mon::nontrivial(mon::mix(mon::mix(w.traceHash, mon::fnv(streams[o.which])), o.link->id));
    }
}

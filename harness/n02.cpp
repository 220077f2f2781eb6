// N02: a server serves at the address and port it was given, and only there
#include "app.hpp"

MON_RULE("one simulated machine with four addresses; servers and applications started and ended on a few ports in random order, starts that must fail (port or address in use, foreign or malformed), clients that connect before and while the loop runs, one at a time or many at once, to every address and port; a table of the live servers predicts who is served; over loopback sockets the same on Boost.Asio; non-trivial = one client; distinct by history");
MON_REQUIRE("clients served", 3000);
MON_REQUIRE("clients refused", 2000);
MON_REQUIRE("starts that failed as they must", 500);
MON_REQUIRE("malformed addresses and ports refused", 300);
MON_REQUIRE("servers started again on their port", 300);
MON_REQUIRE("servers ended with clients", 300);

using HttpServer = webfront::http::Server<web::Net, web::MemFS>;

struct Running {
    std::string address, port;
    std::unique_ptr<simnet::World> world; // its event loop; the machine is shared
    std::unique_ptr<HttpServer> http;
    std::unique_ptr<app::WF> wf;
    std::size_t upgrades = 0, linked = 0;
    std::vector<std::shared_ptr<simnet::Link>> idle; // clients that stay
    bool covers(const std::string& a, const std::string& p) const { return port == p && (address == "0.0.0.0" || address == a); }
};
struct Use { // the world whose loop runs
    explicit Use(simnet::World* w) : before(simnet::World::slot()) { simnet::World::slot() = w; }
    ~Use() { simnet::World::slot() = before; }
    simnet::World* before;
};

static void run(Running& r) {
    Use use(r.world.get());
    for (std::size_t n = 0; !r.world->ready.empty(); ++n) {
        if (n > 100000) mon::fail("the loop never rests", r.address + ":" + r.port);
        r.http ? r.http->runOne() : r.wf->runOne();
    }
}
static std::unique_ptr<Running> start(mon::Rng& rng, const std::string& address, const std::string& port) {
    auto r = std::make_unique<Running>();
    r->address = address;
    r->port = port;
    Use none(nullptr);
    r->world = std::make_unique<simnet::World>();
    Use use(r->world.get());
    if (address == "0.0.0.0" && rng.coin()) {
        r->wf = std::make_unique<app::WF>(port, ".");
        r->wf->onUIStarted([p = r.get()](app::UI) { ++p->linked; });
    }
    else {
        r->http = std::make_unique<HttpServer>(address, port, ".");
        r->http->onUpgrade([p = r.get()](web::Net::Socket&&, webfront::http::Protocol) { ++p->upgrades; });
    }
    return r;
}
static void end(std::unique_ptr<Running>& r) {
    Use use(r->world.get());
    r->http.reset();
    r->wf.reset();
    r->world.reset();
    r.reset();
}

MON_SECTION(machine, 700, 20000) {
    simnet::Host host;
    app::LogLevel level(rng.chance(90) ? 0 : static_cast<int>(rng.below(5)));
    auto& table = web::MemFS::table();
    table.clear();
    table.emplace("index.html", web::Resource("hello"));
    static const std::vector<std::string> addresses{"0.0.0.0", "127.0.0.1", "10.0.0.1", "127.0.0.2"}, ports{"80", "8080", "1", "65535"};
    std::list<std::unique_ptr<Running>> live;
    struct Ends {
        std::list<std::unique_ptr<Running>>& l;
        ~Ends() {
            for (auto& r : l) end(r);
        }
    } ends{live};
    std::set<std::string> used;
    std::string story;
    auto where = [&](const std::string& what) { return what + " after " + mon::show(story, 500); };
    auto serving = [&](const std::string& a, const std::string& p) -> Running* {
        for (auto& r : live)
            if (r->covers(a, p)) return r.get();
        return nullptr;
    };
    for (std::size_t steps = 8 + rng.below(30); steps-- > 0;) {
        auto choice = rng.below(100);
        auto address = rng.of(addresses), port = rng.of(ports);
        if (choice < 22 || live.empty()) {
            bool free = true;
            for (auto& r : live) free = free && !(r->port == port && simnet::Host::overlap(r->address, address));
            story += "start " + address + ":" + port + " ";
            std::unique_ptr<Running> r;
            std::string why;
            try {
                r = start(rng, address, port);
            }
            catch (const std::exception& e) {
                why = e.what();
            }
            if (free && !r) mon::fail("server does not start on a free port", where(why));
            if (!free && r) {
                end(r);
                mon::fail("server starts on a port that is in use", where(address + ":" + port));
            }
            if (!free) mon::count("starts that failed as they must");
            else {
                if (!used.insert(port).second) mon::count("servers started again on their port");
                live.push_back(std::move(r));
                if (rng.coin()) run(*live.back());
            }
        }
        else if (choice < 30) {
            static const std::vector<std::pair<std::string, std::string>> bad{{"127.0.0.1", "65536"}, {"127.0.0.1", "-1"}, {"127.0.0.1", "eighty"}, {"127.0.0.1", "80 80"}, {"127.0.0.1", "99999"}, {"256.0.0.1", "9"}, {"8.8.8.8", "9"}, {"1.2.3", "9"}, {"no.such.host.invalid", "9"}, {"127.0.0.1:80", "9"}};
            auto& [a, p] = rng.of(bad);
            story += "bad " + a + ":" + p + " ";
            std::unique_ptr<Running> r;
            try {
                r = start(rng, a, p);
            }
            catch (const std::exception&) {
                mon::count("malformed addresses and ports refused");
            }
            if (r) {
                end(r);
                mon::fail("server starts on an address that is not there", where(a + ":" + p));
            }
        }
        else if (choice < 42) {
            auto it = std::next(live.begin(), static_cast<std::ptrdiff_t>(rng.below(live.size())));
            story += "end " + (*it)->address + ":" + (*it)->port + " ";
            auto idle = (*it)->idle;
            auto waiting = host.connect((*it)->address == "0.0.0.0" ? "127.0.0.1" : (*it)->address, (*it)->port); // never accepted
            if (waiting && rng.coin()) run(**it);
            end(*it);
            live.erase(it);
            for (auto& l : idle)
                if (l->open) mon::fail("connection of a server that ended stays open", where("client " + std::to_string(l->id)));
            if (waiting && waiting->open) mon::fail("connection of a server that ended stays open", where("waiting client"));
            if (!idle.empty()) mon::count("servers ended with clients");
        }
        else {
            address = addresses[1 + rng.below(3)];
            auto* r = serving(address, port);
            auto n = rng.chance(10) ? 1 + rng.below(150) : 1 + rng.below(4);
            story += "connect " + std::to_string(n) + "@" + address + ":" + port + " ";
            std::vector<std::shared_ptr<simnet::Link>> clients;
            std::vector<int> kinds;
            std::size_t upgrades = 0;
            auto before = r ? r->upgrades : 0;
            for (std::size_t k = 0; k < n; ++k) {
                auto l = host.connect(address, port);
                if (!l != !r) mon::fail(r ? "client of a live server refused" : "client accepted where no server is", where(address + ":" + port));
                if (!l) {
                    mon::count("clients refused");
                    mon::nontrivial(mon::fnv(story, k));
                    continue;
                }
                clients.push_back(l);
                kinds.push_back(static_cast<int>(rng.below(3)));
                if (rng.chance(30)) run(*r);
                if (kinds.back() == 0) l->send(web::Ask{}.text());
                else if (kinds.back() == 1) l->send(web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text()), ++upgrades;
            }
            if (!r) continue;
            run(*r);
            for (std::size_t k = 0; k < clients.size(); ++k) {
                auto& l = clients[k];
                if (kinds[k] == 0) {
                    auto reply = web::parseReply(l->received, false);
                    if (reply.code != 200 || reply.body != "hello") mon::fail("client not served", where(address + ":" + port + " received '" + mon::show(l->received, 100) + "'"));
                }
                else if (kinds[k] == 1) {
                    if (!app::upgraded(*l)) mon::fail("client not upgraded", where(address + ":" + port + " received '" + mon::show(l->received, 100) + "'"));
                    if (r->wf) {
                        l->send(app::frame(rng, wire::handshakeMessage()));
                        if (rng.coin()) r->idle.push_back(l);
                    }
                }
                else if (rng.coin()) r->idle.push_back(l);
                mon::count("clients served");
                mon::nontrivial(mon::fnv(story, k));
            }
            if (r->http && r->upgrades != before + upgrades) mon::fail("upgrades of another server", where(std::to_string(r->upgrades - before) + " of " + std::to_string(upgrades)));
            auto linked = r->linked;
            run(*r);
            if (r->wf && r->linked != linked + upgrades) mon::fail("browsers linked", where(std::to_string(r->linked - linked) + " of " + std::to_string(upgrades)));
            for (auto& l : clients)
                if (rng.coin()) l->clientClose();
            if (rng.coin()) run(*r);
        }
    }
    mon::sample(where("history"));
}

// S02: everything kept for a connection is released when it ends
#include "hostile.hpp"
#include "memory.hpp"
MON_RULE("applications serving 1000 to 2000 connections in groups of 1 to 4, that end in one of 13 ways (answered, refused, client gone at any point of the request, of the answer or of the session, close frame, failing reads, writes and shutdowns, hostile streams) or in a mix of them and of failing accepts; after each group every socket must be closed and the number of live socket objects back where it was; after the last one no link may be reachable and a log line may reach nobody; the memory in use, sampled at 6 points, must not grow at every one of them; non-trivial = one connection that ended; distinct by schedule");
MON_REQUIRE("connections ended", 60000);
MON_REQUIRE("sessions announced", 20000);
MON_REQUIRE("memory samples", 200);
MON_REQUIRE("with a client that stays", 5);

enum Way { answered, refused, goneInRequest, goneInAnswer, leftBeforeHandshake, closeFrame, closedByClient, resetByClient, readFails, writeFails, upgradeFails, shutdownFails, hostileStream, ways, mixed = ways };
static const char* const wayNames[] = {"answered", "refused", "gone in its request", "gone in its answer", "left before the handshake", "close frame", "closed by the client", "reset by the client", "failing read", "failing write", "failing upgrade", "failing shutdown", "hostile stream", "mixed"};

MON_SECTION(histories, 70, 1400) {
    std::size_t way = index % (ways + 1), perSample = mon::fullSpeed() ? 250 : 8;
    mon::allow(200);
    struct Stats {
        std::size_t announced = 0, ended = 0, stays = 0;
    } stats;
    std::vector<std::uint64_t> schedules;
    schedules.reserve(perSample * 9);
    long long sample[6] = {};
    {
        simnet::World w;
        w.pick = [&](std::size_t k) { return rng.below(k); };
        auto& table = web::MemFS::table();
        table.clear();
        table.emplace("index.html", web::Resource(rng.bytes(3000)));
        std::vector<std::string> targets{"/", "/index.html", "/none"}, names{"f", "g", "unknown"};
        int verbosity = rng.chance(75) ? 0 : static_cast<int>(rng.below(5));
        app::LogLevel level(verbosity);
        auto wf = std::make_unique<app::WF>("80", ".");
        std::map<std::uint64_t, app::UI> uis;
        wf->cppFunction<void, std::string>("f", [](const std::string&) {});
        wf->cppFunction<void, double, std::tuple<bool, std::string>>("g", [&](double, const auto&) {
            if (auto it = uis.find(w.running); it != uis.end()) it->second.addScript("called");
        });
        wf->onUIStarted([&](app::UI ui) {
            ++stats.announced;
            uis.emplace(w.running, ui);
            if (rng.coin()) ui.addScript("welcome");
        });
        auto drain = [&] {
            for (std::size_t n = 0; !w.ready.empty(); ++n) {
                if (n > 500'000) mon::fail("no end: the server keeps running handlers", wayNames[way]);
                wf->runOne();
            }
        };
        long sockets = w.socketObjects;
        std::vector<web::Client> guest(1); // a client that stays
        if (verbosity == 0 && rng.chance(30)) {
            app::connectSteps(rng, guest[0], true, true);
            web::drive(rng, w, guest, [&] { wf->runOne(); });
            drain();
            app::settled(guest);
            ++sockets;
            ++stats.stays;
            if (w.socketObjects != sockets) mon::fail("live sockets", "with one client that stays: " + std::to_string(w.socketObjects));
        }
        std::size_t done = 0;
        auto group = [&] {
            std::vector<web::Client> clients(1 + rng.below(4));
            uis.clear();
            if (way == mixed && rng.chance(20)) w.acceptFailure(std::make_error_code(std::errc::too_many_files_open));
            for (auto& c : clients) {
                auto how = way == mixed ? rng.below(ways) : way;
                app::conditions(rng, c, 20);
                auto session = [&] {
                    if (rng.chance(90)) app::append(c.steps, web::cut(rng, app::frame(rng, wire::handshakeMessage()), 0));
                    for (std::size_t k = rng.below(4); k-- > 0;)
                        app::append(c.steps, web::cut(rng, app::frame(rng, rng.coin() ? wire::call("g", {wire::Value::num(1), wire::Value::list({wire::Value::boolean(true), wire::Value::str("x")})}) : wire::call("f", {wire::Value::str(rng.bytes(rng.size(400)))})), rng.chance(80) ? 0 : 4));
                    if (rng.chance(20)) app::append(c.steps, web::cut(rng, app::frame(rng, "hello", wire::text), 0));
                };
                auto ask = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
                switch (how) {
                case answered:
                case goneInAnswer:
                case shutdownFails: {
                    web::Ask a;
                    a.method = rng.chance(70) ? "GET" : rng.of(web::methods);
                    a.target = rng.of(targets);
                    app::append(c.steps, web::cut(rng, a.text(), static_cast<unsigned>(rng.below(5))));
                    if (how == shutdownFails) c.onConnect = [](simnet::Link& l) { l.failShutdown = true; };
                    if (how == goneInAnswer) {
                        if (rng.coin()) c.onConnect = [n = rng.below(3100)](simnet::Link& l) { l.failWriteAt = n; };
                        else {
                            c.window = rng.below(3000);
                            c.steps.push_back({web::Step::reset, "", 0});
                        }
                    }
                    break;
                }
                case refused: {
                    std::string what;
                    app::append(c.steps, web::cut(rng, web::malform(rng, web::randomAsk(rng), what), static_cast<unsigned>(rng.below(5))));
                    break;
                }
                case goneInRequest: {
                    auto t = web::randomAsk(rng).text();
                    app::append(c.steps, web::cut(rng, t.substr(0, rng.below(t.size())), static_cast<unsigned>(rng.below(5))));
                    c.steps.push_back({rng.coin() ? web::Step::close : web::Step::reset, "", 0});
                    break;
                }
                case upgradeFails:
                    app::append(c.steps, web::cut(rng, ask, 0));
                    if (rng.coin()) c.onConnect = [n = rng.below(100)](simnet::Link& l) { l.failWriteAt = n; };
                    else {
                        c.window = rng.below(60);
                        c.steps.push_back({web::Step::reset, "", 0});
                    }
                    break;
                case hostileStream: hostile::steps(rng, c, names, targets, 4); break;
                default:
                    app::append(c.steps, web::cut(rng, ask, 0));
                    c.steps.push_back(app::await([&c] { return app::upgraded(*c.link) || !c.link->open; }));
                    if (how != leftBeforeHandshake) session();
                    if (how == closeFrame) app::append(c.steps, web::cut(rng, app::frame(rng, rng.bytes(rng.below(4)), wire::close), rng.chance(80) ? 0 : 1));
                    else if (how == readFails) c.steps.push_back(app::act([&c] {
                        c.link->failRead = true;
                        c.link->progress();
                    }));
                    else if (how == writeFails) c.onConnect = [n = 130 + rng.below(60)](simnet::Link& l) { l.failWriteAt = n; };
                    else c.steps.push_back({how == resetByClient || (how == leftBeforeHandshake && rng.coin()) ? web::Step::reset : web::Step::close, "", 0});
                }
                if (rng.chance(15)) { // uses of its UI by the application, before or after its end
                    auto i = static_cast<std::ptrdiff_t>(rng.below(c.steps.size() + 1));
                    c.steps.insert(c.steps.begin() + i, app::act([&] {
                        for (auto& [id, ui] : uis) try {
                                ui.jsFunction("f")(std::string_view("argument"), 1., false);
                            }
                            catch (const std::exception&) {
                            }
                    }));
                }
            }
            web::drive(rng, w, clients, [&] { wf->runOne(); });
            for (auto& c : clients) { // those that wait for something leave
                c.link->setWindow(simnet::unlimited);
                if (c.link->open && (c.link->failWriteAt != simnet::unlimited || way == hostileStream || way == mixed || rng.coin())) c.link->clientResetNow();
                else c.link->clientClose();
            }
            drain();
            for (auto& c : clients) {
                if (c.link->open) mon::fail("socket of a connection that ended is still open", std::string(wayNames[way]) + ", received '" + mon::show(c.link->received, 100) + "'");
                ++stats.ended;
                ++done;
            }
            if (w.socketObjects != sockets) mon::fail("live sockets", std::string(wayNames[way]) + ": " + std::to_string(w.socketObjects) + " after all connections ended, " + std::to_string(sockets) + " before");
            if (schedules.size() < schedules.capacity()) schedules.push_back(w.traceHash);
            clients.clear();
            uis.clear();
            std::erase_if(w.links, [](auto& p) { return p.expired(); });
        };
        for (auto& s : sample) {
            for (done = 0; done < perSample;) group();
            app::wlog::error("nobody must be there to read this");
            drain();
            s = allocated();
        }
        mon::noGrowth({sample, sample + 6}, std::string("connection: ") + wayNames[way], perSample);
        std::size_t live = 0;
        for (unsigned id = 0; id < stats.announced + 3 && id < 65536; ++id) try {
                wf->getLink(static_cast<webfront::WebLinkId>(id));
                ++live;
            }
            catch (const std::exception&) {
            }
        if (live != stats.stays) mon::fail("links reachable after all connections ended", std::string(wayNames[way]) + ": " + std::to_string(live));
        if (rng.coin()) guest.clear();
        wf.reset();
        app::wlog::error("nor this");
    }
    mon::count("connections ended", static_cast<long long>(stats.ended));
    mon::count("sessions announced", static_cast<long long>(stats.announced));
    mon::count("with a client that stays", static_cast<long long>(stats.stays));
    mon::count("memory samples", allocated() ? 6 : 0);
    for (auto h : schedules) mon::nontrivial(h);
    mon::sample(std::string(wayNames[way]) + ": " + std::to_string(stats.ended) + " connections, " + std::to_string(sample[5] - sample[0]) + " bytes more in use at the end than after the first " + std::to_string(perSample));
}
// many sessions, and requests, open at once before they end, in any order and some of them together
MON_SECTION(crowds, 6, 80) {
    if (!mon::fullSpeed()) return;
    mon::allow(200);
    long long used[4] = {};
    {
        simnet::World w;
        w.pick = [&](std::size_t k) { return rng.below(k); };
        web::MemFS::table().clear();
        app::LogLevel level(0); // what is written for a crowd is not small
        auto wf = std::make_unique<app::WF>("80", ".");
        for (int i = 0; i < 1 << 16; ++i) app::wlog::removeSinks(app::wlog::addSinks([](std::string_view) {})); // as after a long life
        std::vector<app::UI> uis;
        uis.reserve(8000);
        auto drain = [&] {
            while (!w.ready.empty()) wf->runOne();
        };
        auto hello = wire::clientFrame(wire::binary, wire::handshakeMessage(), 0x01020304);
        auto bye = wire::clientFrame(wire::close, "", 0x01020304);
        auto ask = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
        auto most = 130 + rng.below(700);
        auto [guest, guestUi] = app::join(w, *wf);
        wf->onUIStarted([&](app::UI ui) { uis.push_back(ui); });
        auto sockets = w.socketObjects;
        auto crowd = [&](std::size_t n) {
            uis.clear();
            std::vector<std::shared_ptr<simnet::Link>> all;
            for (std::size_t i = 0; i < n; ++i) {
                auto l = w.connect();
                auto what = rng.below(10);
                l->send(what == 0 ? ask.substr(0, rng.below(ask.size())) : ask); // some never end their request
                drain();
                if (what > 1) l->send(hello);
                drain();
                all.push_back(l);
            }
            mon::count("connections of a crowd", static_cast<long long>(n));
            mon::count("sessions announced", static_cast<long long>(uis.size()));
            for (std::size_t i = n; i > 1; --i) std::swap(all[i - 1], all[rng.below(i)]);
            if (rng.chance(30)) // all sessions fail at once while a message is sent to each
                for (auto& l : all) l->failWriteAt = l->received.size();
            if (rng.chance(40))
                for (auto& ui : uis) ui.addScript("the last message");
            bool together = rng.coin();
            for (auto& l : all) {
                if (l->open) switch (rng.below(3)) {
                    case 0: l->clientClose(); break;
                    case 1: l->clientResetNow(); break;
                    default: if (app::upgraded(*l)) l->send(bye); else l->clientResetNow();
                    }
                if (!together) drain();
            }
            drain();
            for (auto& l : all)
                if (l->open) mon::fail("socket of a connection that ended is still open", "in a crowd of " + std::to_string(n));
            if (w.socketObjects != sockets) mon::fail("live sockets", std::to_string(w.socketObjects) + " after all of a crowd of " + std::to_string(n) + " ended");
            auto before = guest->received.size();
            {
                app::LogLevel errors(1);
                app::wlog::error("only the guest is there to read this");
            }
            drain();
            auto got = guest->received.substr(before);
            wire::Frame f;
            if (!wire::parseFrame(got, f) || f.size != got.size() || !f.payload.ends_with("only the guest is there to read this")) mon::fail("subscription of the client that stays lost", "after a crowd of " + std::to_string(n) + ", received '" + mon::show(got, 100) + "'");
            for (auto& ui : uis) {
                bool threw = false;
                try {
                    ui.addScript("nobody");
                }
                catch (const std::exception&) {
                    threw = true;
                }
                if (!threw) mon::fail("links reachable after all connections ended", "in a crowd of " + std::to_string(n));
            }
            mon::count("connections ended", static_cast<long long>(n));
            mon::nontrivial(w.traceHash);
        };
        for (auto& u : used) {
            for (int k = 0; k < 2; ++k) crowd(most), uis.clear(), std::erase_if(w.links, [](auto& p) { return p.expired(); });
            u = allocated();
        }
    }
    if (used[1] < used[2] && used[2] < used[3] && used[3] - used[1] > 4 * 130 * 16) mon::fail("memory held grows with each crowd", std::to_string(used[1]) + ", " + std::to_string(used[2]) + ", " + std::to_string(used[3]) + " bytes");
}

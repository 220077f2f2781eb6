// L06: links are identified, announced and isolated from each other
#include "app.hpp"

MON_RULE("1 to 6 browsers that connect, link (some repeating the handshake, some never), receive scripts and calls through their UIs at random moments, leave in 3 ways (or stay) and are replaced, with and without a UI-started callback, under random schedules; tokens naming the client and a sequence number tell what reached whom; hundreds of browsers at the same time; and more than 65536 sessions, the UI of each tried again after it ended; non-trivial = one client; distinct by history and schedule");
MON_REQUIRE("clients announced", 900);
MON_REQUIRE("tokens received", 3000);
MON_REQUIRE("uses of the UI of a client that left", 500);
MON_REQUIRE("handshakes repeated", 60);
MON_REQUIRE("without a callback", 40);
MON_REQUIRE("other endianness", 100);

struct Browser {
    std::optional<app::UI> ui;
    std::optional<decltype(std::declval<app::UI>().jsFunction(""))> js;
    std::size_t announced = 0, handshakes = 0, sequence = 0;
    bool leaves = false;
    std::vector<std::string> sent;
};
/// live links, seen through the public API
static std::size_t liveLinks(app::WF& wf, unsigned upTo) {
    std::size_t n = 0;
    for (unsigned id = 0; id < upTo; ++id) try {
            wf.getLink(static_cast<webfront::WebLinkId>(id));
            ++n;
        }
        catch (const std::exception&) {
        }
    return n;
}

MON_SECTION(histories, 700, 24000) {
    simnet::World w;
    web::MemFS::table().clear();
    w.pick = [&](std::size_t k) { return rng.below(k); };
    app::LogLevel level(rng.chance(85) ? 0 : static_cast<int>(rng.below(5)));
    auto wf = std::make_unique<app::WF>("80", ".");
    auto n = 1 + rng.below(6);
    std::vector<web::Client> clients(n);
    std::vector<Browser> browsers(n);
    bool callback = rng.chance(85);
    std::string story;
    auto indexOf = [&](std::uint64_t link) {
        for (std::size_t i = 0; i < n; ++i)
            if (clients[i].link && clients[i].link->id == link) return i;
        return n;
    };
    auto use = [&](std::size_t i) {
        auto& b = browsers[i];
        if (!b.ui) return;
        bool gone = !clients[i].link->open;
        auto token = "client " + std::to_string(i) + " message " + std::to_string(b.sequence++);
        story += std::to_string(i) + (gone ? "x " : "u ");
        bool threw = false;
        try {
            switch (rng.below(3)) {
            case 0: b.ui->addScript(token); break;
            case 1: b.ui->jsFunction("f")(token); break;
            default: (*b.js)(std::string_view(token)); break;
            }
            b.sent.push_back(token);
        }
        catch (const std::exception&) {
            threw = true;
        }
        if (gone) mon::count("uses of the UI of a client that left");
        if (gone && !threw) mon::fail("using the UI of a client that left raises nothing", "client " + std::to_string(i) + " of history " + mon::show(story, 300));
        if (!gone && threw) mon::fail("the UI of a connected client raises an exception", "client " + std::to_string(i) + " of history " + mon::show(story, 300));
    };
    if (callback)
        wf->onUIStarted([&](app::UI ui) {
            auto i = indexOf(w.running);
            if (i == n) mon::fail("client announced outside its handshake", "link " + std::to_string(w.running));
            auto& b = browsers[i];
            story += std::to_string(i) + "linked ";
            if (++b.announced > 1) mon::fail("client announced twice", "client " + std::to_string(i) + " of history " + mon::show(story, 300));
            b.ui.emplace(ui);
            b.js.emplace(ui.jsFunction("f"));
            mon::count("clients announced");
            for (std::size_t k = rng.below(3); k-- > 0;) use(i);
        });
    else mon::count("without a callback");
    std::size_t arrived = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = clients[i];
        auto& b = browsers[i];
        app::conditions(rng, c, 25);
        app::connectSteps(rng, c, false);
        if (i && rng.chance(30)) c.steps.push_front(app::await([&, i] { return !browsers[i - 1].leaves || (clients[i - 1].link && !clients[i - 1].link->open); })); // takes the place of one that left
        b.handshakes = rng.chance(85) ? 1 : rng.coin() ? 0 : 2 + rng.below(3);
        if (b.handshakes > 1) mon::count("handshakes repeated");
        for (std::size_t k = 0; k < b.handshakes; ++k) {
            char endian = rng.chance(80) ? '\0' : '\1';
            if (endian) mon::count("other endianness");
            app::append(c.steps, web::cut(rng, app::frame(rng, std::string{'\0', endian}), static_cast<unsigned>(rng.below(5))));
        }
        if (b.handshakes) c.steps.push_back(app::await([&c] { return app::acked(*c.link); }));
        b.leaves = rng.chance(40);
        if (b.leaves) {
            for (std::size_t k = rng.below(6); k-- > 0;) app::append(c.steps, web::cut(rng, app::frame(rng, wire::call("unknown", {})), 0));
            switch (rng.below(3)) {
            case 0: app::append(c.steps, web::cut(rng, app::frame(rng, "", wire::close), 0)); break;
            case 1: c.steps.push_back({web::Step::close, "", 0}); break;
            default: c.steps.push_back({web::Step::reset, "", 0});
            }
        }
        ++arrived;
    }
    std::size_t budget = 10 + rng.below(40);
    web::drive(rng, w, clients, [&] {
        if (budget && rng.chance(25)) --budget, use(rng.below(n));
        wf->runOne();
    });
    app::settled(clients);
    for (; budget; --budget) {
        use(rng.below(n));
        for (std::size_t k = rng.below(4); k-- > 0 && !w.ready.empty();) wf->runOne();
    }
    for (auto& c : clients) c.link->setWindow(simnet::unlimited);
    while (!w.ready.empty()) wf->runOne();
    std::size_t live = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& b = browsers[i];
        auto& l = *clients[i].link;
        auto where = [&] { return "client " + std::to_string(i) + " of " + std::to_string(n) + ", " + std::to_string(b.handshakes) + " handshakes, history " + mon::show(story, 300); };
        live += l.open;
        if (!b.leaves && !l.open) mon::fail("connection of another client ended", where());
        if (b.leaves && l.open) mon::fail("client that left is still connected", where());
        auto t = app::traffic(l, !b.leaves);
        if (callback && !b.leaves && b.announced != (b.handshakes ? 1 : 0)) mon::fail("client not announced once", where() + ": " + std::to_string(b.announced));
        if (t.acks > b.handshakes || (b.handshakes && !t.acks)) mon::fail("acknowledgements", where() + ": " + std::to_string(t.acks));
        std::size_t k = 0;
        for (auto& m : t.messages) {
            if (m.command == wire::ack) {
                if (m.detail != (std::endian::native == std::endian::big)) mon::fail("endianness acknowledged", where() + ": " + std::to_string(m.detail));
                continue;
            }
            if (m.command == wire::functionReturn) continue;
            std::string token = m.command == wire::textCommand ? m.text : m.values.size() == 2 && m.values[0].s == "f" ? m.values[1].s : "?";
            if (k >= b.sent.size() || token != b.sent[k]) mon::fail("message of another client, or out of order", where() + ": received '" + mon::show(token, 80) + "' instead of '" + (k < b.sent.size() ? b.sent[k] : "nothing") + "'");
            mon::count("tokens received");
            ++k;
        }
        if (!b.leaves && k != b.sent.size()) mon::fail("message not received", where() + ": " + std::to_string(k) + " of " + std::to_string(b.sent.size()));
        mon::nontrivial(mon::mix(mon::mix(mon::fnv(story), w.traceHash), i));
        mon::sample(where());
    }
    auto links = liveLinks(*wf, 64);
    if (links != live) mon::fail("live links", std::to_string(links) + " links for " + std::to_string(live) + " connected clients, history " + mon::show(story, 300));
}

// hundreds of clients at the same time, some leave and others take their place
MON_SECTION(crowd, 3, 40) {
    mon::allow(100);
    simnet::World w;
    web::MemFS::table().clear();
    app::LogLevel level(0);
    auto wf = std::make_unique<app::WF>("80", ".");
    struct Guest {
        std::shared_ptr<simnet::Link> link;
        std::optional<app::UI> ui;
        std::size_t sent = 0;
    };
    std::vector<Guest> guests;
    std::optional<app::UI> latest;
    std::size_t announced = 0;
    wf->onUIStarted([&](app::UI ui) {
        latest.emplace(ui);
        ++announced;
    });
    auto drain = [&] {
        while (!w.ready.empty()) wf->runOne();
    };
    auto upgrade = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
    std::size_t total = 270 + rng.below(mon::thorough() ? 1200 : 300);
    auto use = [&](std::size_t i) {
        auto& g = guests[i];
        bool threw = false;
        auto token = "client " + std::to_string(i) + " message " + std::to_string(g.sent);
        try {
            if (rng.coin()) g.ui->addScript(token);
            else g.ui->jsFunction("f")(token);
            ++g.sent;
        }
        catch (const std::exception&) {
            threw = true;
        }
        if (threw == g.link->open) mon::fail(threw ? "the UI of a connected client raises an exception" : "using the UI of a client that left raises nothing", "client " + std::to_string(i) + " of " + std::to_string(guests.size()));
    };
    for (std::size_t i = 0; i < total; ++i) {
        Guest g{w.connect(), std::nullopt};
        g.link->send(upgrade);
        drain();
        latest.reset();
        g.link->send(app::frame(rng, wire::handshakeMessage()));
        drain();
        if (!latest || announced != i + 1) mon::fail("client not announced once", "client " + std::to_string(i) + ", " + std::to_string(announced) + " announced");
        g.ui.emplace(*latest);
        guests.push_back(std::move(g));
        use(i);
        if (rng.chance(5)) {
            auto k = rng.below(guests.size());
            guests[k].link->clientClose();
            drain();
        }
        use(rng.below(guests.size()));
    }
    for (std::size_t i = 0; i < guests.size(); ++i) use(i);
    drain();
    std::size_t live = 0;
    for (std::size_t i = 0; i < guests.size(); ++i) {
        auto& g = guests[i];
        live += g.link->open;
        auto t = app::traffic(*g.link, g.link->open);
        std::size_t k = 0;
        for (auto& m : t.messages) {
            std::string token = m.command == wire::textCommand ? m.text : m.command == wire::callFunction && m.values.size() == 2 ? m.values[1].s : "";
            if (token.empty()) continue;
            if (token != "client " + std::to_string(i) + " message " + std::to_string(k)) mon::fail("message of another client, or out of order", "client " + std::to_string(i) + " of " + std::to_string(total) + " received '" + mon::show(token, 60) + "'");
            ++k;
            mon::count("tokens received");
        }
        if (g.link->open && k != g.sent) mon::fail("message not received", "client " + std::to_string(i) + " of " + std::to_string(total));
    }
    mon::count("clients at the same time", static_cast<long long>(live));
    if (auto links = liveLinks(*wf, static_cast<unsigned>(total + 2)); links != live) mon::fail("live links", std::to_string(links) + " links for " + std::to_string(live) + " connected clients");
    mon::nontrivial(mon::mix(total, live));
}

// more sessions than there are link ids, while some links live on
MON_SECTION(wrap, 1, 2) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    simnet::World w;
    web::MemFS::table().clear();
    auto wf = std::make_unique<app::WF>("80", ".");
    std::vector<std::pair<std::shared_ptr<simnet::Link>, app::UI>> stay;
    std::optional<app::UI> latest;
    std::vector<std::pair<std::size_t, app::UI>> stale; // of the clients that left
    std::size_t announced = 0;
    wf->onUIStarted([&](app::UI ui) {
        latest.emplace(ui);
        ++announced;
    });
    auto drain = [&] {
        while (!w.ready.empty()) wf->runOne();
    };
    auto upgrade = web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text();
    auto hello = app::frame(rng, wire::handshakeMessage());
    auto join = [&] {
        auto l = w.connect();
        l->send(upgrade);
        drain();
        latest.reset();
        l->send(hello);
        drain();
        if (!latest) mon::fail("client not announced", "session " + std::to_string(announced) + " with " + std::to_string(stay.size()) + " others");
        return l;
    };
    auto received = [&](simnet::Link& l, const std::string& token) {
        auto t = app::traffic(l);
        std::size_t k = 0;
        for (auto& m : t.messages) k += m.command == wire::textCommand && m.text == token;
        return k;
    };
    std::size_t total = 65536 + 40;
    for (std::size_t i = 0; i < total; ++i) {
        bool stays = i < 3 || i == 40000 || i + 6 > 65536 + 40 || i == 65535;
        auto l = join();
        if (stays) {
            stay.emplace_back(l, *latest);
            continue;
        }
        if (i % 4096 == 0 || i > 65500) {
            latest->addScript("visitor " + std::to_string(i));
            drain();
            if (received(*l, "visitor " + std::to_string(i)) != 1) mon::fail("message not received by its client", "session " + std::to_string(i));
        }
        l->clientClose();
        drain();
        if (l->open) mon::fail("client that left is still connected", "session " + std::to_string(i));
        std::erase_if(w.links, [](auto& p) { return p.expired(); });
        stale.emplace_back(i, *latest);
    }
    for (auto& [i, ui] : stale) {
        bool threw = false;
        try {
            ui.addScript("meant for session " + std::to_string(i));
        }
        catch (const std::exception&) {
            threw = true;
        }
        mon::count("uses of the UI of a client that left");
        if (!threw) mon::fail("using the UI of a client that left raises nothing", "the one of session " + std::to_string(i) + " after " + std::to_string(announced) + " sessions");
    }
    for (std::size_t i = 0; i < stay.size(); ++i) stay[i].second.addScript("stays " + std::to_string(i));
    drain();
    for (std::size_t i = 0; i < stay.size(); ++i)
        for (std::size_t k = 0; k < stay.size(); ++k)
            if (received(*stay[i].first, "stays " + std::to_string(k)) != (i == k)) mon::fail("message of another client", "stays " + std::to_string(k) + " at client " + std::to_string(i));
    mon::count("sessions beyond the ids", static_cast<long long>(announced));
    mon::nontrivial(total);
}

// L05: injected scripts and forwarded logs arrive as the exact text
#include "app.hpp"

MON_RULE("1 to 3 browsers that link at different moments, scripts of 0 to 65535 arbitrary bytes injected through their UIs (and longer ones), log records of all levels and lengths before, between and after, and those the library makes itself, under random windows and schedules; a sink registered first tells which lines were logged; non-trivial = one script or one forwarded line; distinct by text and client");
MON_REQUIRE("scripts received", 900);
MON_REQUIRE("scripts of 65535 bytes", 20);
MON_REQUIRE("scripts refused", 100);
MON_REQUIRE("log lines received", 5000);
MON_REQUIRE("log lines longer than 65535 bytes", 20);
MON_REQUIRE("records logged as a browser is announced", 200);
MON_REQUIRE("sent through a narrow window", 60);

struct Linked {
    std::optional<app::UI> ui;
    std::size_t announced = 0, firstLine = 0;
    std::vector<std::string> scripts;
};

static std::string text(mon::Rng& rng, std::size_t n) { return rng.coin() ? rng.bytes(n) : rng.from("let x = '{}'; /* é */\n\"", n); }

MON_SECTION(histories, 500, 16000) {
    simnet::World w;
    web::MemFS::table().clear();
    w.pick = [&](std::size_t k) { return rng.below(k); };
    std::vector<std::string> lines; // all that was logged
    auto sink = app::wlog::addSinks([&](std::string_view t) { lines.emplace_back(t); });
    struct Remove {
        std::size_t id;
        ~Remove() { app::wlog::removeSinks(id); }
    } remove{sink};
    app::LogLevel level(static_cast<int>(rng.below(5)));
    auto wf = std::make_unique<app::WF>("80", ".");
    auto n = 1 + rng.below(3);
    std::vector<web::Client> clients(n);
    std::map<std::uint64_t, Linked> linked;
    std::string story;
    auto script = [&](Linked& l) {
        auto size = rng.chance(6) ? 65535 - rng.below(2) : rng.chance(12) ? std::size_t{120} + rng.below(10) : rng.size(600);
        if (rng.chance(10)) {
            std::string s(65536 + (rng.coin() ? rng.below(3) : rng.below(70000)), 'L');
            bool threw = false;
            try {
                l.ui->addScript(s);
            }
            catch (const std::exception&) {
                threw = true;
            }
            if (!threw) mon::fail("a script of more than 65535 bytes is not refused", std::to_string(s.size()) + " bytes");
            mon::count("scripts refused");
            story += "refused ";
            return;
        }
        auto s = std::make_unique<std::string>(text(rng, size));
        if (size == 65535) mon::count("scripts of 65535 bytes");
        l.scripts.push_back(*s);
        l.ui->addScript(*s);
        std::fill(s->begin(), s->end(), '#');
        story += "s" + std::to_string(size) + " ";
    };
    auto record = [&] {
        auto size = rng.chance(3) ? 65400 + rng.below(300) : rng.chance(2) ? rng.below(200000) : rng.size(300);
        auto s = text(rng, size);
        switch (rng.below(5)) {
        case 0: app::wlog::error("{}", s); break;
        case 1: app::wlog::warn("w {} {}", size, s); break;
        case 2: app::wlog::info("{}", s); break;
        case 3: app::wlog::debug("{}!", s); break;
        default: app::wlog::infoHex("dump", s.substr(0, 2000));
        }
        story += "r" + std::to_string(size) + " ";
    };
    wf->onUIStarted([&](app::UI ui) {
        auto& l = linked[w.running];
        ++l.announced;
        l.ui.emplace(ui);
        l.firstLine = lines.size();
        story += "linked ";
        for (std::size_t k = rng.below(4); k-- > 0;) {
            if (rng.chance(40)) script(l);
            else record(), mon::count("records logged as a browser is announced");
        }
    });
    for (auto& c : clients) {
        app::conditions(rng, c, 30);
        if (c.window != simnet::unlimited) mon::count("sent through a narrow window");
        app::connectSteps(rng, c, true, true);
        for (std::size_t k = rng.below(4); k-- > 0;) app::append(c.steps, web::cut(rng, app::frame(rng, rng.coin() ? wire::call("f", {}) : "\x09 nothing"), 0));
    }
    std::size_t budget = 5 + rng.below(20);
    auto one = [&] {
        if (rng.chance(55)) record();
        else {
            auto& c = rng.of(clients);
            if (!c.link) return;
            auto l = linked.find(c.link->id);
            if (l != linked.end()) script(l->second);
        }
    };
    web::drive(rng, w, clients, [&] {
        if (budget && rng.chance(20)) --budget, one();
        wf->runOne();
    });
    app::settled(clients);
    for (; budget; --budget) {
        one();
        for (std::size_t k = rng.below(4); k-- > 0 && !w.ready.empty();) wf->runOne();
    }
    for (auto& c : clients) c.link->setWindow(simnet::unlimited);
    while (!w.ready.empty()) wf->runOne();
    for (std::size_t i = 0; i < n; ++i) {
        auto where = [&] { return "client " + std::to_string(i) + " of history " + mon::show(story, 400); };
        auto& l = linked[clients[i].link->id];
        if (l.announced != 1) mon::fail("client not announced once", where() + ": " + std::to_string(l.announced));
        auto t = app::traffic(*clients[i].link);
        std::size_t k = 0;
        for (auto& m : t.messages) {
            if (m.command == wire::ack || m.command == wire::functionReturn) continue;
            if (m.command != wire::textCommand || m.detail != 1) mon::fail("unexpected message", where() + ": command " + std::to_string(m.command) + " opcode " + std::to_string(m.detail));
            if (k >= l.scripts.size()) mon::fail("script that was not injected", where() + ": '" + mon::show(m.text, 60) + "'");
            if (m.text != l.scripts[k]) mon::fail("other script", where() + ": script " + std::to_string(k) + " " + mon::differ(m.text, l.scripts[k]));
            mon::count("scripts received");
            mon::nontrivial(mon::mix(mon::fnv(m.text), i));
            ++k;
        }
        if (k != l.scripts.size()) mon::fail("script not received", where() + ": " + std::to_string(k) + " of " + std::to_string(l.scripts.size()));
        auto want = lines.size() - l.firstLine;
        if (t.logs.size() < want) mon::fail("log lines not received", where() + ": " + std::to_string(t.logs.size()) + " of " + std::to_string(want) + " lines");
        if (t.logs.size() > lines.size()) mon::fail("more log lines than logged", where() + ": " + std::to_string(t.logs.size()) + " of " + std::to_string(lines.size()));
        // the lines logged since the announcement, all of them, perhaps preceded by the last ones before
        for (std::size_t j = 0; j < t.logs.size(); ++j) {
            auto& line = lines[lines.size() - t.logs.size() + j];
            auto& got = t.logs[j];
            if (line.size() > 65535) {
                mon::count("log lines longer than 65535 bytes");
                if (got.empty() || !line.starts_with(got)) mon::fail("long log line is not shortened to a prefix", where() + ": " + mon::differ(got, line));
            }
            else if (got != line) mon::fail("other log line", where() + ": line " + std::to_string(j) + " " + mon::differ(got, line));
            mon::count("log lines received");
            mon::nontrivial(mon::mix(mon::fnv(got.substr(std::min<std::size_t>(got.size(), 20))), i + j));
        }
        mon::sample(where());
    }
    wf.reset();
    auto before = lines.size();
    app::wlog::error("after the end");
    if (lines.size() > before + 1) mon::fail("logging after the application ended", std::to_string(lines.size() - before) + " lines");
}

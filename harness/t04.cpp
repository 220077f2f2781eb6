// T04: logging never changes what the server does
#include "hostile.hpp"

MON_RULE("the same 1 to 5 clients (requests, refused requests, sessions with calls, hostile messages, text, scripts and calls of JavaScript functions by the application) next to 0 to 2 hostile ones, served twice: with logging disabled, and with a level of its own, changed on the way, and 0 to 3 more sinks; each of the clients must receive the same answer bytes or the same frames but debug logs, the application must see the same announcements and calls, and nobody may receive a debug log of the silent server; non-trivial = one client compared; distinct by what it received and the level");
MON_REQUIRE("answers compared", 700);
MON_REQUIRE("sessions compared", 1000);
MON_REQUIRE("frames compared", 5000);
MON_REQUIRE("calls compared", 2500);
MON_REQUIRE("lines logged", 20000);
MON_REQUIRE("debug logs received", 5000);

struct Seen {
    std::vector<std::string> frames; // but debug logs
    std::string answer;
    std::vector<std::string> calls;
    std::size_t announced = 0, logs = 0;
    bool upgraded = false, open = false;
};

static std::vector<Seen> serve(std::uint64_t plan, std::uint64_t schedule, bool logging, int level, std::size_t& lines) {
    mon::Rng rng(plan), turns(schedule), volume(schedule + 1);
    simnet::World w;
    w.pick = [&](std::size_t k) { return turns.below(k); };
    auto& table = web::MemFS::table();
    table.clear();
    table.emplace("index.html", web::Resource(rng.bytes(rng.below(3000))));
    table.emplace("a{}.css", web::Resource(rng.bytes(rng.below(3000)), rng.coin() ? "gzip" : ""));
    for (auto name : {"a\nb.css", "a", "c \\d.js", "\xc3\xa9", "x\x7f\x1b", "x", "<&\"'>"})
        if (rng.chance(70)) table.emplace(name, web::Resource(rng.bytes(rng.below(900))));
    std::vector<std::string> targets{"/", "/index.html", "/a%7b%7d.css", "/{}", "/none{0}%s", "/..", "/a%0ab.css", "/c%20%5cd.js", "/%c3%a9", "/x%7f%1b", "/%3c%26%22%27%3e"}, names{"f", "g", "h", "unknown", "{}"};
    app::LogLevel verbosity(logging ? level : 0);
    struct Sinks {
        std::vector<std::size_t> ids;
        ~Sinks() {
            for (auto i : ids) app::wlog::removeSinks(i);
        }
    } sinks;
    if (logging)
        for (std::size_t k = volume.below(4); k-- > 0;) sinks.ids.push_back(app::wlog::addSinks([&](std::string_view) { ++lines; }));
    auto wf = std::make_unique<app::WF>("80", ".");
    struct Linked {
        std::optional<app::UI> ui;
        std::vector<std::string> calls;
        std::size_t announced = 0;
    };
    std::map<std::uint64_t, Linked> linked;
    auto records = [&] { // of the application
        app::wlog::warn("{} {}", "an application's line", linked.size());
        app::wlog::debug("{{}}");
    };
    wf->cppFunction<void, std::string>("f", [&](const std::string& s) {
        linked[w.running].calls.push_back("f " + s);
        records();
    });
    wf->cppFunction<void, double, std::tuple<bool, std::string>>("g", [&](double d, const std::tuple<bool, std::string>& t) {
        auto& l = linked[w.running];
        l.calls.push_back("g " + std::to_string(std::bit_cast<std::uint64_t>(d)) + (std::get<0>(t) ? " true " : " false ") + std::get<1>(t));
        records();
        if (!l.ui) return;
        if (std::get<0>(t)) l.ui->addScript(std::get<1>(t));
        else l.ui->jsFunction("js")(std::get<1>(t), d, std::make_tuple(true, std::get<1>(t)));
        records();
    });
    wf->cppFunction<void>("h", [&] {
        linked[w.running].calls.push_back("h");
        throw std::runtime_error("{} %s");
    });
    wf->onUIStarted([&](app::UI ui) {
        auto& l = linked[w.running];
        ++l.announced;
        l.ui.emplace(ui);
        records();
        ui.addScript("welcome");
        ui.jsFunction("start{}")(std::string("now"));
    });
    std::size_t n = 1 + rng.below(5);
    std::vector<web::Client> clients(n + rng.below(3));
    for (std::size_t i = 0; i < clients.size(); ++i) {
        auto& c = clients[i];
        if (i >= n) {
            hostile::steps(rng, c, names, targets, 4);
            continue;
        }
        app::conditions(rng, c, 30);
        if (rng.chance(40)) {
            auto a = web::randomAsk(rng);
            if (rng.chance(80)) a.target = rng.of(targets);
            if (rng.coin()) a.headers.emplace_back("Accept-Encoding", "gzip");
            if (rng.chance(30)) a.headers.emplace_back("X{}", "{:x}%s");
            std::string what;
            app::append(c.steps, web::cut(rng, rng.chance(25) ? web::malform(rng, a, what) : a.text(), static_cast<unsigned>(rng.below(5))));
            continue;
        }
        app::connectSteps(rng, c, rng.chance(90), false);
        std::string stream;
        for (std::size_t k = rng.below(12); k-- > 0;) switch (rng.below(7)) {
            case 0: stream += app::frame(rng, wire::call("f", {wire::Value::str(hostile::words(rng) + rng.bytes(rng.size(300)))})); break;
            case 1:
            case 2: stream += app::frame(rng, wire::call("g", {wire::Value::num(std::bit_cast<double>(rng.next())), wire::Value::list({wire::Value::boolean(rng.coin()), wire::Value::str(hostile::words(rng))})})); break;
            case 3: stream += app::frame(rng, wire::call(rng.of(names), {})); break;
            case 4: stream += app::frame(rng, hostile::words(rng), wire::text); break;
            case 5: stream += app::frame(rng, wire::handshakeMessage()); break;
            default: stream += app::frame(rng, hostile::message(rng, names));
            }
        app::append(c.steps, web::cut(rng, stream, rng.chance(60) ? 4 : static_cast<unsigned>(rng.below(5))));
    }
    web::drive(turns, w, clients, [&] {
        if (logging && volume.chance(3)) {
            static constexpr std::uint8_t levels[5] = {0, 1, 2, 3, 4};
            app::wlog::setLogLevel(levels[volume.below(5)]);
        }
        wf->runOne();
    });
    for (std::size_t i = 0; i < n; ++i) clients[i].link->setWindow(simnet::unlimited);
    while (!w.ready.empty()) wf->runOne();
    std::vector<Seen> r(n);
    for (std::size_t i = 0; i < n; ++i) {
        auto& l = *clients[i].link;
        auto& s = r[i];
        s.open = l.open;
        s.upgraded = app::upgraded(l);
        s.calls = linked[l.id].calls;
        s.announced = linked[l.id].announced;
        auto session = app::wsBytes(l);
        s.answer = l.received.substr(0, l.received.size() - session.size());
        if (!s.upgraded) continue;
        for (auto& f : wire::serverFrames(session)) {
            if (f.opcode == wire::binary && f.payload.size() > 1 && f.payload[0] == wire::textCommand && f.payload[1] == 0) ++s.logs;
            else s.frames.push_back(static_cast<char>('0' + f.opcode) + f.payload);
        }
    }
    return r;
}

MON_SECTION(twice, 1000, 40000) {
    auto plan = rng.next(), schedule = rng.next(), other = rng.chance(30) ? rng.next() : schedule;
    int level = 1 + static_cast<int>(rng.below(4));
    bool silentFirst = rng.coin();
    std::size_t lines = 0, none = 0;
    std::vector<Seen> silent, loud;
    if (silentFirst) silent = serve(plan, schedule, false, 0, none);
    loud = serve(plan, other, true, level, lines);
    if (!silentFirst) silent = serve(plan, schedule, false, 0, none);
    mon::count("lines logged", static_cast<long long>(lines));
    for (std::size_t i = 0; i < silent.size(); ++i) {
        auto& a = silent[i];
        auto& b = loud[i];
        auto where = [&] { return "client " + std::to_string(i) + " of " + std::to_string(silent.size()) + ", level " + std::to_string(level) + ": "; };
        if (a.logs) mon::fail("debug logs of a silent server", where() + std::to_string(a.logs));
        if (a.answer != b.answer) mon::fail("other answer", where() + "logging " + mon::differ(b.answer, a.answer));
        if (a.open != b.open) mon::fail("connection ends only in one of them", where() + (a.open ? "with" : "without") + " logging");
        if (a.announced != b.announced) mon::fail("other announcements", where() + std::to_string(b.announced) + " instead of " + std::to_string(a.announced));
        auto compare = [&](const std::vector<std::string>& x, const std::vector<std::string>& y, const char* what) {
            for (std::size_t k = 0; k < std::max(x.size(), y.size()); ++k) {
                if (k >= x.size() || k >= y.size()) mon::fail(std::string("number of ") + what, where() + std::to_string(y.size()) + " with logging, " + std::to_string(x.size()) + " without; the first that is missing: '" + mon::show(k < x.size() ? x[k] : y[k], 100) + "'");
                if (x[k] != y[k]) mon::fail(std::string("other ") + what, where() + std::to_string(k) + ": with logging " + mon::differ(y[k], x[k]));
            }
        };
        compare(a.calls, b.calls, "calls");
        compare(a.frames, b.frames, "frames");
        mon::count(a.upgraded ? "sessions compared" : "answers compared");
        mon::count("frames compared", static_cast<long long>(a.frames.size()));
        mon::count("calls compared", static_cast<long long>(a.calls.size()));
        mon::count("debug logs received", static_cast<long long>(b.logs));
        std::uint64_t h = mon::mix(mon::fnv(a.answer), static_cast<std::uint64_t>(level));
        for (auto& f : a.frames) h = mon::fnv(f, h);
        mon::nontrivial(h);
    }
    if (index < 2) mon::sample("level " + std::to_string(level) + ", " + std::to_string(silent.size()) + " clients, " + std::to_string(lines) + " lines logged");
}

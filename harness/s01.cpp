// S01: no client or network failure can stop the server or corrupt memory
#include "hostile.hpp"
#include "scratch.hpp"
#include "system/IndexFS.hpp"
#include "system/NativeFS.hpp"

MON_RULE("whole applications (resources in memory, or a scratch document root layered over the embedded files) serving 1 to 5 hostile clients - malformed, cut, over-long and random requests, random, mutated and lying frames, unmasked and reserved ones, mutated calls, resets and closes at any point, failing reads, writes, shutdowns and accepts - together with honest HTTP and WebSocket clients, under random segmentation, back-pressure and schedules; violations: any exception leaving runOne, any sanitizer report, a handler loop that does not end, an honest client (concurrent or later) not served exactly; non-trivial = one hostile client; distinct by schedule");
MON_REQUIRE("hostile clients", 6000);
MON_REQUIRE("hostile clients that upgraded", 3000);
MON_REQUIRE("hostile clients announced", 1800);
MON_REQUIRE("failed accepts", 200);
MON_REQUIRE("honest HTTP exchanges", 2000);
MON_REQUIRE("honest calls answered", 2000);
MON_REQUIRE("functions run for hostile clients", 100);
MON_REQUIRE("servers destroyed while serving", 40);
MON_REQUIRE("applications that log everything", 300);

namespace fs = webfront::fs;

struct Honest {
    enum Kind { http, webSocket } kind = http;
    std::string target;
    std::string expected;
    std::size_t calls = 0, announced = 0, scanned = 0, answers = 0; // how far the answers were searched, how many were found
    std::vector<std::pair<std::string, double>> run;
};

template<typename WF>
struct Scene {
    using UI = typename WF::UI;
    mon::Rng& rng;
    simnet::World& w;
    std::unique_ptr<WF> wf;
    std::vector<std::pair<std::string, std::string>> served; // target -> content
    std::vector<std::string> names{"note", "mixed", "nothing", "list", "unknown"}, targets;
    std::map<std::uint64_t, UI> uis;
    std::vector<web::Client> clients;
    std::vector<std::optional<Honest>> honest;
    std::size_t sequence = 0;

    Scene(mon::Rng& r, simnet::World& world, std::filesystem::path root) : rng(r), w(world), wf(std::make_unique<WF>("80", root)) {
        w.pick = [this](std::size_t k) { return rng.below(k); };
        wf->template cppFunction<void, std::string, double>("note", [this](std::string t, double d) {
            if (auto h = honestRunning()) {
                h->run.emplace_back(t, d);
                mon::count("honest calls");
            }
            else mon::count("functions run for hostile clients");
            answer("answer " + t);
        });
        wf->template cppFunction<void, bool, int, std::string, std::tuple<std::string, double>>("mixed", [this](bool, int, std::string, std::tuple<std::string, double> t) {
            mon::count("functions run for hostile clients");
            answer(std::get<0>(t));
        });
        wf->template cppFunction<void>("nothing", [] { mon::count("functions run for hostile clients"); });
        wf->template cppFunction<void, std::tuple<std::tuple<double, bool>, std::string>, std::string>("list", [](auto, auto) { mon::count("functions run for hostile clients"); });
        wf->onUIStarted([this](UI ui) {
            uis.emplace(w.running, ui);
            if (auto h = honestRunning()) ++h->announced;
            else mon::count("hostile clients announced");
            if (rng.coin()) use(ui);
        });
    }
    Honest* honestRunning() {
        for (std::size_t i = 0; i < clients.size(); ++i)
            if (clients[i].link && clients[i].link->id == w.running) return honest[i] ? &*honest[i] : nullptr;
        return nullptr;
    }
    void answer(const std::string& text) {
        if (auto it = uis.find(w.running); it != uis.end()) try {
                it->second.addScript(text);
            }
            catch (const std::exception&) { // too long, or gone
                if (honestRunning()) mon::fail("honest client cannot be answered", mon::show(text, 80));
            }
    }
    /// the application goes on using a client's UI
    void use(UI ui) {
        try {
            switch (rng.below(3)) {
            case 0: ui.addScript(std::string(rng.size(300), 's')); break;
            case 1: ui.jsFunction("f")(std::string(rng.size(300), 'a'), 12., true); break;
            default: ui.jsFunction("g")(); break;
            }
        }
        catch (const std::exception&) {
        }
    }
    void useAny() {
        if (uis.empty()) return;
        auto it = uis.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(rng.below(uis.size())));
        for (std::size_t i = 0; i < clients.size(); ++i)
            if (clients[i].link && clients[i].link->id == it->first && honest[i]) return; // these are judged
        use(it->second);
    }
    void honestSteps(web::Client& c, Honest& h) {
        app::conditions(rng, c, 30);
        h.kind = rng.coin() ? Honest::http : Honest::webSocket;
        if (h.kind == Honest::http) {
            web::Ask a;
            auto& s = served[rng.below(served.size())];
            a.target = h.target = s.first;
            h.expected = s.second;
            if (rng.coin()) a.headers.emplace_back("Host", "localhost");
            a.headers.emplace_back("Accept-Encoding", "gzip, deflate, br");
            app::append(c.steps, web::cut(rng, a.text(), static_cast<unsigned>(rng.below(5))));
            return;
        }
        app::connectSteps(rng, c, true, true);
        h.calls = 1 + rng.below(4);
        for (std::size_t k = 0; k < h.calls; ++k) {
            auto token = "token " + std::to_string(++sequence);
            app::append(c.steps, web::cut(rng, app::frame(rng, wire::call("note", {wire::Value::str(token), wire::Value::num(static_cast<double>(k))})), static_cast<unsigned>(rng.below(5))));
            h.expected += token + "\n";
            c.steps.push_back(app::await([this, &c, &h, k] { return count(*c.link, h) > k; }));
        }
    }
    /// answers received
    std::size_t count(const simnet::Link& l, Honest& h) {
        constexpr std::string_view mark = "answer token ";
        auto b = app::wsBytes(l);
        for (auto at = b.find(mark, h.scanned); at != b.npos; at = b.find(mark, at + 1)) {
            ++h.answers;
            h.scanned = at + 1;
        }
        h.scanned = std::max(h.scanned, b.size() - std::min(b.size(), mark.size() - 1));
        return h.answers;
    }
    void judge(std::size_t i, const char* when) {
        auto& c = clients[i];
        auto& h = *honest[i];
        auto& l = *c.link;
        auto where = [&] { return std::string(when) + " client " + std::to_string(i) + " of " + std::to_string(clients.size()) + ": received '" + mon::show(l.received, 200) + "'"; };
        if (!c.steps.empty()) mon::fail("honest client not served", where());
        if (h.kind == Honest::http) {
            auto r = web::parseReply(l.received, false);
            if (!r.error.empty()) mon::fail("honest client not served", r.error + ", " + where());
            if (r.code != 200 || !r.rest.empty() || r.body != h.expected) mon::fail("honest client not served the resource", where() + " for " + h.target);
            if (!l.ended()) mon::fail("honest exchange not ended", where());
            mon::count("honest HTTP exchanges");
            return;
        }
        if (!l.open) mon::fail("connection of an honest client ended", where());
        if (h.announced != 1) mon::fail("honest client not announced once", where());
        auto t = app::traffic(l);
        std::string got;
        for (auto& m : t.messages)
            if (m.command == wire::textCommand && m.text.starts_with("answer ")) {
                got += m.text.substr(7) + "\n";
                mon::count("honest calls answered");
            }
        if (got != h.expected) mon::fail("answers to an honest client", mon::differ(got, h.expected) + ", " + where());
        if (h.run.size() != h.calls) mon::fail("calls of an honest client", where());
        for (std::size_t k = 0; k < h.calls; ++k)
            if (h.run[k].second != static_cast<double>(k) || h.expected.find(h.run[k].first + "\n") == std::string::npos) mon::fail("calls of an honest client", where());
    }
    void drain() {
        for (auto& c : clients)
            if (c.link && c.link->failWriteAt == simnet::unlimited) c.link->setWindow(simnet::unlimited);
        for (std::size_t n = 0; !w.ready.empty(); ++n) {
            if (n > 500'000) mon::fail("no end: the server keeps running handlers", std::to_string(w.handlersRun));
            wf->runOne();
        }
    }
    void play() {
        auto n = 1 + rng.below(5), m = 1 + rng.below(3);
        clients.resize(n + m);
        honest.resize(n + m);
        for (std::size_t k = m; k > 0;) {
            auto i = rng.below(n + m);
            if (!honest[i]) honest[i].emplace(), --k;
        }
        for (std::size_t i = 0; i < n + m; ++i) {
            if (honest[i]) honestSteps(clients[i], *honest[i]);
            else {
                hostile::steps(rng, clients[i], names, targets);
                for (std::size_t k = rng.below(3); rng.chance(20) && k-- > 0;)
                    clients[i].steps.push_front(app::act([this] {
                        static const std::vector<std::errc> errors{std::errc::too_many_files_open, std::errc::connection_aborted, std::errc::not_enough_memory, std::errc::operation_not_permitted};
                        w.acceptFailure(std::make_error_code(rng.of(errors)));
                        mon::count("failed accepts");
                    }));
            }
            mon::count(honest[i] ? "honest clients" : "hostile clients");
        }
        std::size_t budget = rng.chance(60) ? 30 : 0;
        bool ends = rng.chance(6); // the server is destroyed while it serves
        std::size_t life = ends ? rng.below(150) : 0;
        struct Over {};
        try {
            web::drive(rng, w, clients, [&] {
                if (ends && life-- == 0) throw Over{};
                if (budget && rng.chance(20)) --budget, useAny();
                wf->runOne();
            });
        }
        catch (const Over&) {
            mon::count("servers destroyed while serving");
            mon::nontrivial(w.traceHash);
            wf.reset();
            return;
        }
        for (std::size_t k = 0; k < budget; ++k) useAny();
        drain();
        for (std::size_t i = 0; i < n + m; ++i) {
            if (honest[i]) {
                judge(i, "concurrent");
                continue;
            }
            if (app::upgraded(*clients[i].link)) mon::count("hostile clients that upgraded");
            mon::nontrivial(mon::mix(w.traceHash, i));
        }
        // clients that come later, while what is left of the hostile ones is still there
        std::vector<web::Client> later(2);
        std::swap(clients, later);
        honest.assign(2, Honest{});
        for (std::size_t i = 0; i < 2; ++i) honestSteps(clients[i], *honest[i]);
        web::drive(rng, w, clients, [&] { wf->runOne(); });
        drain();
        for (std::size_t i = 0; i < 2; ++i) judge(i, "later");
        mon::sample(std::to_string(n) + " hostile and " + std::to_string(m) + " honest clients, " + std::to_string(w.handlersRun) + " handlers run");
        if (rng.coin()) wf.reset();
        clients.swap(later); // destroyed with the links of both
        if (wf) wf.reset();
    }
};

MON_SECTION(memory, 3000, 60000) {
    simnet::World w;
    auto& table = web::MemFS::table();
    table.clear();
    auto logged = rng.chance(60) ? 0 : rng.chance(60) ? 4 : static_cast<int>(rng.below(5));
    app::LogLevel level(logged);
    if (logged == 4) mon::count("applications that log everything");
    using S = Scene<app::WF>;
    std::vector<std::pair<std::string, std::string>> served;
    for (std::size_t i = 0; i < 3; ++i) {
        auto content = rng.bytes(rng.size(5000));
        auto name = "file" + std::to_string(i) + ".html";
        table.emplace(name, web::Resource(content));
        served.emplace_back("/" + name, content);
    }
    S s(rng, w, ".");
    s.served = served;
    for (auto& [t, c] : served) s.targets.push_back(t);
    s.play();
}

MON_SECTION(docroot, 700, 15000) {
    mon::Scratch dir;
    simnet::World w;
    std::vector<std::pair<std::string, std::string>> served;
    for (auto name : {"www/index.html", "www/a.txt", "www/sub/deep/b.js"}) {
        auto content = rng.bytes(rng.size(9000));
        dir.write(name, content);
        served.emplace_back(std::string(name).substr(3), content);
    }
    std::filesystem::create_directories(dir.root / "www/directory.html");
    std::filesystem::create_symlink("nowhere", dir.root / "www/dangling.html");
    std::filesystem::create_symlink("loop.html", dir.root / "www/loop.html");
    using WF = webfront::BasicWF<web::Net, fs::Multi<fs::NativeDebugFS, fs::IndexFS>>;
    Scene<WF> s(rng, w, dir.root / "www");
    s.served = served;
    s.targets = {"/", "/directory.html", "/sub", "/sub/", "/dangling.html", "/loop.html", "/loop.html/x", "/a.txt/x", "//", "/%00", "/a.txt%00", "/..", "/%2e%2e", "/WebFront.js", "/index.html/",
                 "/" + std::string(300, 'x'), "/" + std::string(5000, 'x'), "/" + std::string(200, 'x') + "/" + std::string(4000, '/'), "/%ff%fe", "*", "http://h/a.txt", ""};
    s.play();
}

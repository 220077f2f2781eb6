// H07: a client that is slow, silent or stuck delays nobody, and is served when it goes on
#include "app.hpp"

MON_RULE("applications serving 1 to 6 (sometimes 60 to 200) clients that stop at some point and stay - silent, in the middle of a request, a frame or a message, before their handshake, or no longer receiving what they asked for: files, error pages, the 101, scripts, calls, answers, close frames - and 1 to 5 honest HTTP and WebSocket clients that come before, between and after them; every honest client is to be served to the end while the stuck ones are still stuck, by asynchronous operations only (a synchronous one that would keep the thread waiting for a client is a violation), with the event loop at rest afterwards; then the stuck clients go on and are to receive all of what they missed, in order; non-trivial = a stuck client; distinct by kind, place of the stop and schedule");
MON_REQUIRE("stuck clients", 2500);
MON_REQUIRE("honest clients served meanwhile", 1500);
MON_REQUIRE("stuck clients served later", 2000);
MON_REQUIRE("kinds of stuck clients", 13);
MON_REQUIRE("told to stuck clients", 1500);
MON_REQUIRE("crowds", 5);

namespace {
enum Kind { silent, partialRequest, unreadFile, unreadError, unreadUpgrade, partialUpgrade, noHandshake, partialHandshake, unreadApplication, partialCall, partialMessage, unreadClose, gone, kinds };
const char* const kindNames[] = {"silent", "partial request", "file not received", "error not received", "101 not received", "partial upgrade", "no handshake", "partial handshake", "scripts and calls not received", "partial call", "call in several frames not finished", "answer to a close not received", "left without receiving"};

struct Role {
    bool honest = false, webSocket = false, judged = true;
    Kind kind = silent;
    int code = 200;
    std::string expected;              // body
    std::deque<web::Step> rest;        // what it does once it goes on
    std::vector<std::string> told;     // tokens, in order
    std::vector<double> calls, ran;    // of note(), in order
    std::size_t announced = 0;
    std::optional<app::UI> ui;
};
} // namespace

static void play(mon::Rng& rng, bool crowd) {
    simnet::World w;
    auto& table = web::MemFS::table();
    table.clear();
    w.pick = [&](std::size_t k) { return rng.below(k); };
    app::LogLevel level(rng.chance(90) ? 0 : static_cast<int>(rng.below(5)));
    std::vector<std::pair<std::string, std::string>> files;
    for (std::size_t i = 0; i < 3; ++i) {
        auto content = rng.bytes(i == 2 ? 20000 + rng.below(180000) : rng.size(5000));
        auto name = "file" + std::to_string(i) + ".html";
        table.emplace(name, web::Resource(content));
        files.emplace_back("/" + name, content);
    }
    auto wf = std::make_unique<app::WF>("80", ".");
    auto stuckCount = crowd ? 60 + rng.below(140) : 1 + rng.below(6);
    auto n = stuckCount + 1 + rng.below(5);
    std::vector<web::Client> clients(n);
    std::vector<Role> roles(n);
    auto running = [&]() -> Role* {
        for (std::size_t i = 0; i < n; ++i)
            if (clients[i].link && clients[i].link->id == w.running) return &roles[i];
        return nullptr;
    };
    std::size_t tokens = 0;
    auto tell = [&](Role& r, std::size_t size) {
        auto token = "token " + std::to_string(++tokens) + " " + rng.from("abc", size);
        r.told.push_back(token);
        if (rng.coin()) r.ui->addScript(token);
        else r.ui->jsFunction("f")(token);
    };
    wf->cppFunction<void, double, std::string>("note", [&](double d, std::string) {
        auto r = running();
        if (!r || !r->ui) mon::fail("call of nobody", std::to_string(d));
        r->ran.push_back(d);
        tell(*r, rng.size(200));
    });
    wf->onUIStarted([&](app::UI ui) {
        auto r = running();
        if (!r) mon::fail("announced outside of its handshake", std::to_string(w.running));
        ++r->announced;
        r->ui.emplace(ui);
    });

    auto style = [&] { return rng.chance(60) ? 0u : static_cast<unsigned>(rng.below(5)); };
    auto call = [&](Role& r) {
        r.calls.push_back(static_cast<double>(rng.below(1000)));
        return wire::call("note", {wire::Value::num(r.calls.back()), wire::Value::str(rng.from("xyz", rng.size(300)))});
    };
    auto get = [&](Role& r, std::size_t file) {
        web::Ask a;
        a.target = files[file].first;
        r.expected = files[file].second;
        if (rng.coin()) a.headers.emplace_back("Host", "localhost");
        return a.text();
    };
    std::size_t left = stuckCount;
    for (std::size_t i = 0; i < n; ++i) { // honest ones anywhere between the stuck ones, the last one after all
        auto& c = clients[i];
        auto& r = roles[i];
        r.honest = i + 1 == n || rng.below(n - 1 - i) >= left;
        if (!r.honest) --left;
    }
    std::vector<std::size_t> honest;
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = clients[i];
        auto& r = roles[i];
        auto send = [&](std::string_view bytes) { app::append(c.steps, web::cut(rng, bytes, style())); };
        auto sendPart = [&](std::string_view bytes, std::size_t atLeast = 0) { // sends a part and keeps the rest
            auto cut = atLeast + rng.below(bytes.size() - atLeast);
            send(bytes.substr(0, cut));
            app::append(r.rest, web::cut(rng, bytes.substr(cut), style()));
        };
        auto link = [&] { app::connectSteps(rng, c, true, true); r.webSocket = true; };
        auto stop = [&] { c.steps.push_back(app::act([&c, room = rng.chance(60) ? 0 : rng.below(300)] { c.link->setWindow(room); })); };
        if (r.honest) {
            honest.push_back(i);
            app::conditions(rng, c, 30);
            if (rng.coin()) {
                send(get(r, rng.below(3)));
                continue;
            }
            link();
            for (std::size_t k = 1 + rng.below(5); k-- > 0;) {
                send(app::frame(rng, call(r)));
                if (rng.coin()) c.steps.push_back(app::await([&r, sent = r.calls.size()] { return r.ran.size() >= sent; }));
            }
            continue;
        }
        c.stuck = true;
        if (rng.chance(30)) c.maxRead = 1 + rng.below(200);
        if (rng.chance(30)) c.maxWrite = 1 + rng.below(300);
        r.kind = static_cast<Kind>(rng.below(kinds));
        switch (r.kind) {
        case silent: app::append(r.rest, web::cut(rng, get(r, rng.below(3)), style())); break;
        case partialRequest: sendPart(get(r, rng.below(3)), 1); break;
        case unreadFile: {
            auto file = rng.below(3);
            c.window = rng.chance(40) ? rng.below(60) : rng.below(files[file].second.size() + 60);
            send(get(r, file));
            break;
        }
        case unreadError: {
            c.window = rng.below(16);
            web::Ask a;
            r.code = rng.coin() ? 404 : 400;
            a.target = r.code == 404 ? "/nothing" : "no target";
            send(a.text());
            break;
        }
        case unreadUpgrade:
            c.window = rng.below(60);
            send(web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text());
            r.code = 101;
            break;
        case partialUpgrade:
            sendPart(web::upgradeAsk(rng, "dGhlIHNhbXBsZSBub25jZQ==").text(), 1);
            r.code = 101;
            break;
        case noHandshake:
            app::connectSteps(rng, c, false);
            app::append(r.rest, web::cut(rng, app::frame(rng, wire::handshakeMessage()), style()));
            r.webSocket = true;
            break;
        case partialHandshake:
            app::connectSteps(rng, c, false);
            sendPart(app::frame(rng, wire::handshakeMessage()), 1);
            r.webSocket = true;
            break;
        case unreadApplication:
            link();
            stop();
            for (std::size_t k = rng.below(6); k-- > 0;) send(app::frame(rng, call(r)));
            break;
        case partialCall:
            link();
            sendPart(app::frame(rng, call(r)), 1);
            break;
        case partialMessage: {
            link();
            auto m = call(r);
            auto at = rng.below(m.size());
            send(wire::fragment(wire::clientFrame(wire::binary, m.substr(0, at), 7), false));
            app::append(r.rest, web::cut(rng, wire::fragment(wire::clientFrame(0, m.substr(at), 9), true), style()));
            break;
        }
        case unreadClose:
            link();
            stop();
            if (rng.coin()) send(app::frame(rng, rng.bytes(rng.below(100)), wire::ping));
            send(app::frame(rng, rng.coin() ? "" : "\x03\xe8", wire::close));
            r.judged = false;
            break;
        default:
            if (rng.coin()) {
                c.window = rng.below(30);
                send(get(r, 2));
            }
            else {
                link();
                stop();
                send(app::frame(rng, call(r)));
            }
            c.steps.push_back({web::Step::close, "", 0});
            r.judged = false;
        }
        mon::count("stuck clients");
        static std::set<int> seen;
        if (seen.insert(r.kind).second) mon::count("kinds of stuck clients");
    }
    auto name = [&](std::size_t i) { return (roles[i].honest ? std::string("honest client ") : std::string("client (") + kindNames[roles[i].kind] + ") ") + std::to_string(i) + " of " + std::to_string(n); };
    auto others = [&] {
        std::set<std::string> all;
        for (auto& r : roles)
            if (!r.honest) all.insert(kindNames[r.kind]);
        std::string t;
        for (auto& a : all) t += (t.empty() ? "" : ", ") + a;
        return t;
    };
    std::size_t budget = 8 + rng.below(30);
    auto use = [&] { // the application tells some of its browsers something
        auto i = rng.below(n);
        auto& r = roles[i];
        if (!r.ui || r.kind == unreadClose || r.kind == gone) return;
        tell(r, rng.size(rng.chance(10) ? 20000 : 400));
        if (!r.honest) mon::count("told to stuck clients");
    };
    auto blocked = [&] {
        for (std::size_t i = 0; i < n; ++i)
            if (clients[i].link && clients[i].link->blocked) mon::fail("the server waits for a client", name(i));
    };
    auto judge = [&](std::size_t i, const char* when) {
        auto& c = clients[i];
        auto& r = roles[i];
        auto& l = *c.link;
        auto where = [&] { return std::string(when) + " " + name(i) + " (stuck: " + mon::show(others(), 200) + "): received '" + mon::show(l.received, 160) + "'"; };
        if (!c.steps.empty()) mon::fail("client not served", where());
        if (!r.webSocket && r.code != 101) {
            auto reply = web::parseReply(l.received, false);
            if (!reply.error.empty() || !reply.complete) mon::fail("client not served", reply.error + ", " + where());
            if (reply.code != r.code || (r.code == 200 && reply.body != r.expected) || !reply.rest.empty()) mon::fail("client not served what it asked for", where());
            if (!l.ended()) mon::fail("exchange not ended", where());
            return;
        }
        if (!l.open) mon::fail("connection ended", where());
        if (!app::upgraded(l)) mon::fail("client not upgraded", where());
        if (!r.webSocket) return;
        if (r.announced != 1) mon::fail("client not announced once", where());
        if (r.ran != r.calls) mon::fail("calls of a client", std::to_string(r.ran.size()) + " of " + std::to_string(r.calls.size()) + " ran, " + where());
        auto t = app::traffic(l);
        std::size_t k = 0;
        for (auto& m : t.messages) {
            if (m.command != wire::textCommand && m.command != wire::callFunction) continue;
            auto token = m.command == wire::textCommand ? m.text : m.values.size() == 2 ? m.values[1].s : "?";
            if (k >= r.told.size() || token != r.told[k]) mon::fail("messages to a client", std::to_string(k) + ": '" + mon::show(token, 60) + "' instead of '" + mon::show(k < r.told.size() ? r.told[k] : "nothing", 60) + "', " + where());
            ++k;
        }
        if (k != r.told.size()) mon::fail("messages to a client", std::to_string(k) + " of " + std::to_string(r.told.size()) + " arrived, " + where());
        if (!t.acks) mon::fail("client not acknowledged", where());
    };
    auto round = [&] {
        web::drive(rng, w, clients, [&] {
            if (budget && rng.chance(20)) --budget, use();
            wf->runOne();
            blocked();
        });
        for (; budget; --budget) use();
        web::drive(rng, w, clients, [&] { wf->runOne(); });
        blocked();
    };
    round();
    auto served = w.handlersRun;
    for (auto i : honest) {
        judge(i, "meanwhile");
        mon::count("honest clients served meanwhile");
    }
    // the stuck ones go on, in an order of their own
    for (std::size_t i = 0; i < n; ++i) {
        auto& r = roles[i];
        if (r.honest) continue;
        if (!clients[i].steps.empty()) mon::fail("client not served", "until it got stuck: " + name(i) + ": received '" + mon::show(clients[i].link->received, 160) + "'");
        app::append(clients[i].steps, std::move(r.rest));
        clients[i].stuck = false;
        if (rng.coin()) clients[i].link->setWindow(simnet::unlimited);
    }
    budget = rng.below(10);
    round();
    for (std::size_t i = 0; i < n; ++i) {
        if (roles[i].judged) judge(i, "later");
        if (!roles[i].honest) {
            if (roles[i].judged) mon::count("stuck clients served later");
            mon::nontrivial(mon::mix(w.traceHash, i * kinds + roles[i].kind));
        }
    }
    if (crowd) mon::count("crowds");
    mon::sample(std::to_string(stuckCount) + " stuck clients (" + others() + ") and " + std::to_string(honest.size()) + " honest ones, " + std::to_string(served) + " handlers until the honest ones were served");
    for (auto& r : roles) r.ui.reset();
    wf.reset();
}

MON_SECTION(few, 1200, 30000) { play(rng, false); }
MON_SECTION(crowd, 16, 160) { play(rng, true); }

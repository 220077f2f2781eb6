// S04: use leaves nothing behind
#include "hostile.hpp"
#include "jobs.hpp"
#include "memory.hpp"

MON_RULE("rounds of the same use repeated and the bytes in use sampled 7 times: 1 to 3 linked browsers that stay (calls of known and unknown functions, malformed and hostile messages, text, control frames, repeated handshakes, messages in several frames; scripts, calls of JavaScript functions and log records by the application; with and without logging and sinks), the very same round each time or a fresh one; and each of the 15 kinds of work on objects that end (parsing, answering, files, URIs, encoders, frames, messages, whole exchanges and sessions, sinks, functions, dumps), the very same each time or a fresh one; the memory in use must not grow at every sample; non-trivial = one round; distinct by what was sent");
MON_REQUIRE("rounds of sessions", 3000);
MON_REQUIRE("rounds of work", 20000);
MON_REQUIRE("memory samples", 700);
MON_REQUIRE("messages sent by browsers", 25000);
MON_REQUIRE("messages received by browsers", 25000);
MON_REQUIRE("calls run", 3000);

enum Diet { everything, calls, unknownCalls, hostileMessages, texts, controls, handshakes, scripts, jsCalls, records, nothingButFragments, diets };
static const char* const dietNames[] = {"message of any kind", "call", "call of an unknown function", "hostile message", "text message", "control frame", "repeated handshake", "script", "call of a JavaScript function", "log record", "message in several frames"};

static std::string pieces(mon::Rng& rng, std::string_view payload, std::uint8_t opcode) {
    auto cut = rng.below(payload.size() + 1);
    auto mask = static_cast<std::uint32_t>(rng.next());
    return wire::fragment(wire::clientFrame(opcode, payload.substr(0, cut), mask), false) + wire::clientFrame(0, payload.substr(cut), mask);
}

MON_SECTION(sessions, 66, 1320) {
    std::size_t diet = index % diets, rounds = mon::fullSpeed() ? 20 : 2;
    mon::allow(200);
    bool same = rng.chance(60);
    int verbosity = diet == records ? 4 : rng.chance(60) ? 0 : static_cast<int>(rng.below(5));
    std::vector<long long> samples(7);
    std::uint64_t signature = 0;
    long long sentMessages = 0, receivedMessages = 0, ran = 0;
    {
        simnet::World w;
        auto choices = std::make_shared<mon::Rng>(rng.next());
        w.pick = [choices](std::size_t k) { return choices->below(k); };
        web::MemFS::table().clear();
        app::LogLevel level(verbosity);
        std::size_t lineBytes = 0;
        auto sink = app::wlog::addSinks([&](std::string_view t) { lineBytes += t.size(); });
        struct Remove {
            std::size_t id;
            ~Remove() { app::wlog::removeSinks(id); }
        } remove{sink};
        auto wf = std::make_unique<app::WF>("80", ".");
        std::map<std::uint64_t, app::UI> uis;
        wf->cppFunction<void, std::string>("f", [&](const std::string&) { ++ran; });
        wf->cppFunction<void, double, std::tuple<bool, std::string>>("g", [&](double, const auto& t) {
            ++ran;
            if (auto it = uis.find(w.running); it != uis.end() && std::get<0>(t)) it->second.addScript(std::get<1>(t));
        });
        wf->cppFunction<void>("h", [&] {
            ++ran;
            throw std::runtime_error("from the application");
        });
        wf->onUIStarted([&](app::UI ui) { uis.emplace(w.running, ui); });
        std::vector<web::Client> clients(1 + rng.below(3));
        for (auto& c : clients) app::connectSteps(rng, c, true, true);
        web::drive(rng, w, clients, [&] { wf->runOne(); });
        auto drain = [&] {
            while (!w.ready.empty()) wf->runOne();
        };
        drain();
        app::settled(clients);
        std::vector<std::string> names{"f", "g", "h", "unknown"};
        auto big = std::string(65535, 'b');
        auto send = [&](mon::Rng& r, web::Client& c, std::string bytes) {
            ++sentMessages;
            signature = mon::mix(signature, mon::fnv(std::string_view(bytes).substr(0, 64)));
            c.link->maxRead = r.coin() ? 1 + r.below(600) : simnet::unlimited;
            c.link->send(bytes);
            for (std::size_t k = r.below(6); k-- > 0 && !w.ready.empty();) wf->runOne();
        };
        auto round = [&](std::uint64_t seed) {
            mon::Rng r(seed);
            *choices = mon::Rng(r.next());
            for (auto& c : clients) {
                c.link->maxWrite = r.coin() ? 1 + r.below(300) : 65536;
                c.link->setWindow(r.chance(30) ? r.below(2000) : simnet::unlimited);
            }
            for (std::size_t k = 0; k < 10; ++k) {
                auto& c = clients[r.below(clients.size())];
                auto ui = uis.find(c.link->id);
                auto mask = static_cast<std::uint32_t>(r.next());
                switch (diet == everything ? 1 + r.below(diets - 1) : diet) {
                case calls:
                    send(r, c, app::frame(r, r.chance(30) ? wire::call("h", {}) : r.coin() ? wire::call("f", {wire::Value::str(r.bytes(r.size(400)))}) : wire::call("g", {wire::Value::num(1.5), wire::Value::list({wire::Value::boolean(r.coin()), wire::Value::str(r.from("script;", r.below(40)))})})));
                    break;
                case unknownCalls: send(r, c, app::frame(r, wire::call("no" + r.from("abcdefgh", 1 + r.below(30)), {wire::Value::num(2)}))); break;
                case hostileMessages: send(r, c, app::frame(r, hostile::message(r, names))); break;
                case texts: send(r, c, app::frame(r, hostile::words(r), wire::text)); break;
                case controls: send(r, c, wire::clientFrame(wire::pong, r.bytes(r.below(126)), mask)); break;
                case handshakes: send(r, c, app::frame(r, wire::handshakeMessage())); break;
                case scripts:
                    if (ui != uis.end()) try {
                            ui->second.addScript(r.from("let a = 1;", k == 0 ? 65535 : r.size(500)));
                            if (r.chance(20)) ui->second.addScript(big + "more");
                        }
                        catch (const std::exception&) {
                        }
                    break;
                case jsCalls:
                    if (ui != uis.end()) try {
                            ui->second.jsFunction("show" + std::to_string(r.below(5)) + r.from("abcdefgh", r.below(40)))(r.from("text ", r.size(500)), 4., true, std::string_view("view"), std::make_tuple(1, std::string("in a tuple")));
                        }
                        catch (const std::exception&) {
                        }
                    break;
                case records:
                    app::wlog::error("{}", r.from("words {}", r.size(300)));
                    app::wlog::debug("{} {}", r.below(1000), 2.5);
                    app::wlog::infoHex("dump", r.bytes(r.below(200)));
                    break;
                default: send(r, c, pieces(r, r.coin() ? wire::call("f", {wire::Value::str(r.bytes(r.size(400)))}) : r.bytes(r.size(300)), r.chance(70) ? wire::binary : wire::text));
                }
                if (diet == jsCalls || diet == scripts || diet == records)
                    for (std::size_t n = r.below(6); n-- > 0 && !w.ready.empty();) wf->runOne();
            }
            for (auto& c : clients) c.link->setWindow(simnet::unlimited);
            drain();
            for (auto& c : clients) {
                if (!c.link->open) throw mon::HarnessError(std::string("a session ended in a round of ") + dietNames[diet]); // not what this property is about
                std::size_t rest = 0;
                std::string_view b = c.link->received;
                if (b.starts_with("HTTP/")) b = app::wsBytes(*c.link);
                receivedMessages += static_cast<long long>(wire::serverFrames(b, &rest).size());
                if (rest) mon::fail("part of a frame", std::to_string(rest) + " bytes");
                std::string().swap(c.link->received);
                std::string().swap(c.link->inbox);
            }
        };
        auto first = rng.next();
        for (auto& s : samples) {
            for (std::size_t k = 0; k < rounds; ++k) round(same ? first : rng.next());
            s = allocated();
        }
    }
    mon::noGrowth(samples, dietNames[diet], rounds);
    mon::count("rounds of sessions", static_cast<long long>(7 * rounds));
    mon::count("messages sent by browsers", sentMessages);
    mon::count("messages received by browsers", receivedMessages);
    mon::count("calls run", ran);
    mon::count("memory samples", allocated() ? 7 : 0);
    mon::nontrivial(signature);
    mon::sample(std::string(dietNames[diet]) + (same ? ", the same each time: " : ", a fresh one each time: ") + std::to_string(samples.back() - samples[0]) + " bytes more in use at the end than after the first " + std::to_string(rounds) + " rounds");
}

static void sinks(mon::Rng& rng, work::Digest& d, const std::filesystem::path&) {
    app::LogLevel level(static_cast<int>(rng.below(5)));
    for (int k = 0; k < 5; ++k) {
        std::size_t n = 0;
        auto a = app::wlog::addSinks([&n, text = rng.bytes(40)](std::string_view t) { n += t.size() + text.size(); });
        auto b = app::wlog::addSinks([&n](std::string_view t) { n += t.size(); }, [&n](std::string_view) { ++n; });
        app::wlog::warn("{} {}", k, rng.bytes(rng.below(200)));
        app::wlog::infoHex("x", rng.bytes(rng.below(100)));
        app::wlog::removeSinks(a, b, b - 1);
        d.add(n > 0);
    }
}
static void functions(mon::Rng& rng, work::Digest& d, const std::filesystem::path&) {
    simnet::World w;
    auto wf = std::make_unique<app::WF>("80", ".");
    for (int k = 0; k < 5; ++k) wf->cppFunction<void, std::string, std::tuple<int, bool>>(rng.from("abc", 1 + rng.below(3)), [text = rng.bytes(rng.below(90))](const std::string&, const auto&) {});
    wf->onUIStarted([text = rng.bytes(50)](app::UI) {});
    d.add(1);
    try {
        wf->getLink(4);
    }
    catch (const std::out_of_range&) {
    }
}
static void dumps(mon::Rng& rng, work::Digest& d, const std::filesystem::path&) {
    auto t = rng.bytes(rng.below(300));
    d.add(webfront::utils::hexDump(std::as_bytes(std::span<const char>(t))));
}

MON_SECTION(work, 15 * 6, 15 * 120) {
    constexpr std::size_t kinds = std::size(::work::jobs) + 3;
    auto kind = index % kinds;
    mon::allow(200);
    bool same = rng.chance(60);
    static const ::work::Job others[] = {sinks, functions, dumps};
    static const char* const otherNames[] = {"sinks", "registered functions", "dumps"};
    auto job = kind < std::size(::work::jobs) ? ::work::jobs[kind] : others[kind - std::size(::work::jobs)];
    std::string name = kind < std::size(::work::jobs) ? ::work::jobNames[kind] : otherNames[kind - std::size(::work::jobs)];
    mon::Scratch dir;
    dir.write("a.txt", rng.bytes(2000));
    dir.write("sub/b.bin", rng.bytes(rng.below(20000)));
    dir.write("empty", "");
    std::size_t rounds = mon::fullSpeed() ? 40 : 2;
    std::vector<long long> samples(7);
    ::work::Digest d;
    auto first = rng.next();
    for (auto& s : samples) {
        for (std::size_t k = 0; k < rounds; ++k) {
            mon::Rng r(same ? first : rng.next());
            try {
                job(r, d, dir.root);
            }
            catch (const mon::Violation&) {
                throw;
            }
            catch (const std::exception& e) {
                d.add(e.what());
            }
            web::MemFS::table().clear();
        }
        s = allocated();
    }
    mon::noGrowth(samples, "use: " + name, rounds);
    mon::count("rounds of work", static_cast<long long>(7 * rounds));
    mon::count("memory samples", allocated() ? 7 : 0);
    mon::nontrivial(d.h);
    mon::sample(name + (same ? ", the same each time: " : ", a fresh one each time: ") + std::to_string(samples.back() - samples[0]) + " bytes more in use at the end than after the first " + std::to_string(rounds) + " rounds");
}

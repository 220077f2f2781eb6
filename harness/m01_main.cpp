// An M01 program: works with objects that one part makes and another uses. Arguments: seed, steps.
#define DEMO_NET
#include <experimental/net>
#include "../tools/demo.hpp"
#include "m01.hpp"
#include <iostream>
#include <map>
#include <random>
#include <sstream>

Part part_A();
Part part_B();
Part part_C();

[[noreturn]] static void fail(const std::string& key, const std::string& detail) {
    std::cerr << "M01 " << key << " | " << detail << std::endl;
    std::_Exit(9);
}
static std::map<std::string, long> counts;

int main(int, char** v) {
    std::mt19937_64 gen(std::strtoull(v[1], nullptr, 10));
    auto below = [&](std::size_t n) { return static_cast<std::size_t>(gen() % n); };
    std::vector<Part> parts{part_A(), part_B(), part_C()};
    std::vector<std::string> chatter; // the library talks on the standard output
    std::ostringstream out;
    std::cout.rdbuf(out.rdbuf());
    auto occurrences = [](const std::vector<std::string>& lines, const std::string& t) {
        std::size_t n = 0;
        for (auto& l : lines) n += l.find(t) != l.npos;
        return n;
    };
    std::size_t early = 0, receptions = 0;
    for (auto& p : parts)
        if (p.early) { // every such part saw what it recorded itself before main, and what came after that
            ++early;
            if (occurrences(*p.early, "early " + p.name) != 1) fail("records before main", "part " + p.name + " saw " + std::to_string(occurrences(*p.early, "early " + p.name)) + " of its own records");
            for (auto& q : parts) receptions += occurrences(*p.early, "early " + q.name);
            ++counts["early records"];
        }
    if (receptions != early * (early + 1) / 2) fail("records before main", std::to_string(receptions) + " receptions of " + std::to_string(early) + " records");
    if (early) // the level set before main holds
        for (auto& q : parts) {
            q.record(1, "[first " + q.name + "]");
            q.record(2, "[second " + q.name + "]");
            for (auto& p : parts)
                if (p.early && (occurrences(*p.early, "[first " + q.name + "]") != 1 || occurrences(*p.early, "[second " + q.name + "]") != 0)) fail("level set before main", "record of part " + q.name + " for part " + p.name);
        }
    else parts[0].level(1);
    struct Sink {
        std::size_t id;
        std::vector<std::string> lines;
    };
    std::vector<std::unique_ptr<Sink>> sinks;
    int level = 1;
    long number = 0;
    struct Fn {
        std::shared_ptr<void> f;
        int kind;
        std::vector<std::string> got;
        std::size_t expected = 0;
    };
    std::vector<std::unique_ptr<Fn>> functions;
    auto steps = std::strtoul(v[2], nullptr, 10);
    for (unsigned long step = 0; step < steps; ++step) {
        auto &p = parts[below(3)], &q = parts[below(3)], &r = parts[below(3)];
        auto who = p.name + q.name + r.name;
        switch (below(9)) {
        case 0:
            if (sinks.size() < 12) {
                auto& s = sinks.emplace_back(std::make_unique<Sink>());
                s->id = p.subscribe(&s->lines);
            }
            break;
        case 1:
            if (!sinks.empty()) {
                auto at = below(sinks.size());
                p.unsubscribe(sinks[at]->id);
                auto text = "[token " + std::to_string(++number) + "]";
                level = 4;
                q.level(4);
                r.record(1, text);
                if (occurrences(sinks[at]->lines, text)) fail("removed sink", who);
                sinks.erase(sinks.begin() + static_cast<std::ptrdiff_t>(at));
            }
            break;
        case 2: p.level(level = static_cast<int>(below(5))); break;
        case 3:
        case 4: {
            int kind = static_cast<int>(1 + below(4));
            auto text = "[token " + std::to_string(++number) + "]";
            p.record(kind, text);
            for (auto& s : sinks)
                if (occurrences(s->lines, text) != (kind <= level ? 1u : 0u)) fail("record of another part", who + " kind " + std::to_string(kind) + " at level " + std::to_string(level) + ": received " + std::to_string(occurrences(s->lines, text)) + " times");
            counts[kind <= level ? "records received" : "records of disabled levels"] += static_cast<long>(sinks.size());
            for (auto& s : sinks)
                if (s->lines.size() > 50) s->lines.clear();
            break;
        }
        case 5: {
            if (functions.size() < 8) {
                auto& f = functions.emplace_back(std::make_unique<Fn>());
                f->kind = static_cast<int>(below(4));
                f->f = p.makeFunction(f->kind, &f->got);
            }
            auto& f = *functions[below(functions.size())];
            int kind = static_cast<int>(below(4));
            auto answer = q.callFunction(f.f.get(), kind);
            f.expected += kind == f.kind;
            static const char* values[] = {"()", "41", "5 2.500000", "text"};
            if (answer != (kind == f.kind ? "ran" : "refused") || f.got.size() != f.expected || (f.expected && f.got.back() != values[f.kind]))
                fail("type-erased function of another part", who + ": function " + std::to_string(f.kind) + " with arguments " + std::to_string(kind) + " " + answer + ", " + std::to_string(f.got.size()) + " of " + std::to_string(f.expected) + " calls");
            ++counts["functions called"];
            break;
        }
        case 6: {
            std::string t;
            for (std::size_t n = below(80); n-- > 0;) t += static_cast<char>(below(256));
            if (p.results(t) != q.results(t)) fail("results differ", who);
            ++counts["results compared"];
            break;
        }
        case 7: {
            static const char* names[] = {"index.html", "WebFront.js", "favicon.ico", "jasmine/4.6.0/jasmine.css", "react@18/umd/react.production.min.js"};
            auto name = names[below(5)];
            auto a = p.openFile(name), b = q.openFile(name);
            if (!a || !b) fail("file not found", who + " " + name);
            auto content = r.readFile(a.get());
            if (content.empty() || content != p.readFile(b.get())) fail("file of another part", who + " " + name);
            ++counts["files read"];
            break;
        }
        default: {
            simnet::World w;
            std::vector<std::string> got, called;
            {
                auto wf = p.makeApplication();
                q.registerFunction(wf.get(), "fromOther", &called);
                r.registerFunction(wf.get(), "fromThird", &called);
                q.announce(wf.get(), &got);
                struct {
                    Part& part;
                    void* wf;
                    void runOne() { part.runOne(wf); }
                } server{r, wf.get()};
                auto l = demo::linked(w, server);
                for (auto name : {"fromOther", "fromThird"}) {
                    l->send(demo::clientFrame(2, demo::call(name, {demo::str("value"), demo::num(2.5), "\1"})));
                    demo::run(w, server);
                }
                std::vector<std::string> messages; // but forwarded logs
                for (auto& f : demo::received(l))
                    if (f.opcode == 2 && f.payload.substr(0, 2) != std::string("\2\0", 2)) messages.push_back(f.payload);
                if (messages.size() != 3) fail("messages sent", who + ": " + std::to_string(messages.size()));
                if (messages[0][0] != 1 || messages[1].find("part " + q.name) == std::string::npos || messages[2].find("script of " + q.name) == std::string::npos) fail("messages sent", who);
            }
            if (got != std::vector<std::string>{"announced in " + q.name}) fail("announcement", who + " " + std::to_string(got.size()));
            if (called != std::vector<std::string>{"fromOther(value,2.500000,yes)", "fromThird(value,2.500000,yes)"}) fail("function called", who + " " + std::to_string(called.size()) + (called.empty() ? "" : " " + called[0]));
            ++counts["applications"];
        }
        }
        out.str({});
    }
    for (auto& [name, n] : counts) std::cerr << "COUNT " << n << " " << name << "\n";
    return 0;
}

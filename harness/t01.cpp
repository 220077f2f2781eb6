// T01: enabled log records reach every subscribed sink exactly once
#include "monitor.hpp"
#include "tooling/Logger.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <span>

MON_RULE("random histories of subscriptions (one or several at once), removals, level changes and records of every level with 0 to 4 arguments of assorted types, against a model of the subscribed sinks; sinks that remove themselves or others, subscribe or log while they receive a line; up to 700 sinks; non-trivial = a record with at least two subscribed sinks or a disabled level; distinct by history");
MON_REQUIRE("records", 3000);
MON_REQUIRE("deliveries", 3000);
MON_REQUIRE("records among sinks that act", 2000);
MON_REQUIRE("sinks removed by a sink", 500);
MON_REQUIRE("records logged by a sink", 200);

namespace wlog = webfront::log;

struct Delivery {
    int sink;
    std::string line;
};
static std::vector<Delivery> got;
struct Sub {
    int sink;
    std::size_t slot;
};

static std::string text(mon::Rng& rng) {
    switch (rng.below(5)) {
    case 0: return rng.from("{}{0}{:x}{{}}%s%n\\", rng.below(20)); // must not be interpreted
    case 1: return rng.bytes(rng.size(60));
    case 2: return std::string(rng.chance(10) ? 65000 + rng.below(9000) : rng.size(3000), 'a');
    case 3: return rng.from("multi\nline\r\n| [E] ", rng.below(30));
    default: return rng.from("abcdefghij klm", rng.below(20));
    }
}

struct History {
    std::vector<Sub> subs;
    bool enabled[5] = {};
    int nextSink = 0;
    std::string story;

    void reset() {
        for (auto& s : subs) wlog::removeSinks(s.slot);
        subs.clear();
    }
    auto sink() {
        int id = nextSink++;
        return [id](std::string_view t) { got.push_back({id, std::string(t)}); };
    }
    void subscribe(mon::Rng& rng) {
        if (rng.chance(70)) {
            int id = nextSink;
            subs.push_back({id, wlog::addSinks(sink())});
            story += "+" + std::to_string(id) + " ";
        }
        else { // several at once: the last one's id is returned, the others precede it
            int id = nextSink;
            auto a = sink();
            auto b = sink();
            auto last = wlog::addSinks(a, b);
            subs.push_back({id, last - 1});
            subs.push_back({id + 1, last});
            story += "+" + std::to_string(id) + "," + std::to_string(id + 1) + " ";
        }
    }
    void unsubscribe(mon::Rng& rng) {
        if (subs.empty()) return;
        auto k = rng.below(subs.size());
        story += "-" + std::to_string(subs[k].sink) + " ";
        if (subs.size() > 2 && rng.chance(20)) {
            auto k2 = (k + 1) % subs.size();
            wlog::removeSinks(subs[k].slot, subs[k2].slot);
            subs.erase(subs.begin() + static_cast<long>(std::max(k, k2)));
            subs.erase(subs.begin() + static_cast<long>(std::min(k, k2)));
        }
        else {
            wlog::removeSinks(subs[k].slot);
            subs.erase(subs.begin() + static_cast<long>(k));
        }
    }
    void level(mon::Rng& rng) {
        static constexpr std::uint8_t levels[5] = {0, 1, 2, 3, 4};
        if (rng.chance(70)) {
            auto l = levels[rng.below(5)];
            wlog::setLogLevel(l);
            for (int i = 1; i <= 4; ++i) enabled[i] = i <= l;
            story += "L" + std::to_string(l) + " ";
        }
        else {
            auto l = levels[1 + rng.below(4)];
            bool on = rng.coin();
            wlog::set(l, on);
            enabled[l] = on;
            story += (on ? "on" : "off") + std::to_string(l) + " ";
        }
        for (std::uint8_t i = 1; i <= 4; ++i)
            mon::check(wlog::is(i) == enabled[i], "enabled levels", [&] { return story + ": level " + std::to_string(i); });
    }
    void record(mon::Rng& rng) {
        int l = 1 + static_cast<int>(rng.below(4));
        auto s1 = text(rng), s2 = text(rng);
        auto n = static_cast<int>(rng.below(2000)) - 1000;
        auto u = rng.next();
        bool b = rng.coin();
        char c = static_cast<char>('a' + rng.below(26));
        std::string want;
        got.clear();
        auto emit = [&](auto&&... args) {
            switch (l) {
            case wlog::Error: wlog::error(args...); break;
            case wlog::Warn: wlog::warn(args...); break;
            case wlog::Info: wlog::info(args...); break;
            default: wlog::debug(args...);
            }
        };
        std::vector<std::string> lines(1);
        switch (rng.below(7)) {
        case 0: emit("plain text"); want = "plain text"; break;
        case 1: emit("<{}>", s1); want = "<" + s1 + ">"; break;
        case 2: emit("{} and {}", s1, n); want = s1 + " and " + std::to_string(n); break;
        case 3: emit("{}:{}:{}:{}", n, s1, u, s2); want = std::to_string(n) + ":" + s1 + ":" + std::to_string(u) + ":" + s2; break;
        case 4: emit("0x{:04x} {}", static_cast<unsigned>(n & 0xffff), b); {
            char buf[32];
            std::snprintf(buf, sizeof buf, "0x%04x %s", static_cast<unsigned>(n & 0xffff), b ? "true" : "false");
            want = buf;
        } break;
        case 5: emit("{}{}", c, std::string_view(s2)); want = c + s2; break;
        default: {
            if (l != wlog::Info) {
                emit("{{{}}}", s1);
                want = "{" + s1 + "}";
                break;
            }
            want = "label"; // a record followed by the dump of a buffer
            wlog::infoHex("label", s2);
            lines.push_back(webfront::utils::hexDump(s2));
        }
        }
        mon::count("records");
        auto where = [&](const std::string& why) { return story + "record level " + std::to_string(l) + " '" + mon::show(want, 80) + "': " + why; };
        story += "r" + std::to_string(l) + " ";
        if (!enabled[l]) {
            mon::check(got.empty(), "record of a disabled level delivered", [&] { return where(std::to_string(got.size()) + " deliveries"); });
            mon::nontrivial(story);
            return;
        }
        if (subs.size() >= 2) mon::nontrivial(story);
        mon::count("deliveries", static_cast<long long>(got.size()));
        std::string order, wantOrder;
        for (auto& d : got) order += std::to_string(d.sink) + " ";
        for (std::size_t i = 0; i < lines.size(); ++i)
            for (auto& s : subs) wantOrder += std::to_string(s.sink) + " ";
        mon::check(order == wantOrder, "deliveries", [&] { return where("sinks " + order + "want " + wantOrder); });
        for (std::size_t i = 0; i < got.size(); ++i) {
            auto& line = got[i].line;
            if (i >= subs.size()) {
                mon::check(line == lines[1], "dump after the record", [&] { return where(mon::differ(line, lines[1])); });
                continue;
            }
            const char letter = l == wlog::Error ? 'E' : l == wlog::Warn ? 'W' : l == wlog::Info ? 'I' : 'D';
            mon::check(line.starts_with(std::string("[") + letter + "]"), "level letter", [&] { return where(mon::show(line, 60)); });
            mon::check(line.ends_with(" | " + want), "formatted text", [&] { return where("line '" + mon::show(line, 200) + "'"); });
            // nothing but the level, the time and the place of the call comes before the text
            auto head = line.substr(0, line.size() - want.size());
            mon::check(head.size() < 90 && head.find('\n') == std::string::npos, "line prefix", [&] { return where("'" + mon::show(head) + "'"); });
            mon::check(line == got[0].line, "sinks see different lines", [&] { return where(mon::show(line, 60)); });
        }
        mon::sample(where(got.empty() ? "no sink" : "-> '" + mon::show(got[0].line, 100) + "'"));
    }
};
MON_SECTION(histories, 900, 25000) {
    History h;
    wlog::setLogLevel(wlog::Disabled);
    auto steps = 10 + rng.below(40);
    if (rng.coin()) h.subscribe(rng);
    h.level(rng);
    for (std::size_t i = 0; i < steps; ++i) {
        auto k = rng.below(100);
        if (k < 12) h.subscribe(rng);
        else if (k < 20) h.unsubscribe(rng);
        else if (k < 30) h.level(rng);
        else h.record(rng);
    }
    h.reset();
    got.clear();
    wlog::setLogLevel(wlog::Debug);
    wlog::error("x");
    mon::check(got.empty(), "delivered to a removed sink", [&] { return h.story; });
    wlog::setLogLevel(wlog::Disabled);
}
// setLogLevel enables exactly the levels up to it, from every previous state
MON_SECTION(levels, 80, 80) {
    static constexpr std::uint8_t levels[5] = {0, 1, 2, 3, 4};
    unsigned before = static_cast<unsigned>(index % 16);
    for (std::uint8_t i = 1; i <= 4; ++i) wlog::set(i, before >> (i - 1) & 1);
    auto l = levels[index / 16];
    wlog::setLogLevel(l);
    for (std::uint8_t i = 1; i <= 4; ++i) mon::check(wlog::is(i) == (i <= l), "enabled levels", [&] { return "level " + std::to_string(l) + " from mask " + std::to_string(before); });
    wlog::setLogLevel(wlog::Disabled);
    mon::nontrivial(index);
}
// sinks that remove, add or log while they receive a line
struct Reentrant {
    struct Sink {
        std::size_t slot = 0;
        bool subscribed = true;
        std::map<std::string, int> lines; // how often each text was received
    };
    mon::Rng rng{0};
    std::deque<Sink> sinks;
    std::vector<std::size_t> serials; // of the records being delivered
    std::size_t next = 1, whims = 0;
    std::string story;
    struct Sent {
        std::string text;
        std::set<std::size_t> must, may; // sinks
    };
    std::map<std::size_t, Sent> sent;

    void add() {
        auto i = sinks.size();
        sinks.emplace_back();
        for (auto& [s, r] : sent)
            if (std::find(serials.begin(), serials.end(), s) != serials.end()) r.may.insert(i);
        sinks[i].slot = wlog::addSinks([this, i, state = std::make_shared<std::string>(40, 's')](std::string_view t) {
            auto keep = state; // the sink may be gone when act returns
            auto self = this;
            auto me = i;
            self->received(me, t);
            if (*keep != std::string(40, 's')) mon::fail("state of a sink", mon::show(*keep));
        });
        story += "+" + std::to_string(i) + " ";
    }
    void remove(std::size_t i) {
        if (!sinks[i].subscribed) return;
        sinks[i].subscribed = false;
        wlog::removeSinks(sinks[i].slot);
        story += "-" + std::to_string(i) + " ";
        for (auto s : serials) { // may have had it or not
            auto& r = sent[s];
            if (r.must.erase(i)) r.may.insert(i);
        }
        mon::count(serials.empty() ? "sinks removed" : "sinks removed by a sink");
    }
    void record() {
        auto serial = next++;
        auto& r = sent[serial];
        r.text = "record " + std::to_string(serial) + ".";
        for (std::size_t i = 0; i < sinks.size(); ++i)
            if (sinks[i].subscribed) r.must.insert(i);
        serials.push_back(serial);
        story += "(" + std::to_string(serial) + " ";
        wlog::error("{}", r.text);
        story += ") ";
        serials.pop_back();
        for (std::size_t i = 0; i < sinks.size(); ++i) {
            auto n = sinks[i].lines[r.text];
            bool must = r.must.count(i), may = r.may.count(i);
            if (n > 1) mon::fail("line delivered more than once", story + ": sink " + std::to_string(i) + " got record " + std::to_string(serial) + " " + std::to_string(n) + " times");
            if (must && n != 1) mon::fail("line not delivered to a sink subscribed all along", story + ": sink " + std::to_string(i) + ", record " + std::to_string(serial));
            if (!must && !may && n) mon::fail("line delivered to a sink that was not subscribed", story + ": sink " + std::to_string(i) + ", record " + std::to_string(serial));
        }
        mon::count("records among sinks that act");
    }
    void received(std::size_t i, std::string_view t) {
        if (!sinks[i].subscribed) mon::fail("delivered to a removed sink", story + ": sink " + std::to_string(i) + " '" + mon::show(t, 60) + "'");
        auto at = t.rfind("record ");
        if (at == t.npos) mon::fail("formatted text", mon::show(t, 80));
        ++sinks[i].lines[std::string(t.substr(at))];
        if (!rng.chance(25) || whims++ > 60) return;
        switch (rng.below(5)) {
        case 0: remove(i); break;
        case 1: remove(rng.below(sinks.size())); break;
        case 2:
            if (sinks.size() < 40) add();
            break;
        case 3:
            if (serials.size() < 4) {
                mon::count("records logged by a sink");
                record();
            }
            break;
        default: {
            remove(i);
            if (sinks.size() < 40) add();
        }
        }
    }
};
MON_SECTION(acting, 600, 20000) {
    wlog::setLogLevel(wlog::Debug);
    Reentrant r;
    r.rng = mon::Rng(rng.next());
    for (std::size_t k = 1 + rng.below(6); k-- > 0;) r.add();
    try {
        for (std::size_t k = 2 + rng.below(10); k-- > 0;) {
            r.record();
            if (rng.chance(30)) r.add();
            if (rng.chance(20)) r.remove(rng.below(r.sinks.size()));
        }
    }
    catch (...) {
        for (auto& s : r.sinks)
            if (s.subscribed) wlog::removeSinks(s.slot);
        throw;
    }
    for (std::size_t i = 0; i < r.sinks.size(); ++i) r.remove(i);
    wlog::setLogLevel(wlog::Disabled);
    mon::nontrivial(r.story);
}
// many sinks at once
MON_SECTION(crowds, 6, 60) {
    wlog::setLogLevel(wlog::Debug);
    auto n = std::vector<std::size_t>{63, 64, 65, 255, 257, 700}[index % 6];
    std::vector<int> order, want;
    std::vector<std::size_t> slots;
    for (std::size_t i = 0; i < n; ++i) slots.push_back(wlog::addSinks([&order, i](std::string_view) { order.push_back(static_cast<int>(i)); }));
    for (int round = 0; round < 3; ++round) {
        order.clear();
        want.clear();
        for (std::size_t i = 0; i < n; ++i)
            if (slots[i] != ~std::size_t{}) want.push_back(static_cast<int>(i));
        wlog::warn("line {}", round);
        mon::check(order == want, "deliveries to many sinks", [&] { return std::to_string(order.size()) + " of " + std::to_string(want.size()) + ", round " + std::to_string(round); });
        for (std::size_t k = rng.below(n); k-- > 0;) {
            auto& s = slots[rng.below(n)];
            if (s != ~std::size_t{}) wlog::removeSinks(s);
            s = ~std::size_t{};
        }
    }
    for (auto s : slots)
        if (s != ~std::size_t{}) wlog::removeSinks(s);
    wlog::setLogLevel(wlog::Disabled);
    mon::nontrivial(n);
}
// more records, and more subscriptions, than 16 bits count
MON_SECTION(endurance, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    wlog::setLogLevel(wlog::Debug);
    std::size_t kept = 0, visitors = 0, records = 0;
    auto stays = wlog::addSinks([&](std::string_view t) {
        if (!t.ends_with("record " + std::to_string(kept))) mon::report("record altered or out of order", "number " + std::to_string(kept) + ": '" + mon::show(t, 60) + "'");
        ++kept;
    });
    for (; records < 65536 + 700; ++records) {
        auto visitor = wlog::addSinks([&](std::string_view) { ++visitors; });
        wlog::info("record {}", records);
        if (visitor == stays) mon::report("two sinks of one subscription", std::to_string(records));
        wlog::removeSinks(visitor);
        if (kept != records + 1 || visitors != records + 1) {
            mon::report("record not delivered once to every sink", std::to_string(records) + ": " + std::to_string(kept) + ", " + std::to_string(visitors));
            break;
        }
    }
    wlog::removeSinks(stays);
    wlog::setLogLevel(wlog::Disabled);
    mon::count("records on end", static_cast<long long>(records));
    mon::nontrivial(records);
}

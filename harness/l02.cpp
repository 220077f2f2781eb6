// L02: a call of a JavaScript function carries exactly its name and arguments
#include "app.hpp"
#include "scratch.hpp"

MON_RULE("1 to 3 linked browsers, JavaScript function objects created once and invoked repeatedly, copied, or created for each call, with 0 to 20 arguments of every supported type and size, the caller's memory released at once, mixed with argument lists that cannot be represented; an independent decoder and the list of invocations judge what each browser receives; non-trivial = one invocation; distinct by name, arguments and schedule");
MON_REQUIRE("calls received", 3000);
MON_REQUIRE("invocations of an object used before", 1500);
MON_REQUIRE("refused", 150);
MON_REQUIRE("texts of 65535 bytes", 20);
MON_REQUIRE("tuples", 400);
MON_REQUIRE("exceptions passed", 100);
MON_REQUIRE("calls of more than 30 values", 150);
MON_REQUIRE("supported types carried", 1);

using wire::Value;
using Js = decltype(std::declval<app::UI>().jsFunction(""));
struct Sent {
    std::string name;
    std::vector<Value> args;
};
struct Custom : std::exception {
    std::string text;
    explicit Custom(std::string t) : text(std::move(t)) {}
    const char* what() const noexcept override { return text.c_str(); }
};

static std::string text(mon::Rng& rng, bool noNul = false) {
    auto n = rng.chance(2) ? 65535 - rng.below(2) : rng.chance(15) ? std::size_t{253} + rng.below(6) : rng.size(400);
    if (n == 65535) mon::count("texts of 65535 bytes");
    auto s = rng.coin() ? rng.bytes(n) : rng.from("hello \"'<>é", n);
    if (noNul)
        for (auto& c : s)
            if (!c) c = 'n';
    return s;
}
template<typename T>
T whole(mon::Rng& rng) {
    auto lo = sizeof(T) == 8 ? (std::is_signed_v<T> ? -(1ll << 53) : 0) : static_cast<long long>(std::numeric_limits<T>::min());
    auto hi = sizeof(T) == 8 ? (1ll << 53) : static_cast<long long>(std::numeric_limits<T>::max());
    return static_cast<T>(rng.chance(20) ? lo : rng.chance(20) ? hi : rng.range(lo, hi));
}
static double real(mon::Rng& rng) {
    static const double special[] = {0.0, -0.0, 1.5, -1e308, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    return rng.chance(40) ? special[rng.below(8)] : static_cast<double>(static_cast<std::int64_t>(rng.next())) / 1024.;
}
static Value exc(std::string s) {
    Value v;
    v.kind = Value::exception;
    v.s = std::move(s);
    return v;
}

template<std::size_t>
static std::string each(mon::Rng& rng) { return rng.bytes(rng.below(40)); }
/// invokes f with as many texts as I has elements
template<std::size_t... I>
static std::vector<Value> many(mon::Rng& rng, Js& f, std::index_sequence<I...>) {
    const std::array<std::string, sizeof...(I)> texts{each<I>(rng)...};
    f(texts[I]...);
    std::vector<Value> w;
    for (auto& t : texts) w.push_back(Value::str(t));
    mon::count("calls of more than 30 values");
    return w;
}
/// invokes f with a tuple of as many numbers as I has elements
template<std::size_t... I>
static std::vector<Value> big(mon::Rng& rng, Js& f, std::index_sequence<I...>) {
    auto t = std::tuple(static_cast<double>(rng.below(1000) + I)...);
    f(t, 1);
    std::vector<Value> items{Value::num(std::get<I>(t))...};
    mon::count("calls of more than 30 values");
    mon::count("tuples");
    return {Value::list(items), Value::num(1)};
}
/// invokes f in one of many ways; returns what must arrive
static std::vector<Value> invoke(mon::Rng& rng, Js& f) {
    auto num = [](auto v) { return Value::num(static_cast<double>(v)); };
    switch (rng.below(28)) {
    case 0: f(); return {};
    case 1: {
        bool b = rng.coin();
        f(b);
        return {Value::boolean(b)};
    }
    case 2: {
        auto a = whole<int>(rng);
        const auto b = whole<unsigned>(rng);
        f(a, b);
        return {num(a), num(b)};
    }
    case 3: {
        auto a = whole<std::int64_t>(rng);
        auto b = whole<std::uint64_t>(rng);
        f(a, std::move(b), 7, -1L, 3u);
        return {num(a), num(b), num(7), num(-1), num(3)};
    }
    case 4: {
        auto a = whole<std::int8_t>(rng);
        auto b = whole<std::uint8_t>(rng);
        auto c = whole<std::int16_t>(rng);
        auto d = whole<std::uint16_t>(rng);
        f(a, b, c, d);
        return {num(a), num(b), num(c), num(d)};
    }
    case 5: {
        auto a = real(rng);
        auto b = static_cast<float>(rng.below(100000)) / 16.f;
        f(a, b, 0.5);
        return {num(a), num(b), num(0.5)};
    }
    case 6: {
        auto s = std::make_unique<std::string>(text(rng));
        auto want = *s;
        f(*s);
        std::fill(s->begin(), s->end(), '#');
        return {Value::str(want)};
    }
    case 7: {
        auto want = text(rng);
        f(std::string(want)); // a temporary
        return {Value::str(want)};
    }
    case 8: {
        auto s = text(rng);
        auto from = rng.below(s.size() + 1);
        std::string want = s.substr(from, rng.below(s.size() + 1));
        auto exact = std::make_unique<char[]>(want.size()); // nothing may be read after its end
        std::copy(want.begin(), want.end(), exact.get());
        f(std::string_view(exact.get(), want.size()), 1);
        return {Value::str(want), num(1)};
    }
    case 9: {
        auto s = text(rng, true);
        const char* p = s.c_str();
        f(p, true);
        auto want = s;
        s.assign(s.size(), '*');
        return {Value::str(want), Value::boolean(true)};
    }
    case 10: f("literal", "with\0zeros\0", "\0"); return {Value::str("literal"), Value::str(std::string("with\0zeros\0", 11)), Value::str(std::string(1, '\0'))};
    case 11: f("", "a", "two words"); return {Value::str(""), Value::str("a"), Value::str("two words")};
    case 12: {
        std::tuple<int, std::string, bool> t{whole<int>(rng), text(rng), rng.coin()};
        f(t);
        mon::count("tuples");
        return {Value::list({num(std::get<0>(t)), Value::str(std::get<1>(t)), Value::boolean(std::get<2>(t))})};
    }
    case 13: {
        std::tuple<std::tuple<std::string, double>, std::tuple<>, std::tuple<std::tuple<bool>>> t{{text(rng), real(rng)}, {}, {{rng.coin()}}};
        auto want = Value::list({Value::list({Value::str(std::get<0>(std::get<0>(t))), num(std::get<1>(std::get<0>(t)))}), Value::list({}),
                                 Value::list({Value::list({Value::boolean(std::get<0>(std::get<0>(std::get<2>(t))))})})});
        f(whole<int>(rng) * 0 + 4, t, "end");
        mon::count("tuples");
        return {num(4), want, Value::str("end")};
    }
    case 14: {
        const std::tuple<std::string, std::string> t{text(rng), text(rng)};
        f(t, t, 1);
        mon::count("tuples", 2);
        auto v = Value::list({Value::str(std::get<0>(t)), Value::str(std::get<1>(t))});
        return {v, v, num(1)};
    }
    case 15: {
        auto t = text(rng, true);
        f(std::runtime_error(t));
        mon::count("exceptions passed");
        return {exc(t)};
    }
    case 16: {
        Custom e(text(rng, true));
        f("failed", e, 2);
        mon::count("exceptions passed");
        return {Value::str("failed"), exc(e.text), num(2)};
    }
    case 17: {
        int a[20];
        for (auto& v : a) v = whole<int>(rng);
        f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19]);
        std::vector<Value> w;
        for (auto v : a) w.push_back(num(v));
        return w;
    }
    case 18: {
        std::string s[6];
        std::vector<Value> w;
        for (auto& t : s) {
            t = text(rng);
            w.push_back(Value::str(t));
        }
        f(s[0], s[1], std::string_view(s[2]), s[3], std::move(s[4]), s[5]);
        return w;
    }
    case 19: {
        const bool b = rng.coin();
        const double d = real(rng);
        const std::string s = text(rng).substr(0, 65534);
        f(b, d, s, !b, -d, s + "!");
        return {Value::boolean(b), num(d), Value::str(s), Value::boolean(!b), num(-d), Value::str(s + "!")};
    }
    case 20: {
        long double l = static_cast<double>(whole<int>(rng));
        char c = static_cast<char>(rng.below(128));
        f(l, c, whole<std::int8_t>(rng) * 0LL);
        return {num(l), num(c), num(0)};
    }
    case 21: {
        auto e = std::make_unique<Custom>(text(rng, true));
        std::exception& base = *e;
        f(base);
        mon::count("exceptions passed");
        auto want = e->text;
        return {exc(want)};
    }
    case 22: {
        std::tuple<bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool> t;
        std::apply([&](auto&... b) { ((b = rng.coin()), ...); }, t);
        std::vector<Value> items;
        std::apply([&](auto&... b) { (items.push_back(Value::boolean(b)), ...); }, t);
        f(t);
        mon::count("tuples");
        return {Value::list(items)};
    }
    case 23: return many(rng, f, std::make_index_sequence<31>());
    case 24: return rng.coin() ? many(rng, f, std::make_index_sequence<40>()) : many(rng, f, std::make_index_sequence<65>());
    case 25: return rng.coin() ? many(rng, f, std::make_index_sequence<100>()) : many(rng, f, std::make_index_sequence<129>());
    case 26: return rng.coin() ? big(rng, f, std::make_index_sequence<33>()) : big(rng, f, std::make_index_sequence<70>());
    default: {
        auto s = text(rng);
        std::tuple<std::string, std::tuple<double, std::string>> t{s, {real(rng), text(rng)}};
        auto want = Value::list({Value::str(s), Value::list({num(std::get<0>(std::get<1>(t))), Value::str(std::get<1>(std::get<1>(t)))})});
        f(std::move(t), s);
        mon::count("tuples");
        return {want, Value::str(s)};
    }
    }
}
/// an argument list that cannot be represented
static void invokeTooLong(mon::Rng& rng, Js& f) {
    std::string s(65536 + (rng.coin() ? rng.below(4) : rng.below(70000)), 'L');
    switch (rng.below(6)) {
    case 0: f(s); break;
    case 1: f(1, std::string_view(s), "after"); break;
    case 2: f(s.c_str()); break;
    case 3: f(std::tuple<int, std::string>{1, s}); break;
    case 4: f(std::runtime_error(s)); break;
    default: f("fine", 1, s);
    }
}

MON_SECTION(invocations, 420, 14000) {
    simnet::World w;
    web::MemFS::table().clear();
    w.pick = [&](std::size_t k) { return rng.below(k); };
    app::LogLevel level(rng.chance(90) ? 0 : static_cast<int>(rng.below(5)));
    auto wf = std::make_unique<app::WF>("80", ".");
    auto n = 1 + rng.below(3);
    std::vector<web::Client> clients(n);
    std::vector<std::vector<Sent>> sent(n);
    std::map<std::uint64_t, app::UI> uis; // by link
    wf->onUIStarted([&](app::UI ui) { uis.emplace(w.running, ui); });
    for (auto& c : clients) {
        app::conditions(rng, c, 30);
        app::connectSteps(rng, c, true, true);
    }
    struct Object {
        std::size_t client;
        std::string name;
        Js f;
        std::size_t uses = 0;
    };
    std::deque<Object> objects;
    std::string story;
    auto one = [&] {
        std::size_t i = rng.below(n);
        if (!clients[i].link) return;
        auto ui = uis.find(clients[i].link->id);
        if (ui == uis.end()) return;
        std::vector<std::size_t> mine;
        for (std::size_t k = 0; k < objects.size(); ++k)
            if (objects[k].client == i) mine.push_back(k);
        if (mine.empty() || rng.chance(25)) {
            std::string name = rng.chance(20) ? text(rng) : rng.from("abc.xyz_$", 1 + rng.below(20));
            objects.push_back({i, name, ui->second.jsFunction(std::string(name)), 0});
            mine.push_back(objects.size() - 1);
        }
        auto& o = objects[rng.of(mine)];
        if (rng.chance(12)) {
            bool threw = false;
            try {
                invokeTooLong(rng, o.f);
            }
            catch (const std::exception&) {
                threw = true;
            }
            if (!threw) mon::fail("a text of more than 65535 bytes is not refused", "call of " + mon::show(o.name, 40));
            mon::count("refused");
            story += std::to_string(i) + ":refused ";
            return;
        }
        if (o.uses++) mon::count("invocations of an object used before");
        std::vector<Value> want;
        if (rng.chance(20)) {
            auto copy = o.f;
            want = invoke(rng, copy);
        }
        else want = invoke(rng, o.f);
        story += std::to_string(i) + ":" + std::to_string(want.size()) + " ";
        sent[i].push_back({o.name, std::move(want)});
    };
    std::size_t budget = 10 + rng.below(30);
    web::drive(rng, w, clients, [&] {
        if (budget && rng.chance(30)) --budget, one();
        wf->runOne();
    });
    app::settled(clients);
    for (; budget; --budget) {
        one();
        for (std::size_t k = rng.below(4); k-- > 0 && !w.ready.empty();) wf->runOne();
    }
    for (auto& c : clients) c.link->setWindow(simnet::unlimited);
    while (!w.ready.empty()) wf->runOne();
    for (std::size_t i = 0; i < n; ++i) {
        auto where = [&] { return "client " + std::to_string(i) + " of history " + mon::show(story, 400); };
        auto t = app::traffic(*clients[i].link);
        std::size_t k = 0;
        for (auto& m : t.messages) {
            if (m.command == wire::ack) continue;
            if (m.command != wire::callFunction) mon::fail("unexpected message", where() + ": command " + std::to_string(m.command));
            if (m.values.empty()) mon::fail("call without a name", where());
            if (m.count != m.values.size()) mon::fail("announced parameter count", where() + ": announced " + std::to_string(m.count) + ", carried " + std::to_string(m.values.size()) + " " + wire::show(m.values));
            if (k >= sent[i].size()) mon::fail("call received that was not made", where() + ": " + wire::show(m.values));
            auto& s = sent[i][k];
            std::vector<Value> want{Value::str(s.name)};
            want.insert(want.end(), s.args.begin(), s.args.end());
            if (!(m.values == want)) mon::fail("call of other name or arguments", where() + ": call " + std::to_string(k) + " received " + wire::show(m.values) + " want " + wire::show(want));
            mon::count("calls received");
            mon::nontrivial(mon::mix(mon::fnv(wire::show(want)), w.traceHash + k));
            ++k;
        }
        if (k != sent[i].size()) mon::fail("call not received", where() + ": " + std::to_string(k) + " of " + std::to_string(sent[i].size()));
        mon::sample(where() + ": " + (sent[i].empty() ? "no call" : mon::show(sent[i].back().name, 40) + wire::show(sent[i].back().args).substr(0, 200)));
    }
}

// more invocations than 16 bits count, thousands of them waiting for the client to read
MON_SECTION(endurance, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    simnet::World w;
    web::MemFS::table().clear();
    app::LogLevel level(0);
    auto wf = std::make_unique<app::WF>("80", ".");
    auto [link, ui] = app::join(w, *wf);
    auto f = ui.jsFunction("count");
    std::size_t made = 0;
    for (std::size_t total = 65536 + 700; made < total;) {
        auto batch = made < 5000 ? 5000 : 1 + rng.below(2000);
        link->setWindow(rng.below(9));
        for (std::size_t k = batch; k-- > 0; ++made) f(static_cast<double>(made), std::to_string(made));
        while (!w.ready.empty()) wf->runOne();
        link->setWindow(simnet::unlimited);
        while (!w.ready.empty()) wf->runOne();
    }
    std::size_t k = 0;
    for (auto& m : app::traffic(*link).messages) {
        if (m.command == wire::ack) continue;
        if (m.command != wire::callFunction || !(m.values == std::vector<Value>{Value::str("count"), Value::num(static_cast<double>(k)), Value::str(std::to_string(k))})) mon::fail("call of other name or arguments", "call " + std::to_string(k) + " received " + wire::show(m.values));
        ++k;
    }
    if (k != made) mon::fail("call not received", std::to_string(k) + " of " + std::to_string(made));
    mon::count("calls received", static_cast<long long>(k));
    mon::nontrivial(made);
}

#ifndef MON_FUZZ
// an argument of a type no message can represent: refused by the compiler or with an exception, never sent as something else
MON_SECTION(unsupported, 14, 14) {
    mon::allow(120);
    mon::Scratch dir;
    auto run = [&](const std::string& options) {
        auto cmd = std::string("clang++ -std=c++23 -w -DKIND=") + std::to_string(index) + " -I" MON_INCLUDE " " MON_ROOT "/harness/l02_unsupported.cpp " + options + " >" + (dir.root / "log").string() + " 2>&1";
        return std::system(cmd.c_str());
    };
    auto exe = (dir.root / "probe").string();
    if (run("-fsyntax-only") != 0) {
        if (index == 0) mon::count("probe for unsupported types does not compile"); // not what is judged here
        else mon::count("unsupported types refused by the compiler");
        return;
    }
    if (run("-o " + exe + " -pthread") != 0) return;
    auto rc = std::system((exe + " >" + (dir.root / "log").string() + " 2>&1").c_str());
    mon::check(rc == 0, "an argument of an unsupported type makes a corrupt message", [&] { return "kind " + std::to_string(index) + " of harness/l02_unsupported.cpp"; });
    mon::count(index ? "unsupported types refused with an exception or carried" : "supported types carried");
}
#endif

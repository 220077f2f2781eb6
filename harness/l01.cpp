// L01: a call from JavaScript runs the right C++ function once with the right arguments
#include "app.hpp"

MON_RULE("applications with functions of 18 signatures, registered from objects of 7 kinds that are gone when the calls come (or while clients are connected), called by 1 to 3 concurrent browsers with random values, some of which throw standard exceptions or register further functions, mixed with calls of unknown functions and 14 kinds of malformed calls, under random segmentation and schedules; the oracle is the list of calls each browser made; non-trivial = one call sent; distinct by call bytes and schedule");
MON_REQUIRE("calls run", 2500);
MON_REQUIRE("calls of unknown functions", 300);
MON_REQUIRE("malformed calls", 700);
MON_REQUIRE("registered while connected", 50);
MON_REQUIRE("registered within a call", 30);
MON_REQUIRE("calls that threw", 150);
MON_REQUIRE("arguments of more than 255 bytes", 150);
MON_REQUIRE("undefined arguments", 100);

using wire::Value;

struct Run {
    std::uint64_t link;
    std::string name;
    std::vector<Value> args;
};
struct Recorder {
    simnet::World* w;
    std::vector<Run> runs;
    mon::Rng whims{0}; // which calls throw
    unsigned throwing = 0; // percent
    std::map<std::uint64_t, std::size_t> thrown = {};
    /// what each registered function does
    void run(const std::string& name, std::vector<Value> args) {
        runs.push_back({w->running, name, std::move(args)});
        if (!whims.chance(throwing)) return;
        ++thrown[w->running];
        switch (whims.below(6)) {
        case 0: throw std::runtime_error("the application's {} %s");
        case 1: throw std::out_of_range("key not found");
        case 2: throw std::logic_error("logic");
        case 3: throw std::bad_alloc();
        case 4: throw std::system_error(std::make_error_code(std::errc::no_such_file_or_directory));
        default: throw std::invalid_argument(std::string(whims.size(70000), 'x'));
        }
    }
};
static Recorder* recorder = nullptr;

template<typename T>
struct IsTuple : std::false_type {};
template<typename... T>
struct IsTuple<std::tuple<T...>> : std::true_type {};

template<typename T>
Value toValue(const T& t) {
    if constexpr (std::is_same_v<T, bool>) return Value::boolean(t);
    else if constexpr (std::is_arithmetic_v<T>) return Value::num(static_cast<double>(t));
    else if constexpr (std::is_same_v<T, std::string>) return Value::str(t);
    else return std::apply([](auto&... e) { return Value::list({toValue(e)...}); }, t);
}
template<typename T, std::size_t... Is>
Value genTuple(mon::Rng&, std::index_sequence<Is...>);
template<typename T>
Value gen(mon::Rng& rng) {
    if constexpr (std::is_same_v<T, bool>) return Value::boolean(rng.coin());
    else if constexpr (std::is_floating_point_v<T>) {
        switch (rng.below(6)) {
        case 0: return Value::num(static_cast<T>(rng.coin() ? 0.0 : -0.0));
        case 1: return Value::num(rng.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
        case 2: return Value::num(rng.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::denorm_min());
        case 3: return Value::num(static_cast<T>(static_cast<int>(rng.below(2000)) - 1000));
        default: return Value::num(static_cast<T>(static_cast<double>(static_cast<std::int64_t>(rng.next())) / static_cast<double>(1 + rng.below(1u << 30))));
        }
    }
    else if constexpr (std::is_integral_v<T>) {
        std::int64_t lo = sizeof(T) == 8 ? (std::is_signed_v<T> ? -(1ll << 53) : 0) : static_cast<std::int64_t>(std::numeric_limits<T>::min());
        std::int64_t hi = sizeof(T) == 8 ? (1ll << 53) : static_cast<std::int64_t>(std::numeric_limits<T>::max());
        switch (rng.below(4)) {
        case 0: return Value::num(static_cast<double>(lo));
        case 1: return Value::num(static_cast<double>(hi));
        default: return Value::num(static_cast<double>(rng.range(lo, hi)));
        }
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        auto n = rng.chance(3) ? rng.below(65536) : rng.chance(20) ? std::size_t{253} + rng.below(8) : rng.size(300);
        if (n > 255) mon::count("arguments of more than 255 bytes");
        auto s = rng.coin() ? rng.bytes(n) : rng.from("abc \"'\\é", n);
        return s.size() < 256 && rng.chance(10) ? Value::longStr(s) : Value::str(s);
    }
    else return genTuple<T>(rng, std::make_index_sequence<std::tuple_size_v<T>>());
}
template<typename T, std::size_t... Is>
Value genTuple(mon::Rng& rng, std::index_sequence<Is...>) {
    std::vector<Value> v;
    (v.push_back(gen<std::tuple_element_t<Is, T>>(rng)), ...);
    return Value::list(std::move(v));
}

struct Function {
    std::string name;
    unsigned style;
    std::function<void(app::WF&)> registerAt;
    std::function<std::vector<Value>(mon::Rng&)> args;
    std::vector<char> kinds; // b, i, d, s, t : of each parameter
    std::vector<double> tooBig;
    std::vector<Value> defaults; // of each parameter, for an undefined argument
};

template<typename T>
constexpr char kindOf() {
    return std::is_same_v<T, bool> ? 'b' : std::is_integral_v<T> ? 'i' : std::is_floating_point_v<T> ? 'd' : std::is_same_v<T, std::string> ? 's' : 't';
}
template<typename T>
constexpr double beyond() {
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) return 2. * static_cast<double>(std::numeric_limits<T>::max() / 2 + 1);
    else return 0;
}
/// a function object that keeps its state on the heap
template<typename... Args>
struct Functor {
    std::shared_ptr<std::string> tag;
    void operator()(const Args&... a) const { recorder->run(*tag, {toValue(a)...}); }
};
template<int N, typename... Args>
struct Plain { // a plain function knows its name from a table
    static inline std::string name;
    static void call(Args... a) { recorder->run(name, {toValue(a)...}); }
};

template<int N, typename... Args>
Function make(mon::Rng& rng, std::string name) {
    Function f;
    f.name = name;
    f.style = static_cast<unsigned>(rng.below(7));
    f.args = [](mon::Rng& r) { return std::vector<Value>{gen<Args>(r)...}; };
    f.kinds = {kindOf<Args>()...};
    f.tooBig = {beyond<Args>()...};
    f.defaults = {toValue(Args{})...};
    Plain<N, Args...>::name = name;
    f.registerAt = [name, style = f.style](app::WF& wf) {
        std::string padding(64, 'p');
        auto tag = name;
        switch (style) {
        case 0: // a temporary
            wf.cppFunction<void, Args...>(name, [tag, padding](Args... a) { recorder->run(padding.size() == 64 ? tag : "?", {toValue(a)...}); });
            break;
        case 1: { // a local lambda
            auto local = [tag, padding](const Args&... a) { recorder->run(padding.size() == 64 ? tag : "?", {toValue(a)...}); };
            wf.cppFunction<void, Args...>(name, local);
            break;
        }
        case 2: { // a local std::function, emptied afterwards
            std::function<void(Args...)> local = [tag, padding](Args... a) { recorder->run(tag, {toValue(a)...}); };
            wf.cppFunction<void, Args...>(name, local);
            local = nullptr;
            break;
        }
        case 3: wf.cppFunction<void, Args...>(name, &Plain<N, Args...>::call); break;
        case 4: { // const object
            const Functor<Args...> local{std::make_shared<std::string>(tag)};
            wf.cppFunction<void, Args...>(name, local);
            break;
        }
        case 5: { // owned by nobody else
            auto owner = std::make_unique<Functor<Args...>>(Functor<Args...>{std::make_shared<std::string>(tag)});
            wf.cppFunction<void, Args...>(name, *owner);
            break;
        }
        default: // changes its state with each call
            wf.cppFunction<void, Args...>(name, [tag, calls = std::vector<int>{}](Args... a) mutable {
                calls.push_back(1);
                recorder->run(tag, {toValue(a)...});
            });
        }
    };
    return f;
}
using std::string;
using std::tuple;
static Function makeAny(mon::Rng& rng, unsigned sig, std::string name) {
    switch (sig) {
    case 0: return make<0>(rng, name);
    case 1: return make<1, bool>(rng, name);
    case 2: return make<2, int>(rng, name);
    case 3: return make<3, double>(rng, name);
    case 4: return make<4, string>(rng, name);
    case 5: return make<5, string, double, bool>(rng, name);
    case 6: return make<6, tuple<double, string>>(rng, name);
    case 7: return make<7, int, tuple<bool, tuple<string, double>>>(rng, name);
    case 8: return make<8, std::uint8_t, std::int16_t>(rng, name);
    case 9: return make<9, std::int64_t, std::uint64_t>(rng, name);
    case 10: return make<10, string, string>(rng, name);
    case 11: return make<11, float>(rng, name);
    case 12: return make<12, bool, bool, bool, bool, bool>(rng, name);
    case 13: return make<13, tuple<string>, tuple<string, string>>(rng, name);
    case 14: return make<14, tuple<tuple<tuple<int>>>>(rng, name);
    case 15: return make<15, double, string, double, string, double, string>(rng, name);
    case 16: return make<16, string, tuple<int, int, int>, string>(rng, name);
    default: return make<17, std::uint32_t, char>(rng, name);
    }
}

/// a call broken in one way, which must run nothing
static std::string malformed(mon::Rng& rng, const Function& f, std::string& what) {
    auto args = f.args(rng);
    auto good = wire::call(f.name, args);
    auto wrongFor = [&](char kind) {
        switch (kind) {
        case 's': return rng.coin() ? Value::num(1) : Value::list({Value::str("x")});
        case 't': return rng.coin() ? Value::num(1) : Value::str("x");
        default: return rng.coin() ? Value::str("1") : Value::list({Value::num(1)});
        }
    };
    auto withSize = [](std::string m, std::uint32_t n) {
        std::memcpy(m.data() + 4, &n, 4);
        return m;
    };
    auto payload = static_cast<std::uint32_t>(good.size() - 8);
    for (;;) switch (rng.below(14)) {
        case 0: what = "message cut"; return good.substr(0, 1 + rng.below(good.size() - 1));
        case 1: what = "announced size too large"; return withSize(good, payload + 1 + static_cast<std::uint32_t>(rng.coin() ? rng.below(10) : rng.below(0xffffffffu - payload)));
        case 2:
            if (args.empty()) continue;
            what = "announced size too small";
            return withSize(good, static_cast<std::uint32_t>(rng.below(payload)));
        case 3:
            if (args.empty()) continue;
            what = "argument missing";
            args.pop_back();
            return wire::call(f.name, args);
        case 4:
        case 5: {
            if (args.empty()) continue;
            what = "argument of another type";
            auto i = rng.below(args.size());
            args[i] = wrongFor(f.kinds[i]);
            return wire::call(f.name, args);
        }
        case 6: {
            if (args.empty()) continue;
            what = "unknown argument type";
            std::string p;
            wire::encode(Value::str(f.name), p);
            auto i = rng.below(args.size());
            for (std::size_t k = 0; k < i; ++k) wire::encode(args[k], p);
            p += static_cast<char>(rng.coin() ? 7 + rng.below(11) : 19 + rng.below(237));
            p += rng.bytes(rng.below(40));
            for (std::size_t k = i + 1; k < args.size(); ++k) wire::encode(args[k], p);
            return withSize(good.substr(0, 8), static_cast<std::uint32_t>(p.size())) + p;
        }
        case 7: { // a text longer than the message
            what = "text beyond the message";
            std::string p;
            wire::encode(Value::str(f.name), p);
            bool any = false;
            for (std::size_t k = 0; k < args.size(); ++k) {
                if (f.kinds[k] == 's' && !any) {
                    any = true;
                    p += rng.coin() ? std::string("\x04\xff", 2) : std::string("\x05\xff\xff", 3);
                    p += rng.bytes(rng.below(200));
                    break;
                }
                wire::encode(args[k], p);
            }
            if (!any) continue;
            return withSize(good.substr(0, 8), static_cast<std::uint32_t>(p.size())) + p;
        }
        case 8: { // the name is no text
            what = "name of another type";
            std::string p;
            wire::encode(rng.coin() ? Value::num(3) : Value::boolean(true), p);
            for (auto& a : args) wire::encode(a, p);
            return withSize(good.substr(0, 8), static_cast<std::uint32_t>(p.size())) + p;
        }
        case 9: what = "no name"; return withSize(good.substr(0, 8), 0);
        case 10: {
            what = "name beyond the message";
            auto p = good.substr(8);
            if (static_cast<unsigned char>(p[0]) != 4) continue;
            p[1] = '\xff';
            p.resize(std::min<std::size_t>(p.size(), 200));
            return withSize(good.substr(0, 8), static_cast<std::uint32_t>(p.size())) + p;
        }
        case 11: {
            std::vector<std::size_t> which;
            for (std::size_t k = 0; k < args.size(); ++k)
                if (f.tooBig[k] != 0) which.push_back(k);
            if (which.empty()) continue;
            what = "number beyond the parameter type";
            auto k = rng.of(which);
            switch (rng.below(4)) {
            case 0: args[k] = Value::num(f.tooBig[k]); break;
            case 1: args[k] = Value::num(std::numeric_limits<double>::quiet_NaN()); break;
            case 2: args[k] = Value::num(rng.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity()); break;
            default: args[k] = Value::num(rng.coin() ? 1e300 : -1e300); break;
            }
            return wire::call(f.name, args);
        }
        case 12: {
            std::vector<std::size_t> which;
            for (std::size_t k = 0; k < args.size(); ++k)
                if (f.kinds[k] == 't') which.push_back(k);
            if (which.empty()) continue;
            what = "tuple of another size";
            auto& items = args[rng.of(which)].items;
            if (rng.coin()) items.pop_back();
            else items.push_back(Value::num(0));
            return wire::call(f.name, args);
        }
        default: what = "command only"; return good.substr(0, 1);
        }
}

struct Sent {
    std::string name;
    std::vector<Value> args;
};
MON_SECTION(calls, 700, 24000) {
    simnet::World w;
    Recorder rec{&w};
    rec.whims = mon::Rng(rng.next());
    if (rng.chance(40)) rec.throwing = 1 + static_cast<unsigned>(rng.below(60));
    recorder = &rec;
    app::LogLevel level(rng.chance(75) ? 0 : static_cast<int>(rng.below(5)));
    web::MemFS::table().clear();
    w.pick = [&](std::size_t k) { return rng.below(k); };
    std::vector<Function> functions;
    std::set<std::string> names;
    auto count = 1 + rng.below(6);
    std::vector<unsigned> sigs(18);
    for (unsigned i = 0; i < 18; ++i) sigs[i] = i;
    for (std::size_t i = 0; i < count; ++i) {
        auto k = i + rng.below(18 - i);
        std::swap(sigs[i], sigs[k]);
        std::string name;
        do switch (rng.below(5)) {
            case 0: name = rng.from("abc", rng.below(3)); break;
            case 1: name = rng.from("abcdef.XYZ_$", 1 + rng.below(20)); break;
            case 2: name = rng.bytes(1 + rng.below(8)); break;
            case 3: name = rng.from("n", 250 + rng.below(12)); break;
            default: name = "function" + std::to_string(i);
            }
        while (name == "register" || !names.insert(name).second);
        functions.push_back(makeAny(rng, sigs[i], name));
    }
    auto wf = std::make_unique<app::WF>("80", ".");
    if (rng.coin()) wf->onUIStarted([](app::UI) {});
    auto late = rng.below(functions.size() + 1); // from here on registered while the clients are connected
    if (rng.chance(60)) late = functions.size();
    for (std::size_t i = 0; i < late; ++i) functions[i].registerAt(*wf);
    if (late < functions.size()) mon::count("registered while connected", static_cast<long long>(functions.size() - late));
    std::size_t registered = late;

    auto n = 1 + rng.below(3);
    std::vector<web::Client> clients(n);
    std::vector<std::vector<Sent>> sent(n);
    std::vector<std::size_t> unknown(n), broken(n);
    std::vector<std::string> story(n);
    std::size_t connectedNow = 0;
    bool within = rng.coin(); // registered by a function that is called
    std::function<void()> all;
    if (late < functions.size() && within) {
        names.insert("register");
        mon::count("registered within a call");
        all = [&] {
            for (; registered < functions.size(); ++registered) functions[registered].registerAt(*wf);
            for (unsigned k = static_cast<unsigned>(late) % 3 * 20; k-- > 0;) wf->cppFunction<void>("never called, number " + std::to_string(k), [] {});
        };
        if (rng.coin()) wf->cppFunction<void>("register", [what = &all, &registered] {
            (*what)();
            ++registered, --registered; // what was captured is still there
        });
        else wf->cppFunction<void>("register", [what = &all, tag = std::string(40, 't')] { // which is kept elsewhere
            (*what)();
            if (tag != std::string(40, 't')) mon::fail("a function's own state changed while it registered others", mon::show(tag));
        });
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = clients[i];
        app::conditions(rng, c, 30);
        app::connectSteps(rng, c, true, false);
        c.steps.push_back(app::act([&, i] {
            if (++connectedNow < n) return;
            if (within && registered < functions.size()) clients[i].link->send(wire::clientFrame(wire::binary, wire::call("register", {}), 0x01020304));
            else
                for (; registered < functions.size(); ++registered) functions[registered].registerAt(*wf);
        }));
        c.steps.push_back(app::await([&] { return registered == functions.size(); }));
        std::string bytes;
        for (std::size_t k = 0, calls = 1 + rng.below(12); k < calls; ++k) {
            auto& f = rng.of(functions);
            auto p = rng.below(100);
            std::string m;
            if (p < 65) {
                auto args = f.args(rng);
                auto want = args;
                if (!args.empty() && rng.chance(12)) {
                    auto at = rng.below(args.size());
                    args[at] = Value{}; // undefined
                    want[at] = f.defaults[at];
                    mon::count("undefined arguments");
                }
                m = wire::call(f.name, args);
                sent[i].push_back({f.name, want});
                story[i] += f.name + " ";
            }
            else if (p < 77) {
                std::string name;
                do switch (rng.below(5)) {
                    case 0: name = f.name + "x"; break;
                    case 1: name = f.name.substr(0, rng.below(f.name.size() + 1)); break;
                    case 2: name = f.name + std::string(1, '\0'); break;
                    case 3: name = web::randomCase(rng, f.name); break;
                    default: name = rng.bytes(rng.below(300));
                    }
                while (names.count(name));
                m = wire::call(name, f.args(rng));
                ++unknown[i];
                mon::count("calls of unknown functions");
                story[i] += "unknown ";
            }
            else {
                std::string what;
                m = malformed(rng, f, what);
                ++broken[i];
                mon::count("malformed calls");
                story[i] += "(" + what + ") ";
            }
            bytes += app::frame(rng, m);
            mon::nontrivial(mon::mix(mon::fnv(m), i));
        }
        app::append(c.steps, web::cut(rng, bytes, bytes.size() > 3000 ? 4 : static_cast<unsigned>(rng.below(5))));
    }
    web::drive(rng, w, clients, [&] { wf->runOne(); });
    app::settled(clients);
    for (std::size_t i = 0; i < n; ++i) {
        auto& l = *clients[i].link;
        auto where = [&] { return "client " + std::to_string(i) + " sent " + mon::show(story[i], 500); };
        std::vector<Run*> mine;
        for (auto& r : rec.runs)
            if (r.link == l.id) mine.push_back(&r);
        for (std::size_t k = 0; k < std::max(mine.size(), sent[i].size()); ++k) {
            auto got = k < mine.size() ? mon::show(mine[k]->name, 60) + wire::show(mine[k]->args) : "nothing";
            auto want = k < sent[i].size() ? mon::show(sent[i][k].name, 60) + wire::show(sent[i][k].args) : "nothing";
            if (k >= mine.size()) mon::fail("call not run", where() + ": call " + std::to_string(k) + " " + want);
            if (k >= sent[i].size()) mon::fail("a function ran without being called", where() + ": " + got);
            if (mine[k]->name != sent[i][k].name) mon::fail("another function ran", where() + ": call " + std::to_string(k) + " ran " + got + " instead of " + want);
            if (!(mine[k]->args == sent[i][k].args)) mon::fail("other arguments", where() + ": call " + std::to_string(k) + " ran " + got + " instead of " + want);
            mon::count("calls run");
        }
        auto t = app::traffic(l);
        if (!l.open) mon::fail("connection ended by a call", where());
        std::size_t returns = 0;
        for (auto& m : t.messages) {
            if (m.command == wire::ack) continue;
            if (m.command != wire::functionReturn) mon::fail("unexpected message", where() + ": command " + std::to_string(m.command));
            if (m.count != 1 || m.values.size() != 1 || m.values[0].kind != Value::exception || m.values[0].s.empty())
                mon::fail("answer is not one exception text", where() + ": " + wire::show(m.values));
            ++returns;
        }
        if (returns < unknown[i] || returns > unknown[i] + broken[i] + rec.thrown[l.id])
            mon::fail("answers to calls of unknown functions", where() + ": " + std::to_string(returns) + " for " + std::to_string(unknown[i]) + " calls");
        mon::sample(where());
    }
    for (auto& [id, k] : rec.thrown) mon::count("calls that threw", static_cast<long long>(k));
    std::size_t total = 0;
    for (auto& s : sent) total += s.size();
    if (rec.runs.size() != total) mon::fail("a function ran outside any call", std::to_string(rec.runs.size()) + " runs for " + std::to_string(total) + " calls");
}
// more calls than 16 bits count, on one link
MON_SECTION(endurance, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    simnet::World w;
    web::MemFS::table().clear();
    app::LogLevel level(0);
    auto wf = std::make_unique<app::WF>("80", ".");
    std::size_t sent = 0, ran = 0;
    wf->cppFunction<void, double, std::string>("count", [&](double d, std::string s) {
        if (d != static_cast<double>(ran) || s != "call " + std::to_string(ran)) mon::fail("arguments differ", "call " + std::to_string(ran) + " ran with " + std::to_string(d) + ", '" + mon::show(s, 40) + "'");
        ++ran;
    });
    auto link = app::join(w, *wf).first;
    for (std::size_t total = 65536 + 700; sent < total;) {
        std::string bytes;
        for (std::size_t k = 1 + rng.below(60); k-- > 0; ++sent) bytes += wire::clientFrame(wire::binary, wire::call("count", {Value::num(static_cast<double>(sent)), Value::str("call " + std::to_string(sent))}), static_cast<std::uint32_t>(rng.next()));
        link->send(bytes);
        while (!w.ready.empty()) wf->runOne();
        if (ran != sent) mon::fail("function not run once per call", std::to_string(ran) + " of " + std::to_string(sent));
    }
    mon::count("calls on one link", static_cast<long long>(ran));
    mon::nontrivial(ran);
}
// far more functions than a program has
MON_SECTION(registry, 2, 20) {
    if (!mon::fullSpeed()) return;
    mon::allow(100);
    simnet::World w;
    web::MemFS::table().clear();
    app::LogLevel level(0);
    auto wf = std::make_unique<app::WF>("80", ".");
    std::size_t n = 1000 + rng.below(3000), late = rng.below(n);
    std::vector<std::string> names;
    std::set<std::string> all;
    while (names.size() < n) { // many are the beginning of others
        auto name = !names.empty() && rng.coin() ? rng.of(names) + rng.from("ab1", 1 + rng.below(3)) : rng.from("abcdefghijklmnopqrstuvwxyz", 1 + rng.below(12));
        if (all.insert(name).second) names.push_back(name);
    }
    std::vector<std::pair<std::size_t, std::string>> ran;
    auto add = [&](std::size_t i) { wf->cppFunction<void, std::string>(names[i], [&ran, i](std::string s) { ran.emplace_back(i, std::move(s)); }); };
    for (std::size_t i = 0; i < late; ++i) add(i);
    auto link = app::join(w, *wf).first;
    for (std::size_t i = late; i < n; ++i) add(i);
    std::vector<std::pair<std::size_t, std::string>> sent;
    for (std::size_t k = 0; k < 2 * n; ++k) {
        auto i = k < n ? k : rng.below(n);
        sent.emplace_back(i, "call " + std::to_string(k));
        link->send(wire::clientFrame(wire::binary, wire::call(names[i], {Value::str(sent.back().second)}), static_cast<std::uint32_t>(rng.next())));
        if (rng.chance(20)) {
            auto other = names[i] + "?";
            link->send(wire::clientFrame(wire::binary, wire::call(other, {Value::str("unknown")}), 7));
        }
        while (!w.ready.empty()) wf->runOne();
        if (ran.size() != sent.size()) mon::fail("function not run once per call", names[i] + ", one of " + std::to_string(n) + " functions: " + std::to_string(ran.size()) + " runs of " + std::to_string(sent.size()) + " calls");
        if (ran.back() != sent.back()) mon::fail("another function or arguments", names[i] + ", one of " + std::to_string(n) + " functions");
    }
    mon::count("calls among many functions", static_cast<long long>(sent.size()));
    mon::nontrivial(sent.size());
}

// L07: the embedded browser client and the C++ side understand each other
#include "app.hpp"
#include "node.hpp"
#include "system/IndexFS.hpp"

MON_RULE("the client script served by the application, executed in a JavaScript engine by 1 to 3 browsers whose WebSockets are connected to the application through the simulated network: calls in both directions with random values of the supported types, calls made from within calls, injected scripts, unknown functions, under random segmentation and schedules; the oracle is the list of calls made on each side; non-trivial = one call observed on the other side; distinct by name, arguments and direction");
MON_REQUIRE("calls of JavaScript functions", 1500);
MON_REQUIRE("calls of C++ functions", 1500);
MON_REQUIRE("calls of C++ functions from within a JavaScript function", 100);
MON_REQUIRE("calls of JavaScript functions from within a C++ function", 100);
MON_REQUIRE("scripts executed", 50);
MON_REQUIRE("unknown functions", 60);
MON_REQUIRE("arguments of more than 255 bytes", 60);
MON_REQUIRE("flat arrays", 300);

using WF = webfront::BasicWF<web::Net, webfront::fs::IndexFS>;
using UI = WF::UI;
using wire::Value;

/// values as the browsers' harness spells them
static std::string spell(const Value& v) {
    switch (v.kind) {
    case Value::yes: return "t";
    case Value::no: return "f";
    case Value::number: {
        if (std::isnan(v.d)) return "nNaN;";
        std::string b;
        wire::raw(b, v.d);
        return "n" + mon::hex(b) + ";";
    }
    case Value::tuple: {
        std::string r = "[";
        for (auto& i : v.items) r += spell(i);
        return r + "]";
    }
    default: return "s" + mon::hex(v.s) + ";";
    }
}
static std::string spell(std::initializer_list<Value> v) { return spell(Value::list(v)); }
static std::string spell(const std::vector<Value>& v) { return spell(Value::list(v)); }

/// valid UTF-8 that does not start with a byte order mark
static std::string text(mon::Rng& rng, std::size_t n) {
    static const std::vector<std::string> points{"a", "Z", "0", " ", "\"", "\\", "'", "\n", "\t", "<", "&", "{", "}", "\x7f", "\x01", std::string(1, '\0'), "é", "ß", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "€", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xef\xbf\xbd", "\xed\x9f\xbf", "\xee\x80\x80", "😀", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "漢"};
    std::string s;
    bool ascii = rng.coin();
    while (s.size() < n) {
        auto& p = points[rng.below(ascii ? 15 : points.size())];
        if (s.size() + p.size() > n) s += "x";
        else s += p;
    }
    return s;
}
static std::string text(mon::Rng& rng) {
    static const std::size_t edges[] = {0, 1, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768};
    auto n = rng.chance(12) ? edges[rng.below(10)] : rng.chance(1) ? edges[rng.below(12)] : rng.below(30);
    if (rng.below(400) == 0) n = 65535;
    if (n > 255) mon::count("arguments of more than 255 bytes");
    return text(rng, n);
}
static double number(mon::Rng& rng) {
    static const double special[] = {0.0, -0.0, 1.5, -1.7976931348623157e308, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 4294967296.0, 9007199254740993.0, 0.1};
    if (rng.chance(40)) return special[rng.below(std::size(special))];
    return rng.coin() ? static_cast<double>(rng.range(-1000, 1000)) : static_cast<double>(static_cast<std::int64_t>(rng.next())) / 1024.;
}

struct Call {
    std::string name;
    std::string args;
    bool operator==(const Call&) const = default;
};
struct Browser {
    std::string id;
    std::optional<UI> ui;
    std::optional<decltype(std::declval<UI>().jsFunction(""))> kept;
    std::size_t delivered = 0; // bytes of received handed over
    bool linked = false;       // the page got the acknowledgement: calls can be made from there on
    std::vector<Call> expectedJs, js;   // calls of functions of the page and injected scripts ("script"), in order
    std::vector<Call> expectedCpp, cpp; // calls of C++ functions, in order
    std::vector<std::string> errors;
};
static const std::vector<std::string> pageFunctions{"f", "record2", "ns.f", "ns.sub.deep.f", "é漢", "with space", "$_", "bounce"};

template<typename T>
Value toValue(const T& t) {
    if constexpr (std::is_same_v<T, bool>) return Value::boolean(t);
    else if constexpr (std::is_arithmetic_v<T>) return Value::num(static_cast<double>(t));
    else if constexpr (std::is_same_v<T, std::string>) return Value::str(t);
    else return std::apply([](auto&... e) { return Value::list({toValue(e)...}); }, t);
}
template<typename T>
T gen(mon::Rng& rng) {
    if constexpr (std::is_same_v<T, bool>) return rng.coin();
    else if constexpr (std::is_floating_point_v<T>) return number(rng);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(rng.range(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
    else if constexpr (std::is_same_v<T, std::string>) return text(rng);
    else {
        mon::count("flat arrays");
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return T{gen<std::tuple_element_t<I, T>>(rng)...}; }(std::make_index_sequence<std::tuple_size_v<T>>());
    }
}

static mon::Node& node() {
    static mon::Node n("l07_node.js");
    return n;
}
/// the client script as the application serves it
static void fetchClient(mon::Rng& rng) {
    simnet::World w;
    WF wf("80", ".");
    auto c = w.connect();
    web::Ask a;
    a.target = "/WebFront.js";
    a.headers = {{"Accept-Encoding", "gzip, deflate, br"}};
    c->send(a.text());
    while (!w.ready.empty()) wf.runOne();
    auto r = web::parseReply(c->received, false);
    if (r.code != 200) mon::fail("client script not served", mon::show(c->received, 200));
    node().ask("source " + r.header("Content-Encoding").value_or("none") + " " + mon::hex(r.body));
    (void)rng;
}

struct Session {
    mon::Rng& rng;
    simnet::World& w;
    std::unique_ptr<WF> wf;
    std::vector<web::Client> clients;
    std::vector<Browser> browsers;
    std::vector<std::pair<std::string, std::function<std::vector<Value>(mon::Rng&)>>> cpp;

    explicit Session(mon::Rng& r, simnet::World& world, std::size_t n) : rng(r), w(world), wf(std::make_unique<WF>("80", ".")), clients(n), browsers(n) {
        static std::size_t ids = 0;
        w.pick = [this](std::size_t k) { return rng.below(k); };
        if (ids == 0) fetchClient(rng);
        for (auto& b : browsers) b.id = std::to_string(++ids);
        wf->onUIStarted([this](UI ui) {
            if (auto b = running()) {
                b->ui.emplace(ui);
                b->kept.emplace(ui.jsFunction("ns.f"));
                if (rng.coin()) invoke(*b);
            }
        });
        add<>("none");
        add<bool>("boolean");
        add<double>("number");
        add<std::string>("text");
        add<int, std::uint8_t, std::int16_t>("integers");
        add<std::string, double, bool, std::string>("mixed");
        add<std::tuple<double, std::string, bool>>("array");
        add<std::tuple<>, bool>("empty");
        add<std::tuple<std::string, std::string>, double, std::tuple<bool, double>>("arrays");
        add<double, double, double, double, double, double, double, double, double, double, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool>("many");
        add<std::string>("é漢 name");
        add<std::string>(std::string(300, 'n'));
        add<std::string, double>("echo", [this](const std::string& s, double d) {
            auto b = running();
            mon::count("calls of JavaScript functions from within a C++ function");
            b->expectedJs.push_back({"f", spell({Value::str(s), Value::num(d), Value::boolean(true)})});
            b->ui->jsFunction("f")(s, d, true);
        });
        add<std::string, bool>("bounced", [this](const std::string&, bool) { mon::count("calls of C++ functions from within a JavaScript function"); }, false);
    }
    ~Session() {
        for (auto& b : browsers) node().ask("close " + b.id);
    }
    Browser* running() {
        for (std::size_t i = 0; i < clients.size(); ++i)
            if (clients[i].link && clients[i].link->id == w.running) return &browsers[i];
        return nullptr;
    }
    template<typename... Args>
    void add(std::string name, std::type_identity_t<std::function<void(const Args&...)>> then = {}, bool callable = true) {
        wf->cppFunction<void, Args...>(name, [this, name, then](const Args&... a) {
            if (auto b = running()) b->cpp.push_back({name, spell({toValue(a)...})});
            else mon::fail("C++ function called outside the messages of a browser", name);
            if (then) then(a...);
        });
        if (callable) cpp.emplace_back(name, [](mon::Rng& r) { return std::vector<Value>{toValue(gen<Args>(r))...}; });
    }
    void events(std::size_t i, const std::string& line) {
        auto& b = browsers[i];
        std::size_t at = 0;
        while (at < line.size()) {
            auto e = std::min(line.find(' ', at), line.size());
            auto ev = line.substr(at, e - at);
            at = e + 1;
            if (ev.empty()) continue;
            switch (ev[0]) {
            case 'S': { // goes out after what the socket already has to send
                auto& steps = clients[i].steps;
                auto pos = steps.begin();
                while (pos != steps.end() && pos->kind == web::Step::send) ++pos;
                auto more = web::cut(rng, app::frame(rng, mon::unhex(std::string_view(ev).substr(1))), static_cast<unsigned>(rng.below(5)));
                steps.insert(pos, std::make_move_iterator(more.begin()), std::make_move_iterator(more.end()));
                break;
            }
            case 'C': {
                auto c = ev.find(':');
                b.js.push_back({mon::unhex(std::string_view(ev).substr(1, c - 1)), ev.substr(c + 1)});
                break;
            }
            case 'X': b.js.push_back({"script", mon::unhex(std::string_view(ev).substr(1))}); break;
            case 'E': b.errors.push_back(mon::unhex(std::string_view(ev).substr(1))); break;
            default: throw mon::HarnessError("node answered " + mon::show(line));
            }
        }
    }
    /// hands over what has arrived
    void deliver() {
        for (std::size_t i = 0; i < clients.size(); ++i) {
            auto& c = clients[i];
            if (!c.link) continue;
            wire::Frame f;
            for (;;) {
                auto all = app::wsBytes(*c.link);
                if (browsers[i].delivered > all.size() || !wire::parseFrame(all.substr(browsers[i].delivered), f)) break;
                browsers[i].delivered += f.size;
                if (f.opcode != wire::binary) mon::fail("not a binary frame", std::to_string(f.opcode));
                if (!f.payload.empty() && f.payload[0] == wire::ack) browsers[i].linked = true;
                events(i, node().ask("frame " + browsers[i].id + " " + mon::hex(f.payload)));
            }
        }
    }
    void callCpp(std::size_t i) {
        auto& b = browsers[i];
        if (rng.chance(5)) {
            mon::count("unknown functions");
            events(i, node().ask("call " + b.id + " " + mon::hex("unknown" + text(rng, rng.below(300))) + " " + spell({Value::str(text(rng))})));
            return;
        }
        auto& f = cpp[rng.below(cpp.size())];
        auto args = f.second(rng);
        b.expectedCpp.push_back({f.first, spell(args)});
        events(i, node().ask("call " + b.id + " " + mon::hex(f.first) + " " + spell(args)));
    }
    /// a call of a function of the page, or a script
    void invoke(Browser& b) {
        if (!b.ui) return;
        auto expect = [&](const std::string& name, std::vector<Value> args) { b.expectedJs.push_back({name, spell(args)}); };
        switch (rng.below(13)) {
        case 0: {
            auto n = rng.chance(5) ? 60000 + rng.below(5000) : rng.below(200);
            auto script = "record('in script', [" + std::to_string(rng.below(1000)) + ", 'é漢\\u0000 \"']); // " + rng.from("abc déf", n);
            for (auto& c : script)
                if (static_cast<signed char>(c) < 0 && &c >= script.data() + script.find("//")) c = 'x'; // only whole characters
            expect("in script", {Value::num(std::atof(script.c_str() + script.find('[') + 1)), Value::str(std::string("é漢\0 \"", 8))});
            b.expectedJs.push_back({"script", script});
            b.ui->addScript(script);
            break;
        }
        case 1: b.ui->jsFunction("f")(); expect("f", {}); break;
        case 2: {
            auto s = text(rng);
            auto d = number(rng);
            b.ui->jsFunction("ns.sub.deep.f")(s, d);
            expect("ns.sub.deep.f", {Value::str(s), Value::num(d)});
            break;
        }
        case 3: {
            bool x = rng.coin();
            b.ui->jsFunction("é漢")(x, !x, true, false);
            expect("é漢", {Value::boolean(x), Value::boolean(!x), Value::boolean(true), Value::boolean(false)});
            break;
        }
        case 4: {
            auto s = text(rng);
            (*b.kept)(std::string_view(s), "literal é", 7, -3L, 4000000000u, 1.5f);
            expect("ns.f", {Value::str(s), Value::str("literal é"), Value::num(7), Value::num(-3), Value::num(4000000000.), Value::num(1.5)});
            break;
        }
        case 5: {
            auto t = std::make_tuple(number(rng), text(rng), rng.coin());
            b.ui->jsFunction("with space")(t, true);
            expect("with space", {toValue(t), Value::boolean(true)});
            break;
        }
        case 6: {
            auto t = std::make_tuple(std::make_tuple(text(rng), std::make_tuple(number(rng)), rng.coin()), std::tuple<>{}, static_cast<int>(rng.below(9)));
            b.ui->jsFunction("record2")(rng.coin() ? 1. : 1., t, 2);
            expect("record2", {Value::num(1), toValue(t), Value::num(2)});
            break;
        }
        case 7: {
            auto s = text(rng);
            for (auto& c : s)
                if (!c) c = '0';
            b.ui->jsFunction("$_")(s.c_str(), std::move(s));
            expect("$_", {Value::str(s), Value::str(s)});
            break;
        }
        case 8: {
            auto d = [&] { return number(rng); };
            double v[12];
            for (auto& x : v) x = d();
            (*b.kept)(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
            std::vector<Value> a;
            for (auto x : v) a.push_back(Value::num(x));
            expect("ns.f", a);
            break;
        }
        case 9:
        case 10: { // calls back
            auto s = text(rng);
            bool x = rng.coin();
            b.expectedJs.push_back({"bounce", spell({Value::str(s), Value::boolean(x)})});
            b.ui->jsFunction("bounce")(s, x);
            break;
        }
        case 11: {
            auto name = rng.coin() ? std::string("ns.f") : std::string("f");
            auto f = b.ui->jsFunction(name);
            name.assign(name.size(), '?');
            for (int k = 0; k < 3; ++k) {
                f(k, true);
                expect(f_(name), {Value::num(k), Value::boolean(true)});
            }
            break;
        }
        default: {
            auto n = static_cast<std::int64_t>(rng.range(-(1ll << 53), 1ll << 53));
            (*b.kept)(n, static_cast<std::uint8_t>(200), static_cast<std::int8_t>(-100));
            expect("ns.f", {Value::num(static_cast<double>(n)), Value::num(200), Value::num(-100)});
        }
        }
    }
    static std::string f_(const std::string& n) { return n.size() == 4 ? "ns.f" : "f"; }
    void open(std::size_t i) {
        std::string line = "open " + browsers[i].id + " 80";
        for (auto& f : pageFunctions) line += " " + mon::hex(f);
        events(i, node().ask(line));
    }
};

MON_SECTION(conversations, 480, 9000) {
    simnet::World w;
    app::LogLevel level(rng.chance(85) ? 0 : static_cast<int>(rng.below(5)));
    auto n = 1 + rng.below(3);
    Session s(rng, w, n);
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = s.clients[i];
        app::conditions(rng, c, 25);
        app::connectSteps(rng, c, false);
        c.steps.push_back(app::act([&s, i] { s.open(i); })); // the page's socket is open
        c.steps.push_back(app::await([&s, i] { return s.browsers[i].linked; }));
        for (std::size_t k = 1 + rng.below(12); k-- > 0;) c.steps.push_back(app::act([&s, i] { s.callCpp(i); }));
    }
    std::size_t budget = rng.below(25);
    web::drive(rng, w, s.clients, [&] {
        if (budget && rng.chance(20)) --budget, s.invoke(s.browsers[rng.below(n)]);
        s.wf->runOne();
        s.deliver();
    });
    app::settled(s.clients);
    for (; budget; --budget) s.invoke(s.browsers[rng.below(n)]);
    for (std::size_t round = 0;; ++round) { // what is left, and what it causes
        for (auto& c : s.clients) c.link->setWindow(simnet::unlimited);
        web::drive(rng, w, s.clients, [&] {
            s.wf->runOne();
            s.deliver();
        });
        s.deliver();
        bool more = !w.ready.empty();
        for (auto& c : s.clients) more |= !c.steps.empty();
        if (!more || round > 50) break;
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto& b = s.browsers[i];
        auto compare = [&](const char* key, const std::vector<Call>& got, const std::vector<Call>& want) {
            for (std::size_t k = 0; k < std::max(got.size(), want.size()); ++k) {
                if (k < got.size() && k < want.size() && got[k] == want[k]) {
                    mon::nontrivial(mon::mix(mon::fnv(got[k].name + got[k].args), key[0]));
                    continue;
                }
                auto t = [&](const std::vector<Call>& v) { return k < v.size() ? mon::show(v[k].name, 40) + " " + mon::show(v[k].args, 150) : std::string("nothing"); };
                mon::fail(key, "call " + std::to_string(k) + " of client " + std::to_string(i) + ": got " + t(got) + " want " + t(want));
            }
        };
        // calls made from within the page come in the order of the calls that caused them, between the others
        std::vector<Call> bounced, others, expectedBounced;
        for (auto& c : b.cpp) (c.name == "bounced" ? bounced : others).push_back(c);
        for (auto& c : b.js)
            if (c.name == "bounce") expectedBounced.push_back({"bounced", c.args});
        if (!b.errors.empty()) mon::fail("error in the client", mon::show(b.errors[0], 300));
        auto st = node().ask("state " + b.id);
        if (st != std::string("state=2,little=") + (std::endian::native == std::endian::little ? "true" : "false")) mon::fail("state of the client", st);
        compare("JavaScript functions called", b.js, b.expectedJs);
        compare("C++ functions called", others, b.expectedCpp);
        compare("called from within JavaScript", bounced, expectedBounced);
        for (auto& c : b.js) mon::count(c.name == "script" ? "scripts executed" : "calls of JavaScript functions");
        mon::count("calls of C++ functions", static_cast<long long>(b.cpp.size()));
        mon::sample("client " + std::to_string(i) + " of " + std::to_string(n) + ": " + std::to_string(b.js.size()) + " calls from C++, " + std::to_string(b.cpp.size()) + " from JavaScript");
    }
}

// arrays within arrays, from JavaScript
MON_SECTION(nested, 8, 8) {
    simnet::World w;
    Session s(rng, w, 1);
    using T = std::tuple<double, std::tuple<double, double>>;
    s.add<T>("nested");
    auto& c = s.clients[0];
    app::connectSteps(rng, c, false);
    c.steps.push_back(app::act([&] { s.open(0); }));
    c.steps.push_back(app::await([&] { return s.browsers[0].linked; }));
    auto value = spell({Value::list({Value::num(1), Value::list({Value::num(2), Value::num(3)})})});
    c.steps.push_back(app::act([&] { s.events(0, node().ask("call " + s.browsers[0].id + " " + mon::hex("nested") + " " + value)); }));
    web::drive(rng, w, s.clients, [&] {
        s.wf->runOne();
        s.deliver();
    });
    app::settled(s.clients);
    std::vector<Call> got; // the application may have called something which calls back
    for (auto& g : s.browsers[0].cpp)
        if (g.name == "nested") got.push_back(g);
    std::size_t k = 0;
    for (auto& g : got) k += g == Call{"nested", value};
    if (k != 1) mon::fail("array within an array passed from JavaScript", "nested([1,[2,3]]): " + std::to_string(got.size()) + " calls" + (got.empty() ? "" : " with " + got[0].args));
    mon::nontrivial(k);
}

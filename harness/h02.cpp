// H02: well-formed requests are understood exactly, malformed ones get 400
#include "http.hpp"
#include "locales.hpp"
#include <climits>

MON_RULE("requests composed from generated components (the components are the oracle) and requests broken in one of 18 ways every HTTP grammar forbids, parsed directly in random pieces and sent to a server; non-trivial = one request; distinct by text");
MON_REQUIRE("well-formed requests parsed", 3000);
MON_REQUIRE("malformed requests parsed", 3000);
MON_REQUIRE("malformed requests answered by a server", 1000);
MON_REQUIRE("header lookups", 3000);
MON_REQUIRE("continued lines", 500);

using webfront::http::Request;
using Server = webfront::http::Server<web::Net, web::MemFS>;

static std::string target(mon::Rng& rng) {
    std::string t = rng.chance(85) ? "/" : "";
    auto n = rng.size(rng.chance(5) ? 9000 : 120);
    for (std::size_t i = 0; i < n; ++i) t += rng.chance(3) ? static_cast<char>(0x80 + rng.below(128)) : static_cast<char>(33 + rng.below(94));
    if (rng.chance(20)) t = (rng.coin() ? "http://host.example:8080" : "*") + t;
    return t.empty() ? "/" : t;
}
static std::string number(mon::Rng& rng, int& value) {
    switch (rng.below(8)) {
    case 0: value = INT_MAX - static_cast<int>(rng.below(20)); break;
    case 1: value = static_cast<int>(rng.below(INT_MAX)); break;
    case 2: value = static_cast<int>(rng.below(100000)); break;
    case 3: value = 2147483640 - static_cast<int>(rng.below(20)); break;
    default: value = static_cast<int>(rng.below(12)); break;
    }
    return std::to_string(value);
}
struct Sent {
    web::Ask ask;
    int major = 1, minor = 1;
    std::string text;
};
/// another name that is easily taken for this one
static std::string nearMiss(mon::Rng& rng, std::string n) {
    switch (rng.below(5)) {
    case 0: n += rng.coin() ? "-" : "s"; break;
    case 1: if (n.size() > 1) n.pop_back(); break;
    case 2: n = "X-" + n; break;
    default: { // characters that differ in the bit that tells upper from lower case letters
        auto at = rng.below(n.size());
        char c = static_cast<char>(n[at] ^ 0x20);
        bool legal = std::isalpha(static_cast<unsigned char>(c)) || (c && std::strchr("!#$%&'*+-.^_`|~", c));
        if (legal) n[at] = c;
        else n[at] = "^~^~"[rng.below(4)];
    }
    }
    return n;
}
/// extent 1..5: one part of the request is far larger than usual
static Sent wellFormed(mon::Rng& rng, std::size_t extent = 0) {
    Sent s;
    auto huge = [&](std::size_t which, std::size_t most, std::size_t usual) { return extent == which ? most / 2 + rng.below(most / 2) : usual; };
    s.ask.method = rng.chance(70) ? rng.of(web::methods) : rng.chance(50) ? web::randomCase(rng, rng.of(web::methods)) : web::token(rng, 1 + rng.size(40));
    if (rng.chance(10)) { // nearly a known one
        auto& m = s.ask.method = rng.of(web::methods);
        switch (rng.below(4)) {
        case 0: m += web::token(rng, 1 + rng.below(3)); break;
        case 1: m = web::token(rng, 1 + rng.below(3)) + m; break;
        case 2: m.pop_back(); break;
        default: m.erase(0, 1); break;
        }
    }
    if (extent == 1) s.ask.method = web::token(rng, huge(1, 300000, 0));
    s.ask.target = target(rng);
    if (extent == 2) s.ask.target = "/" + rng.from("abcdefgh%/?&=", huge(2, 2000000, 0));
    s.ask.major = number(rng, s.major);
    s.ask.minor = number(rng, s.minor);
    auto n = huge(3, 20000, rng.chance(5) ? rng.below(300) : rng.below(9));
    if (extent > 3) n += 2;
    for (std::size_t i = 0; i < n; ++i) {
        if (i == 1 && extent > 3) {
            s.ask.headers.emplace_back(web::token(rng, huge(4, 300000, 20)), web::headerValue(rng, huge(5, 2000000, 30)));
            continue;
        }
        std::string name = !s.ask.headers.empty() && rng.chance(25) ? web::randomCase(rng, rng.of(s.ask.headers).first) : web::token(rng, 1 + rng.size(30));
        if (!s.ask.headers.empty() && rng.chance(15)) name = nearMiss(rng, rng.of(s.ask.headers).first);
        s.ask.headers.emplace_back(name, web::headerValue(rng, rng.size(rng.chance(3) ? 10000 : 80)));
    }
    s.text = s.ask.method + " " + s.ask.target + " HTTP/" + s.ask.major + "." + s.ask.minor + "\r\n";
    for (auto& [k, v] : s.ask.headers) s.text += web::field(rng, k, v);
    s.text += "\r\n";
    return s;
}
/// feeds text in pieces; returns true when completed, throws what the parser throws
static bool feed(mon::Rng& rng, Request& r, const std::string& text, std::size_t& used) {
    auto style = static_cast<unsigned>(rng.below(4));
    used = 0;
    for (auto& st : web::cut(rng, text, style)) {
        std::vector<char> exact(st.bytes.begin(), st.bytes.end()); // exactly sized: reads beyond it are caught
        bool done = r.parseSomeData(exact.begin(), exact.end());
        used += exact.size();
        if (done != r.completed()) mon::fail("parse result disagrees with completed()", mon::show(text));
        if (done) return true;
    }
    return false;
}
template<typename A>
static void same(const char* key, const A& got, const A& want, const std::string& text) {
    if (got == want) return;
    if constexpr (std::is_same_v<A, std::string>) mon::fail(key, "got '" + mon::show(got) + "' want '" + mon::show(want) + "' from '" + mon::show(text, 400) + "'");
    else mon::fail(key, "got " + std::to_string(static_cast<long long>(got)) + " want " + std::to_string(static_cast<long long>(want)) + " from '" + mon::show(text, 400) + "'");
}

static void understood(mon::Rng& rng, std::size_t extent = 0) {
    auto s = wellFormed(rng, extent);
    Request r;
    std::size_t used;
    bool done = false;
    try {
        done = feed(rng, r, s.text, used);
    }
    catch (const std::exception& e) {
        mon::fail("well-formed request refused", mon::show(s.text, 500));
    }
    if (!done) mon::fail("well-formed request never completed", mon::show(s.text, 500));
    same("request completed before its end", used, s.text.size(), s.text);
    auto known = std::find(web::methods.begin(), web::methods.end(), s.ask.method);
    same("method", static_cast<std::size_t>(r.method), static_cast<std::size_t>(known - web::methods.begin()), s.text);
    if (known != web::methods.end()) same("method name", std::string(r.getMethodName()), s.ask.method, s.text);
    else r.getMethodName();
    same("target", r.uri, s.ask.target, s.text);
    same("major version", r.httpVersionMajor, s.major, s.text);
    same("minor version", r.httpVersionMinor, s.minor, s.text);
    same("number of headers", r.headers.size(), s.ask.headers.size(), s.text);
    for (std::size_t i = 0; i < r.headers.size(); ++i) {
        same("header name", r.headers[i].name, s.ask.headers[i].first, s.text);
        same("header value", r.headers[i].value, s.ask.headers[i].second, s.text);
    }
    mon::count("well-formed requests parsed");
    mon::nontrivial(s.text);
    mon::sample("understood: " + mon::show(s.text, 150));
    // lookups
    std::vector<std::string> names{"absent-name", "x"};
    for (auto& h : s.ask.headers)
        if (names.size() < 12) names.push_back(h.first);
    for (std::size_t i = names.size(); i-- > 2;)
        if (rng.coin()) names.push_back(nearMiss(rng, names[i]));
    for (auto& n : names) {
        auto asked = web::randomCase(rng, n);
        std::vector<std::string> want;
        for (auto& [k, v] : s.ask.headers)
            if (model::iequal(k, asked)) want.push_back(v);
        auto first = r.getHeaderValue(asked);
        if (first.has_value() != !want.empty()) mon::fail("header lookup finds the wrong headers", asked + " in '" + mon::show(s.text, 400) + "'");
        if (first) same("first value of a header", *first, want[0], s.text);
        auto all = r.getHeadersValues(asked);
        if (std::vector<std::string>(all.begin(), all.end()) != want) mon::fail("values of all occurrences of a header", asked + " in '" + mon::show(s.text, 400) + "'");
        // containment, in any occurrence, whatever the case
        std::string piece = "zq";
        if (!want.empty() && rng.chance(80)) {
            auto& v = rng.of(want);
            auto b = v.empty() ? 0 : rng.below(v.size());
            piece = v.substr(b, 1 + rng.below(6));
            // the letter case of bytes above 0x7f is a matter of locale
            if (rng.chance(25) && !piece.empty()) piece[rng.below(piece.size())] ^= 0x20;
            if (piece.empty() || std::any_of(piece.begin(), piece.end(), [](char c) { return c < 0; })) piece = "zq";
        }
        piece = web::randomCase(rng, piece);
        bool found = std::any_of(want.begin(), want.end(), [&](auto& v) { return model::lower(v).find(model::lower(piece)) != std::string::npos; });
        if (r.headersContain(asked, piece) != found) mon::fail("text looked up in headers", asked + " '" + mon::show(piece) + "' in '" + mon::show(s.text, 400) + "'");
        mon::count("header lookups");
    }
}

MON_SECTION(understood, 5000, 200000) { understood(rng); }
MON_SECTION(extents, 10, 100) { // far more of one thing than usual: method, target, number of lines, name, value
    if (!mon::fullSpeed()) return;
    understood(rng, 1 + index % 5);
    mon::count("requests of unusual extent");
}
MON_SECTION(locales, 6, 60) { // letter case is that of ASCII, whatever the locale of the application
    mon::Locale locale(index);
    for (int i = 0; i < 40; ++i) understood(rng);
}

static std::string broken(mon::Rng& rng, std::string& what) {
    auto s = wellFormed(rng);
    if (s.ask.headers.size() > 12) s.ask.headers.resize(12);
    return web::malform(rng, s.ask, what);
}

MON_SECTION(refused, 5000, 200000) {
    std::string what;
    auto text = broken(rng, what);
    Request r;
    std::size_t used;
    bool refused = false, done = false;
    try {
        done = feed(rng, r, text, used);
    }
    catch (const webfront::http::BadRequestException&) {
        refused = true;
    }
    if (!refused) mon::fail("malformed request accepted: " + what, (done ? "completed " : "still waiting ") + mon::show(text, 500));
    mon::count("malformed requests parsed");
    mon::count("refused: " + what);
    mon::nontrivial(text);
}

// values continued on further lines: the end of the line and the blanks after it stand for a blank
static std::string joined(std::string_view v) {
    std::string r;
    for (char c : v)
        if (c != ' ' && c != '\t') r += c;
        else if (!r.empty() && r.back() != ' ') r += ' ';
    return r;
}
MON_SECTION(continued, 1500, 40000) {
    auto s = wellFormed(rng);
    if (s.ask.headers.empty()) s.ask.headers.emplace_back("x", web::headerValue(rng, 20));
    if (s.ask.headers.size() > 8) s.ask.headers.resize(8);
    s.text = s.ask.method + " " + s.ask.target + " HTTP/" + s.ask.major + "." + s.ask.minor + "\r\n";
    std::size_t folds = 0;
    for (auto& [k, v] : s.ask.headers) {
        std::string sent;
        for (char c : v)
            if ((c == ' ' || c == '\t') && rng.coin()) {
                if (rng.chance(30)) sent += web::blanks(rng);
                sent += "\r\n" + web::blanks(rng);
                ++folds;
            }
            else sent += c;
        if (rng.chance(10)) sent = "\r\n" + web::blanks(rng) + sent, ++folds;
        if (rng.chance(10)) sent += "\r\n" + web::blanks(rng), ++folds;
        s.text += web::field(rng, k, sent);
    }
    s.text += "\r\n";
    Request r;
    std::size_t used;
    try {
        if (!feed(rng, r, s.text, used)) mon::fail("request with continued lines never completed", mon::show(s.text, 500));
    }
    catch (const webfront::http::BadRequestException&) {
        if (folds) { // a server may refuse them
            mon::count("requests with continued lines refused");
            return;
        }
        mon::fail("well-formed request refused", mon::show(s.text, 500));
    }
    same("number of headers", r.headers.size(), s.ask.headers.size(), s.text);
    for (std::size_t i = 0; i < r.headers.size(); ++i) {
        same("header name", r.headers[i].name, s.ask.headers[i].first, s.text);
        same("header value of several lines", joined(r.headers[i].value), joined(s.ask.headers[i].second), s.text);
    }
    mon::count("continued lines", folds);
    mon::nontrivial(s.text);
}
MON_SECTION(continuedUpgrade, 300, 3000) {
    web::MemFS::table().clear();
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    std::size_t upgrades = 0;
    s.onUpgrade([&](web::Net::Socket&&, webfront::http::Protocol) { ++upgrades; });
    auto line = "\r\n" + web::blanks(rng);
    bool split = rng.coin(); // inside of a word: what arrives is another one
    auto fold = [&](std::string v) {
        if (split) return v.insert(1 + rng.below(v.size() - 1), line);
        return rng.coin() ? "other," + line + v : rng.coin() ? line + v : v + line;
    };
    bool which = rng.coin();
    std::string connection = "Upgrade", upgrade = "websocket";
    (which ? connection : upgrade) = fold(which ? connection : upgrade);
    auto c = w.connect();
    auto text = "GET / HTTP/1.1\r\nConnection: " + connection + "\r\nUpgrade: " + upgrade + "\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
    c->send(text);
    s.run();
    auto reply = web::parseReply(c->received, false);
    bool switched = reply.code == 101 && upgrades == 1;
    if (switched != !split && reply.code != 400) mon::fail("upgrade named on continued lines", "'" + mon::show(text, 300) + "' answered '" + mon::show(c->received, 100) + "'");
    mon::nontrivial(text);
}

// over the wire: 400, and neither the file system nor the upgrade handler is reached
MON_SECTION(answered, 2500, 60000) {
    auto& table = web::MemFS::table();
    table.clear();
    table.emplace("index.html", web::Resource("index"));
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    std::size_t upgrades = 0;
    s.onUpgrade([&](web::Net::Socket&&, webfront::http::Protocol) { ++upgrades; });
    std::string what, text;
    if (rng.coin()) {
        web::Ask a = rng.coin() ? web::upgradeAsk(rng, rng.from("abcdefghijklmnop", 24)) : web::Ask{};
        a.target = rng.coin() ? "/" : "/index.html";
        text = web::malform(rng, a, what);
    }
    else text = broken(rng, what);
    std::vector<web::Client> clients(1);
    clients[0].steps = web::cut(rng, text + (rng.chance(30) ? web::Ask{}.text() : ""), static_cast<unsigned>(rng.below(4)));
    auto before = web::MemFS::opens();
    web::drive(rng, w, clients, [&] { s.runOne(); });
    auto& got = clients[0].link->received;
    auto reply = web::parseReply(got, false);
    auto where = [&] { return what + ": '" + mon::show(text, 300) + "' answered '" + mon::show(got, 200) + "'"; };
    if (reply.code != 400 || !reply.error.empty() || !reply.rest.empty()) mon::fail("malformed request not answered 400", where());
    if (web::MemFS::opens() != before || upgrades) mon::fail("malformed request acted upon", where());
    mon::count("malformed requests answered by a server");
    mon::nontrivial(text);
    mon::sample(where());
}

// methods other than GET and HEAD are understood by the server, whatever their name
MON_SECTION(methods, 600, 10000) {
    web::MemFS::table().clear();
    web::MemFS::table().emplace("index.html", web::Resource("index"));
    simnet::World w;
    Server s("0.0.0.0", "80", ".");
    auto method = index < web::methods.size() ? web::methods[index] : rng.chance(40) ? web::randomCase(rng, rng.of(web::methods)) : web::token(rng, 1 + rng.size(300));
    web::Ask a;
    a.method = method;
    auto c = w.connect();
    c->send(a.text());
    s.run();
    auto reply = web::parseReply(c->received, method == "HEAD");
    auto want = method == "GET" || method == "HEAD" ? 200 : 501;
    if (reply.code != want || !reply.error.empty()) mon::fail("answer to a method", method + " answered '" + mon::show(c->received, 200) + "'");
    mon::nontrivial(method);
}

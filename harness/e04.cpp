// E04: URI splitting follows RFC 3986 and depends only on its input
#include "models.hpp"
#include "monitor.hpp"
#include "http/Encodings.hpp"

MON_RULE("absolute URIs composed from generated components (the components are the oracle), interleaved with malformed texts and with copies; non-trivial = at least two optional components present or one absent among path/query/fragment; distinct by text");
MON_REQUIRE("uris", 1000);
MON_REQUIRE("malformed", 300);

using webfront::uri::URI;

struct Parts {
    std::string scheme, userinfo, host, port, path, query, fragment;
    bool hasUser = false, hasPort = false, hasQuery = false, hasFragment = false;
    std::string authority() const { return (hasUser ? userinfo + "@" : "") + host + (hasPort ? ":" + port : ""); }
    std::string text() const { return scheme + "://" + authority() + path + (hasQuery ? "?" + query : "") + (hasFragment ? "#" + fragment : ""); }
};
static const char* unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
static std::string chars(mon::Rng& rng, std::string_view extra, std::size_t n) {
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        if (rng.chance(8)) {
            static const char* hex = "0123456789abcdefABCDEF";
            r += '%';
            r += hex[rng.below(22)];
            r += hex[rng.below(22)];
        }
        else if (!extra.empty() && rng.chance(30)) r += extra[rng.below(extra.size())];
        else r += unreserved[rng.below(66)];
    }
    return r;
}
static Parts generate(mon::Rng& rng) {
    Parts p;
    auto length = [&](std::size_t most) { return rng.chance(2) ? rng.of(std::vector<std::size_t>{127, 128, 255, 256, 257, 4096, 65535, 65536, 70000}) : rng.below(most); };
    static const std::vector<std::string> schemes{"http", "https", "ws", "ftp", "a", "x-y.z+1", "HTTP"};
    p.scheme = rng.of(schemes);
    if ((p.hasUser = rng.chance(40))) p.userinfo = chars(rng, "!$&'()*+,;=:", 1 + length(8));
    p.host = rng.chance(5) ? "" : chars(rng, "!$&'()*+,;=", 1 + length(12));
    if (rng.chance(10)) {
        static const std::vector<std::string> literals{"[::1]", "[2001:db8::7]", "[v7.a:b]", "[::ffff:1.2.3.4]"};
        p.host = rng.of(literals);
    }
    if ((p.hasPort = rng.chance(40))) p.port = rng.from("0123456789", rng.chance(10) ? 0 : 1 + rng.below(5));
    if (rng.chance(75)) {
        auto n = rng.chance(2) ? 1 + rng.below(600) : 1 + rng.below(4);
        for (std::size_t i = 0; i < n; ++i) p.path += "/" + chars(rng, "!$&'()*+,;=:@", n > 4 ? rng.below(6) : length(6));
    }
    if ((p.hasQuery = rng.chance(50))) p.query = chars(rng, "!$&'()*+,;=:@/?", length(10));
    if ((p.hasFragment = rng.chance(50))) p.fragment = chars(rng, "!$&'()*+,;=:@/?", length(10));
    return p;
}
static void component(const char* name, std::string_view got, const std::string& want, const std::string& text) {
    mon::check(got == want, name, [&] { return "of '" + mon::show(text) + "': got '" + mon::show(got) + "' want '" + mon::show(want) + "'"; });
}
static void compare(const URI& u, const Parts& p, const std::string& text) {
    component("scheme", u.scheme, p.scheme, text);
    component("authority", u.authority, p.authority(), text);
    component("path", u.path, p.path, text);
    component("query", u.query, p.query, text);
    component("fragment", u.fragment, p.fragment, text);
    component("userinfo", u.userinfo, p.userinfo, text);
    component("host", u.host, p.host, text);
    component("port", u.port, p.port, text);
}
static void parse(const Parts& p) {
    auto text = p.text();
    URI u(text);
    compare(u, p, text);
    mon::count("uris");
    int optional = p.hasUser + p.hasPort + !p.path.empty() + p.hasQuery + p.hasFragment;
    if (optional >= 2 || p.path.empty() || !p.hasQuery || !p.hasFragment) mon::nontrivial(text);
    mon::sample(text);
}
static std::string malformed(mon::Rng& rng, const Parts& p) {
    switch (rng.below(6)) {
    case 0: return rng.from(":/?#@%a1 ", rng.below(12));
    case 1: return rng.bytes(rng.below(20));
    case 2: return p.text().substr(0, rng.below(p.text().size() + 1));
    case 3: return p.path + "?" + p.query;
    case 4: return "";
    default: {
        auto t = p.text();
        for (std::size_t i = 1 + rng.below(3); i-- > 0 && !t.empty();) t[rng.below(t.size())] = ":/?#@"[rng.below(5)];
        return t;
    }
    }
}
// no text makes parsing throw; nothing it does influences the parses around it; all views lie inside some text
static void parseMalformed(const std::string& text) {
    mon::count("malformed");
    try {
        URI u(text);
        for (auto v : {u.scheme, u.authority, u.path, u.query, u.fragment, u.userinfo, u.host, u.port}) {
            std::size_t sum = 0;
            for (unsigned char c : v) sum += c; // the sanitizer checks every byte
            mon::count("component bytes read", static_cast<long long>(v.size() + (sum & 0)));
            mon::check(v.size() <= text.size(), "component longer than the text", [&] { return mon::show(text); });
        }
    }
    catch (const std::exception&) {
        mon::fail("parsing throws", "'" + mon::show(text) + "': " + mon::currentExceptionText());
    }
}
MON_SECTION(wellFormed, 3000, 100000) { parse(generate(rng)); }
// all 32 combinations of present and absent components
MON_SECTION(shapes, 64, 640) {
    auto p = generate(rng);
    p.hasUser = index & 1;
    p.userinfo = p.hasUser ? "john.doe" : "";
    p.hasPort = index & 2;
    p.port = p.hasPort ? "123" : "";
    p.path = index & 4 ? (index & 32 ? "/" : "/forum/questions/") : "";
    p.hasQuery = index & 8;
    p.query = p.hasQuery ? "tag=a/b?c&order=newest" : "";
    p.hasFragment = index & 16;
    p.fragment = p.hasFragment ? "top?a/b" : "";
    parse(p);
}
MON_SECTION(history, 800, 20000) {
    auto n = 2 + rng.below(10);
    for (std::size_t i = 0; i < n; ++i) {
        auto p = generate(rng);
        if (rng.chance(40)) parseMalformed(malformed(rng, p));
        else parse(p);
    }
    parse(generate(rng));
}
MON_SECTION(malformed, 1500, 50000) { parseMalformed(malformed(rng, generate(rng))); }
// a URI that outlives the object it was copied or moved from
MON_SECTION(copies, 300, 4000) {
    auto p = generate(rng);
    auto text = p.text();
    auto first = std::make_unique<URI>(text);
    URI second(*first);
    auto third = std::make_unique<URI>(std::move(*first));
    first.reset();
    compare(second, p, text);
    compare(*third, p, text);
    mon::nontrivial(text);
}

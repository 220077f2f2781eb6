// HTTP side of the harnesses: an in-memory file system, an independent response parser, and a driver that lets several
// simulated clients talk to the real http::Server under a schedule chosen by the generator.
#pragma once
#include <experimental/net>

#include "models.hpp"
#include "monitor.hpp"
#include "networking/TCPNetworkingTS.hpp"
#include "http/HTTPServer.hpp"

namespace web {
using Net = webfront::networking::TCPNetworkingTS;

// ---- resources ---------------------------------------------------------------------------------------------------
struct Resource {
    std::string content, encoding;
    std::vector<std::uint64_t> words; // as the library stores virtual files
    Resource() = default;
    Resource(std::string c, std::string e = {}) : content(std::move(c)), encoding(std::move(e)), words((content.size() + 7) / 8) {
        for (std::size_t i = 0; i < content.size(); ++i) words[i / 8] |= std::uint64_t{static_cast<unsigned char>(content[i])} << (8 * (7 - i % 8));
    }
};
/// provider of a table of resources, all instances share the table of this thread
struct MemFS {
    explicit MemFS(std::filesystem::path) {}
    static std::map<std::string, Resource>& table() {
        static thread_local std::map<std::string, Resource> t;
        return t;
    }
    static std::size_t& opens() {
        static thread_local std::size_t n = 0;
        return n;
    }
    std::optional<webfront::fs::File> open(std::filesystem::path p) {
        ++opens();
        auto it = table().find(p.string());
        if (it == table().end()) return {};
        return webfront::fs::File(std::span<const std::uint64_t>(it->second.words), it->second.content.size(), it->second.encoding);
    }
};

// ---- responses ---------------------------------------------------------------------------------------------------
struct Reply {
    std::string error; // empty when well-formed
    bool complete = false;
    int code = 0;
    std::string reason, body, rest;
    std::vector<std::pair<std::string, std::string>> headers;
    std::optional<std::string> header(std::string_view name) const {
        for (auto& [n, v] : headers)
            if (model::iequal(n, name)) return v;
        return {};
    }
    std::size_t countOf(std::string_view name) const {
        std::size_t k = 0;
        for (auto& h : headers) k += model::iequal(h.first, name);
        return k;
    }
};
inline const char* reasonOf(int code) {
    switch (code) {
    case 101: return "Switching Protocols";
    case 200: return "OK";
    case 400: return "Bad Request";
    case 404: return "Not Found";
    case 501: return "Not Implemented";
    case 506: return "Variant Also Negotiates";
    default: return nullptr;
    }
}
/// strict parser of one response; bodyless: answer to a HEAD
inline Reply parseReply(std::string_view b, bool bodyless) {
    Reply r;
    auto bad = [&](std::string what) {
        r.error = std::move(what);
        return r;
    };
    auto line = [&](std::string& out) {
        auto e = b.find("\r\n");
        if (e == b.npos) return false;
        out = b.substr(0, e);
        b.remove_prefix(e + 2);
        return true;
    };
    std::string l;
    if (!line(l)) return bad("no complete status line");
    if (l.size() < 13 || l.compare(0, 9, "HTTP/1.1 ") != 0 || l[12] != ' ') return bad("malformed status line '" + mon::show(l) + "'");
    for (int i = 9; i < 12; ++i) {
        if (l[i] < '0' || l[i] > '9') return bad("malformed status code '" + mon::show(l) + "'");
        r.code = r.code * 10 + (l[i] - '0');
    }
    r.reason = l.substr(13);
    auto want = reasonOf(r.code);
    if (!want || r.reason != want) return bad("reason does not match the code: '" + mon::show(l) + "'");
    for (;;) {
        if (!line(l)) return bad("header section not terminated");
        if (l.empty()) break;
        auto c = l.find(':');
        if (c == l.npos || c == 0) return bad("malformed header '" + mon::show(l) + "'");
        for (unsigned char k : l)
            if (k < 32 || k == 127) return bad("control character in header '" + mon::show(l) + "'");
        auto v = l.substr(c + 1);
        while (!v.empty() && v.front() == ' ') v.erase(0, 1);
        r.headers.emplace_back(l.substr(0, c), v);
    }
    if (r.code == 101) {
        if (r.header("Content-Length") && *r.header("Content-Length") != "0") return bad("101 with a body");
        r.rest = b;
        r.complete = true;
        return r;
    }
    if (r.countOf("Content-Length") != 1) return bad("Content-Length not given once");
    auto cl = *r.header("Content-Length");
    if (cl.empty() || cl.find_first_not_of("0123456789") != cl.npos || cl.size() > 12) return bad("malformed Content-Length " + cl);
    if (bodyless) r.rest = b;
    else {
        auto n = std::stoull(cl);
        r.body = b.substr(0, n);
        if (b.size() < n) return bad("body of " + std::to_string(b.size()) + " bytes, announced " + cl);
        r.rest = b.substr(n);
    }
    r.complete = true;
    return r;
}

#ifndef MON_REAL
// ---- clients -----------------------------------------------------------------------------------------------------
/// what one simulated client does, step by step; steps of different clients are interleaved by the generator
struct Step {
    enum Kind { send, window, close, reset, act, await } kind = send;
    std::string bytes;
    std::size_t n = 0;
    std::function<void()> todo = {};      // act
    std::function<bool()> condition = {}; // await: what follows waits for it
};
struct Client {
    std::shared_ptr<simnet::Link> link;
    std::deque<Step> steps;
    bool connected = false;
    std::size_t window = simnet::unlimited, maxWrite = 65536, maxRead = simnet::unlimited;
    std::function<void(simnet::Link&)> onConnect; // faults to arrange
    bool stuck = false;                           // gets no more room to receive than it has
};
/// cuts bytes into pieces to send
inline std::deque<Step> cut(mon::Rng& rng, std::string_view bytes, unsigned style) {
    std::deque<Step> r;
    while (!bytes.empty()) {
        std::size_t n = bytes.size();
        switch (style) {
        case 0: break;
        case 1: n = 1; break;
        case 2: n = 1 + rng.below(7); break;
        case 3: n = 1 + rng.below(bytes.size()); break;
        default: n = 1 + rng.below(std::max<std::size_t>(1, bytes.size() / 3)); break;
        }
        n = std::min(n, bytes.size());
        r.push_back({Step::send, std::string(bytes.substr(0, n)), 0});
        bytes.remove_prefix(n);
    }
    return r;
}

/// runs until nothing is left to do; runOne runs one handler of the server under test
template<typename RunOne>
inline void drive(mon::Rng& rng, simnet::World& w, std::vector<Client>& clients, RunOne&& runOne, std::string_view port = {}, std::size_t limit = 2'000'000) {
    std::vector<std::size_t> enabled;
    unsigned eager = 20 + static_cast<unsigned>(rng.below(70)); // how readily handlers run before the clients go on
    for (std::size_t turn = 0;; ++turn) {
        if (turn > limit) mon::fail("no end: the server keeps running handlers", std::to_string(w.handlersRun) + " handlers run");
        enabled.clear();
        for (std::size_t i = 0; i < clients.size(); ++i) {
            auto& c = clients[i];
            if (c.connected)
                while (!c.steps.empty() && c.steps.front().kind == Step::await && c.steps.front().condition()) c.steps.pop_front();
            if (!c.connected || (!c.steps.empty() && c.steps.front().kind != Step::await)) enabled.push_back(i);
        }
        bool ready = !w.ready.empty();
        if (!ready && enabled.empty()) {
            // everything still waiting for room to send gets it, little by little
            bool granted = false;
            for (auto& c : clients)
                if (c.link && !c.stuck && !c.link->writes.empty() && c.link->open && c.link->window != simnet::unlimited && c.link->failWriteAt == simnet::unlimited) {
                    c.link->addWindow(1 + rng.below(rng.coin() ? 20 : 4000));
                    granted = true;
                }
            if (granted) continue;
            return;
        }
        if (ready && (enabled.empty() || rng.chance(eager))) {
            runOne();
            continue;
        }
        auto& c = clients[enabled[rng.below(enabled.size())]];
        if (!c.connected) {
            c.connected = true;
            c.link = w.connect(port);
            c.link->setWindow(c.window);
            c.link->maxWrite = c.maxWrite;
            c.link->maxRead = c.maxRead;
            if (c.onConnect) c.onConnect(*c.link);
            continue;
        }
        auto s = std::move(c.steps.front());
        c.steps.pop_front();
        switch (s.kind) {
        case Step::send: c.link->send(s.bytes); break;
        case Step::window: c.link->addWindow(s.n); break;
        case Step::close: c.link->clientClose(); break;
        case Step::reset: c.link->clientResetNow(); break;
        case Step::act: s.todo(); break;
        case Step::await: break;
        }
    }
}

#endif // MON_REAL
// ---- requests ----------------------------------------------------------------------------------------------------
inline const std::string_view tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
inline std::string token(mon::Rng& rng, std::size_t n) { return rng.from(tokenChars, n); }
/// header value: visible characters, inner blanks, bytes above 0x7f; no blank at either end
inline std::string headerValue(mon::Rng& rng, std::size_t n) {
    std::string v(n, 'v');
    for (std::size_t i = 0; i < n; ++i) {
        bool edge = i == 0 || i + 1 == n;
        if (!edge && rng.chance(15)) v[i] = rng.chance(10) ? '\t' : ' ';
        else if (rng.chance(5)) v[i] = static_cast<char>(0x80 + rng.below(128));
        else v[i] = static_cast<char>(33 + rng.below(94));
    }
    return v;
}
inline std::string randomCase(mon::Rng& rng, std::string t) {
    for (auto& c : t)
        if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && rng.coin()) c = static_cast<char>(c ^ 0x20);
    return t;
}
struct Ask { // a request as its components
    std::string method = "GET", target = "/", major = "1", minor = "1";
    std::vector<std::pair<std::string, std::string>> headers;
    std::string text() const {
        std::string t = method + " " + target + " HTTP/" + major + "." + minor + "\r\n";
        for (auto& [n, v] : headers) t += n + ": " + v + "\r\n";
        return t + "\r\n";
    }
};
inline const std::vector<std::string> methods{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
/// headers clients send which ask nothing of this server, with sane and less sane values
inline std::pair<std::string, std::string> knownHeader(mon::Rng& rng) {
    static const std::vector<std::string> numbers{"", "0", "5", "-1", "+7", "007", "0x10", "1e3", "3.5", "many", "4294967296", "18446744073709551616", "99999999999999999999999", "12, 12", "12 ", "NaN", "\xb2"},
      dates{"Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Thu, 32 Foo 99999 99:99:99 GMT", "0", "yesterday", ""},
      tags{"*", "\"abc\"", "W/\"abc\", \"\"", "abc", "\"", "", "\"abc"}, ranges{"bytes=0-0", "bytes=5-", "bytes=-5", "bytes=9-2", "bytes=0-99999999999999999999", "bytes=a-b", "lines=1-2", "bytes=", "bytes=0-1,3-4,5-", "-"};
    static const std::vector<std::pair<std::vector<std::string>, const std::vector<std::string>*>> kinds{
      {{"Content-Length", "Max-Forwards", "Age", "DNT", "Upgrade-Insecure-Requests", "Sec-WebSocket-Version", "Content-Length"}, &numbers},
      {{"If-Modified-Since", "If-Unmodified-Since", "Date", "If-Range", "Expires"}, &dates},
      {{"If-None-Match", "If-Match", "ETag"}, &tags},
      {{"Range", "Content-Range"}, &ranges}};
    if (rng.coin()) {
        auto& k = rng.of(kinds);
        return {randomCase(rng, rng.of(k.first)), rng.of(*k.second)};
    }
    static const std::vector<std::pair<std::string, std::vector<std::string>>> others{
      {"Host", {"localhost:9002", "", ":", "[::1]:80", "a:b:c", "[", "example.com:99999", "[::1", "%00"}},
      {"Content-Type", {"text/html; charset=utf-8", "/", ";", "multipart/form-data; boundary=", "text"}},
      {"Transfer-Encoding", {"chunked", "gzip, chunked", "identity", "x"}},
      {"Expect", {"100-continue", "200-ok", ""}},
      {"Cookie", {"a=b; c=d", "=", ";;;", "a", "a=b=c; ", "=;="}},
      {"Authorization", {"Basic YTpi", "Basic", "Basic ====", "Bearer", "Digest username=\"a"}},
      {"Origin", {"http://localhost:9002", "null", "://", "http://"}},
      {"Referer", {"http://localhost/a?b#c", "about:blank", "%%%", "/.."}},
      {"User-Agent", {"Mozilla/5.0 (X11; Linux x86_64)", "curl/8", "", "{}", "%s%n"}},
      {"Accept", {"*/*", "text/html;q=0.9,*/*;q=0", "q=", ";;q", "/"}},
      {"Accept-Language", {"fr-FR,fr;q=0.5", "*", "-", "q=1"}},
      {"Cache-Control", {"no-cache", "max-age=0", "max-age=", "max-age=x", "="}},
      {"TE", {"trailers", "chunked;q=0.5", ";"}},
      {"Via", {"1.1 proxy", "1.1", ","}},
      {"Forwarded", {"for=1.2.3.4;proto=http", "for=\"[", "="}},
      {"X-Forwarded-For", {"1.2.3.4, 5.6.7.8", ",", "::1"}},
      {"Keep-Alive", {"timeout=5, max=1000", "timeout=", "300"}},
      {"Sec-WebSocket-Extensions", {"permessage-deflate; client_max_window_bits", "permessage-deflate; client_max_window_bits=999", ";", "x=\""}},
      {"X-HTTP-Method-Override", {"DELETE", "HEAD", ""}}};
    auto& k = rng.of(others);
    return {randomCase(rng, k.first), rng.of(k.second)};
}
inline Ask randomAsk(mon::Rng& rng) {
    Ask a;
    a.method = rng.chance(60) ? (rng.chance(70) ? "GET" : "HEAD") : rng.chance(70) ? rng.of(methods) : token(rng, 1 + rng.below(12));
    a.target = "/" + rng.from("abcdefgh/._-%20?=&~", rng.size(60));
    auto k = rng.below(6);
    for (std::size_t i = 0; i < k; ++i)
        if (rng.chance(25)) a.headers.push_back(knownHeader(rng));
        else a.headers.emplace_back(token(rng, 1 + rng.below(20)), headerValue(rng, rng.size(60)));
    return a;
}
inline Ask upgradeAsk(mon::Rng& rng, const std::string& key) {
    Ask a;
    a.target = "/" + rng.from("abc/.", rng.below(3));
    if (a.target.find("..") != a.target.npos) a.target = "/";
    a.headers = {{"Connection", "Upgrade"}, {"Upgrade", "websocket"}, {"Sec-WebSocket-Key", key}};
    if (rng.chance(20)) a.headers.insert(a.headers.begin() + static_cast<std::ptrdiff_t>(rng.below(4)), knownHeader(rng));
    return a;
}
inline std::string blanks(mon::Rng& rng) {
    std::string b;
    for (std::size_t i = 1 + rng.below(3); i-- > 0;) b += rng.chance(30) ? '\t' : ' ';
    return b;
}
/// a header line; the blanks around the value are no part of it
inline std::string field(mon::Rng& rng, const std::string& name, const std::string& value) {
    std::string line = name + ":";
    if (rng.chance(85)) line += rng.chance(80) ? " " : blanks(rng);
    line += value;
    if (rng.chance(15)) line += blanks(rng);
    return line + "\r\n";
}
/// breaks the grammar of a request in one place that every HTTP grammar forbids; what names the way
inline std::string malform(mon::Rng& rng, Ask a, std::string& what) {
    static const std::string ctl = [] {
        std::string c;
        for (int i = 0; i < 32; ++i)
            if (i != '\t') c.push_back(static_cast<char>(i));
        return c + '\x7f';
    }();
    static const std::string_view special = "()<>@,;:\\\"/[]?={}";
    if (a.headers.empty()) a.headers.emplace_back("Host", "h");
    auto& h = a.headers[rng.below(a.headers.size())];
    auto insert = [&](std::string& t, char c) { t.insert(t.begin() + static_cast<std::ptrdiff_t>(rng.below(t.size() + 1)), c); };
    std::string v = "HTTP/" + a.major + "." + a.minor;
    std::string head = a.method + " " + a.target + " ", fields;
    auto close = [&](std::string line) {
        for (auto& [n, val] : a.headers) line += n + ": " + val + "\r\n";
        return line + "\r\n";
    };
    auto no = [](char c, char not1, char not2 = 0) { return c == not1 || (not2 && c == not2); };
    auto other = [&](char not1, char not2 = 0, char not3 = 0) {
        char c;
        do c = static_cast<char>(rng.below(256));
        while (no(c, not1, not2) || (not3 && c == not3));
        return c;
    };
    switch (rng.below(18)) {
    case 0: what = "separator in method"; insert(a.method, special[rng.below(special.size())]); return a.text();
    case 1: what = "control character in method"; insert(a.method, ctl[rng.below(ctl.size())]); return a.text();
    case 2: what = "high byte in method"; insert(a.method, static_cast<char>(0x80 + rng.below(128))); return a.text();
    case 3: what = "control character in target"; insert(a.target, rng.chance(10) ? '\t' : ctl[rng.below(ctl.size())]); return a.text();
    case 4: { // one character of "HTTP/" replaced or removed
        what = "protocol name";
        auto i = rng.below(5);
        if (rng.coin()) v[i] = other(v[i]);
        else v.erase(i, 1);
        return close(head + v + "\r\n");
    }
    case 5: what = "no major version"; return close(head + "HTTP/." + a.minor + "\r\n");
    case 6: what = "no minor version"; return close(head + "HTTP/" + a.major + ".\r\n");
    case 7: {
        what = "version separator";
        char c;
        do c = other('.', '\r');
        while (c >= '0' && c <= '9');
        return close(head + "HTTP/" + a.major + c + a.minor + "\r\n");
    }
    case 8: {
        what = "version digit";
        char c;
        do c = other('.', '\r');
        while (c >= '0' && c <= '9');
        v.insert(v.begin() + static_cast<std::ptrdiff_t>(5 + rng.below(v.size() - 4)), c);
        return close(head + v + "\r\n");
    }
    case 9: what = "over-long version"; (rng.coin() ? a.major : a.minor) = rng.coin() ? std::to_string(2147483648u + rng.below(rng.coin() ? 30 : 2000000000)) : "9" + rng.from("0123456789", 9 + rng.below(300)); return a.text();
    case 10: what = "request line without CR"; return close(head + v + "\n");
    case 11: what = "request line without LF"; return close(head + v + "\r" + other('\n'));
    case 12: {
        what = "separator in header name";
        auto c = std::string_view("()<>@,;\\\"/[]?={} ")[rng.below(17)];
        if (c == ' ') h.first.insert(h.first.begin() + static_cast<std::ptrdiff_t>(1 + rng.below(h.first.size())), c); // not at the start: that is a folded line
        else insert(h.first, c);
        return a.text();
    }
    case 13: what = "control or high byte in header name"; insert(h.first, rng.coin() ? ctl[rng.below(ctl.size())] : static_cast<char>(0x80 + rng.below(128))); return a.text();
    case 14: {
        what = "control character in header value";
        char c;
        do c = ctl[rng.below(ctl.size())];
        while (c == '\r'); // CR alone is the next case
        insert(h.second, c);
        return a.text();
    }
    case 15: what = "CR without LF after header"; return head + v + "\r\n" + h.first + ": " + h.second + "\r" + other('\n') + "\r\n\r\n";
    case 16: what = "header without colon"; return head + v + "\r\n" + token(rng, 1 + rng.below(8)) + "\r\n" + h.first + ": " + h.second + "\r\n\r\n";
    default: what = "CR without LF at the end"; return head + v + "\r\n" + h.first + ": " + h.second + "\r\n\r" + other('\n') + "\r\n";
    }
}
} // namespace web

// Kinds of work on objects of one's own, with a digest of every result; shared by S03 (threads) and S04 (memory).
#pragma once
#include "http.hpp"
#include "scratch.hpp"
#include "wire.hpp"
#include "system/BabelFS.hpp"
#include "system/IndexFS.hpp"
#include "system/JasmineFS.hpp"
#include "system/NativeFS.hpp"
#include "system/ReactFS.hpp"
#include "weblink/Messages.hpp"
#include <atomic>
#include <thread>

namespace work {
using namespace webfront;
namespace sfs = std::filesystem;

struct Digest {
    std::uint64_t h = 1469598103934665603ull;
    void add(std::string_view t) { h = mon::mix(mon::fnv(t, h), t.size()); }
    void add(std::uint64_t v) { h = mon::mix(h, v); }
};
inline std::string answerText(const http::Response& r) {
    std::string t;
    for (auto& b : r.toBuffers<web::Net>()) t.append(static_cast<const char*>(b.data()), b.size());
    return t;
}
inline void fillTable(mon::Rng& rng) {
    auto& t = web::MemFS::table();
    t.clear();
    t.emplace("index.html", web::Resource(rng.bytes(700)));
    t.emplace("a.css", web::Resource(rng.bytes(rng.below(3000))));
    t.emplace("b.js", web::Resource(rng.bytes(600), "gzip"));
    t.emplace("c d.png", web::Resource(""));
}
inline web::Ask ask(mon::Rng& rng) {
    static const std::vector<std::string> targets{"/", "/a.css", "/b.js", "/c%20d.png", "/none", "/..", "/%2e%2e/x", "a", "/a.css?x"};
    auto a = web::randomAsk(rng);
    if (rng.chance(70)) a.target = rng.of(targets);
    if (rng.coin()) a.headers.emplace_back("Accept-Encoding", "gzip, br");
    if (rng.chance(25)) {
        a.method = "GET";
        a.headers.emplace_back("Connection", "Upgrade");
        a.headers.emplace_back("Upgrade", "websocket");
        a.headers.emplace_back("Sec-WebSocket-Key", rng.from("ABCDxyz0129+/=", 24));
    }
    return a;
}

using Job = void (*)(mon::Rng&, Digest&, const sfs::path&);
inline void requests(mon::Rng& rng, Digest& d, const sfs::path&) {
    fillTable(rng);
    http::RequestHandler<web::Net, web::MemFS> handler(".");
    for (int k = 0; k < 6; ++k) {
        http::Request r;
        std::string what;
        auto t = rng.chance(20) ? web::malform(rng, ask(rng), what) : ask(rng).text();
        bool refused = false;
        try {
            auto half = rng.below(t.size());
            r.parseSomeData(t.data(), t.data() + half);
            r.parseSomeData(t.data() + half, t.data() + t.size());
        }
        catch (const http::BadRequestException&) {
            refused = true;
        }
        d.add(refused);
        if (refused) d.add(answerText(http::Response::getStatusResponse(http::Response::badRequest)));
        else if (r.completed()) {
            d.add(r.getMethodName());
            d.add(r.uri);
            d.add(static_cast<std::uint64_t>(r.httpVersionMajor * 100 + r.httpVersionMinor));
            for (auto& h : r.headers) {
                d.add(h.name);
                d.add(h.value);
                d.add(r.getHeaderValue(h.name).value_or("-"));
                d.add(r.getHeadersValues(h.name).size());
                d.add(r.headersContain(h.name, h.value));
            }
            d.add(answerText(handler.handleRequest(r)));
        }
    }
}
inline void responses(mon::Rng& rng, Digest& d, const sfs::path&) {
    static const http::Response::StatusCode codes[] = {http::Response::switchingProtocols, http::Response::ok, http::Response::badRequest, http::Response::notFound, http::Response::notImplemented, http::Response::variantAlsoNegotiates};
    for (int k = 0; k < 12; ++k) {
        auto r = http::Response::getStatusResponse(codes[rng.below(6)]);
        r.headers.emplace_back(web::token(rng, 1 + rng.below(9)), web::headerValue(rng, rng.below(30)));
        auto held = r.toBuffers<web::Net>(); // refers to r while other threads build theirs
        std::this_thread::yield();
        std::string t;
        for (auto& b : held) t.append(static_cast<const char*>(b.data()), b.size());
        d.add(t);
    }
}
template<typename FS>
std::string readAll(FS& provider, const std::string& name, mon::Rng& rng, Digest& d) {
    auto f = provider.open(name);
    d.add(f.has_value());
    if (!f) return {};
    d.add(f->isEncoded());
    d.add(f->getEncoding());
    std::string got, buffer(1 + rng.below(5000), '\0');
    while (auto n = f->read(std::span<char>(buffer.data(), buffer.size()))) {
        got.append(buffer.data(), n);
        if (rng.chance(10)) std::this_thread::yield();
    }
    d.add(got);
    return got;
}
inline void nativeFiles(mon::Rng& rng, Digest& d, const sfs::path& root) {
    fs::NativeDebugFS native(root);
    fs::Multi<fs::NativeDebugFS, fs::IndexFS> layered(root);
    static const std::vector<std::string> names{"a.txt", "sub/b.bin", "none", "WebFront.js", "index.html", "empty"};
    for (int k = 0; k < 5; ++k) {
        readAll(native, rng.of(names), rng, d);
        readAll(layered, rng.of(names), rng, d);
    }
}
inline void nativeRequests(mon::Rng& rng, Digest& d, const sfs::path& root) {
    http::RequestHandler<web::Net, fs::Multi<fs::NativeDebugFS, fs::IndexFS>> handler(root);
    static const std::vector<std::string> targets{"/a.txt", "/sub/b.bin", "/none", "/WebFront.js", "/", "/empty", "/..", "/sub%2fb.bin"};
    for (int k = 0; k < 6; ++k) {
        http::Request r;
        web::Ask a;
        a.method = rng.chance(20) ? "HEAD" : "GET";
        a.target = rng.of(targets);
        if (rng.coin()) a.headers.emplace_back("Accept-Encoding", "gzip");
        auto t = a.text();
        r.parseSomeData(t.begin(), t.end());
        d.add(answerText(handler.handleRequest(r)));
    }
}
inline void embeddedFiles(mon::Rng& rng, Digest& d, const sfs::path&) {
    fs::IndexFS a("/");
    fs::JasmineFS b("/");
    fs::ReactFS c("/");
    fs::BabelFS e("/");
    fs::Multi<fs::JasmineFS, fs::IndexFS> m("/");
    static const std::vector<std::string> names{"index.html", "favicon.ico", "WebFront.js", "boot0.js", "boot1.js", "jasmine.css", "jasmine_favicon.png", "SpecRunner.html", "react.development.js", "none"};
    for (int k = 0; k < 3; ++k) {
        auto& n = names[rng.below(names.size())];
        readAll(a, n, rng, d);
        readAll(b, n, rng, d);
        readAll(c, n, rng, d);
        readAll(m, n, rng, d);
    }
    readAll(e, "babel.min.js", rng, d);
}
inline void uris(mon::Rng& rng, Digest& d, const sfs::path&) {
    for (int k = 0; k < 20; ++k) {
        auto t = rng.bytes(rng.below(80));
        auto e = uri::encode(t);
        d.add(e);
        d.add(uri::decode(e));
        d.add(uri::decode(rng.from("%%0123456789abcdefxX+/", rng.below(60))));
        uri::URI u("https://" + rng.from("ab.@:", rng.below(12)) + "/" + rng.from("abc/?#=&", rng.below(40))), copy = u;
        for (auto v : {u.scheme, u.authority, u.path, u.query, u.fragment, u.userinfo, u.host, u.port, copy.path, copy.host}) d.add(v);
    }
}
inline void encoders(mon::Rng& rng, Digest& d, const sfs::path&) {
    for (int k = 0; k < 20; ++k) {
        auto t = rng.bytes(rng.below(300));
        d.add(base64::encode(t));
        d.add(base64::encodeInNetworkOrder(crypto::sha1(t)));
        d.add(crypto::sha1String(t));
        d.add(websocket::getHashedSecKey(rng.from("ABCDEF0123+/=", 24)));
    }
}
inline void frames(mon::Rng& rng, Digest& d, const sfs::path&) {
    websocket::FrameDecoder decoder;
    for (int k = 0; k < 12; ++k) {
        auto payload = rng.bytes(rng.size(rng.chance(3) ? 70000 : 400));
        auto bytes = std::as_bytes(std::span<const char>(payload));
        websocket::Frame<web::Net> text{std::string_view(payload)}, data(bytes.first(bytes.size() / 2), bytes.subspan(bytes.size() / 2));
        data.addBuffer(bytes);
        for (auto* f : {&text, &data}) {
            std::string t;
            for (auto& b : f->toBuffers()) t.append(static_cast<const char*>(b.data()), b.size());
            d.add(t);
        }
        auto coded = wire::clientFrame(wire::binary, payload, static_cast<std::uint32_t>(rng.next()));
        auto half = rng.below(coded.size());
        auto all = std::as_bytes(std::span<const char>(coded));
        bool early = decoder.parse(all.first(half)), whole = early || decoder.parse(all.subspan(half));
        d.add(whole);
        if (whole) d.add({reinterpret_cast<const char*>(decoder.payload().data()), decoder.payload().size()});
        decoder.reset();
    }
}
inline void messages(mon::Rng& rng, Digest& d, const sfs::path&) {
    for (int k = 0; k < 8; ++k) {
        msg::FunctionCall call;
        websocket::Frame<web::Net> frame(call.header());
        auto name = rng.from("abc", 1 + rng.below(9)), text = rng.bytes(rng.size(400));
        double number = static_cast<double>(rng.next());
        auto tuple = std::make_tuple(rng.coin(), text, static_cast<int>(rng.below(9)));
        call.encodeParameter(name, frame);
        call.encodeParameter(number, frame);
        call.encodeParameter(text, frame);
        call.encodeParameter(tuple, frame);
        std::string t;
        auto buffers = frame.toBuffers();
        for (std::size_t i = 1; i < buffers.size(); ++i) t.append(static_cast<const char*>(buffers[i].data()), buffers[i].size());
        d.add(t);
        auto data = std::as_bytes(std::span<const char>(t));
        auto received = msg::FunctionCall::castFromRawData(data);
        auto [gotName, rest] = received->getFunctionName();
        double gotNumber = 0;
        std::string gotText;
        decltype(tuple) gotTuple;
        msg::FunctionCall::decodeParameter(gotNumber, rest);
        msg::FunctionCall::decodeParameter(gotText, rest);
        msg::FunctionCall::decodeParameter(gotTuple, rest);
        d.add(gotName);
        d.add(std::bit_cast<std::uint64_t>(gotNumber));
        d.add(gotText);
        d.add(std::get<1>(gotTuple));
        msg::FunctionReturn ret;
        websocket::Frame<web::Net> back(ret.header());
        ret.encodeParameter(std::runtime_error("what " + name), back);
        d.add(ret.getParametersCount() + 1000 * ret.getPayloadSize());
        msg::TextCommand command(msg::TxtOpcode::injectScript, text);
        d.add({reinterpret_cast<const char*>(command.header().data()), command.header().size()});
        msg::Ack ack;
        d.add({reinterpret_cast<const char*>(ack.header().data()), ack.header().size()});
        try {
            auto junk = rng.bytes(rng.below(30));
            auto span = std::as_bytes(std::span<const char>(junk));
            auto m = msg::FunctionCall::castFromRawData(span);
            d.add(std::get<0>(m->getFunctionName()));
        }
        catch (const std::exception& e) {
            d.add(e.what());
        }
    }
}
inline void mimeTypes(mon::Rng& rng, Digest& d, const sfs::path&) {
    static const std::vector<std::string> extensions{"js", ".mjs", "html", ".htm", "css", ".png", "jpeg", "svg", "", ".", "wasm", "csv", ".webp"};
    for (int k = 0; k < 100; ++k) d.add(http::MimeType(std::string_view(rng.of(extensions))).toString());
}
inline void exchanges(mon::Rng& rng, Digest& d, const sfs::path&) {
    fillTable(rng);
    simnet::World w;
    http::Server<web::Net, web::MemFS> server("0.0.0.0", "80");
    std::vector<web::Client> clients(1 + rng.below(3));
    for (auto& c : clients) {
        c.steps = web::cut(rng, ask(rng).text(), static_cast<unsigned>(rng.below(5)));
        if (rng.coin()) c.window = rng.below(300);
    }
    web::drive(rng, w, clients, [&] { server.runOne(); });
    for (auto& c : clients) d.add(c.link->received);
    d.add(w.handlersRun);
}
inline void sessions(mon::Rng& rng, Digest& d, const sfs::path&) {
    simnet::World w;
    std::experimental::net::io_context io;
    auto link = w.makeLink();
    websocket::WebSocket<web::Net> ws{std::experimental::net::ip::tcp::socket(link)};
    ws.onMessage([&](std::string_view t) {
        d.add(t);
        ws.write("echo " + std::string(t));
    });
    ws.onMessage([&](std::span<const std::byte> b) {
        d.add(b.size());
        ws.write(b, b);
    });
    ws.onClose([&](websocket::CloseEvent) { d.add(4711); });
    ws.start();
    for (std::size_t k = rng.below(10); k-- > 0;) {
        link->send(wire::clientFrame(rng.coin() ? wire::text : wire::binary, rng.bytes(rng.size(300)), static_cast<std::uint32_t>(rng.next())));
        while (rng.coin() && w.runOne()) {}
    }
    if (rng.coin()) link->send(wire::clientFrame(wire::close, "", 1));
    while (w.runOne()) {}
    d.add(link->received);
    w.discard();
}
inline const Job jobs[] = {requests, responses, nativeFiles, nativeRequests, embeddedFiles, uris, encoders, frames, messages, mimeTypes, exchanges, sessions};
inline const char* const jobNames[] = {"requests", "responses", "native files", "native requests", "embedded files", "URIs", "encoders", "frames", "messages", "MIME types", "HTTP exchanges", "WebSocket sessions"};
} // namespace work

// Helpers of the demonstrations: a check macro and, with <experimental/net> included first, simulated clients.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

#define DEMO_CHECK(...)                                                                    \
    do {                                                                                   \
        if (!(__VA_ARGS__)) {                                                              \
            std::fprintf(stderr, "DEMO line %d: %s does not hold\n", __LINE__, #__VA_ARGS__); \
            std::_Exit(1);                                                                 \
        }                                                                                  \
    } while (0)

namespace demo {
inline void writeFile(const std::string& name, const std::string& content) {
    std::filesystem::create_directories(std::filesystem::path(name).parent_path());
    std::ofstream(name, std::ios::binary) << content;
}
struct Frame {
    int opcode;
    std::string payload;
};
/// strict parser of server frames
inline std::vector<Frame> frames(std::string_view b) {
    std::vector<Frame> r;
    while (!b.empty()) {
        auto u = [&](std::size_t i) { return static_cast<std::uint64_t>(static_cast<unsigned char>(b.at(i))); };
        DEMO_CHECK(b.size() >= 2 && (u(0) & 0xf0) == 0x80 && u(1) < 128);
        std::uint64_t n = u(1), h = 2;
        if (n == 126) n = u(2) << 8 | u(3), h = 4;
        else if (n == 127) {
            n = 0;
            for (int i = 2; i < 10; ++i) n = n << 8 | u(i);
            h = 10;
        }
        DEMO_CHECK(b.size() - h >= n);
        r.push_back({static_cast<int>(u(0) & 15), std::string(b.substr(h, n))});
        b.remove_prefix(h + n);
    }
    return r;
}
inline std::string clientFrame(int opcode, std::string_view p, std::uint32_t mask = 0x12345678) {
    std::string r(1, static_cast<char>(0x80 | opcode));
    if (p.size() < 126) r += static_cast<char>(0x80 | p.size());
    else if (p.size() < 65536) {
        r += static_cast<char>(0x80 | 126);
        r += static_cast<char>(p.size() >> 8);
        r += static_cast<char>(p.size());
    }
    else {
        r += static_cast<char>(0x80 | 127);
        for (int i = 7; i >= 0; --i) r += static_cast<char>(p.size() >> (8 * i));
    }
    char k[4] = {static_cast<char>(mask >> 24), static_cast<char>(mask >> 16), static_cast<char>(mask >> 8), static_cast<char>(mask)};
    r.append(k, 4);
    for (std::size_t i = 0; i < p.size(); ++i) r += static_cast<char>(p[i] ^ k[i % 4]);
    return r;
}
/// client messages
inline std::string str(std::string_view s) {
    std::string r;
    if (s.size() < 256) r = {4, static_cast<char>(s.size())};
    else r = {5, static_cast<char>(s.size()), static_cast<char>(s.size() >> 8)};
    return r.append(s);
}
inline std::string num(double d) { return "\3" + std::string(reinterpret_cast<char*>(&d), 8); }
inline std::string call(std::string_view name, std::vector<std::string> params) {
    std::string p = str(name);
    for (auto& s : params) p += s;
    auto n = static_cast<std::uint32_t>(p.size());
    return std::string{3, static_cast<char>(params.size() + 1), 0, 0} + std::string(reinterpret_cast<char*>(&n), 4) + p;
}
} // namespace demo

#ifdef DEMO_NET
#include "WebFront.hpp"
namespace demo {
using WF = webfront::BasicWF<webfront::networking::TCPNetworkingTS, webfront::fs::IndexFS>;
using UI = WF::UI;
using LinkPtr = std::shared_ptr<simnet::Link>;
template<typename Server>
void run(simnet::World& w, Server& s) {
    for (int i = 0; !w.ready.empty() && i < 100000; ++i) s.runOne();
}
inline const std::string upgradeRequest = "GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
template<typename Server>
LinkPtr upgraded(simnet::World& w, Server& s) {
    auto l = w.connect();
    l->send(upgradeRequest);
    run(w, s);
    DEMO_CHECK(l->received.starts_with("HTTP/1.1 101 "));
    return l;
}
template<typename Server>
LinkPtr linked(simnet::World& w, Server& s) {
    auto l = upgraded(w, s);
    l->send(clientFrame(2, std::string(2, '\0')));
    run(w, s);
    return l;
}
inline std::string_view body(const LinkPtr& l) {
    std::string_view b = l->received;
    auto e = b.find("\r\n\r\n");
    return e == b.npos ? std::string_view() : b.substr(e + 4);
}
inline std::vector<Frame> received(const LinkPtr& l) { return frames(body(l)); }
} // namespace demo
#endif

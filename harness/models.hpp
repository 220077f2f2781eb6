// Independent reference models used as oracles. Nothing here uses the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace model {

/// FIPS 180-4, section 6.1 (padding built explicitly, 64-bit length)
inline std::array<std::uint32_t, 5> sha1(std::string_view m) {
    std::string p(m);
    p.push_back('\x80');
    while (p.size() % 64 != 56) p.push_back('\0');
    std::uint64_t bits = std::uint64_t{m.size()} * 8;
    for (int i = 7; i >= 0; --i) p.push_back(static_cast<char>(bits >> (8 * i)));
    std::uint32_t H[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
    auto rotl = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (std::size_t o = 0; o < p.size(); o += 64) {
        std::uint32_t W[80];
        for (std::size_t t = 0; t < 16; ++t) {
            W[t] = 0;
            for (std::size_t k = 0; k < 4; ++k) W[t] = (W[t] << 8) | static_cast<unsigned char>(p[o + 4 * t + k]);
        }
        for (int t = 16; t < 80; ++t) W[t] = rotl(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1);
        auto a = H[0], b = H[1], c = H[2], d = H[3], e = H[4];
        for (int t = 0; t < 80; ++t) {
            std::uint32_t f, K;
            switch (t / 20) {
            case 0: f = (b & c) ^ (~b & d); K = 0x5a827999u; break;
            case 1: f = b ^ c ^ d; K = 0x6ed9eba1u; break;
            case 2: f = (b & c) ^ (b & d) ^ (c & d); K = 0x8f1bbcdcu; break;
            default: f = b ^ c ^ d; K = 0xca62c1d6u;
            }
            auto T = rotl(a, 5) + f + e + K + W[t];
            e = d;
            d = c;
            c = rotl(b, 30);
            b = a;
            a = T;
        }
        H[0] += a;
        H[1] += b;
        H[2] += c;
        H[3] += d;
        H[4] += e;
    }
    return {H[0], H[1], H[2], H[3], H[4]};
}

/// RFC 4648 section 4, bit by bit
inline std::string base64(std::string_view in) {
    static const char* alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string out;
    std::size_t bits = in.size() * 8;
    for (std::size_t b = 0; b < bits; b += 6) {
        unsigned v = 0;
        for (std::size_t k = b; k < b + 6; ++k) {
            v <<= 1;
            if (k < bits) v |= (static_cast<unsigned char>(in[k / 8]) >> (7 - k % 8)) & 1u;
        }
        out += alphabet[v];
    }
    while (out.size() % 4) out += '=';
    return out;
}

inline std::string acceptKey(std::string_view key) {
    std::string digest;
    for (auto w : sha1(std::string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
        for (int i = 3; i >= 0; --i) digest += static_cast<char>(w >> (8 * i));
    return base64(digest);
}

inline char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
inline std::string lower(std::string_view t) {
    std::string r(t);
    for (auto& c : r) c = lower(c);
    return r;
}
inline bool iequal(std::string_view a, std::string_view b) { return lower(a) == lower(b); }

inline int hexValue(unsigned char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
inline std::string percentEncode(std::string_view t) {
    static const char* hex = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : t) {
        bool unreserved = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~';
        if (unreserved) r += static_cast<char>(c);
        else {
            r += '%';
            r += hex[c / 16];
            r += hex[c % 16];
        }
    }
    return r;
}
/// as the library documents it: valid %XX -> byte, '+' -> space, everything else unchanged
inline std::string percentDecode(std::string_view t) {
    std::string r;
    while (!t.empty()) {
        if (t[0] == '%' && t.size() >= 3 && hexValue(static_cast<unsigned char>(t[1])) >= 0 && hexValue(static_cast<unsigned char>(t[2])) >= 0) {
            r += static_cast<char>(hexValue(static_cast<unsigned char>(t[1])) * 16 + hexValue(static_cast<unsigned char>(t[2])));
            t.remove_prefix(3);
            continue;
        }
        r += t[0] == '+' ? ' ' : t[0];
        t.remove_prefix(1);
    }
    return r;
}

} // namespace model

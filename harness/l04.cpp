// L04: hostile messages are refused without reading outside the received bytes
#include "wire.hpp"
#include "weblink/Messages.hpp"
#include <limits>

MON_RULE("random, truncated, mutated and size-corrupted messages in exactly sized heap blocks, interpreted as every message and decoded into random sequences of types; non-trivial = a message accepted or refused on its size, or at least one parameter decoded or refused; distinct by bytes and types");
MON_REQUIRE("messages refused", 500);
MON_REQUIRE("messages accepted", 500);
MON_REQUIRE("parameters decoded", 2000);
MON_REQUIRE("parameters refused", 1000);
MON_REQUIRE("numbers out of range", 100);

using namespace webfront;

struct Bytes {
    explicit Bytes(std::string_view b) : size(b.size()), data(new std::byte[b.size()]) { std::memcpy(data.get(), b.data(), b.size()); }
    std::span<const std::byte> span() const { return {data.get(), size}; }
    std::string_view text() const { return {reinterpret_cast<const char*>(data.get()), size}; }
    bool holds(std::span<const std::byte> s) const { return s.empty() || (s.data() >= data.get() && s.data() + s.size() <= data.get() + size); }
    std::size_t size;
    std::unique_ptr<std::byte[]> data;
};
static wire::Value value(mon::Rng& rng, int depth = 0) {
    static const std::vector<double> numbers{0, -0.0, 1, -1, 255, 256, 127, 128, -128, -129, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
                                             9.2e18, 9223372036854775808.0, -9223372036854775808.0, 1.8446744073709552e19, 1e300, -1e300, 0.5, -0.5, 255.9, -0.9, 1e-320,
                                             std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    switch (rng.below(depth < 3 ? 9 : 7)) {
    case 0:
    case 1: return wire::Value::boolean(rng.coin());
    case 2: return wire::Value::num(rng.of(numbers));
    case 3: return wire::Value::num(rng.coin() ? std::bit_cast<double>(rng.next()) : static_cast<double>(rng.range(-100000, 100000)));
    case 4: return wire::Value::str(rng.bytes(rng.below(12)));
    case 5: return wire::Value::longStr(rng.bytes(rng.below(300)));
    case 6: {
        auto v = wire::Value::longStr(rng.bytes(rng.below(20)));
        if (rng.coin()) v.kind = wire::Value::exception;
        return v;
    }
    default: {
        std::vector<wire::Value> items;
        for (auto n = rng.below(4); n > 0; --n) items.push_back(value(rng, depth + 1));
        return wire::Value::list(items);
    }
    }
}
static std::string callBytes(mon::Rng& rng, std::vector<wire::Value>& args) {
    for (auto n = rng.below(6); n > 0; --n) args.push_back(value(rng));
    return wire::call(rng.chance(70) ? rng.from("abcxyz.", 1 + rng.below(10)) : rng.bytes(rng.below(400)), args);
}
static std::string hostile(mon::Rng& rng) {
    std::vector<wire::Value> args;
    switch (rng.below(9)) {
    case 0: return rng.bytes(rng.below(40));
    case 1: return std::string(1, static_cast<char>(rng.below(8))) + rng.bytes(rng.below(30));
    case 2: return callBytes(rng, args);
    case 3: {
        auto b = callBytes(rng, args);
        return b.substr(0, rng.below(b.size() + 1));
    }
    case 4: { // truncated with a consistent announced size
        auto b = callBytes(rng, args);
        b.resize(8 + rng.below(b.size() - 7));
        auto n = static_cast<std::uint32_t>(b.size() - 8);
        std::memcpy(b.data() + 4, &n, 4);
        return b;
    }
    case 5: { // announced size
        auto b = callBytes(rng, args);
        static const std::vector<std::uint32_t> sizes{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffff7, 256, 65536};
        auto n = rng.chance(50) ? rng.of(sizes) : static_cast<std::uint32_t>(b.size() - 8 + rng.below(9) - 4);
        std::memcpy(b.data() + 4, &n, 4);
        return b;
    }
    case 6: { // length and type fields
        auto b = callBytes(rng, args);
        for (auto n = 1 + rng.below(4); n > 0; --n) {
            auto at = rng.chance(60) ? 8 + rng.below(b.size() - 7) : rng.below(b.size());
            if (at < b.size()) b[at] = static_cast<char>(rng.chance(50) ? rng.below(20) : rng.coin() ? 0xff : rng.below(256));
        }
        return b;
    }
    case 7: { // ends right inside or after a parameter head
        std::string b{3, 2, 0, 0, 0, 0, 0, 0};
        wire::encode(wire::Value::str("f"), b);
        static const std::vector<std::string> heads{"\x04", "\x05", std::string("\x05\x00", 2), std::string("\x05\x01", 2), "\x06", "\x06\x01", "\x12", std::string("\x12\x00", 2), "\x12\x01", "\x12\xff", "\x03", std::string("\x03\0\0\0\0\0\0\0", 8),
                                                    std::string("\x04\x00", 2), std::string("\x04\x01", 2), std::string("\x05\x00\x00", 3), "\x01", "\x02", std::string("\x00", 1), "\x07", "\x11", "\xff"};
        b += rng.of(heads);
        auto n = static_cast<std::uint32_t>(b.size() - 8);
        std::memcpy(b.data() + 4, &n, 4);
        return b;
    }
    default: { // only the payload of a call: no name, or nested tuples
        std::string b{3, 1, 0, 0, 0, 0, 0, 0};
        for (auto n = rng.below(60); n > 0; --n) b += rng.coin() ? "\x12\x01" : "\x12\x02";
        auto n = static_cast<std::uint32_t>(b.size() - 8);
        std::memcpy(b.data() + 4, &n, 4);
        return b;
    }
    }
}

// ---- decoding into any combination of types ---------------------------------------------------------------------------
/// what decoding v into T must give when they match in kind; false when it must be refused or is not specified
template<typename T>
bool matches(const wire::Value& v, const T& got) {
    using K = wire::Value;
    if constexpr (std::is_same_v<T, bool>) return v.kind == K::yes ? got : v.kind == K::no ? !got : true;
    else if constexpr (std::is_floating_point_v<T>) {
        if (v.kind != K::number || sizeof(T) < 8) return true;
        return (std::isnan(v.d) && std::isnan(got)) || (v.d == got && std::signbit(v.d) == std::signbit(got));
    }
    else if constexpr (std::is_integral_v<T>) {
        if (v.kind != K::number) return true;
        auto t = std::trunc(v.d); // not representable: any value or an exception, but no undefined behaviour
        if (!(t >= -std::ldexp(1.0, 63) && t < std::ldexp(1.0, 64)) || (!std::is_signed_v<T> && t < 0)) return true;
        if (t < static_cast<double>(std::numeric_limits<T>::min()) || t > static_cast<double>(std::numeric_limits<T>::max())) return true;
        if (sizeof(T) == 8 && t >= std::ldexp(1.0, std::is_signed_v<T> ? 63 : 64)) return true;
        return got == static_cast<T>(t);
    }
    else if constexpr (std::is_same_v<T, std::string>)
        return v.kind == K::smallString || v.kind == K::string || v.kind == K::exception ? got == v.s : true;
    else return true;
}
template<typename T>
bool sameKind(const wire::Value& v) {
    using K = wire::Value;
    if constexpr (std::is_same_v<T, bool>) return v.kind == K::yes || v.kind == K::no;
    else if constexpr (std::is_same_v<T, double>) return v.kind == K::number;
    else if constexpr (std::is_same_v<T, std::string>) return v.kind == K::smallString || v.kind == K::string || v.kind == K::exception;
    else return false;
}
template<typename T>
bool decodeAs(const Bytes& bytes, std::span<const std::byte>& data) {
    auto before = data;
    T got{};
    std::string_view rest(reinterpret_cast<const char*>(before.data()), before.size());
    wire::Value v;
    bool wellFormed = true;
    try {
        v = wire::decode(rest);
    }
    catch (const wire::Malformed&) {
        wellFormed = false;
    }
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
        if (wellFormed && v.kind == wire::Value::number && !(v.d > -129 && v.d < 128)) mon::count("numbers out of range");
    bool ok = true;
    try {
        msg::FunctionCall::decodeParameter(got, data);
    }
    catch (const std::exception&) {
        ok = false;
    }
    mon::check(bytes.holds(data), "undecoded bytes outside the message", [&] { return mon::show(bytes.text()); });
    if (!ok) {
        mon::check(!(wellFormed && sameKind<T>(v)), "well-formed parameter refused", [&] { return v.show() + " in '" + mon::show(bytes.text()) + "'"; });
        mon::count("parameters refused");
        return false;
    }
    mon::count("parameters decoded");
    mon::check(data.empty() || data.data() + data.size() == before.data() + before.size(), "undecoded bytes are not the rest of the message", [&] { return mon::show(bytes.text()); });
    mon::check(data.size() <= before.size(), "undecoded bytes grow", [&] { return mon::show(bytes.text()); });
    if (wellFormed) {
        mon::check(matches(v, got), "value", [&] { return v.show() + " in '" + mon::show(bytes.text()) + "'"; });
        if (sameKind<T>(v)) mon::check(data.size() == rest.size(), "bytes consumed", [&] { return v.show(); });
    }
    else if (!before.empty())
        mon::check(!(std::is_same_v<T, std::string> && (before[0] == std::byte{4} || before[0] == std::byte{5} || before[0] == std::byte{6})) && !(std::is_same_v<T, double> && before[0] == std::byte{3}),
                   "truncated parameter accepted", [&] { return mon::show(bytes.text()); });
    else mon::fail("parameter decoded from nothing", mon::show(bytes.text()));
    return true;
}
template<typename... T>
using Tu = std::tuple<T...>;
using S = std::string;
using Decoder = bool (*)(const Bytes&, std::span<const std::byte>&);
static const Decoder decoders[] = {decodeAs<S>, decodeAs<S>, decodeAs<bool>, decodeAs<double>, decodeAs<float>, decodeAs<int>, decodeAs<std::int8_t>, decodeAs<std::uint8_t>, decodeAs<std::int16_t>,
                                   decodeAs<std::uint16_t>, decodeAs<std::uint32_t>, decodeAs<std::int64_t>, decodeAs<std::uint64_t>, decodeAs<Tu<>>, decodeAs<Tu<int>>, decodeAs<Tu<S, bool>>,
                                   decodeAs<Tu<Tu<S>, double>>, decodeAs<Tu<Tu<Tu<int, bool>, S>, Tu<>>>, decodeAs<char>, decodeAs<Tu<double, double, S>>};

static std::uint64_t decodeSome(mon::Rng& rng, const Bytes& bytes, std::span<const std::byte> data) {
    std::uint64_t types = 0;
    for (int n = 0; n < 12; ++n) {
        auto k = rng.below(std::size(decoders));
        types = types * 31 + k + 1;
        if (!decoders[k](bytes, data)) break;
    }
    return types;
}
static void interpret(mon::Rng& rng, const std::string& b) {
    Bytes bytes(b);
    std::uint64_t types = 0;
    { // handshake
        bool accepted = true;
        try {
            auto h = msg::Handshake::castFromRawData(bytes.span());
            auto e = h->getEndian();
            mon::check(b.size() >= 2 && static_cast<std::uint8_t>(e) == static_cast<std::uint8_t>(b[1]), "handshake endianness", [&] { return mon::show(b); });
            mon::check(bytes.holds(h->header()) && bytes.holds(h->payload()), "view outside the message", [&] { return mon::show(b); });
        }
        catch (const std::exception&) {
            accepted = false;
        }
        mon::check(accepted == (b.size() >= 2), "handshake size", [&] { return mon::show(b); });
    }
    for (int ret = 0; ret < 2; ++ret) { // call and return
        bool complete = false;
        if (b.size() >= 8) {
            std::uint32_t n;
            std::memcpy(&n, b.data() + 4, 4);
            complete = std::uint64_t{n} + 8 <= b.size();
        }
        const msg::FunctionCall* m = nullptr;
        try {
            m = ret ? msg::FunctionReturn::castFromRawData(bytes.span()) : msg::FunctionCall::castFromRawData(bytes.span());
        }
        catch (const std::exception&) {}
        mon::check((m != nullptr) == complete, complete ? "complete message refused" : "incomplete message accepted", [&] { return mon::show(b); });
        mon::count(m ? "messages accepted" : "messages refused");
        if (!m) continue;
        mon::check(m->getParametersCount() == static_cast<std::uint8_t>(b[1]), "parameters count", [&] { return mon::show(b); });
        auto h = m->header();
        auto p = m->payload();
        mon::check(bytes.holds(h) && bytes.holds(p) && p.size() == m->getPayloadSize(), "view outside the message", [&] { return mon::show(b); });
        types = types * 7 + decodeSome(rng, bytes, p);
        try {
            auto [name, rest] = m->getFunctionName();
            mon::check(bytes.holds(rest), "undecoded bytes outside the message", [&] { return mon::show(b); });
            auto left = rest;
            types = types * 7 + decodeSome(rng, bytes, left);
        }
        catch (const std::exception&) {}
    }
    mon::nontrivial(mon::mix(mon::fnv(b), types));
}
MON_SECTION(messages, 6000, 250000) { interpret(rng, hostile(rng)); }
MON_SECTION(parameters, 6000, 250000) { // parameters alone, valid or cut, into random types
    std::string b;
    for (auto n = 1 + rng.below(4); n > 0; --n) wire::encode(value(rng), b);
    if (rng.chance(60)) b.resize(rng.below(b.size() + 1));
    if (rng.chance(30) && !b.empty()) b[rng.below(b.size())] = static_cast<char>(rng.below(256));
    Bytes bytes(b);
    auto types = decodeSome(rng, bytes, bytes.span());
    mon::nontrivial(mon::mix(mon::fnv(b), types));
}
// every truncation of one call
MON_SECTION(truncations, 60, 2000) {
    std::vector<wire::Value> args;
    auto b = callBytes(rng, args);
    if (b.size() > 120) b.resize(120);
    for (std::size_t n = 0; n <= b.size(); ++n) {
        auto t = b.substr(0, n);
        interpret(rng, t);
        if (n >= 8) {
            auto size = static_cast<std::uint32_t>(n - 8);
            std::memcpy(t.data() + 4, &size, 4);
            interpret(rng, t);
        }
    }
}

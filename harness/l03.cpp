// L03: parameters survive an encode/decode round trip
#include "wire.hpp"
#include "http/WebSocket.hpp"
#include "networking/BasicNetworking.hpp"
#include "weblink/Messages.hpp"
#include <cfloat>
#include <limits>

MON_RULE("parameter lists of every supported type, random and boundary values, encoded into one message whose frame bytes are collected, then decoded into the same types; non-trivial = at least one parameter compared; distinct by encoded bytes");
MON_REQUIRE("parameters compared", 5000);
MON_REQUIRE("messages of more than 100 parameters", 10);
MON_REQUIRE("long strings", 20);

using namespace webfront;
using Net = networking::BasicNetworking<>;
using Frame = websocket::Frame<Net>;

template<typename T>
struct Gen {
    static T make(mon::Rng& rng) {
        if constexpr (std::is_same_v<T, bool>) return rng.coin();
        else if constexpr (std::is_integral_v<T>) { // exactly representable as doubles
            constexpr std::int64_t limit = std::int64_t{1} << 53;
            switch (rng.below(6)) {
            case 0: return static_cast<T>(rng.below(2));
            case 1: return sizeof(T) < 8 ? std::numeric_limits<T>::max() : static_cast<T>(limit);
            case 2: return sizeof(T) < 8 || !std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::min();
            case 3: return static_cast<T>(std::uint64_t{1} << rng.below(sizeof(T) * 8));
            default: {
                auto v = static_cast<T>(rng.next());
                if constexpr (sizeof(T) == 8) v = std::is_signed_v<T> ? static_cast<T>(static_cast<std::int64_t>(rng.next()) % limit) : static_cast<T>(rng.next() % limit);
                return v;
            }
            }
        }
        else {
            static const std::vector<T> special{T(0), -T(0), T(1), T(-1), T(0.1), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                                                std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(),
                                                std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::quiet_NaN(), T(1e10), T(4294967296.0)};
            if (rng.chance(40)) return rng.of(special);
            if constexpr (sizeof(T) == 8) {
                auto d = std::bit_cast<double>(rng.next());
                return std::isnan(d) ? 1.5 : d;
            }
            else {
                auto f = std::bit_cast<float>(static_cast<std::uint32_t>(rng.next()));
                return std::isnan(f) ? 1.5f : f;
            }
        }
    }
};
static std::string text(mon::Rng& rng) {
    static const std::vector<std::size_t> sizes{0, 1, 2, 125, 126, 127, 128, 254, 255, 256, 257, 1023, 1024, 1025};
    static const std::vector<std::size_t> big{4096, 32767, 32768, 65279, 65280, 65533, 65534, 65535};
    auto n = rng.chance(50) ? rng.below(20) : rng.chance(4) ? rng.of(big) : rng.chance(60) ? rng.of(sizes) : rng.size(2000);
    if (n > 4000) mon::count("long strings");
    return rng.chance(70) ? rng.bytes(n) : rng.from(std::string_view("ab\0cd\x03\x12", 7), n);
}
template<>
struct Gen<std::string> {
    static std::string make(mon::Rng& rng) { return text(rng); }
};
template<typename... Ts>
struct Gen<std::tuple<Ts...>> {
    static std::tuple<Ts...> make(mon::Rng& rng) { return std::tuple<Ts...>{Gen<Ts>::make(rng)...}; }
};

template<typename T>
bool same(const T& a, const T& b) {
    if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
    else return a == b;
}
template<typename... Ts>
bool same(const std::tuple<Ts...>& a, const std::tuple<Ts...>& b) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return (same(std::get<I>(a), std::get<I>(b)) && ...); }(std::index_sequence_for<Ts...>());
}
template<typename T>
std::string shown(const T& v) {
    if constexpr (std::is_arithmetic_v<T>) return wire::Value::num(static_cast<double>(v)).show();
    else return "'" + mon::show(v, 60) + "'(" + std::to_string(v.size()) + ")";
}
template<typename... Ts>
std::string shown(const std::tuple<Ts...>& t) {
    std::string r = "(";
    std::apply([&](auto&... v) { ((r += shown(v) + " "), ...); }, t);
    return r + ")";
}
/// payload of the one frame the buffers make up
static std::string collect(const Frame& frame) {
    std::string bytes;
    for (auto& b : frame.toBuffers()) bytes.append(static_cast<const char*>(b.data()), b.size());
    auto frames = wire::serverFrames(bytes);
    mon::check(frames.size() == 1, "one frame per message", [&] { return std::to_string(frames.size()) + " frames"; });
    return frames[0].payload;
}
/// owns an exact copy of some bytes, so that a read beyond them is detected
struct Bytes {
    explicit Bytes(std::string_view b) : size(b.size()), data(new std::byte[b.size()]) { std::memcpy(data.get(), b.data(), b.size()); }
    std::span<const std::byte> span() const { return {data.get(), size}; }
    std::size_t size;
    std::unique_ptr<std::byte[]> data;
};
template<typename T>
void decodeOne(const T& want, std::span<const std::byte>& data, std::size_t at) {
    T got{};
    try {
        msg::FunctionCall::decodeParameter(got, data);
    }
    catch (const std::exception& e) {
        mon::fail("decoding throws", "parameter " + std::to_string(at) + " " + shown(want) + ": " + e.what());
    }
    mon::check(same(got, want), "value changed", [&] { return "parameter " + std::to_string(at) + ": got " + shown(got) + " want " + shown(want); });
    mon::count("parameters compared");
}
static std::span<const std::byte> interpret(const Bytes& b) {
    auto m = msg::FunctionCall::castFromRawData(b.span());
    mon::check(m->getPayloadSize() == b.size - 8, "announced size", [&] { return std::to_string(m->getPayloadSize()) + " for " + std::to_string(b.size - 8) + " bytes"; });
    auto p = m->payload();
    mon::check(p.size() == b.size - 8 && p.data() == b.span().data() + 8, "payload view", [] { return "does not cover the bytes after the header"; });
    return p;
}
static void finished(std::span<const std::byte> data) {
    mon::check(data.empty(), "bytes left over", [&] { return std::to_string(data.size()) + " bytes"; });
}
template<typename... Ts>
void roundTrip(mon::Rng& rng) {
    std::tuple<Ts...> values{Gen<Ts>::make(rng)...};
    msg::FunctionCall message;
    Frame frame{message.header()};
    std::apply([&](auto&... v) { (message.encodeParameter(v, frame), ...); }, values);
    Bytes bytes(collect(frame));
    auto data = interpret(bytes);
    std::size_t at = 0;
    std::apply([&](auto&... v) { (decodeOne(v, data, at++), ...); }, values);
    finished(data);
    mon::nontrivial(std::string_view(reinterpret_cast<const char*>(bytes.data.get()), bytes.size));
    mon::sample(shown(values).substr(0, 200));
}
using S = std::string;
template<typename... T>
using Tu = std::tuple<T...>;
MON_SECTION(lists, 2400, 60000) {
    static void (*const lists[])(mon::Rng&) = {
        roundTrip<bool>, roundTrip<int>, roundTrip<double>, roundTrip<S>, roundTrip<float>, roundTrip<bool, bool, bool>, roundTrip<S, bool, S>, roundTrip<bool, int, S, double>,
        roundTrip<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t>, roundTrip<std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>, roundTrip<char, short, long, long long, unsigned long long>,
        roundTrip<S, S, S>, roundTrip<float, double, float>, roundTrip<Tu<int, S>>, roundTrip<Tu<bool, Tu<S, double>, bool>, S>, roundTrip<S, Tu<>, bool, Tu<bool>>,
        roundTrip<Tu<Tu<Tu<S, bool>, int>, float>, Tu<bool, bool>, int>, roundTrip<bool, S, bool, S, bool, S, int, int, int>, roundTrip<Tu<S, S, S, S>, Tu<bool, S>>, roundTrip<>, roundTrip<Tu<int, Tu<>, S>, Tu<>, Tu<Tu<>, Tu<Tu<>>>, bool>};
    lists[index % std::size(lists)](rng);
}
// any concatenation, up to the 255 parameters a message can announce
MON_SECTION(concatenations, 60, 1500) {
    std::size_t n = index % 3 == 0 ? 100 + rng.below(155) : 1 + rng.below(60);
    if (n > 100) mon::count("messages of more than 100 parameters");
    std::vector<bool> booleans;
    std::vector<double> numbers;
    std::vector<S> strings;
    std::vector<Tu<int, S>> tuples;
    std::vector<std::uint8_t> kinds(n);
    unsigned only = rng.below(6); // sometimes all of one kind
    for (auto& k : kinds) {
        k = static_cast<std::uint8_t>(only < 3 ? only : rng.below(4));
        if (k == 0) booleans.push_back(rng.coin());
        else if (k == 1) numbers.push_back(Gen<double>::make(rng));
        else if (k == 2) strings.push_back(rng.bytes(rng.below(8)));
        else tuples.push_back({static_cast<int>(rng.next()), rng.bytes(rng.below(5))});
    }
    msg::FunctionCall message;
    Frame frame{message.header()};
    std::size_t b = 0, d = 0, s = 0, t = 0;
    for (auto k : kinds) {
        if (k == 0) {
            bool v = booleans[b++];
            message.encodeParameter(v, frame);
        }
        else if (k == 1) message.encodeParameter(numbers[d++], frame);
        else if (k == 2) message.encodeParameter(strings[s++], frame);
        else message.encodeParameter(tuples[t++], frame);
    }
    Bytes bytes(collect(frame));
    auto data = interpret(bytes);
    b = d = s = t = 0;
    std::size_t at = 0;
    for (auto k : kinds) {
        if (k == 0) decodeOne<bool>(booleans[b++], data, at);
        else if (k == 1) decodeOne(numbers[d++], data, at);
        else if (k == 2) decodeOne(strings[s++], data, at);
        else decodeOne(tuples[t++], data, at);
        ++at;
    }
    finished(data);
    mon::nontrivial(std::string_view(reinterpret_cast<const char*>(bytes.data.get()), bytes.size));
}
// the other ways to pass a text, and exceptions
MON_SECTION(texts, 500, 8000) {
    auto s = text(rng);
    S c(s.c_str());
    std::string_view view = s;
    const char* pointer = c.c_str();
    S small = c.substr(0, 15);
    char array[16] = {};
    char exact[] = "an array of characters";
    std::copy(small.begin(), small.end(), array);
    struct Ex : std::exception {
        S t;
        const char* what() const noexcept override { return t.c_str(); }
    } ex;
    ex.t = c;
    std::runtime_error standard(small);
    msg::FunctionReturn message;
    Frame frame{message.header()};
    message.encodeParameter(view, frame);
    message.encodeParameter(pointer, frame);
    message.encodeParameter(ex, frame);
    message.encodeParameter(exact, frame);
    message.encodeParameter("literal", frame);
    message.encodeParameter(standard, frame);
    const S constant = s;
    message.encodeParameter(constant, frame);
    Bytes bytes(collect(frame));
    auto data = interpret(bytes);
    decodeOne(s, data, 0);
    decodeOne(c, data, 1);
    decodeOne(c, data, 2);
    decodeOne(S(exact), data, 3);
    decodeOne(S("literal"), data, 4);
    decodeOne(small, data, 5);
    decodeOne(s, data, 6);
    finished(data);
    mon::nontrivial(std::string_view(reinterpret_cast<const char*>(bytes.data.get()), bytes.size));
}
// every size of a string around the format boundaries
MON_SECTION(sizes, 700, 2200) {
    std::size_t n = index < 600 ? index : 65535 - (index - 600) * (index < 700 ? 1 : 41);
    S s = rng.bytes(n), after = "after";
    if (n > 4000) mon::count("long strings");
    msg::FunctionCall message;
    Frame frame{message.header()};
    message.encodeParameter(s, frame);
    message.encodeParameter(after, frame);
    Bytes bytes(collect(frame));
    auto data = interpret(bytes);
    decodeOne(s, data, 0);
    decodeOne(after, data, 1);
    finished(data);
    mon::nontrivial(n);
}

// E02: base64 encoding equals RFC 4648 for every length
#include "models.hpp"
#include "monitor.hpp"
#include "http/Encodings.hpp"
#include <span>

MON_RULE("containers of bytes, 16/32/64-bit integers of every length 0..N and random contents, memory and network order; non-trivial = non-empty, distinct by type, order and bytes");
MON_REQUIRE("encodings", 1000);

template<typename T>
std::string memory(const std::vector<T>& v) {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
template<typename T>
std::string network(const std::vector<T>& v) {
    std::string r;
    for (auto e : v)
        for (std::size_t i = sizeof(T); i-- > 0;) r += static_cast<char>(static_cast<std::uint64_t>(e) >> (8 * i));
    return r;
}
static void compare(const std::string& got, const std::string& bytes, const char* what) {
    auto want = model::base64(bytes);
    mon::count("encodings");
    if (!bytes.empty()) mon::nontrivial(mon::mix(mon::fnv(bytes), mon::fnv(what)));
    mon::check(got == want, what, [&] { return std::to_string(bytes.size()) + " bytes '" + mon::show(bytes, 60) + "': " + mon::differ(got, want); });
    if (bytes.size() < 30) mon::sample(std::string(what) + " '" + mon::show(bytes) + "' -> " + got);
}
template<typename T>
void integers(mon::Rng& rng, std::size_t n, const char* memName, const char* netName) {
    std::vector<T> v(n);
    for (auto& e : v) e = static_cast<T>(rng.next());
    v.shrink_to_fit();
    compare(webfront::base64::encode(v), memory(v), memName);
    compare(webfront::base64::encodeInNetworkOrder(v), network(v), netName);
}
template<std::size_t N>
void arrays(mon::Rng& rng) {
    std::array<std::uint8_t, N> a;
    for (auto& e : a) e = static_cast<std::uint8_t>(rng.next());
    compare(webfront::base64::encode(a), std::string(reinterpret_cast<const char*>(a.data()), N), "array of bytes");
    std::array<std::uint32_t, N> w;
    std::string net;
    for (auto& e : w) e = static_cast<std::uint32_t>(rng.next());
    for (auto e : w)
        for (int i = 3; i >= 0; --i) net += static_cast<char>(e >> (8 * i));
    compare(webfront::base64::encodeInNetworkOrder(w), net, "array of 32-bit integers, network order");
}
static void all(mon::Rng& rng, std::size_t n) {
    auto s = rng.bytes(n);
    s.shrink_to_fit();
    compare(webfront::base64::encode(s), s, "string");
    auto heap = std::make_unique<char[]>(n);
    std::copy(s.begin(), s.end(), heap.get());
    compare(webfront::base64::encode(std::string_view(heap.get(), n)), s, "string_view");
    std::vector<std::uint8_t> v(s.begin(), s.end());
    compare(webfront::base64::encode(v), s, "vector of bytes");
    compare(webfront::base64::encode(std::string(n, '\0')), std::string(n, '\0'), "zero bytes");
    compare(webfront::base64::encode(std::string(n, '\xff')), std::string(n, '\xff'), "0xff bytes");
    integers<std::uint16_t>(rng, n, "16-bit integers", "16-bit integers, network order");
    integers<std::uint32_t>(rng, n, "32-bit integers", "32-bit integers, network order");
    integers<std::uint64_t>(rng, n, "64-bit integers", "64-bit integers, network order");
}
MON_SECTION(lengths, 520, 3000) { all(rng, index); }
MON_SECTION(random, 400, 8000) { all(rng, rng.chance(4) ? 65000 + rng.below(8000) * (1 + rng.below(10)) : rng.size(2000)); }
MON_SECTION(arrays, 40, 400) {
    arrays<1>(rng);
    arrays<2>(rng);
    arrays<3>(rng);
    arrays<4>(rng);
    arrays<5>(rng);
    arrays<6>(rng);
    arrays<7>(rng);
    arrays<20>(rng);
    arrays<48>(rng);
}
// every 1-byte and 2-byte input, and every value of each of the 4 code positions
MON_SECTION(exhaustive, 256, 256) {
    compare(webfront::base64::encode(std::string(1, static_cast<char>(index))), std::string(1, static_cast<char>(index)), "1 byte");
    for (int b = 0; b < 256; ++b) {
        std::string two{static_cast<char>(index), static_cast<char>(b)};
        compare(webfront::base64::encode(two), two, "2 bytes");
    }
    for (int k = 0; k < 64; ++k) {
        std::string three{static_cast<char>(rng.next()), static_cast<char>(index), static_cast<char>(rng.next())};
        compare(webfront::base64::encode(three), three, "3 bytes");
    }
}

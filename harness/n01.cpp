// N01: network buffer views describe exactly the memory they were made from
#include "monitor.hpp"
#include "networking/BasicNetworking.hpp"

MON_RULE("views of arrays, std::arrays, vectors, strings, string views and raw memory of many element types, whole, limited and advanced; non-trivial = a view compared; distinct by kind, element size, size, limit and advances");
MON_REQUIRE("views compared", 5000);
MON_REQUIRE("advances", 5000);
MON_REQUIRE("limited views", 2000);

using Net = webfront::networking::BasicNetworking<>;
using Const = Net::ConstBuffer;
using Mutable = Net::MutableBuffer;

struct Triple {
    std::uint8_t a[3];
};
static std::uint64_t tag;
template<typename View>
void expect(const View& v, const void* data, std::size_t size, const char* what) {
    mon::check(v.size() == size, "size", [&] { return std::string(what) + ": " + std::to_string(v.size()) + " want " + std::to_string(size); });
    mon::check(size == 0 || v.data() == data, "address", [&] { return std::string(what); });
    mon::count("views compared");
    mon::nontrivial(mon::mix(mon::mix(tag, mon::fnv(what)), size));
}
/// advancing: the model is a plain offset
template<typename View>
void advance(mon::Rng& rng, View v, const void* data, std::size_t size, const char* what) {
    std::size_t at = 0;
    for (int n = 0; n < 6; ++n) {
        static const std::vector<std::size_t> big{static_cast<std::size_t>(-1), static_cast<std::size_t>(-1) / 2, static_cast<std::size_t>(-1) - 7, std::size_t{1} << 32};
        std::size_t by = rng.chance(15) ? rng.of(big) : rng.chance(20) ? size - at : rng.chance(15) ? size - at + 1 : rng.below(size / 2 + 3);
        View& r = v += by;
        at = by > size - at ? size : at + by;
        mon::check(&r == &v, "result of advancing", [&] { return std::string(what); });
        mon::check(v.size() == size - at, "size after advancing", [&] { return std::string(what) + ": " + std::to_string(v.size()) + " want " + std::to_string(size - at) + " after advancing by " + std::to_string(by); });
        if (data && v.size()) mon::check(v.data() == static_cast<const char*>(data) + at, "address after advancing", [&] { return std::string(what); });
        if (data) { // never leaves the original bytes
            auto p = static_cast<const char*>(v.data()), b = static_cast<const char*>(data);
            mon::check(p >= b && p + v.size() <= b + size, "advanced view leaves the original bytes", [&] { return std::string(what); });
            unsigned sum = 0;
            for (std::size_t k = 0; k < v.size(); ++k) sum += static_cast<unsigned char>(p[k]); // watched by the sanitizer
            mon::count("bytes read through views", static_cast<long long>(v.size()) + (sum & 0));
        }
        mon::count("advances");
    }
}
template<typename View>
void limited(mon::Rng& rng, const View& v, const void* data, std::size_t size, std::size_t limit, const char* what) {
    expect(v, data, std::min(size, limit), what);
    mon::count("limited views");
    advance(rng, v, std::min(size, limit) ? data : nullptr, std::min(size, limit), what);
}
/// the size of n elements, as large as a size can be told
static std::size_t bytesOf(std::size_t n, std::size_t each) { return n > static_cast<std::size_t>(-1) / each ? static_cast<std::size_t>(-1) : n * each; }
static std::size_t limitFor(mon::Rng& rng, std::size_t count) {
    switch (rng.below(7)) {
    case 5: return static_cast<std::size_t>(-1) >> rng.below(8);                                 // "everything"
    case 6: return (std::size_t{1} << (56 + rng.below(8))) + (rng.coin() ? 0 : rng.below(count + 3)); // counts whose sizes overflow
    case 0: return 0;
    case 1: return count;
    case 2: return count + 1 + rng.below(10);
    case 3: return std::size_t{1} << 40;
    default: return rng.below(count + 1);
    }
}
template<typename T>
T filler(mon::Rng& rng) {
    T t;
    for (std::size_t k = 0; k < sizeof t; ++k) reinterpret_cast<unsigned char*>(&t)[k] = static_cast<unsigned char>(rng.below(2));
    return t;
}
template<typename T>
void vectors(mon::Rng& rng) {
    std::size_t n = rng.size(300);
    std::vector<T> v(n);
    for (auto& e : v) e = filler<T>(rng);
    v.shrink_to_fit();
    const auto& c = v;
    auto size = n * sizeof(T);
    expect(Net::Buffer(v), v.data(), size, "vector");
    expect(Net::Buffer(c), v.data(), size, "const vector");
    static_assert(std::is_same_v<decltype(Net::Buffer(v)), Mutable> && std::is_same_v<decltype(Net::Buffer(c)), Const>);
    advance(rng, Net::Buffer(v), n ? v.data() : nullptr, size, "vector");
    advance(rng, Net::Buffer(c), n ? v.data() : nullptr, size, "const vector");
    auto l = limitFor(rng, n);
    limited(rng, Net::Buffer(v, l), v.data(), size, bytesOf(l, sizeof(T)), "vector, limited");
    limited(rng, Net::Buffer(c, l), v.data(), size, bytesOf(l, sizeof(T)), "const vector, limited");
}
template<typename T, std::size_t N>
void arrays(mon::Rng& rng) {
    auto raw = std::make_unique<T[]>(N); // exactly sized heap memory
    for (std::size_t k = 0; k < N; ++k) raw[k] = filler<T>(rng);
    auto& a = *reinterpret_cast<T(*)[N]>(raw.get());
    const auto& c = a;
    auto size = N * sizeof(T);
    expect(Net::Buffer(a), raw.get(), size, "array");
    expect(Net::Buffer(c), raw.get(), size, "const array");
    advance(rng, Net::Buffer(a), raw.get(), size, "array");
    advance(rng, Net::Buffer(c), raw.get(), size, "const array");
    auto s = std::make_unique<std::array<T, N>>();
    for (auto& e : *s) e = filler<T>(rng);
    expect(Net::Buffer(*s), s->data(), size, "std::array");
    advance(rng, Net::Buffer(*s), s->data(), size, "std::array");
    auto& cs = reinterpret_cast<std::array<const T, N>&>(*s); // constant elements
    expect(Net::Buffer(cs), s->data(), size, "std::array of constants");
    static_assert(std::is_same_v<decltype(Net::Buffer(cs)), Const>);
    advance(rng, Net::Buffer(cs), s->data(), size, "std::array of constants");
    auto l = limitFor(rng, N);
    limited(rng, Net::Buffer(cs, l), s->data(), size, bytesOf(l, sizeof(T)), "std::array of constants, limited");
    limited(rng, Net::Buffer(a, l), raw.get(), size, bytesOf(l, sizeof(T)), "array, limited");
    limited(rng, Net::Buffer(c, l), raw.get(), size, bytesOf(l, sizeof(T)), "const array, limited");
    limited(rng, Net::Buffer(*s, l), s->data(), size, bytesOf(l, sizeof(T)), "std::array, limited");
}
template<typename C>
void strings(mon::Rng& rng) {
    std::basic_string<C> s;
    auto n = rng.size(200);
    for (std::size_t k = 0; k < n; ++k) s.push_back(static_cast<C>(rng.below(200)));
    const auto& c = s;
    auto size = n * sizeof(C);
    expect(Net::Buffer(s), s.data(), size, "string");
    expect(Net::Buffer(c), s.data(), size, "const string");
    advance(rng, Net::Buffer(s), n ? s.data() : nullptr, size, "string");
    advance(rng, Net::Buffer(c), n ? s.data() : nullptr, size, "const string");
    auto from = rng.below(n + 1), count = rng.below(n - from + 1);
    std::basic_string_view<C> v = std::basic_string_view<C>(s).substr(from, count);
    expect(Net::Buffer(v), v.data(), count * sizeof(C), "string view");
    advance(rng, Net::Buffer(v), count ? v.data() : nullptr, count * sizeof(C), "string view");
    auto l = limitFor(rng, n);
    limited(rng, Net::Buffer(s, l), s.data(), size, bytesOf(l, sizeof(C)), "string, limited");
    limited(rng, Net::Buffer(c, l), s.data(), size, bytesOf(l, sizeof(C)), "const string, limited");
    limited(rng, Net::Buffer(v, l), v.data(), count * sizeof(C), bytesOf(l, sizeof(C)), "string view, limited");
}
MON_SECTION(vectors, 1500, 40000) {
    tag = index % 6;
    switch (index % 6) {
    case 0: vectors<char>(rng); break;
    case 1: vectors<std::uint8_t>(rng); break;
    case 2: vectors<std::uint16_t>(rng); break;
    case 3: vectors<std::uint64_t>(rng); break;
    case 4: vectors<Triple>(rng); break;
    default: vectors<std::byte>(rng); break;
    }
}
MON_SECTION(arrays, 1500, 40000) {
    static void (*const all[])(mon::Rng&) = {arrays<char, 1>, arrays<char, 2>, arrays<std::uint8_t, 512>, arrays<std::byte, 8192>, arrays<std::uint16_t, 3>, arrays<std::uint32_t, 64>, arrays<std::uint64_t, 5>, arrays<Triple, 7>, arrays<double, 9>};
    tag = index % std::size(all);
    all[tag](rng);
}
MON_SECTION(strings, 1500, 40000) {
    tag = index % 3;
    switch (index % 3) {
    case 0: strings<char>(rng); break;
    case 1: strings<char16_t>(rng); break;
    default: strings<wchar_t>(rng); break;
    }
}
MON_SECTION(raw, 1500, 40000) {
    auto n = rng.size(400);
    auto m = std::make_unique<char[]>(n);
    std::fill_n(m.get(), n, 'x');
    void* p = m.get();
    const void* c = p;
    tag = 0;
    expect(Net::Buffer(p, n), p, n, "memory");
    expect(Net::Buffer(c, n), p, n, "const memory");
    auto l = limitFor(rng, n);
    limited(rng, Net::Buffer(Mutable(p, n), l), p, n, l, "mutable view, limited");
    limited(rng, Net::Buffer(Const(c, n), l), p, n, l, "const view, limited");
    expect(Net::Buffer(Mutable(p, n)), p, n, "mutable view");
    expect(Net::Buffer(Const(c, n)), p, n, "const view");
    expect(Const(Mutable(p, n)), p, n, "converted view");
    advance(rng, Mutable(p, n), p, n, "memory");
    advance(rng, Const(c, n), p, n, "const memory");
    expect(Mutable(), nullptr, 0, "default view");
    expect(Const(), nullptr, 0, "default view");
    advance(rng, Mutable(), nullptr, 0, "default view");
    advance(rng, Const(), nullptr, 0, "default view");
}

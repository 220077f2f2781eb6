// E03: percent-encoding round-trips every byte string
#include "models.hpp"
#include "monitor.hpp"
#include "locales.hpp"
#include "http/Encodings.hpp"

MON_RULE("every 1- and 2-byte string, random strings and strings dense in '%', '+', hexadecimal digits and high bytes; non-trivial = contains a byte that is escaped, or an escape; distinct by text and direction");
MON_REQUIRE("encodings", 1000);
MON_REQUIRE("decodings", 1000);

static std::string_view heap(const std::string& s, std::unique_ptr<char[]>& keep) {
    keep = std::make_unique<char[]>(s.size());
    std::copy(s.begin(), s.end(), keep.get());
    return {keep.get(), s.size()};
}
static void encodeAndBack(const std::string& s) {
    std::unique_ptr<char[]> keep;
    auto got = webfront::uri::encode(heap(s, keep));
    auto want = model::percentEncode(s);
    mon::count("encodings");
    if (want != s) mon::nontrivial(mon::mix(1, mon::fnv(s)));
    mon::check(got == want, "encode", [&] { return "encode('" + mon::show(s) + "') " + mon::differ(got, want); });
    auto back = webfront::uri::decode(got);
    mon::check(back == s, "round trip", [&] { return "decode(encode('" + mon::show(s) + "')) " + mon::differ(back, s); });
    if (s.size() < 30) mon::sample("encode('" + mon::show(s) + "') = " + got);
}
static void decode(const std::string& s) {
    std::unique_ptr<char[]> keep;
    auto got = webfront::uri::decode(heap(s, keep));
    auto want = model::percentDecode(s);
    mon::count("decodings");
    if (want != s) mon::nontrivial(mon::mix(2, mon::fnv(s)));
    mon::check(got == want, "decode", [&] { return "decode('" + mon::show(s) + "') " + mon::differ(got, want); });
    if (s.size() < 30) mon::sample("decode('" + mon::show(s) + "') = '" + mon::show(got) + "'");
}
MON_SECTION(exhaustive, 256, 256) {
    encodeAndBack(std::string(1, static_cast<char>(index)));
    decode(std::string(1, static_cast<char>(index)));
    for (int b = 0; b < 256; ++b) {
        std::string two{static_cast<char>(index), static_cast<char>(b)};
        encodeAndBack(two);
        decode(two);
        decode("%" + two);          // every pair after '%'
        decode("x%" + two + "y");
    }
}
MON_SECTION(random, 1500, 60000) {
    auto s = rng.bytes(rng.chance(2) ? 60000 + rng.below(80000) : rng.size(400));
    encodeAndBack(s);
    decode(s);
}
MON_SECTION(dense, 1500, 60000) {
    auto s = rng.from("%%%%++0123456789abcdefABCDEFgG/.-_~ \x80\xff", rng.chance(2) ? rng.below(140000) : rng.size(200));
    decode(s);
    encodeAndBack(s);
}
MON_SECTION(truncated, 400, 4000) {
    auto s = rng.bytes(rng.below(20));
    for (auto tail : {"%", "%4", "%G", "%4g", "%%", "%%4", "%%41", "+", "%+1", "%1+", "%2B", "%2b", "%25", "%00", "%fF"}) decode(s + tail);
}
MON_SECTION(locales, 6, 60) { // the encoding is that of bytes, whatever the locale of the application
    mon::Locale locale(index);
    for (int c = 0; c < 256; ++c) {
        encodeAndBack(std::string(1, static_cast<char>(c)));
        decode("%" + std::string(1, static_cast<char>(c)) + "4");
    }
    for (int i = 0; i < 60; ++i) {
        auto s = rng.bytes(rng.size(200));
        encodeAndBack(s);
        decode(s);
    }
}

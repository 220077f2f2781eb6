// E01: SHA-1 equals FIPS 180-4 on every input
#include "monitor.hpp"
#include "models.hpp"
#include "http/Encodings.hpp"

MON_RULE("messages of every length 0..N (all padding positions) and random longer ones; contents random, zero, 0xFF, single-bit; non-trivial = length > 0, distinct by message");
MON_REQUIRE("digests", 500);

static void compare(const std::string& input) {
    // an exactly sized heap copy makes any read outside the input visible to the sanitizer
    auto heap = std::make_unique<char[]>(input.size());
    std::copy(input.begin(), input.end(), heap.get());
    std::string_view view(heap.get(), input.size());
    auto want = model::sha1(input);
    auto got = webfront::crypto::sha1(view);
    mon::count("digests");
    if (!input.empty()) mon::nontrivial(input);
    mon::check(std::equal(got.begin(), got.end(), want.begin(), want.end()), "digest", [&] { return "SHA-1 of " + std::to_string(input.size()) + " bytes '" + mon::show(input) + "'"; });
    std::string hex;
    for (auto w : want) {
        char b[9];
        std::snprintf(b, sizeof b, "%08x", w);
        hex += b;
    }
    auto text = webfront::crypto::sha1String(view);
    mon::check(text == hex, "text", [&] { return "sha1String gave '" + mon::show(text) + "' want " + hex; });
    if (input.size() < 200) mon::sample("sha1('" + mon::show(input, 40) + "') = " + hex);
}

MON_SECTION(lengths, 700, 6000) {
    compare(rng.bytes(index));
    compare(std::string(index, '\0'));
    compare(std::string(index, '\xff'));
    compare(std::string(index, '\x80'));
}
MON_SECTION(random, 800, 30000) {
    auto s = rng.bytes(rng.size(3000));
    if (rng.coin() && !s.empty()) {
        s.assign(s.size(), '\0');
        s[rng.below(s.size())] = static_cast<char>(1 << rng.below(8));
    }
    compare(s);
}
// lengths whose bit count needs the second, third and fourth byte of the length field
MON_SECTION(large, 24, 200) {
    std::size_t n = std::size_t{1} << (13 + rng.below(mon::thorough() ? 11 : 5));
    n += rng.below(n);
    auto unit = rng.bytes(997);
    std::string s;
    s.reserve(n + unit.size());
    while (s.size() < n) s += unit;
    s.resize(n);
    compare(s);
}
// more than 2^24 bytes: the length in bits fills all four bytes the encoder writes
MON_SECTION(huge, 1, 6) {
    std::size_t n = index == 0 ? (std::size_t{1} << 21) + 5 : (std::size_t{1} << (21 + index)) + rng.below(100);
    compare(std::string(n, static_cast<char>(rng.below(256))));
}
// 2^29 bytes and more: the length in bits needs more than 32 bits
MON_SECTION(beyond, 2, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(400);
    static const std::size_t sizes[] = {(std::size_t{1} << 29) - 1, (std::size_t{1} << 29) + 57, (std::size_t{5} << 30) + 3};
    auto n = sizes[index];
    auto input = std::make_unique<char[]>(n);
    std::memset(input.get(), static_cast<int>(rng.below(256)), n);
    for (int k = 0; k < 1000; ++k) input[rng.below(n)] = static_cast<char>(rng.next());
    std::string_view view(input.get(), n);
    auto got = webfront::crypto::sha1(view);
    auto want = model::sha1(view);
    mon::check(std::equal(got.begin(), got.end(), want.begin(), want.end()), "digest", [&] { return "SHA-1 of " + std::to_string(n) + " bytes"; });
    mon::count("digests of more than 500 MB");
    mon::nontrivial(n);
}

// T02: a hex dump shows exactly the bytes of the buffer
#include "models.hpp"
#include "monitor.hpp"
#include "locales.hpp"
#include "tooling/HexDump.hpp"
#include <deque>
#include <span>

MON_RULE("buffers of every length 0..N and up to 70000 bytes, of random contents and long runs of one value, of bytes and wider elements, with start addresses, in one and two pieces, and written to streams with assorted formatting; the dump is parsed back; non-trivial = non-empty, distinct by contents and form");
MON_REQUIRE("dumps", 2000);

using webfront::utils::hexDump;
using webfront::utils::HexDump;

static void parseBack(const std::string& dump, const std::string& bytes, std::size_t start, const std::string& what) {
    mon::count("dumps");
    if (!bytes.empty()) mon::nontrivial(mon::mix(mon::fnv(bytes), mon::mix(start, mon::fnv(what))));
    auto bad = [&](const char* key, const std::string& why) {
        mon::fail(key, what + " of " + std::to_string(bytes.size()) + " bytes '" + mon::show(bytes, 60) + "' from " + std::to_string(start) + ": " + why + " in\n" + dump.substr(0, 600));
    };
    std::vector<std::string> lines;
    for (std::size_t at = 0; at <= dump.size();) {
        auto nl = dump.find('\n', at);
        if (nl == std::string::npos) nl = dump.size();
        lines.push_back(dump.substr(at, nl - at));
        at = nl + 1;
    }
    if (bytes.empty()) {
        if (!dump.empty()) bad("empty buffer", "not an empty dump");
        return;
    }
    if (lines.size() != (bytes.size() + 15) / 16) bad("number of lines", std::to_string(lines.size()) + " lines");
    for (std::size_t l = 0; l < lines.size(); ++l) {
        std::string_view t = lines[l];
        auto want = std::string_view(bytes).substr(16 * l, 16);
        char addr[32];
        std::snprintf(addr, sizeof addr, "%08zx", 16 * l + start);
        auto sp = t.find(' ');
        if (sp == std::string_view::npos || model::lower(t.substr(0, sp)) != addr) bad("address", "line " + std::to_string(l) + " wants " + addr);
        t.remove_prefix(sp);
        for (unsigned char b : want) {
            std::size_t blanks = 0;
            while (!t.empty() && t[0] == ' ') {
                t.remove_prefix(1);
                ++blanks;
            }
            if (blanks == 0 || t.size() < 2) bad("byte cell", "line " + std::to_string(l));
            int hi = model::hexValue(static_cast<unsigned char>(t[0])), lo = model::hexValue(static_cast<unsigned char>(t[1]));
            if (hi < 0 || lo < 0 || hi * 16 + lo != b) bad("byte value", "line " + std::to_string(l));
            t.remove_prefix(2);
        }
        if (t.size() < want.size() || t[0] != ' ') bad("text column", "line " + std::to_string(l));
        // the text column closes the line; before it only blanks
        auto text = t.substr(t.size() - want.size());
        auto gap = t.substr(0, t.size() - want.size());
        if (gap.find_first_not_of(' ') != std::string_view::npos) bad("byte cell", "something between bytes and text in line " + std::to_string(l));
        for (std::size_t i = 0; i < want.size(); ++i) {
            auto b = static_cast<unsigned char>(want[i]);
            if (b >= 32 && b < 127 ? text[i] != want[i] : b != 127 && (text[i] < 32 || text[i] > 126)) bad("text column", "line " + std::to_string(l));
        }
    }
    if (bytes.size() < 40) mon::sample(what + ":\n" + dump);
}
template<typename T>
std::string raw(const std::vector<T>& v) {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
template<typename T>
std::vector<T> elements(mon::Rng& rng, std::size_t n) {
    std::vector<T> v(n);
    for (auto& e : v) {
        auto r = rng.next();
        std::memcpy(&e, &r, sizeof e);
    }
    v.shrink_to_fit();
    return v;
}
static std::size_t startAddress(mon::Rng& rng) {
    switch (rng.below(4)) {
    case 0: return 0;
    case 1: return 16 * rng.below(1000);
    case 2: return rng.below(100000);
    default: return rng.next() >> rng.below(64);
    }
}
static void all(mon::Rng& rng, std::size_t n) {
    auto s = rng.chance(30) ? rng.from("printable TEXT ~!09", n) : rng.bytes(n);
    s.shrink_to_fit();
    auto start = startAddress(rng);
    if (start > ~std::size_t{0} - 8 * n - 16) start = 0;
    parseBack(hexDump(s), s, 0, "string");
    parseBack(hexDump(s, start), s, start, "string");
    auto heap = std::make_unique<char[]>(n);
    std::copy(s.begin(), s.end(), heap.get());
    parseBack(hexDump(std::string_view(heap.get(), n), start), s, start, "string_view");
    std::span<const std::byte> sp(reinterpret_cast<const std::byte*>(heap.get()), n);
    parseBack(hexDump(sp), s, 0, "span of bytes");
    auto w = elements<std::uint32_t>(rng, n);
    parseBack(hexDump(w, start), raw(w), start, "32-bit elements");
    auto q = elements<std::uint16_t>(rng, n);
    parseBack(hexDump(q), raw(q), 0, "16-bit elements");
}
MON_SECTION(lengths, 300, 2000) { all(rng, index); }
MON_SECTION(random, 400, 12000) { all(rng, rng.size(600)); }
MON_SECTION(big, 16, 200) {
    mon::allow(60);
    std::string s(4000 + rng.below(rng.coin() ? 300 : 66000), static_cast<char>(rng.coin() ? 0 : rng.next()));
    for (std::size_t k = rng.below(40); k-- > 0;) s[rng.below(s.size())] = static_cast<char>(rng.next()); // else runs of one value
    auto start = startAddress(rng) >> 3;
    parseBack(hexDump(s, start), s, start, "string");
    parseBack(hexDump(std::span(reinterpret_cast<const std::byte*>(s.data()), s.size())), s, 0, "span of bytes");
    auto cut = rng.below(s.size());
    parseBack(hexDump(s.substr(0, cut), s.substr(cut)), s, 0, "two strings");
}
MON_SECTION(two, 600, 16000) {
    auto a = rng.bytes(rng.size(80)), b = rng.bytes(rng.size(80));
    a.shrink_to_fit();
    b.shrink_to_fit();
    parseBack(hexDump(a, b), a + b, 0, "two strings");
    std::vector<std::uint8_t> va(a.begin(), a.end()), vb(b.begin(), b.end());
    parseBack(hexDump(va, vb), a + b, 0, "two vectors");
    auto wa = elements<std::uint16_t>(rng, rng.below(20)), wb = elements<std::uint16_t>(rng, rng.below(20));
    parseBack(hexDump(wa, wb), raw(wa) + raw(wb), 0, "two vectors of 16-bit elements");
}
static void streams(mon::Rng& rng) {
    auto s = rng.bytes(rng.size(70));
    std::stringstream os;
    if (rng.coin()) os << std::hex;
    if (rng.coin()) os << std::uppercase;
    if (rng.chance(30)) os << std::showbase;
    if (rng.chance(30)) os << std::showpos;
    if (rng.chance(30)) os << std::left;
    if (rng.chance(20)) os << std::internal;
    if (rng.chance(30)) os << std::scientific << std::boolalpha;
    if (rng.coin()) os.fill(rng.of(std::string("*_ 0x")));
    os.precision(static_cast<int>(rng.below(12)));
    auto flags = os.flags();
    auto fill = os.fill();
    auto precision = os.precision();
    os << HexDump<std::string>(s);
    auto dump = os.str();
    auto where = [&] { return "dump of " + std::to_string(s.size()) + " bytes, fill '" + mon::show(std::string(1, fill)) + "' became '" + mon::show(std::string(1, os.fill())) + "'"; };
    mon::check(os.flags() == flags, "stream flags changed", where);
    mon::check(os.fill() == fill, "stream fill changed", where);
    mon::check(os.precision() == precision, "stream precision changed", where);
    parseBack(dump, s, 0, "stream");
}
MON_SECTION(streams, 800, 20000) { streams(rng); }
MON_SECTION(locales, 6, 60) { // digits are not grouped, whatever the locale of the application
    mon::Locale locale(index);
    for (int i = 0; i < 12; ++i) all(rng, rng.size(600));
    all(rng, 4096 + rng.below(300)); // addresses of more than three digits
    for (int i = 0; i < 12; ++i) streams(rng);
}

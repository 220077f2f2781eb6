// F01: reading a file yields its exact bytes for every buffer pattern
#include "models.hpp"
#include "monitor.hpp"
#include "scratch.hpp"
#include "system/FileSystem.hpp"
#include "system/NativeFS.hpp"
#include <cstring>
#include <fstream>
#include <map>
#include <span>
#include <sys/mman.h>

MON_RULE("virtual and native files of size 0..N with random contents, read with constant buffer sizes and random sequences of sizes (including 0), moved between reads; non-trivial = at least two reads; distinct by kind, contents and sequence");
MON_REQUIRE("reads", 5000);
MON_REQUIRE("bytes", 100000);

using webfront::fs::File;

/// the library's storage: bytes packed big-endian into exactly as many 64-bit words as needed
struct Packed {
    explicit Packed(const std::string& s) : words(std::make_unique<std::uint64_t[]>((s.size() + 7) / 8)), count((s.size() + 7) / 8) {
        for (std::size_t i = 0; i < count; ++i) words[i] = 0;
        for (std::size_t i = 0; i < s.size(); ++i) words[i / 8] |= std::uint64_t{static_cast<unsigned char>(s[i])} << (56 - 8 * (i % 8));
    }
    std::span<const std::uint64_t> span() const { return {words.get(), count}; }
    std::unique_ptr<std::uint64_t[]> words;
    std::size_t count;
};

// reads the whole file; nextSize gives the size of the next buffer
static void drain(File file, const std::string& content, const std::string& kind, const std::function<std::size_t()>& nextSize, bool moves) {
    std::string got;
    std::string sequence;
    auto holder = std::make_unique<File>(std::move(file));
    std::size_t reads = 0, zeros = 0;
    auto where = [&] { return kind + " of " + std::to_string(content.size()) + " bytes, reads" + sequence.substr(0, 200) + ": "; };
    for (bool done = false; !done;) {
        if (holder->eof()) mon::check(got.size() == content.size(), "eof reported early", [&] { return where() + "after " + std::to_string(got.size()); });
        auto n = nextSize();
        auto buffer = std::make_unique<char[]>(n); // exactly sized: the sanitizer sees any write beyond it
        std::fill_n(buffer.get(), n, '\x5a');
        auto r = holder->read(std::span<char>(buffer.get(), n));
        sequence += " " + std::to_string(n);
        ++reads;
        mon::count("reads");
        auto left = content.size() - got.size();
        mon::check(r == std::min(n, left), r > n ? "more than the buffer holds" : r < std::min(n, left) ? "short read" : "beyond the end of the file",
                   [&] { return where() + "returned " + std::to_string(r) + " with " + std::to_string(left) + " bytes left"; });
        got.append(buffer.get(), r);
        mon::check(std::string_view(content).substr(0, got.size()) == got, "wrong bytes", [&] { return where() + mon::differ(got, content); });
        for (std::size_t i = r; i < n; ++i)
            mon::check(buffer[i] == '\x5a', "writes beyond the bytes it returns", [&] { return where() + "at " + std::to_string(i); });
        if (left == 0 && n > 0 && ++zeros >= 3) done = true; // reads after the end give 0, repeatedly
        if (moves && reads % 3 == 0) holder = std::make_unique<File>(std::move(*holder));
    }
    mon::count("bytes", static_cast<long long>(got.size()));
    if (reads > 2) mon::nontrivial(kind + sequence + content);
    if (content.size() < 100) mon::sample(kind + " of " + std::to_string(content.size()) + " bytes, buffer sizes" + sequence.substr(0, 100));
}
static std::string contents(mon::Rng& rng, std::size_t n) {
    switch (rng.below(4)) {
    case 0: return rng.from(std::string("\r\n\x1a\0\xff", 5), n);
    case 1: return std::string(n, '\0');
    default: return rng.bytes(n);
    }
}
static std::function<std::size_t()> sizes(mon::Rng& rng) {
    if (rng.chance(12)) return [&rng] { return rng.below(70000); };
    auto mode = rng.below(4);
    std::size_t fixed = 1 + rng.below(700);
    if (mode == 0) return [fixed] { return fixed; };
    if (mode == 1) return [&rng] { return rng.below(10); };
    if (mode == 2) return [&rng] { return rng.size(1500); };
    return [&rng, k = std::size_t{0}]() mutable { return ++k % 2 ? 8 * rng.below(5) : rng.below(20); };
}
// every file size around the word size with every constant buffer size
MON_SECTION(constant, 700, 1400) {
    std::size_t size = index % 35, n = 1 + index / 35;
    auto c = rng.bytes(size);
    Packed p(c);
    drain(File(p.span(), size), c, "virtual", [n] { return n; }, false);
    drain(File(p.span(), size, "br"), c, "virtual encoded", [&] { return 1 + rng.below(n); }, true);
}
MON_SECTION(sequences, 2500, 60000) {
    auto c = contents(rng, rng.size(rng.chance(2) ? 150000 : 3000));
    Packed p(c);
    drain(File(p.span(), c.size(), rng.coin() ? "gzip" : ""), c, "virtual", sizes(rng), rng.coin());
}
struct Raw {
    static constexpr std::size_t dataSize{21};
    static constexpr std::array<std::uint64_t, 3> data{0x0102030405060708, 0xf1f2f3f4f5f6f7f8, 0x1112131415000000};
};
struct Encoded : Raw {
    static constexpr std::string_view encoding{"br"};
};
MON_SECTION(structures, 100, 1000) {
    std::string c{"\x01\x02\x03\x04\x05\x06\x07\x08\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\x11\x12\x13\x14\x15", 21};
    File raw{Raw{}}, encoded{Encoded{}};
    mon::check(!raw.isEncoded() && encoded.isEncoded() && encoded.getEncoding() == "br", "encoding", [] { return std::string("of a structure"); });
    drain(std::move(raw), c, "structure", sizes(rng), rng.coin());
    mon::check(encoded.getEncoding() == "br", "encoding", [] { return std::string("of a structure"); });
    drain(std::move(encoded), c, "encoded structure", sizes(rng), rng.coin());
}
MON_SECTION(native, 900, 12000) {
    static mon::Scratch dir;
    auto c = contents(rng, rng.size(rng.chance(5) ? 300000 : 20000));
    auto name = "f" + std::to_string(index % 16) + ".bin";
    dir.write(name, c);
    webfront::fs::NativeDebugFS fs(dir.root);
    auto f = fs.open(name);
    mon::check(f.has_value(), "existing file not opened", [&] { return name; });
    drain(std::move(*f), c, "native", sizes(rng), rng.coin());
}
// several files read alternately do not disturb each other
MON_SECTION(interleaved, 300, 6000) {
    static mon::Scratch dir;
    auto c1 = contents(rng, rng.size(500)), c2 = contents(rng, rng.size(500)), c3 = contents(rng, rng.size(500));
    Packed p1(c1);
    dir.write("a", c2);
    dir.write("b", c3);
    webfront::fs::NativeDebugFS fs(dir.root);
    std::vector<File> files;
    files.push_back(File(p1.span(), c1.size()));
    files.push_back(std::move(*fs.open("a")));
    files.push_back(std::move(*fs.open("b")));
    files.push_back(File(p1.span(), c1.size()));
    const std::string* want[] = {&c1, &c2, &c3, &c1};
    std::string got[4];
    bool over[4] = {};
    std::string order;
    while (!(over[0] && over[1] && over[2] && over[3])) {
        auto k = rng.below(4);
        std::string b(1 + rng.below(60), '\0');
        auto r = files[k].read(std::span<char>(b));
        got[k].append(b, 0, r);
        order += static_cast<char>('0' + k);
        if (r == 0) over[k] = true;
        mon::count("reads");
        mon::check(got[k].size() <= want[k]->size(), "beyond the end of the file", [&] { return order; });
    }
    for (int k = 0; k < 4; ++k) mon::check(got[k] == *want[k], "wrong bytes", [&] { return "file " + std::to_string(k) + " " + mon::differ(got[k], *want[k]); });
    mon::nontrivial(order);
}
// sizes and positions need more than 32 bits
template<typename Expect>
static void drainHuge(File file, std::uint64_t size, const std::string& kind, mon::Rng& rng, Expect&& expect) {
    std::vector<char> buffer(1 << 20), want(1 << 20);
    std::uint64_t got = 0;
    while (true) {
        auto n = rng.chance(5) ? 1 + rng.below(3000) : buffer.size() - rng.below(9);
        auto r = file.read(std::span<char>(buffer.data(), n));
        auto left = size - got;
        if (r != std::min<std::uint64_t>(n, left)) mon::fail(r < left ? "short read" : "beyond the end of the file", kind + " of " + std::to_string(size) + " bytes: " + std::to_string(r) + " of " + std::to_string(n) + " at " + std::to_string(got));
        std::fill_n(want.begin(), r, '\0');
        expect(got, r, want.data());
        if (std::memcmp(buffer.data(), want.data(), r) != 0) mon::fail("wrong bytes", kind + " of " + std::to_string(size) + " bytes, after " + std::to_string(got));
        got += r;
        if (file.eof() && got != size) mon::fail("eof reported early", kind + " of " + std::to_string(size) + " bytes, after " + std::to_string(got));
        if (!r) break;
        mon::count("reads");
    }
    if (got != size) mon::fail("short read", kind + " of " + std::to_string(size) + " bytes: " + std::to_string(got));
    mon::count("bytes of huge files", static_cast<long long>(got));
    mon::nontrivial(kind + std::to_string(size));
}
MON_SECTION(hugeNative, 1, 3) {
    if (!mon::fullSpeed()) return;
    mon::allow(200);
    mon::Scratch dir;
    dir.write("huge", "");
    std::uint64_t size = (std::uint64_t{4} << 30) + 1 + rng.below(3 << 20);
    std::map<std::uint64_t, char> marks; // the rest of the file is a hole
    for (auto at : {std::uint64_t{0}, std::uint64_t{1} << 16, std::uint64_t{1} << 24, (std::uint64_t{1} << 31) - 1, std::uint64_t{1} << 31, (std::uint64_t{1} << 32) - 1, std::uint64_t{1} << 32, size - 1}) marks[at] = static_cast<char>(1 + rng.below(255));
    for (int i = 0; i < 50; ++i) marks[rng.next() % size] = static_cast<char>(1 + rng.below(255));
    {
        std::fstream f(dir.root / "huge", std::ios::in | std::ios::out | std::ios::binary);
        for (auto [at, c] : marks) f.seekp(static_cast<std::streamoff>(at)).put(c);
        if (!f.flush()) throw mon::HarnessError("sparse file");
    }
    webfront::fs::NativeDebugFS fs(dir.root);
    auto f = fs.open("huge");
    if (!f) mon::fail("existing file not opened", "of " + std::to_string(size) + " bytes");
    drainHuge(std::move(*f), size, "native", rng, [&](std::uint64_t from, std::size_t n, char* want) {
        for (auto it = marks.lower_bound(from); it != marks.end() && it->first < from + n; ++it) want[it->first - from] = it->second;
    });
}
MON_SECTION(hugeVirtual, 1, 2) {
    if (!mon::fullSpeed()) return;
    mon::allow(250);
    std::uint64_t size = mon::thorough() ? (std::uint64_t{4} << 30) + 1 + rng.below(1 << 20) : (std::uint64_t{1} << 24) + 1 + rng.below(1 << 20);
    auto count = (size + 7) / 8;
    auto words = static_cast<std::uint64_t*>(::mmap(nullptr, count * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (words == MAP_FAILED) throw mon::HarnessError("mmap");
    auto step = size / 8 / 2000; // a few words are not 0
    for (std::uint64_t i = 0; i < count; i += step) words[i] = i * 0x9e3779b97f4a7c15 | 1;
    drainHuge(File(std::span<const std::uint64_t>(words, count), size), size, "virtual", rng, [&](std::uint64_t from, std::size_t n, char* want) {
        for (auto i = from / 8 / step * step; i * 8 < from + n; i += step)
            for (std::uint64_t b = 0; b < 8; ++b)
                if (auto at = i * 8 + b; at >= from && at < from + n) want[at - from] = static_cast<char>(words[i] >> (56 - 8 * b));
    });
    ::munmap(words, count * 8);
}

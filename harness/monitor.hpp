// Common driver of the monitoring harnesses: seeded cases, violation records, evidence counters.
//
// A harness registers sections (MON_SECTION). Case i of a section gets its own generator, seeded from VERIF_SEED, the
// section name and i, so that every case replays alone (--only section:index). Results go to the --out file; the case
// being run is kept in a shared mapping next to it so that the runner can name it whatever kills the process.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <cxxabi.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mon {

// ---- generator --------------------------------------------------------------------------------------------------
class Rng {
public:
    explicit Rng(std::uint64_t seed) : s(seed ^ 0x9E3779B97F4A7C15ull) { next(); }
    Rng(const std::uint8_t* data, std::size_t size) : s(0x1234567), d(data), left(size) {}
    std::uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        auto z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t draw(std::size_t bytes) {
        if (left < bytes) return next();
        std::uint64_t v = 0;
        std::memcpy(&v, d, bytes);
        d += bytes;
        left -= bytes;
        return v;
    }
    /// uniform in [0, n)
    std::uint64_t below(std::uint64_t n) {
        if (n <= 1) return 0;
        return (n <= 256 ? draw(1) + (d ? 0 : 0) : n <= 65536 ? draw(2) : draw(8)) % n;
    }
    std::int64_t range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a) + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool coin() { return below(2); }
    template<typename C>
    auto& of(C& c) {
        return c[below(std::size(c))];
    }
    template<typename C>
    const auto& of(const C& c) {
        return c[below(std::size(c))];
    }
    std::string bytes(std::size_t n) {
        std::string r(n, '\0');
        for (auto& c : r) c = static_cast<char>(below(256));
        return r;
    }
    std::string from(std::string_view alphabet, std::size_t n) {
        std::string r(n, '\0');
        for (auto& c : r) c = alphabet[below(alphabet.size())];
        return r;
    }
    /// a size in [0, max] that favours small ones and powers of two
    std::size_t size(std::size_t max) {
        switch (below(4)) {
        case 0: return below(std::min<std::size_t>(max, 8) + 1);
        case 1: return below(std::min<std::size_t>(max, 64) + 1);
        case 2: {
            auto p = std::size_t{1} << below(20);
            auto v = p + below(3);
            return std::min(max, v ? v - 1 : 0);
        }
        default: return below(max + 1);
        }
    }

private:
    std::uint64_t s;
    const std::uint8_t* d = nullptr;
    std::size_t left = 0;
};

// ---- hashing ----------------------------------------------------------------------------------------------------
inline std::uint64_t fnv(std::string_view t, std::uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
    return h;
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
    a = (a ^ (a >> 30)) * 0xBF58476D1CE4E5B9ull;
    return a ^ (a >> 27);
}

// ---- text -------------------------------------------------------------------------------------------------------
inline std::string show(std::string_view t, std::size_t max = 200) {
    std::string r;
    for (unsigned char c : t.substr(0, max)) {
        char b[8];
        if (c == '\r') r += "\\r";
        else if (c == '\n') r += "\\n";
        else if (c == '\\') r += "\\\\";
        else if (c >= 32 && c < 127) r += static_cast<char>(c);
        else {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    if (t.size() > max) r += "...(" + std::to_string(t.size()) + " bytes)";
    return r;
}
inline std::string jsonString(std::string_view t) {
    std::string r = "\"";
    for (unsigned char c : t) {
        char b[8];
        if (c == '"' || c == '\\') (r += '\\') += static_cast<char>(c);
        else if (c < 32 || c >= 127) {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

// ---- state ------------------------------------------------------------------------------------------------------
struct Violation {}; // deliberately not a std::exception: library code must not mistake it for one of its own
struct HarnessError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Section {
    std::string name;
    std::size_t quick, thorough;
    void (*body)(Rng&, std::size_t);
};

struct State {
    std::uint64_t seed = 1;
    bool fullSpeed = true;
    bool thorough = false, fuzzing = false, single = false;
    std::size_t shard = 0, shards = 1;
    std::vector<Section> sections;
    std::string rule = "unspecified";
    std::string section;
    std::size_t index = 0;
    std::size_t evaluations = 0, violations = 0, inCase = 0;
    std::map<std::string, std::size_t> keyCount;
    std::map<std::string, long long> counters;
    std::map<std::string, long long> required;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::size_t> samplesPerSection;
    std::FILE* out = nullptr;
    char* current = nullptr; // shared page naming the running case
    std::mutex m;
};
inline State& state() {
    static State s;
    return s;
}
struct Register {
    Register(const char* n, std::size_t q, std::size_t t, void (*b)(Rng&, std::size_t)) { state().sections.push_back({n, q, t, b}); }
};
struct Rule {
    explicit Rule(const char* r) { state().rule = r; }
};
struct Require {
    Require(const char* n, long long v) { state().required[n] = v; }
};

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
/// MON_SECTION(name, quick cases, thorough cases) { body using rng and index }
#define MON_SECTION(name, quick, thorough)                                                                                                          \
    static void MON_CAT(monBody_, name)([[maybe_unused]] mon::Rng & rng, [[maybe_unused]] std::size_t index);                                       \
    static mon::Register MON_CAT(monReg_, name)(#name, quick, thorough, MON_CAT(monBody_, name));                                                   \
    static void MON_CAT(monBody_, name)([[maybe_unused]] mon::Rng & rng, [[maybe_unused]] std::size_t index)
#define MON_RULE(text) static mon::Rule monRule_(text)
/// the whole run (all shards) must have counted at least n of these, otherwise it is inconclusive
#define MON_REQUIRE(name, n) static mon::Require MON_CAT(monReq_, __LINE__)(name, n)

inline bool thorough() { return state().thorough; }
/// false when only a part of the cases is run, in a slow build
inline bool fullSpeed() { return state().fullSpeed && !state().fuzzing; }
/// processor time the current case may take
inline void allow(long seconds) {
    if (state().fuzzing) return;
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline void count(const std::string& name, long long n = 1) {
    std::lock_guard l(state().m);
    state().counters[name] += n;
}
/// records one non-trivial evaluation and which of the distinct ones it is; a case that records several counts as several
inline void nontrivial(std::uint64_t h) {
    std::lock_guard l(state().m);
    ++state().inCase;
    if (state().distinct.size() < 4'000'000) state().distinct.insert(mix(h, fnv(state().section)));
}
inline void nontrivial(std::string_view t) { nontrivial(fnv(t)); }
inline void sample(const std::string& text) {
    std::lock_guard l(state().m);
    auto& s = state();
    if (s.samplesPerSection[s.section] >= 2 || s.samples.size() >= 12) return;
    ++s.samplesPerSection[s.section];
    s.samples.push_back(s.section + ":" + std::to_string(s.index) + " " + text);
}

/// records a violation; key identifies what failed (used to match known findings), detail shows the case
inline void report(const std::string& key, const std::string& detail) {
    std::lock_guard l(state().m);
    auto& s = state();
    ++s.violations;
    if (s.fuzzing) {
        std::fprintf(stderr, "MON-VIOLATION %s %s\n", key.c_str(), detail.c_str());
        std::fflush(stderr);
        std::abort();
    }
    if (++s.keyCount[key] > 3 || !s.out) return;
    std::fprintf(s.out, "{\"violation\":%s,\"section\":%s,\"index\":%zu,\"detail\":%s}\n", jsonString(key).c_str(), jsonString(s.section).c_str(),
                 s.index, jsonString(detail.substr(0, 4000)).c_str());
    std::fflush(s.out);
}
[[noreturn]] inline void fail(const std::string& key, const std::string& detail) {
    report(key, detail);
    throw Violation{};
}
inline void check(bool ok, const char* key, const std::function<std::string()>& detail) {
    if (!ok) fail(key, detail());
}
inline std::string differ(std::string_view got, std::string_view want) {
    std::size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    auto from = i > 20 ? i - 20 : 0;
    return "first difference at byte " + std::to_string(i) + " of got " + std::to_string(got.size()) + " / want " + std::to_string(want.size()) +
           ": got '" + show(got.substr(std::min(from, got.size())), 80) + "' want '" + show(want.substr(std::min(from, want.size())), 80) + "'";
}

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

inline std::string currentExceptionText() {
    try {
        throw;
    }
    catch (const std::exception& e) {
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        std::string r = std::string(n ? n : typeid(e).name()) + ": " + e.what();
        std::free(n);
        return r;
    }
    catch (...) {
        return "unknown exception";
    }
}
inline std::string currentExceptionType() {
    auto t = currentExceptionText();
    return t.substr(0, t.find(": "));
}

inline void runCase(const Section& sec, std::size_t index, Rng& rng) {
    auto& s = state();
    s.section = sec.name;
    s.index = index;
    if (s.current) std::snprintf(s.current, 200, "%s:%zu", sec.name.c_str(), index);
    s.inCase = 0;
    struct Counted {
        State& s;
        ~Counted() { s.evaluations += std::max<std::size_t>(1, s.inCase); }
    } counted{s};
    if (!s.fuzzing) { // a case takes milliseconds; this much processor time means an endless loop
        allow(s.single ? 100 : 40);
    }
    try {
        sec.body(rng, index);
    }
    catch (const Violation&) {}
    catch (const HarnessError& e) {
        std::fprintf(stderr, "HARNESS-ERROR %s:%zu %s\n", sec.name.c_str(), index, e.what());
        std::fflush(stderr);
        std::_Exit(70);
    }
    catch (...) {
        report("unexpected-exception " + currentExceptionType(), currentExceptionText());
    }
}

inline void silence() {
    static NullBuf nb;
    std::cout.rdbuf(&nb);
    std::clog.rdbuf(&nb);
}

#ifndef MON_FUZZ
inline int run(int argc, char** argv) {
    auto& s = state();
    std::string out, only;
    double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto value = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--out") out = value();
        else if (a == "--seed") s.seed = std::strtoull(value().c_str(), nullptr, 10);
        else if (a == "--tier") s.thorough = value() == "thorough";
        else if (a == "--shard") std::sscanf(value().c_str(), "%zu/%zu", &s.shard, &s.shards);
        else if (a == "--only") only = value();
        else if (a == "--scale") scale = std::atof(value().c_str());
        else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 64;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    if (!out.empty()) {
        s.out = std::fopen(out.c_str(), "w");
        if (!s.out) return 65;
        int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            auto p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s.current = static_cast<char*>(p);
        }
        if (fd >= 0) close(fd);
    }
    else s.out = stderr;
    silence();
    s.single = !only.empty();
    s.fullSpeed = scale >= 1;
    for (auto& sec : s.sections) {
        std::size_t n = s.thorough ? sec.thorough : sec.quick;
        if (scale != 1) n = std::max<std::size_t>(std::min<std::size_t>(n, 4), static_cast<std::size_t>(static_cast<double>(n) * scale));
        for (std::size_t i = 0; i < n; ++i) {
            if (only.empty() ? i % s.shards != s.shard : only != sec.name + ":" + std::to_string(i)) continue;
            Rng rng(mix(mix(s.seed, fnv(sec.name)), i));
            runCase(sec, i, rng);
        }
    }
    itimerval off{};
    setitimer(ITIMER_PROF, &off, nullptr);
    if (s.current) s.current[0] = 0;
    auto f = s.out;
    std::fprintf(f, "{\"evaluations\":%zu,\"violations\":%zu,\"rule\":%s,\"counters\":{", s.evaluations, s.violations, jsonString(s.rule).c_str());
    const char* sep = "";
    for (auto& [k, v] : s.counters) {
        std::fprintf(f, "%s%s:%lld", sep, jsonString(k).c_str(), v);
        sep = ",";
    }
    std::fprintf(f, "},\"required\":{");
    sep = "";
    for (auto& [k, v] : s.required) {
        std::fprintf(f, "%s%s:%lld", sep, jsonString(k).c_str(), v);
        sep = ",";
    }
    std::fprintf(f, "},\"samples\":[");
    sep = "";
    for (auto& t : s.samples) {
        std::fprintf(f, "%s%s", sep, jsonString(t.substr(0, 600)).c_str());
        sep = ",";
    }
    std::fprintf(f, "],\"done\":true}\n");
    std::fflush(f);
    if (!out.empty()) {
        if (auto h = std::fopen((out + ".hashes").c_str(), "wb")) {
            for (auto v : s.distinct) std::fwrite(&v, sizeof v, 1, h);
            std::fclose(h);
        }
    }
    return 0;
}
#endif
} // namespace mon

#ifdef MON_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    static bool first = true;
    auto& s = mon::state();
    if (first) {
        mon::silence();
        s.fuzzing = true;
        first = false;
    }
    if (size < 4) return 0;
    auto& sec = s.sections[data[0] % s.sections.size()];
    std::size_t index = (data[1] | std::size_t{data[2]} << 8) % sec.thorough;
    mon::Rng rng(data + 3, size - 3);
    mon::runCase(sec, index, rng);
    return 0;
}
#else
int main(int argc, char** argv) { return mon::run(argc, argv); }
#endif

// F02: layered file systems serve the first provider that has the file
#include "monitor.hpp"
#include "scratch.hpp"
#include "system/FileSystem.hpp"
#include "system/IndexFS.hpp"
#include "system/JasmineFS.hpp"
#include "system/NativeFS.hpp"
#include <span>

MON_RULE("combinations of 1 to 5 recording providers (also nested, copied and real ones), each holding a random set of names, opened with names held by none, one or several; non-trivial = the name is held by a provider that is not the first or by several; distinct by combination, holdings and name");
MON_REQUIRE("opens", 2000);
MON_REQUIRE("empty files", 300);

using namespace webfront;
namespace sfs = std::filesystem;

static std::vector<int> consulted;                 // providers asked, in order
static std::vector<std::string> asked;             // under these names
static std::vector<std::pair<int, sfs::path>> built; // providers constructed, with their document root
static std::set<std::string> holdings[8], empties[8]; // empties: held as an empty file
static const std::uint64_t words[8] = {0x5030ull << 48, 0x5031ull << 48, 0x5032ull << 48, 0x5033ull << 48, 0x5034ull << 48, 0x5035ull << 48, 0x5036ull << 48, 0x5037ull << 48};

template<int N>
struct P {
    explicit P(sfs::path root) { built.emplace_back(N, root); }
    std::optional<fs::File> open(sfs::path file) {
        consulted.push_back(N);
        asked.push_back(file.string());
        if (empties[N].count(file.string())) return fs::File(std::span(&words[N], 1), 0, N % 2 ? "br" : "");
        if (holdings[N].count(file.string())) return fs::File(std::span(&words[N], 1), 2, N % 2 ? "br" : "");
        return {};
    }
};
static std::string content(fs::File& f) {
    std::string r;
    char b[600];
    while (auto n = f.read(std::span<char>(b))) r.append(b, n);
    return r;
}
static const std::vector<std::string> names{"index.html", "a/b.js", "x", "jasmine/4.6.0/boot0.js", "deep/er/path.css", "with space.txt", "/rooted", "up/../x", "a//b", "none"};

template<typename M>
void play(mon::Rng& rng, const std::vector<int>& order, const char* what, bool copied) {
    for (int i = 0; i < 8; ++i) {
        holdings[i].clear();
        empties[i].clear();
        for (auto& n : names)
            if (n != "none" && rng.chance(35)) {
                holdings[i].insert(n);
                if (rng.chance(30)) empties[i].insert(n);
            }
    }
    built.clear();
    sfs::path root = "/doc root/" + std::to_string(rng.below(1000));
    M first(root);
    M other("/elsewhere");
    M& m = first;
    std::vector<int> got;
    for (auto& [n, r] : built)
        if (r == root) got.push_back(n);
    mon::check(got == order, "document root not given to every provider once", [&] { return std::string(what); });
    std::optional<M> copy;
    if (copied) copy.emplace(first);
    for (int k = 0; k < 8; ++k) {
        auto& name = rng.of(names);
        std::vector<int> want;
        int provider = -1, holders = 0;
        for (int n : order) {
            if (provider < 0) want.push_back(n);
            if (holdings[n].count(name)) {
                ++holders;
                if (provider < 0) provider = n;
            }
        }
        consulted.clear();
        asked.clear();
        auto f = copied && rng.coin() ? copy->open(name) : m.open(name);
        mon::count("opens");
        std::string holds;
        for (int n : order) holds += holdings[n].count(name) ? '1' : '0';
        auto where = [&] { return std::string(what) + " name " + name + " held by " + holds; };
        mon::check(f.has_value() == (provider >= 0), provider >= 0 ? "held file not found" : "file found that nobody holds", where);
        mon::check(consulted == want, "wrong providers consulted", where);
        mon::check(std::ranges::all_of(asked, [&](auto& a) { return a == name; }), "provider asked for another name", where);
        if (f) {
            auto c = content(*f);
            bool empty = empties[provider].count(name);
            if (empty) mon::count("empty files");
            mon::check(c == (empty ? "" : std::string("P") + static_cast<char>('0' + provider)), "file of another provider", where);
            mon::check(f->isEncoded() == (provider % 2 == 1), "encoding lost", where);
        }
        if (holders > 1 || (provider >= 0 && provider != order[0])) mon::nontrivial(std::string(what) + name + holds);
        mon::sample(where());
    }
}
MON_SECTION(combinations, 1200, 30000) {
    bool c = rng.coin();
    switch (rng.below(9)) {
    case 0: play<fs::Multi<P<0>>>(rng, {0}, "0", c); break;
    case 1: play<fs::Multi<P<0>, P<1>>>(rng, {0, 1}, "01", c); break;
    case 2: play<fs::Multi<P<1>, P<0>>>(rng, {1, 0}, "10", c); break;
    case 3: play<fs::Multi<P<2>, P<0>, P<1>>>(rng, {2, 0, 1}, "201", c); break;
    case 4: play<fs::Multi<P<3>, P<2>, P<1>, P<0>>>(rng, {3, 2, 1, 0}, "3210", c); break;
    case 5: play<fs::Multi<P<0>, P<1>, P<2>, P<3>, P<4>>>(rng, {0, 1, 2, 3, 4}, "01234", c); break;
    case 6: play<fs::Multi<fs::Multi<P<0>, P<1>>, P<2>>>(rng, {0, 1, 2}, "(01)2", c); break;
    case 7: play<fs::Multi<P<4>, fs::Multi<P<1>, P<2>>, P<3>>>(rng, {4, 1, 2, 3}, "4(12)3", c); break;
    default: play<fs::Multi<P<5>, P<3>, P<6>, P<1>, P<7>>>(rng, {5, 3, 6, 1, 7}, "53617", c);
    }
}
// the providers of the library: a file of the document root hides a built-in one, or the other way round
MON_SECTION(real, 120, 1500) {
    static mon::Scratch dir;
    static bool written = [] {
        dir.write("index.html", "native index");
        dir.write("other.txt", "native other");
        dir.write("jasmine/4.6.0/boot0.js", "native boot0");
        return true;
    }();
    (void)written;
    fs::Multi<fs::NativeDebugFS, fs::IndexFS, fs::JasmineFS> nativeFirst(dir.root);
    fs::Multi<fs::IndexFS, fs::JasmineFS, fs::NativeDebugFS> nativeLast(dir.root);
    struct Want {
        const char* name;
        const char* first;
        const char* last; // nullptr: built in; "": nobody
    };
    static const std::vector<Want> wants{{"index.html", "native index", nullptr}, {"other.txt", "native other", "native other"},
                                         {"jasmine/4.6.0/boot0.js", "native boot0", nullptr}, {"jasmine/4.6.0/boot1.js", nullptr, nullptr},
                                         {"favicon.ico", nullptr, nullptr}, {"WebFront.js", nullptr, nullptr}, {"absent", "", ""}};
    auto& w = rng.of(wants);
    auto judge = [&](auto& m, const char* want, const char* what) {
        auto f = m.open(w.name);
        mon::count("opens");
        auto where = [&] { return std::string(what) + " " + w.name; };
        if (want && !*want) mon::check(!f, "file found that nobody holds", where);
        else {
            mon::check(f.has_value(), "held file not found", where);
            mon::check(f->isEncoded() == (want == nullptr), "file of another provider", where);
            if (want) mon::check(content(*f) == want, "file of another provider", where);
        }
        mon::nontrivial(std::string(what) + w.name);
    };
    judge(nativeFirst, w.first, "native first:");
    judge(nativeLast, w.last, "native last:");
}

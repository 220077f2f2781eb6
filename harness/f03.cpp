// F03: every embedded asset is complete and decodes as declared
#include "monitor.hpp"
#include "node.hpp"
#include "system/BabelFS.hpp"
#include "system/FileSystem.hpp"
#include "system/IndexFS.hpp"
#include "system/JasmineFS.hpp"
#include "system/ReactFS.hpp"
#include <span>

MON_RULE("every published asset of every built-in file system, read completely, decoded and validated in node (syntax, execution, checksums); plus near-miss names of each; non-trivial = an asset decoded or a name refused; distinct by name");
MON_REQUIRE("assets validated", 12);
MON_REQUIRE("near-miss names", 500);

using namespace webfront;

enum Fs { index_, jasmine, react, babel };
struct Asset {
    Fs fs;
    const char *name, *kind;
};
static const std::vector<Asset> assets{
    {index_, "index.html", "html"},
    {index_, "favicon.ico", "ico"},
    {index_, "WebFront.js", "client"},
    {jasmine, "jasmine/4.6.0/jasmine_favicon.png", "png"},
    {jasmine, "jasmine/4.6.0/jasmine.css", "css"},
    {jasmine, "jasmine/4.6.0/jasmine.js", "jasmine"},
    {jasmine, "jasmine/4.6.0/jasmine-html.js", "js"},
    {jasmine, "jasmine/4.6.0/boot0.js", "js"},
    {jasmine, "jasmine/4.6.0/boot1.js", "js"},
    {react, "react@18/umd/react.production.min.js", "react"},
    {react, "react-dom@18/umd/react-dom.production.min.js", "reactdom"},
    {babel, "babel-standalone@7.22.5/babel.min.js", "babel"},
};
static std::optional<fs::File> open(Fs f, const std::string& name) {
    switch (f) {
    case index_: return fs::IndexFS("/").open(name);
    case jasmine: return fs::JasmineFS("/").open(name);
    case react: return fs::ReactFS("/").open(name);
    default: return fs::BabelFS("/").open(name);
    }
}
template<typename T>
void sizes(const char* name, std::size_t read, const std::string& encoding) {
    mon::check(read == T::dataSize, "declared size not readable", [&] { return std::string(name) + " gave " + std::to_string(read) + " of " + std::to_string(T::dataSize); });
    mon::check(T::data.size() * 8 >= T::dataSize, "less data than the declared size", [&] { return std::string(name); });
    mon::check(encoding == T::encoding, "encoding", [&] { return std::string(name); });
}
MON_SECTION(assets, 12, 12) {
    static mon::Node node("f03_node.js");
    auto& a = assets[index];
    auto f = open(a.fs, a.name);
    mon::check(f.has_value(), "asset not found", [&] { return std::string(a.name); });
    std::string bytes;
    std::string b(1 + rng.below(3000), '\0');
    while (auto n = f->read(std::span<char>(b))) {
        bytes.append(b, 0, n);
        mon::check(bytes.size() < 4'000'000, "endless file", [&] { return std::string(a.name); });
    }
    std::string encoding(f->getEncoding());
    switch (index) {
    case 0: sizes<fs::IndexFS::IndexHtml>(a.name, bytes.size(), encoding); break;
    case 1: sizes<fs::IndexFS::WebFrontIco>(a.name, bytes.size(), encoding); break;
    case 2: sizes<fs::IndexFS::WebFrontJs>(a.name, bytes.size(), encoding); break;
    case 3: sizes<fs::JasmineFS::JasmineFavicon>(a.name, bytes.size(), encoding); break;
    case 4: sizes<fs::JasmineFS::JasmineCss>(a.name, bytes.size(), encoding); break;
    case 5: sizes<fs::JasmineFS::JasmineJs>(a.name, bytes.size(), encoding); break;
    case 6: sizes<fs::JasmineFS::JasmineHtml>(a.name, bytes.size(), encoding); break;
    case 7: sizes<fs::JasmineFS::Boot0>(a.name, bytes.size(), encoding); break;
    case 8: sizes<fs::JasmineFS::Boot1>(a.name, bytes.size(), encoding); break;
    case 9: sizes<fs::ReactFS::React>(a.name, bytes.size(), encoding); break;
    case 10: sizes<fs::ReactFS::ReactDom>(a.name, bytes.size(), encoding); break;
    case 11: sizes<fs::BabelFS::Babel>(a.name, bytes.size(), encoding); break;
    }
    auto answer = node.ask("{\"name\":\"" + std::string(a.name) + "\",\"encoding\":\"" + encoding + "\",\"kind\":\"" + a.kind + "\",\"hex\":\"" + mon::hex(bytes) + "\"}");
    mon::count("assets validated");
    mon::count("asset bytes", static_cast<long long>(bytes.size()));
    mon::nontrivial(a.name);
    mon::sample(std::string(a.name) + " " + encoding + " " + std::to_string(bytes.size()) + " bytes: " + answer);
    if (!answer.starts_with("ok")) {
        auto bar = answer.find(" | ");
        mon::fail(answer.substr(4, bar - 4), std::string(a.name) + ": " + answer);
    }
}
// every published name is found in its own file system only
MON_SECTION(published, 48, 48) {
    auto& a = assets[index / 4];
    auto f = static_cast<Fs>(index % 4);
    mon::check(open(f, a.name).has_value() == (f == a.fs), f == a.fs ? "asset not found" : "found under a name that is not published", [&] { return std::string(a.name) + " in file system " + std::to_string(index % 4); });
    mon::nontrivial(std::string(a.name) + std::to_string(index % 4));
}
MON_SECTION(nearMiss, 1500, 40000) {
    auto& a = rng.of(assets);
    std::string n = a.name;
    auto k = rng.below(n.size());
    switch (rng.below(8)) {
    case 0: n[k] = static_cast<char>(n[k] ^ (1 << rng.below(7))); break;
    case 1: n.erase(k, 1); break;
    case 2: n.insert(k, 1, n[k]); break;
    case 3: n += rng.of(std::vector<std::string>{"/", ".br", ".gz", " ", "x", "\0"}); break;
    case 4: n = "x/" + n; break;
    case 5: n = n.substr(n.rfind('/') == std::string::npos ? 1 : n.rfind('/') + 1); break;
    case 6: n = n.substr(0, k); break;
    default: n = n.substr(k);
    }
    if (n.starts_with('/')) return; // the root is ignored by design
    for (auto& other : assets)
        if (n == other.name) return;
    for (auto f : {index_, jasmine, react, babel}) mon::check(!open(f, n).has_value(), "found under a name that is not published", [&] { return "'" + mon::show(n) + "'"; });
    mon::count("near-miss names");
    mon::nontrivial(n);
}

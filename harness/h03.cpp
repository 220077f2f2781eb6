// H03: GET and HEAD serve the exact resource with truthful metadata
#include "http.hpp"
#include "scratch.hpp"
#include "system/IndexFS.hpp"
#include "system/JasmineFS.hpp"
#include "system/NativeFS.hpp"
#include "system/ReactFS.hpp"

MON_RULE("servers over virtual, native and layered file systems holding random resources (sizes around the 512-byte copy buffer and up to 300 kB, plain or encoded), asked with every method, existing and missing targets in plain or percent-encoded form and varied Accept-Encoding headers; the oracle is the resource table; non-trivial = one request; distinct by method, target, resource and accepted encodings");
MON_REQUIRE("GET 200", 1500);
MON_REQUIRE("HEAD 200", 400);
MON_REQUIRE("GET 404", 200);
MON_REQUIRE("HEAD 404", 60);
MON_REQUIRE("GET 506", 60);
MON_REQUIRE("other method 501", 200);
MON_REQUIRE("extensions in other letter cases", 80);
MON_REQUIRE("any encoding in the list", 100);
MON_REQUIRE("encodings refused by weight", 100);
MON_REQUIRE("requests for resources which may have changed", 300);

namespace fs = webfront::fs;
namespace sfs = std::filesystem;
using web::Ask;

// the types the server documents, by extension
static const std::map<std::string, std::string> types{{"js", "application/javascript"}, {"mjs", "application/javascript"}, {"htm", "text/html"}, {"html", "text/html"},
  {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"css", "text/css"}, {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"},
  {"ttf", "font/ttf"}, {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}, {"txt", "text/plain"}, {"", "text/plain"}, {"bin", "text/plain"}, {"xyz", "text/plain"}, {"jsx", "text/plain"}, {"j", "text/plain"}};
static std::string extensionOf(const std::string& path) {
    auto name = path.substr(path.rfind('/') + 1);
    auto dot = name.rfind('.');
    return dot == name.npos || dot == 0 ? "" : name.substr(dot + 1);
}
static std::size_t resourceSize(mon::Rng& rng) {
    static const std::size_t edges[] = {0, 1, 7, 8, 9, 504, 505, 511, 512, 513, 519, 520, 1023, 1024, 1025, 1536, 4096, 8191, 8192, 8193};
    switch (rng.below(6)) {
    case 0:
    case 1:
    case 2: return edges[rng.below(std::size(edges))];
    case 3: return rng.below(3000);
    case 4: return rng.below(20) * 512 + rng.below(3);
    default: return rng.chance(10) ? rng.below(rng.chance(10) ? 2500000 : 300000) : rng.below(10000);
    }
}
static std::string fileName(mon::Rng& rng, std::string_view extra) {
    std::string n;
    auto depth = rng.below(4);
    for (std::size_t i = 0; i < depth; ++i) n += rng.from("abcxyz019_-", 1 + rng.below(8)) + (rng.chance(15) ? "." + rng.from("jscabc", 1 + rng.below(3)) : "") + "/"; // "a.js/" too
    auto len = 1 + rng.below(12);
    for (std::size_t i = 0; i < len; ++i) n += !extra.empty() && rng.chance(25) ? extra[rng.below(extra.size())] : "abcdefghijklmnopqrstuvwxyzABCDE0123456789_-"[rng.below(43)];
    auto it = types.begin();
    std::advance(it, rng.below(types.size()));
    if (!it->first.empty() && rng.chance(15)) n += "." + rng.from("abcjsmin0", 1 + rng.below(4));
    return it->first.empty() ? n : n + "." + (rng.chance(15) ? web::randomCase(rng, it->first) : it->first);
}
/// a target that designates the path, in plain or percent-encoded spelling
static std::string spell(mon::Rng& rng, const std::string& path) {
    static const std::string plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~/!$&'()*,;=:@";
    std::string t = "/";
    bool eager = rng.chance(20);
    for (unsigned char c : path) {
        if (plain.find(static_cast<char>(c)) != plain.npos && !(eager && rng.coin())) t += static_cast<char>(c);
        else {
            char b[4];
            std::snprintf(b, sizeof b, rng.coin() ? "%%%02X" : "%%%02x", c);
            t += b;
        }
    }
    return t;
}
/// one value of Accept-Encoding : neither `encoding` nor everything is listed there unless `element` says so
static std::string acceptHeader(mon::Rng& rng, const std::string& encoding, const std::string& element) {
    static const std::vector<std::string> weights{"", "", "", ";q=1", ";q=0.5", "; q=0.001", " ; q=1.000", ";q=0", ";q=0.0"};
    const std::vector<std::string> others{"deflate", "identity", "zstd", "compress", "exi", "x" + encoding, encoding + "x", encoding + "-" + encoding, encoding + "2", encoding.substr(1), "q"};
    std::vector<std::string> tokens;
    auto k = rng.below(3);
    for (std::size_t i = 0; i < k; ++i) tokens.push_back(web::randomCase(rng, rng.of(others)) + rng.of(weights));
    if (!element.empty()) tokens.insert(tokens.begin() + static_cast<std::ptrdiff_t>(rng.below(tokens.size() + 1)), element);
    std::string r;
    for (auto& t : tokens) r += (r.empty() ? "" : rng.chance(80) ? ", " : rng.coin() ? "," : " ,\t") + t;
    return r;
}
/// what a request says of the encoding : elements of the lists, some of them alone in their line
static std::vector<std::string> acceptElements(mon::Rng& rng, const std::string& encoding, bool accepts) {
    static const std::vector<std::string> taken{"", "", "", ";q=1", ";q=0.5", "; q=0.001", " ;\tq=1.000", ";Q=0.1", ";q=1."}, refused{";q=0", "; q=0", ";q=0.0", " ; q=0.000", ";q=0.", ";Q=0"};
    auto name = rng.coin() ? encoding : web::randomCase(rng, encoding);
    std::vector<std::string> r;
    if (accepts) {
        if (rng.chance(80)) r.push_back(name + rng.of(taken));
        if (r.empty() || rng.chance(10)) r.push_back("*" + rng.of(r.empty() ? taken : rng.coin() ? taken : refused)), mon::count("any encoding in the list");
    }
    else if (rng.chance(40)) {
        mon::count("encodings refused by weight");
        auto what = rng.below(3);
        if (what != 1) r.push_back(name + rng.of(refused));
        if (what) r.push_back("*" + rng.of(what == 1 ? refused : taken));
    }
    if (r.size() == 2 && rng.coin()) std::swap(r[0], r[1]);
    return r;
}
struct Case {
    std::string method, path, target;
    const web::Resource* resource; // null: missing
    bool accepts;
    std::string text;
};
static Case makeCase(mon::Rng& rng, const std::string& path, std::string target, const web::Resource* r) {
    Case c;
    c.path = path;
    c.target = std::move(target);
    c.resource = r;
    Ask a;
    auto m = rng.below(10);
    a.method = m < 5 ? "GET" : m < 8 ? "HEAD" : rng.chance(80) ? rng.of(web::methods) : web::token(rng, 1 + rng.below(9));
    a.target = c.target;
    c.method = a.method;
    auto k = rng.below(3);
    for (std::size_t i = 0; i < k; ++i) a.headers.push_back(rng.coin() ? web::knownHeader(rng) : std::pair{"X-" + rng.from("abc", 3), web::headerValue(rng, rng.below(20))});
    auto encoding = r && !r->encoding.empty() ? r->encoding : std::string("br");
    c.accepts = rng.chance(70);
    auto elements = acceptElements(rng, encoding, c.accepts);
    if (rng.chance(30)) elements.insert(elements.begin(), ""); // a line of other encodings
    if (elements.empty() && rng.coin()) elements.push_back("");
    std::vector<std::string> lines;
    for (auto& e : elements)
        if (auto line = acceptHeader(rng, encoding, e); lines.empty() || rng.coin()) lines.push_back(line);
        else lines.back() += (lines.back().empty() || line.empty() ? "" : ", ") + line;
    for (auto& l : lines)
        if (!l.empty()) a.headers.emplace_back(web::randomCase(rng, "Accept-Encoding"), l);
    c.text = a.text();
    return c;
}
static void judge(const Case& c, const std::string& got) {
    bool head = c.method == "HEAD", get = c.method == "GET";
    auto r = web::parseReply(got, head);
    auto where = [&] {
        return c.method + " " + c.target + (c.resource ? " (" + std::to_string(c.resource->content.size()) + " bytes" + (c.resource->encoding.empty() ? "" : ", " + c.resource->encoding) + ")" : " (missing)") +
               (c.accepts ? " accepting" : "") + " answered '" + mon::show(got, 160) + "'";
    };
    if (!r.error.empty()) mon::fail("malformed response: " + r.error.substr(0, 30), where() + " " + r.error);
    if (!r.rest.empty()) mon::fail(head ? "body in the answer to HEAD" : "bytes after the response", where());
    int want = !get && !head ? 501 : !c.resource ? 404 : !c.resource->encoding.empty() && !c.accepts && get ? 506 : 200;
    bool eitherHead = head && c.resource && !c.resource->encoding.empty() && !c.accepts; // 506 or 200, the metadata must be right in the latter case
    if (r.code != want && !(eitherHead && r.code == 506)) mon::fail("status " + std::to_string(r.code) + " instead of " + std::to_string(want), where());
    mon::count((get || head ? c.method : std::string("other method")) + " " + std::to_string(r.code));
    mon::nontrivial(c.method + c.target + (c.accepts ? "+" : "-") + std::to_string(c.resource ? mon::fnv(c.resource->content) : 0));
    if (r.code != 200) return;
    if (get && r.body != c.resource->content) mon::fail("body is not the resource", where() + " " + mon::differ(r.body, c.resource->content));
    if (*r.header("Content-Length") != std::to_string(c.resource->content.size())) mon::fail(head ? "Content-Length in the answer to HEAD" : "Content-Length", where());
    auto ce = r.header("Content-Encoding").value_or("");
    if (ce == "identity") ce = "";
    if (ce != c.resource->encoding || r.countOf("Content-Encoding") > 1) mon::fail(head ? "Content-Encoding in the answer to HEAD" : "Content-Encoding", where());
    auto ct = r.header("Content-Type").value_or("none");
    auto extension = extensionOf(c.path);
    auto t = types.find(model::lower(extension));
    if (t == types.end()) throw mon::HarnessError("extension");
    if (ct.substr(0, ct.find(';')) != t->second || r.countOf("Content-Type") != 1) mon::fail("Content-Type of ." + t->first, where());
    if (extension != t->first) mon::count("extensions in other letter cases");
    mon::sample(where());
}
/// asks one server about several resources, one connection each, under a random schedule
template<typename Server>
static void ask(mon::Rng& rng, simnet::World& w, Server& s, const std::vector<Case>& cases) {
    w.pick = [&](std::size_t k) { return rng.below(k); };
    std::vector<web::Client> clients(cases.size());
    for (std::size_t i = 0; i < cases.size(); ++i) {
        auto& c = clients[i];
        c.steps = web::cut(rng, cases[i].text, rng.chance(70) ? 0 : static_cast<unsigned>(rng.below(5)));
        if (rng.chance(30)) c.window = rng.below(2000);
    }
    web::drive(rng, w, clients, [&] { s.runOne(); });
    for (std::size_t i = 0; i < cases.size(); ++i) judge(cases[i], clients[i].link->received);
}
template<typename FS>
static void ask(mon::Rng& rng, const std::string& root, const std::vector<Case>& cases) {
    simnet::World w;
    webfront::http::Server<web::Net, FS> s("0.0.0.0", "80", root);
    ask(rng, w, s, cases);
}

MON_SECTION(virtualFiles, 500, 20000) {
    auto& t = web::MemFS::table();
    t.clear();
    std::vector<std::string> names;
    auto n = 2 + rng.below(8);
    for (std::size_t i = 0; i < n; ++i) {
        auto name = fileName(rng, " %+#?&'\"<>\\\xc3\xa9");
        if (rng.chance(15)) name = rng.coin() ? "index.html" : fileName(rng, "") + "d/index.html";
        if (name.find("..") != name.npos) continue;
        static const std::vector<std::string> encodings{"br", "gzip"};
        if (t.emplace(name, web::Resource(rng.bytes(resourceSize(rng)), rng.chance(30) ? rng.of(encodings) : "")).second) names.push_back(name);
    }
    std::vector<Case> cases;
    auto k = 3 + rng.below(10);
    for (std::size_t i = 0; i < k; ++i) {
        if (rng.chance(75) && !names.empty()) {
            auto& name = rng.of(names);
            auto target = spell(rng, name);
            if (name.ends_with("index.html") && (name.size() == 10 || name[name.size() - 11] == '/') && rng.coin()) target = spell(rng, name.substr(0, name.size() - 10));
            cases.push_back(makeCase(rng, name, target, &t.at(name)));
        }
        else {
            auto name = rng.coin() && !names.empty() ? rng.of(names) + "x" : fileName(rng, " ");
            if (t.count(name) || name.find("..") != name.npos) continue;
            if (rng.chance(20)) name += "/";
            if (t.count(name + "index.html")) continue;
            cases.push_back(makeCase(rng, name, spell(rng, name), nullptr));
        }
    }
    ask<web::MemFS>(rng, ".", cases);
}

MON_SECTION(nativeFiles, 160, 5000) {
    mon::Scratch dir;
    std::map<std::string, web::Resource> t;
    std::vector<std::string> names;
    std::set<std::string> dirs;
    auto n = 2 + rng.below(8);
    for (std::size_t i = 0; i < n; ++i) {
        auto name = fileName(rng, " %+#?&'\\\xc3\xa9");
        if (rng.chance(20)) name = rng.coin() ? "index.html" : rng.from("abc", 2) + "/index.html";
        if (name.find("..") != name.npos || t.count(name)) continue;
        try {
            web::Resource r(rng.bytes(resourceSize(rng)));
            if (sfs::exists(dir.root / "doc" / name)) continue;
            dir.write("doc/" + name, r.content);
            t.emplace(name, r);
            names.push_back(name);
            for (std::size_t p = name.find('/'); p != name.npos; p = name.find('/', p + 1)) dirs.insert(name.substr(0, p));
        }
        catch (const std::exception&) { // a directory and a file of the same name
        }
    }
    std::vector<Case> cases;
    auto k = 3 + rng.below(10);
    for (std::size_t i = 0; i < k; ++i) {
        auto what = rng.below(10);
        if (what < 7 && !names.empty()) {
            auto& name = rng.of(names);
            auto target = spell(rng, name);
            if ((name == "index.html" || name.ends_with("/index.html")) && rng.coin()) target = spell(rng, name.substr(0, name.size() - 10));
            cases.push_back(makeCase(rng, name, target, &t.at(name)));
        }
        else if (what < 8 && !dirs.empty()) { // a directory is not a resource
            auto it = dirs.begin();
            std::advance(it, rng.below(dirs.size()));
            cases.push_back(makeCase(rng, *it, spell(rng, *it), nullptr));
        }
        else {
            auto name = fileName(rng, " ");
            if (!names.empty() && rng.coin()) name = rng.of(names) + std::string(1, '\0') + rng.from("apng/", rng.below(4)) + (rng.coin() ? ".png" : ""), mon::count("names cut by a NUL"); // not that file
            if (name.find('\0') == name.npos && sfs::exists(dir.root / "doc" / name)) continue;
            cases.push_back(makeCase(rng, name, spell(rng, name), nullptr));
        }
    }
    ask<fs::NativeDebugFS>(rng, (dir.root / "doc").string(), cases);
}

// the combination the library's own programs use: native files, then the embedded ones
// the same server is asked again after resources changed, appeared or went
MON_SECTION(changing, 120, 4000) {
    mon::Scratch dir;
    sfs::create_directories(dir.root / "doc");
    using FS = fs::Multi<fs::NativeDebugFS, web::MemFS>;
    auto& mem = web::MemFS::table();
    mem.clear();
    simnet::World w;
    webfront::http::Server<web::Net, FS> s("0.0.0.0", "80", (dir.root / "doc").string());
    std::vector<std::string> names;
    for (std::size_t i = 2 + rng.below(4); i-- > 0;) names.push_back((rng.coin() ? "d" + std::to_string(i) + "/" : "") + "same" + (rng.coin() ? "" : std::to_string(i)) + (rng.coin() ? ".js" : ".html"));
    std::map<std::string, web::Resource> native;
    auto rounds = 2 + rng.below(3);
    for (std::size_t round = 0; round < rounds; ++round) {
        for (auto& n : names) {
            if (round && rng.chance(30)) continue;
            native.erase(n);
            mem.erase(n);
            sfs::remove(dir.root / "doc" / n);
            auto what = rng.below(5);
            if (what < 2) {
                native.emplace(n, web::Resource(rng.bytes(resourceSize(rng) % 3000)));
                dir.write("doc/" + n, native.at(n).content);
            }
            if (what > 0 && what < 4) mem.emplace(n, web::Resource(rng.bytes(resourceSize(rng) % 3000), rng.chance(30) ? "br" : ""));
        }
        std::vector<Case> cases;
        for (std::size_t i = 0; i < 2 * names.size(); ++i) {
            auto& n = rng.of(names);
            cases.push_back(makeCase(rng, n, spell(rng, n), native.count(n) ? &native.at(n) : mem.count(n) ? &mem.at(n) : nullptr));
        }
        ask(rng, w, s, cases);
        if (round) mon::count("requests for resources which may have changed", static_cast<long long>(cases.size()));
    }
}

MON_SECTION(layered, 60, 1500) {
    mon::Scratch dir;
    std::map<std::string, web::Resource> t;
    auto embedded = [&](auto fsys, const char* name, const char* as) {
        auto f = fsys.open(name);
        if (!f) mon::fail("embedded file missing", name);
        std::string content;
        char b[997];
        while (auto n = f->read(std::span<char>(b))) content.append(b, n);
        t.emplace(as, web::Resource(content, std::string(f->getEncoding())));
    };
    embedded(fs::IndexFS("."), "index.html", "index.html");
    embedded(fs::IndexFS("."), "WebFront.js", "WebFront.js");
    embedded(fs::IndexFS("."), "favicon.ico", "favicon.ico");
    embedded(fs::JasmineFS("."), "jasmine/4.6.0/jasmine.css", "jasmine/4.6.0/jasmine.css");
    embedded(fs::JasmineFS("."), "jasmine/4.6.0/boot0.js", "jasmine/4.6.0/boot0.js");
    embedded(fs::ReactFS("."), "react@18/umd/react.production.min.js", "react@18/umd/react.production.min.js");
    std::vector<std::string> names;
    for (auto& e : t) names.push_back(e.first);
    names.push_back("own.html");
    t.emplace("own.html", web::Resource(rng.bytes(resourceSize(rng))));
    dir.write("own.html", t.at("own.html").content);
    if (rng.coin()) { // a native file hides the embedded one
        auto& name = names[rng.below(3)];
        t.erase(name);
        t.emplace(name, web::Resource(rng.bytes(100 + rng.below(2000))));
        dir.write(name, t.at(name).content);
    }
    std::vector<Case> cases;
    for (int i = 0; i < 8; ++i) {
        auto& name = rng.of(names);
        cases.push_back(makeCase(rng, name, rng.chance(15) && name == "index.html" ? "/" : spell(rng, name), &t.at(name)));
    }
    cases.push_back(makeCase(rng, "none.js", "/none.js", nullptr));
    ask<fs::Multi<fs::NativeDebugFS, fs::IndexFS, fs::JasmineFS, fs::ReactFS>>(rng, dir.root.string(), cases);
}
MON_SECTION(huge, 2, 20) {
    if (!mon::fullSpeed()) return;
    mon::allow(100);
    mon::Scratch dir;
    auto& mem = web::MemFS::table();
    mem.clear();
    std::map<std::string, web::Resource> native;
    auto size = [&] { return (std::size_t{17} << 20) + rng.below(8 << 20); };
    native.emplace("big.js", web::Resource(rng.bytes(size())));
    dir.write("doc/big.js", native.at("big.js").content);
    mem.emplace("big.bin", web::Resource(rng.bytes(size())));
    mem.emplace("packed.bin", web::Resource(rng.bytes(size()), "gzip"));
    std::vector<Case> cases;
    for (auto& [name, r] : native) cases.push_back(makeCase(rng, name, spell(rng, name), &r));
    for (auto& [name, r] : mem) cases.push_back(makeCase(rng, name, spell(rng, name), &r));
    cases.push_back(makeCase(rng, "big.js", "/big.js", &native.at("big.js")));
    ask<fs::Multi<fs::NativeDebugFS, web::MemFS>>(rng, (dir.root / "doc").string(), cases);
    mon::count("resources of more than 16 MiB", static_cast<long long>(cases.size()));
}

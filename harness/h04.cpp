// H04: no request target escapes the document root
#include "http.hpp"
#include "scratch.hpp"
#include "system/IndexFS.hpp"
#include "system/NativeFS.hpp"
#include <climits>

MON_RULE("two scratch trees with the same document root content, one of them with canary files beside, above and around it, served natively; targets built from parent references, absolute paths, double slashes, NULs and back-slashes in plain, single- and double-encoded spellings; violations: canary bytes in an answer, an answer that differs between both trees, a 200 for a target whose real path is not a file inside the root, an inside file not served; non-trivial = one hostile target or one file reached; distinct by target with the scratch path removed");
MON_REQUIRE("hostile targets", 8000);
MON_REQUIRE("hostile targets that would leave the root if followed", 3000);
MON_REQUIRE("inside files served", 1500);

namespace fs = webfront::fs;
namespace sfs = std::filesystem;

static const std::string canary = "CANARY-b1946ac92492d2347c6235b4d2611184-CANARY";

struct Tree {
    mon::Scratch dir;
    sfs::path root;
    std::map<std::string, std::string> inside; // path below the root -> content
};
static std::unique_ptr<Tree> plant(const std::map<std::string, std::string>& inside, bool outside, const std::string& rootName) {
    auto t = std::make_unique<Tree>();
    t->root = t->dir.root / "srv" / rootName;
    t->inside = inside;
    for (auto& [n, c] : inside) t->dir.write("srv/" + rootName + "/" + n, c);
    if (outside) {
        t->dir.write("secret.txt", canary + " above");
        t->dir.write("srv/secret.txt", canary + " beside");
        t->dir.write("srv/index.html", canary + " beside index");
        t->dir.write("index.html", canary + " above index");
        t->dir.write("srv/" + rootName + "-private/secret.txt", canary + " sibling");
        t->dir.write("srv/" + rootName + ".bak", canary + " sibling file");
        t->dir.write("srv/other/index.html", canary + " other");
    }
    return t;
}
static std::string get(const sfs::path& root, const std::string& method, const std::string& target, bool layered) {
    web::Ask a;
    a.method = method;
    a.target = target;
    simnet::World w;
    auto serve = [&](auto&& s) {
        auto c = w.connect();
        c->send(a.text());
        s.run();
        return c->received;
    };
    if (layered) {
        webfront::http::Server<web::Net, fs::Multi<fs::NativeDebugFS, fs::IndexFS>> s("0.0.0.0", "80", root);
        return serve(s);
    }
    webfront::http::Server<web::Net, fs::NativeDebugFS> s("0.0.0.0", "80", root);
    return serve(s);
}
static std::string escape(mon::Rng& rng, const std::string& path, unsigned style) {
    std::string t;
    for (unsigned char c : path) {
        bool must = c <= 32 || c >= 127;
        bool esc = must || (style == 1) || (style == 2 && rng.coin()) || (style == 3 && (c == '.' || c == '/')) || (style == 4 && c == '.') || (style == 5 && c == '/' && rng.coin());
        if (!esc) {
            t += static_cast<char>(c);
            continue;
        }
        char b[8];
        std::snprintf(b, sizeof b, rng.coin() ? "%%%02x" : "%%%02X", c);
        t += b;
    }
    return t;
}
/// does the system itself resolve root/path to a regular file inside root?
static bool insideFile(const sfs::path& root, std::string decoded) {
    auto nul = decoded.find('\0');
    if (nul != decoded.npos) decoded.resize(nul);
    char a[PATH_MAX], b[PATH_MAX];
    if (!realpath((root.string() + "/" + decoded).c_str(), a) || !realpath(root.c_str(), b)) return false;
    std::string p = a, r = b;
    std::error_code ec;
    return p.starts_with(r + "/") && sfs::is_regular_file(p, ec);
}
static std::map<std::string, std::string> content(mon::Rng& rng) {
    std::map<std::string, std::string> m{{"index.html", "inside index"}, {"a.txt", "inside a"}, {"sub/index.html", "inside sub"}, {"sub/deep/b.txt", "inside b"}, {"secret", "inside, not secret"}};
    (void)rng;
    return m;
}

MON_SECTION(hostile, 500, 20000) {
    auto inside = content(rng);
    static const std::vector<std::string> roots{"www", "w w", "www.d", "w+w"};
    auto rootName = rng.of(roots);
    auto with = plant(inside, true, rootName), without = plant(inside, false, rootName);
    bool layered = rng.chance(30);
    for (int k = 0; k < 24; ++k) {
        // an unescaped path with parts that may leave the root
        static const std::vector<std::string> ups{"..", "../", "..//", "/..", "./..", "..\\", "....//", "...", ".. ", "..;", "..%00", "\0..", ". .", "..%2f", "%2e%2e", "%2e%2e%2f", "..%c0%af", "\xc0\xae\xc0\xae/"};
        static const std::vector<std::string> ends{"secret.txt", "index.html", "", "other/", "other/index.html"};
        std::string path;
        auto place = with->dir.root.string();
        switch (rng.below(8)) {
        case 0: path = "/" + std::string(rng.below(3), '/') + (rng.coin() ? place + "/secret.txt" : place + "/srv/secret.txt"); break;
        case 1: { // into a directory and out again
            path = "/sub/deep/";
            for (std::size_t i = 0, n = 2 + rng.below(5); i < n; ++i) path += "../";
            path += rng.of(ends);
            break;
        }
        case 2: path = "/../" + rootName + (rng.coin() ? "-private/secret.txt" : ".bak"); break;
        case 3: path = "/.." + std::string(1, "/\\"[rng.below(2)]) + rng.of(ends); break;
        case 4: path = place + "/srv/" + rootName + "/../secret.txt"; break;
        case 5: path = std::string("/") + std::string(rng.coin() ? "a.txt" : "secret") + std::string(1, '\0') + "/../../secret.txt"; break;
        default: {
            path = "/";
            for (std::size_t i = 0, n = 1 + rng.below(5); i < n; ++i) {
                static const std::vector<std::string> dirs{"sub/", "sub/deep/", "/", "./", "nothing/", "a.txt/"};
                path += rng.coin() ? rng.of(dirs) : rng.of(ups);
                if (path.back() != '/' && rng.chance(80)) path += '/';
            }
            path += rng.of(ends);
        }
        }
        auto style = static_cast<unsigned>(rng.below(6));
        auto target = escape(rng, path, style);
        if (rng.chance(15)) { // encoded twice
            std::string twice;
            for (char c : target) twice += c == '%' ? "%25" : std::string(1, c);
            target = twice;
        }
        if (rng.chance(5)) target = "http://localhost" + target;
        if (rng.chance(4)) target.erase(0, 1);
        if (target.empty()) continue;
        std::string method = rng.chance(55) ? "GET" : "HEAD";
        auto got = get(with->root, method, target, layered), clean = get(without->root, method, target, layered);
        auto where = [&] { return method + " " + mon::show(target, 400) + " root " + rootName + " answered '" + mon::show(got, 200) + "'"; };
        if (got.find("CANARY") != got.npos) mon::fail("content from outside the document root", where());
        if (got != clean) mon::fail("answer depends on files outside the document root", where() + " and without those files '" + mon::show(clean, 200) + "'");
        auto r = web::parseReply(got, method == "HEAD");
        if (!r.error.empty()) mon::fail("malformed response", where() + r.error);
        auto decoded = model::percentDecode(target);
        auto query = decoded;
        if (query.empty() || query.back() == '/') query += "index.html";
        // what the system would find if the path were simply followed
        char real[PATH_MAX];
        auto followed = with->root.string() + "/" + query.substr(0, query.find('\0'));
        if (realpath(followed.c_str(), real) && !std::string(real).starts_with(sfs::canonical(with->root).string() + "/")) mon::count("hostile targets that would leave the root if followed");
        else if (realpath(query.c_str(), real) && query[0] == '/') mon::count("hostile targets that would leave the root if followed");
        if (r.code == 200 && !layered && !insideFile(with->root, query)) mon::fail("200 for what is not a file inside the root", where());
        mon::count("hostile targets");
        mon::count(method + " " + std::to_string(r.code));
        auto shape = target;
        for (std::size_t p; (p = shape.find(place)) != shape.npos;) shape.replace(p, place.size(), "$");
        mon::nontrivial(method + shape);
        if (r.code == 200) mon::sample(where());
    }
}

// everything inside whose path has no ".." is reachable
MON_SECTION(reachable, 220, 8000) {
    mon::Scratch dir;
    sfs::path root = dir.root / "doc";
    std::map<std::string, std::string> inside;
    auto n = 3 + rng.below(12);
    for (std::size_t i = 0; i < n; ++i) {
        std::string name;
        for (std::size_t d = rng.below(5); d-- > 0;) {
            static const std::vector<std::string> dirs{"a", "b.c", "with space", ".hidden", "%41", "é", "x+y", "deep", "...x"};
            auto p = rng.of(dirs);
            if (p.find("..") != p.npos) p = "d";
            name += p + "/";
        }
        static const std::string odd = " %+#?&=;,!'\"()[]{}<>|\\^`~$@:*-_.\t\x01\x7f\xff\xc3\xa9";
        auto len = 1 + rng.below(rng.chance(5) ? 200 : 14);
        for (std::size_t k = 0; k < len; ++k) name += rng.chance(35) ? odd[rng.below(odd.size())] : "abcdefghijklmnopqrstuvwxyzABC0123456789"[rng.below(39)];
        auto leaf = name.substr(name.rfind('/') + 1);
        if (name.find("..") != name.npos || leaf == "." || inside.count(name)) continue;
        try {
            if (sfs::exists(root / name)) continue;
            auto content = "content of " + std::to_string(i) + " " + rng.bytes(rng.below(700));
            dir.write("doc/" + name, content);
            inside.emplace(name, content);
        }
        catch (const std::exception&) {
        }
    }
    for (auto& [name, content] : inside) {
        // only unreserved characters and '/' may stay plain
        std::string t = "/";
        for (unsigned char c : name) {
            bool plain = std::isalnum(c) || (c < 128 && std::strchr("-_.~/", c));
            if (plain && !rng.chance(15)) t += static_cast<char>(c);
            else {
                char b[8];
                std::snprintf(b, sizeof b, rng.coin() ? "%%%02x" : "%%%02X", c);
                t += b;
            }
        }
        bool head = rng.chance(25);
        auto got = get(root, head ? "HEAD" : "GET", t, rng.chance(20));
        auto r = web::parseReply(got, head);
        auto where = [&] { return mon::show(t, 300) + " for file '" + mon::show(name) + "' answered '" + mon::show(got, 200) + "'"; };
        if (!r.error.empty() || r.code != 200) mon::fail("file inside the root not reachable", where());
        if (!head && r.body != content) mon::fail("another file served", where());
        mon::count("inside files served");
        mon::nontrivial(t);
    }
}

// M01: every header stands alone, and the parts of a program share one library
#include "monitor.hpp"
#include "scratch.hpp"
#include <sstream>
#include <sys/wait.h>

MON_RULE("every header compiled on its own, twice in one part, and after every other in random orders; programs of three parts which include all headers in different random orders, linked, and run under ASan+UBSan (UBSan with g++): objects made in one part are used in another, records of one part reach the sinks of another, also before main; non-trivial = a header compiled or a run of a program that ended well; distinct by header or by orders and seed");
MON_REQUIRE("headers compiled alone", 30);
MON_REQUIRE("programs built", 3);
MON_REQUIRE("records received", 500);
MON_REQUIRE("functions called", 300);
MON_REQUIRE("applications", 300);

namespace {
const std::vector<std::string>& headers() {
    static const auto list = [] {
        std::vector<std::string> r;
        for (auto& e : std::filesystem::recursive_directory_iterator(MON_INCLUDE))
            if (e.is_regular_file() && e.path().extension() == ".hpp") r.push_back(std::filesystem::relative(e.path(), MON_INCLUDE).string());
        std::sort(r.begin(), r.end());
        return r;
    }();
    return list;
}
const char* const compilers[] = {"clang++", "g++-13"};
int run(const std::string& command, const std::filesystem::path& log) { return std::system((command + " >" + log.string() + " 2>&1").c_str()); }
std::string text(const std::filesystem::path& p, std::size_t n = 600) {
    std::ifstream f(p);
    std::string t{std::istreambuf_iterator<char>(f), {}};
    auto e = t.find("error");
    if (e != t.npos && e > 200) t.erase(0, e - 200);
    return t.substr(0, n);
}
std::string options() { return std::string(" -std=c++23 -w -D_GLIBCXX_ASSERTIONS -I" MON_ROOT "/shim -I" MON_ROOT "/harness -I") + MON_INCLUDE + " "; }
} // namespace

MON_SECTION(alone, 120, 120) {
    mon::allow(120);
    if (index / 2 >= headers().size()) return;
    auto& h = headers()[index / 2];
    std::string compiler = compilers[index % 2];
    mon::Scratch dir;
    dir.write("alone.cpp", "#include \"" + h + "\"\n#include <" + h + ">\nint main() {}\n");
    auto log = dir.root / "log";
    if (run(compiler + options() + "-fsyntax-only " + (dir.root / "alone.cpp").string(), log) != 0) mon::fail("header does not stand alone", h + " with " + compiler + ": " + text(log));
    mon::count("headers compiled alone");
    mon::nontrivial(h + compiler);
}

MON_SECTION(programs, 4, 24) {
    mon::allow(400);
    mon::Scratch dir;
    auto log = dir.root / "log";
    std::string compiler = compilers[index % 4 == 3];
    auto flags = options() + "-O0 -g1 -fno-sanitize-recover=all " + (compiler == "clang++" ? "-fsanitize=address,undefined -fno-sanitize=object-size,function,vptr " : "-fsanitize=undefined -fno-sanitize=object-size,vptr "); // gcc's ASan does not link types that depend on unnamed namespaces
    std::string objects, orders;
    std::vector<std::string> parts{"A", "B", "C"};
    std::swap(parts[0], parts[rng.below(3)]);
    std::swap(parts[1], parts[1 + rng.below(2)]);
    auto quiet = index % 4 == 0 ? 2 : rng.below(5); // the part which does nothing before main
    for (auto& part : parts) {
        auto list = headers();
        for (std::size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[rng.below(i)]);
        std::string order;
        for (auto& h : list) order += "#include \"" + h + "\"\n";
        orders += part + order;
        auto base = dir.root / part;
        dir.write(part + ".hpp", order);
        objects += " " + base.string() + ".o";
        if (run(compiler + flags + (&part - parts.data() == static_cast<long>(quiet) ? "-DQUIET " : "") + "-DPART=" + part + " -DORDER='\"" + base.string() + ".hpp\"' -c " MON_ROOT "/harness/m01_part.cpp -o " + base.string() + ".o", log) != 0)
            mon::fail("headers do not go together", std::string("order ") + mon::show(order, 900) + text(log));
    }
    auto exe = (dir.root / "program").string();
    if (run(compiler + flags + MON_ROOT "/harness/m01_main.cpp" + objects + " -o " + exe + " -pthread", log) != 0) mon::fail("parts do not link", text(log, 1200));
    mon::count("programs built");
    for (int k = 0; k < 12; ++k) {
        auto seed = rng.next() >> 1;
        auto rc = run(exe + " " + std::to_string(seed) + " 300", log);
        auto t = text(log, 3000);
        if (rc != 0) {
            auto m = t.find("M01 ");
            auto bar = t.find(" | ");
            if (m != t.npos && bar != t.npos && bar > m) mon::fail(t.substr(m + 4, bar - m - 4), t.substr(bar + 3, 300));
            mon::fail("program of several parts ended badly", "status " + std::to_string(rc) + ": " + t);
        }
        std::ifstream f(log);
        std::string word, name;
        for (std::string line; std::getline(f, line);) {
            std::istringstream in(line);
            long n = 0;
            if (in >> word >> n && word == "COUNT" && std::getline(in >> std::ws, name)) mon::count(name, n);
        }
        mon::nontrivial(mon::mix(mon::fnv(orders), seed));
    }
    mon::sample(compiler + ": three parts, 12 runs of 300 steps");
}

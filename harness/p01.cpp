// P01: the demonstration programs do what they show
#include "app.hpp"
#include "node.hpp"
#include "scratch.hpp"

#include <regex>
#include <sstream>

// the programs are compiled on their own; these are their entry points, and what stands in for system()
extern "C" int helloMain(int, char**);
extern "C" int jasmineMain(int, char**);
static std::function<void(const std::string&)> onSystem;
extern "C" int demoSystem(const char* command) {
    if (onSystem) onSystem(command ? command : "");
    return 0;
}

MON_RULE("the two programs, run from their entry points to the end of their event loops on the simulated network, in scratch directories laid out at random, with the browser they start, 0 to 4 browsers that execute the client script and clients that ask for files; the oracle is the standard output, the command given to the system, the bytes served and the calls observed in the JavaScript engine; non-trivial = a program that served its clients or refused to start; distinct by program, layout and clients");
MON_REQUIRE("programs run", 100);
MON_REQUIRE("browsers greeted", 100);
MON_REQUIRE("lines printed for browsers", 100);
MON_REQUIRE("programs without a page", 10);
MON_REQUIRE("files served", 150);
MON_REQUIRE("pages shown", 2);

namespace {
using web::Step;
enum Program { helloWorld, specRunner };
const char* const pages[] = {"react.html", "SpecRunner.html"};
const char* const folders[] = {"src", "webtest"};

struct Redirect { // of the standard streams, the current directory and the temp directory
    std::ostringstream out, log;
    std::streambuf *cout, *clog;
    std::filesystem::path cwd;
    std::string temp;
    Redirect(const std::filesystem::path& dir, const std::filesystem::path& t) : cout(std::cout.rdbuf(out.rdbuf())), clog(std::clog.rdbuf(log.rdbuf())), cwd(std::filesystem::current_path()), temp(std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "") {
        std::filesystem::current_path(dir);
        setenv("TMPDIR", t.c_str(), 1);
    }
    ~Redirect() {
        std::cout.rdbuf(cout);
        std::clog.rdbuf(clog);
        std::error_code ec;
        std::filesystem::current_path(cwd, ec);
        if (temp.empty()) unsetenv("TMPDIR");
        else setenv("TMPDIR", temp.c_str(), 1);
        app::wlog::setLogLevel(app::wlog::Disabled);
        app::wlog::out.sinks.clear();
    }
};
std::string readFile(const std::filesystem::path& p) {
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}
std::string repoFile(const std::string& name) {
    auto t = readFile(std::filesystem::path(MON_INCLUDE).parent_path() / name);
    if (t.empty()) throw mon::HarnessError("cannot read " + name);
    return t;
}
mon::Node& browsersNode() {
    static mon::Node n("l07_node.js");
    return n;
}
mon::Node& pagesNode() {
    static mon::Node n("p01_node.js");
    return n;
}

struct Visitor { // a browser that runs the client script
    std::string id, sends;
    std::size_t delivered = 0, refusals = 0;
    bool linked = false, greeted = false, leaves = false;
    std::vector<std::string> calls, errors, printed;
    std::size_t scripts = 0, unknown = 0;
};
/// one run of a program
struct Run {
    mon::Rng& rng;
    Program program;
    simnet::World w;
    std::vector<web::Client> clients;
    std::deque<Visitor> visitors; // of the first clients
    std::vector<std::string> commands;
    std::string port, path;
    bool listeningWhenOpened = false, ended = false;
    unsigned eager;
    std::string out, thrown;
    int result = 0;

    Run(mon::Rng& r, Program p) : rng(r), program(p), eager(static_cast<unsigned>(10 + r.below(80))) {}
    bool clientStep() {
        std::vector<std::size_t> enabled;
        for (std::size_t i = 0; i < clients.size(); ++i) {
            auto& c = clients[i];
            if (c.connected)
                while (!c.steps.empty() && c.steps.front().kind == Step::await && c.steps.front().condition()) c.steps.pop_front();
            if (!c.connected || (!c.steps.empty() && c.steps.front().kind != Step::await)) enabled.push_back(i);
        }
        if (enabled.empty()) return false;
        auto& c = clients[enabled[rng.below(enabled.size())]];
        if (!c.connected) {
            c.connected = true;
            c.link = w.connect(port);
            c.link->setWindow(c.window);
            c.link->maxWrite = c.maxWrite;
            c.link->maxRead = c.maxRead;
            return true;
        }
        auto s = std::move(c.steps.front());
        c.steps.pop_front();
        switch (s.kind) {
        case Step::send: c.link->send(s.bytes); break;
        case Step::window: c.link->addWindow(s.n); break;
        case Step::close: c.link->clientClose(); break;
        case Step::reset: c.link->clientResetNow(); break;
        case Step::act: s.todo(); break;
        case Step::await: break;
        }
        return true;
    }
    void events(std::size_t i, const std::string& line) {
        auto& v = visitors[i];
        std::istringstream in(line);
        for (std::string ev; in >> ev;) switch (ev[0]) {
            case 'S': {
                auto& steps = clients[i].steps;
                auto pos = steps.begin();
                while (pos != steps.end() && pos->kind == Step::send) ++pos;
                auto more = web::cut(rng, app::frame(rng, mon::unhex(std::string_view(ev).substr(1))), static_cast<unsigned>(rng.below(5)));
                steps.insert(pos, std::make_move_iterator(more.begin()), std::make_move_iterator(more.end()));
                break;
            }
            case 'C': v.calls.push_back(ev.substr(1)); break;
            case 'X': ++v.scripts; break;
            case 'E': v.errors.push_back(mon::unhex(std::string_view(ev).substr(1))); break;
            default: throw mon::HarnessError("node answered " + mon::show(line));
            }
    }
    void deliver() {
        for (std::size_t i = 0; i < visitors.size(); ++i) {
            auto& c = clients[i];
            if (!c.link || visitors[i].id.empty()) continue;
            auto& v = visitors[i];
            wire::Frame f;
            for (;;) {
                auto all = app::wsBytes(*c.link);
                if (v.delivered > all.size() || !wire::parseFrame(all.substr(v.delivered), f)) break;
                v.delivered += f.size;
                if (f.opcode != wire::binary) continue;
                v.linked |= !f.payload.empty() && f.payload[0] == wire::ack;
                v.refusals += !f.payload.empty() && f.payload[0] == wire::functionReturn;
                events(i, browsersNode().ask("frame " + v.id + " " + mon::hex(f.payload)));
            }
        }
    }
    bool work() { // the clients' part, when the program has nothing to do
        deliver();
        if (clientStep()) return true;
        for (auto& c : clients)
            if (c.link && !c.link->writes.empty() && c.link->open && c.link->window != simnet::unlimited) {
                c.link->addWindow(1 + rng.below(rng.coin() ? 200 : 40000));
                return true;
            }
        return false;
    }
    void start(const std::filesystem::path& dir, const std::filesystem::path& temp) {
        Redirect r(dir, temp);
        w.pick = [this](std::size_t n) { return rng.below(n); };
        w.idle = [this] { return work(); };
        w.turn = [this] {
            deliver();
            while (!rng.chance(eager) && clientStep()) {}
            if (w.handlersRun > 500'000) mon::fail("no end", "the program keeps running handlers");
        };
        onSystem = [this](const std::string& command) {
            commands.push_back(command);
            std::smatch m;
            static const std::regex url("http://localhost:([0-9]+)/(\\S+)");
            if (!std::regex_search(command, m, url)) return;
            port = m[1];
            path = "/" + m[2].str();
            listeningWhenOpened = !w.acceptors.empty() && w.listening(port);
        };
        mon::count("programs run");
        static char name[] = "demo";
        char* arguments[] = {name, nullptr};
        try {
            result = (program == helloWorld ? helloMain : jasmineMain)(1, arguments);
            ended = true;
        }
        catch (const std::exception& e) {
            thrown = e.what();
        }
        deliver();
        onSystem = {};
        out = r.out.str();
        lastLog = r.log.str();
    }
    std::string lastLog;
    const char* name() const { return program == helloWorld ? "HelloWorld" : "JasmineTest"; }
    /// asks for a file on a connection of its own; the answer is read from the link
    std::size_t ask(const std::string& target) {
        auto& c = clients.emplace_back();
        app::conditions(rng, c, 15);
        web::Ask a;
        a.target = target;
        a.headers = {{"Host", "localhost:9002"}, {"Accept-Encoding", "gzip, deflate, br"}};
        app::append(c.steps, web::cut(rng, a.text(), rng.coin() ? 0 : static_cast<unsigned>(rng.below(5))));
        return clients.size() - 1;
    }
    web::Reply reply(std::size_t i) {
        if (!clients[i].link) mon::fail("client not served", std::string(name()) + " ended before");
        auto r = web::parseReply(clients[i].link->received, false);
        if (!r.error.empty()) mon::fail("answer", r.error + ": " + mon::show(clients[i].link->received, 200));
        return r;
    }
    void visit(std::size_t i, const std::vector<std::string>& functions) {
        auto& c = clients[i];
        app::conditions(rng, c, 15);
        app::connectSteps(rng, c, false);
        c.steps.push_back(app::act([this, i, functions] {
            static std::size_t ids = 0;
            auto& v = visitors[i];
            v.id = std::to_string(++ids);
            std::string line = "open " + v.id + " " + port;
            for (auto& f : functions) line += " " + mon::hex(f);
            events(i, browsersNode().ask(line));
        }));
    }
    void call(std::size_t i, const std::string& function, const std::string& args) {
        clients[i].steps.push_back(app::act([=, this] { events(i, browsersNode().ask("call " + visitors[i].id + " " + mon::hex(function) + " " + args)); }));
    }
};
/// the client script as HelloWorld serves it
void fetchClient() {
    static bool done = false;
    if (done) return;
    done = true;
    mon::Scratch s;
    s.write("react.html", "page");
    mon::Rng rng(1);
    Run run(rng, helloWorld);
    auto i = run.ask("/WebFront.js");
    run.start(s.root, s.root);
    auto r = run.reply(i);
    if (r.code != 200) mon::fail("client script not served", mon::show(run.clients[i].link->received, 200));
    browsersNode().ask("source " + r.header("Content-Encoding").value_or("none") + " " + mon::hex(r.body));
}
void opened(Run& run) {
    if (!run.thrown.empty()) mon::fail("program ended by an exception", std::string(run.name()) + ": " + run.thrown);
    if (run.commands.size() != 1 || run.port.empty()) mon::fail("browser not started", std::string(run.name()) + ": " + std::to_string(run.commands.size()) + " commands " + (run.commands.empty() ? "" : mon::show(run.commands[0])));
    if (run.port != "9002" || run.path != std::string("/") + pages[run.program]) mon::fail("browser sent elsewhere", run.commands[0]);
    if (!run.listeningWhenOpened) mon::fail("browser started before the server", run.commands[0]);
}
} // namespace

// browsers, and clients that ask for files
MON_SECTION(visits, 110, 3000) {
    fetchClient();
    mon::Scratch s;
    auto program = rng.chance(65) ? helloWorld : specRunner;
    Run run(rng, program);
    std::string page = "<html>" + rng.from("abcdef <>\n", rng.below(3000)) + "</html>";
    s.write(std::string("here/") + pages[program], page);
    auto extra = rng.bytes(rng.below(2000));
    s.write("here/sub/extra.txt", extra);
    std::filesystem::create_directories(s.root / "tmp");
    auto n = rng.below(5);
    run.clients.resize(n);
    run.visitors.resize(n);
    static std::size_t tokens = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& v = run.visitors[i];
        run.visit(i, program == helloWorld ? std::vector<std::string>{"f"} : std::vector<std::string>{"print"});
        auto& steps = run.clients[i].steps;
        if (rng.chance(85)) steps.push_back(app::await([&v] { return v.linked; }));
        else if (rng.coin()) { // leaves early
            v.leaves = true;
            Step st;
            st.kind = rng.coin() ? Step::close : Step::reset;
            steps.push_back(std::move(st));
            continue;
        }
        else steps.push_back(app::await([&v] { return v.linked; }));
        for (std::size_t k = rng.below(5); k-- > 0;) {
            if (rng.chance(25)) {
                run.call(i, "unknown" + std::to_string(rng.below(100)), "[]");
                ++v.unknown;
            }
            else if (program == helloWorld) {
                auto t = "token " + std::to_string(++tokens) + " of " + std::to_string(i) + rng.from(" abc", rng.chance(10) ? rng.below(2000) : rng.below(20));
                if (rng.chance(30)) t += std::string("é漢\0\t\"%{}😀", 16) + rng.from("xyz", 3);
                run.call(i, "print", "[s" + mon::hex(t) + ";]");
                v.printed.push_back(t);
            }
            else run.call(i, "getVersion", rng.coin() ? "[]" : "[s" + mon::hex(rng.from("abc", rng.below(300))) + ";]");
        }
        steps.push_back(app::await([&v, program] { return program == helloWorld ? v.scripts > 0 && v.refusals > v.unknown : v.calls.size() > 0; }));
        if (rng.chance(30)) {
            v.greeted = true;
            Step st;
            st.kind = rng.coin() ? Step::close : Step::reset;
            steps.push_back(std::move(st));
        }
    }
    std::vector<std::pair<std::size_t, std::optional<std::string>>> asked;
    for (std::size_t k = 1 + rng.below(4); k-- > 0;) {
        switch (rng.below(4)) {
        case 0: asked.emplace_back(run.ask("/sub/extra.txt"), extra); break;
        case 1: asked.emplace_back(run.ask("/none" + std::to_string(k)), std::nullopt); break;
        default: asked.emplace_back(run.ask(std::string("/") + pages[program]), page);
        }
    }
    // the clients are addressed by reference in the steps: their number is settled only now
    for (std::size_t i = 0; i < n; ++i)
        for (auto& st : run.clients[i].steps)
            if (st.kind == Step::await) {
                st.condition = [&run, i] { return run.clients[i].link && app::upgraded(*run.clients[i].link); };
                break;
            }
    run.start(s.root / "here", s.root / "tmp");
    opened(run);
    for (auto& [i, want] : asked) {
        auto r = run.reply(i);
        if (r.code != (want ? 200 : 404) || (want && r.body != *want)) mon::fail("file", std::to_string(r.code) + " " + mon::show(r.body, 80) + " instead of " + (want ? mon::show(*want, 80) : "404"));
        if (want) mon::count("files served");
    }
    // what each browser saw
    std::size_t greeted = 0, gone = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& v = run.visitors[i];
        if (!v.id.empty()) browsersNode().ask("close " + v.id);
        if (v.leaves) {
            ++gone;
            continue;
        }
        ++greeted;
        auto who = "browser " + std::to_string(i) + " of " + std::to_string(n) + " of " + run.name() + ": ";
        if (!run.clients[i].steps.empty()) mon::fail("browser left waiting", who + (v.linked ? "" : "not linked, ") + std::to_string(v.scripts) + " scripts, " + std::to_string(v.calls.size()) + " calls, " + std::to_string(v.refusals) + " refusals, received '" + mon::show(run.clients[i].link->received, 100) + "'");
        if (!v.errors.empty()) mon::fail("error in the page", who + v.errors[0]);
        if (v.scripts != 1) mon::fail("scripts", who + std::to_string(v.scripts));
        if (program == specRunner) {
            auto want = mon::hex("print") + ":[s" + mon::hex("Hello World of 2023") + ";]";
            if (v.calls != std::vector{want}) mon::fail("greeting", who + std::to_string(v.calls.size()) + " calls" + (v.calls.empty() ? "" : " " + v.calls[0]));
        }
        else if (v.refusals != 1 + v.unknown) mon::fail("unknown functions", who + std::to_string(v.refusals) + " refusals of " + std::to_string(1 + v.unknown));
        mon::count("browsers greeted");
        mon::count("unknown functions", static_cast<long long>(v.unknown));
    }
    if (program == helloWorld) {
        std::vector<std::string> lines;
        std::istringstream in(run.out);
        for (std::string l; std::getline(in, l);) lines.push_back(l);
        std::size_t hellos = 0;
        std::map<std::string, std::pair<std::size_t, std::size_t>> places; // text to browser and number
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t k = 0; k < run.visitors[i].printed.size(); ++k) places[run.visitors[i].printed[k]] = {i, k};
        std::vector<std::size_t> next(n);
        std::size_t judged = 0;
        for (std::size_t k = 0; k < lines.size(); ++k) { // other lines are chatter of the library
            if (lines[k] == "Hello World of 2022") {
                ++hellos;
                ++judged;
                continue;
            }
            auto it = places.find(lines[k]);
            if (it == places.end()) continue;
            ++judged;
            if (next[it->second.first]++ != it->second.second) mon::fail("order of the lines", mon::show(lines[k], 200));
        }
        for (std::size_t i = 0; i < n; ++i)
            if (!run.visitors[i].leaves && !run.visitors[i].greeted && next[i] != run.visitors[i].printed.size()) mon::fail("line missing", "browser " + std::to_string(i) + ": " + std::to_string(next[i]) + " of " + std::to_string(run.visitors[i].printed.size()));
        if (hellos < greeted || hellos > greeted + gone) mon::fail("greetings printed", std::to_string(hellos) + " for " + std::to_string(greeted) + " browsers");
        mon::count("lines printed for browsers", static_cast<long long>(judged));
    }
    mon::nontrivial(mon::mix(run.w.traceHash, program));
    mon::sample(std::string(run.name()) + ": " + std::to_string(greeted) + " browsers, " + std::to_string(asked.size()) + " files asked");
}

// where the page is found
MON_SECTION(places, 80, 1500) {
    mon::Scratch s;
    bool nested = index < 2; // the page is in an inner WebFront directory only
    auto program = nested ? index ? helloWorld : specRunner : rng.coin() ? helloWorld : specRunner;
    std::string page = pages[program], folder = folders[program];
    std::filesystem::path cwd;
    std::vector<std::filesystem::path> places; // in the order of the search
    for (std::size_t n = nested ? 3 : rng.below(6), k = 0; k < n; ++k) {
        static const char* names[] = {"WebFront", "build", "WebFront", "WebFrontX", "src", "webfront", "a b", "é"};
        cwd /= nested ? names[k] : rng.of(names);
        if (cwd.filename() == "WebFront") places.push_back(s.root / cwd / folder);
        else if (rng.chance(20) && (cwd.filename() == "WebFrontX" || cwd.filename() == "webfront")) s.write(cwd / folder / page, "not here");
    }
    auto temp = s.root / "the temp";
    places.insert(places.begin(), {s.root / cwd, temp});
    std::optional<std::string> want;
    std::string layout;
    std::filesystem::create_directories(s.root / cwd);
    std::filesystem::create_directories(temp);
    std::string mark = std::to_string(rng.next());
    for (std::size_t k = 0; k < places.size(); ++k) {
        if (nested ? k != 3 : !rng.chance(30)) continue;
        auto content = std::to_string(k) + " " + mark;
        auto name = std::filesystem::relative(places[k], s.root) / page;
        if (std::filesystem::exists(s.root / name)) continue; // two places may be one
        s.write(name, content);
    }
    for (auto& p : places)
        if (!want && std::filesystem::exists(p / page)) want = readFile(p / page);
    s.write("elsewhere/" + page, "not here");
    for (auto& p : places) layout += std::filesystem::exists(p / page) ? '1' : '0';
    Run run(rng, program);
    auto i = run.ask("/" + page);
    run.start(s.root / cwd, temp);
    bool inner = true; // the only copy of the page is in a WebFront directory within another one
    for (std::size_t k = 0; k < std::min<std::size_t>(3, places.size()); ++k) inner = inner && !std::filesystem::exists(places[k] / page);
    if (want && inner && program == specRunner && run.commands.empty() && run.w.acceptors.empty() && run.thrown.empty() && run.lastLog.find(page) != std::string::npos)
        mon::fail("page of the spec runner in an inner WebFront directory", "not found: " + layout.substr(2));
    else if (want) {
        opened(run);
        auto r = run.reply(i);
        if (r.code != 200 || r.body != *want) mon::fail("page found in the wrong place", cwd.string() + " " + layout + ": " + std::to_string(r.code) + " " + mon::show(r.body, 80) + " instead of " + *want);
    }
    else {
        mon::count("programs without a page");
        if (!run.commands.empty() || !run.w.acceptors.empty()) mon::fail("started without its page", cwd.string() + " " + layout);
        if (program == helloWorld ? run.thrown.find(page) == std::string::npos : run.lastLog.find(page) == std::string::npos || !run.thrown.empty())
            mon::fail("page not found", std::string(run.name()) + ": exception '" + run.thrown + "' log '" + mon::show(run.lastLog, 200) + "'");
    }
    mon::nontrivial(mon::fnv(layout + cwd.string(), program));
}

// the pages of the repository, with everything they refer to
MON_SECTION(shown, 2, 6) {
    auto program = index % 2 ? specRunner : helloWorld;
    auto folder = std::string(program == helloWorld ? "src/" : "webtest/");
    auto page = repoFile(folder + pages[program]);
    mon::Scratch s;
    s.write(std::string("in/") + pages[program], page);
    if (program == specRunner)
        for (auto& e : std::filesystem::directory_iterator(std::filesystem::path(MON_INCLUDE).parent_path() / "webtest/js")) s.write("in/js/" + e.path().filename().string(), readFile(e.path()));
    Run run(rng, program);
    std::vector<std::pair<std::string, std::size_t>> asked;
    static const std::regex reference("(?:src|href)=\"([^\"]+)\"");
    for (std::sregex_iterator it(page.begin(), page.end(), reference), end; it != end; ++it) asked.emplace_back((*it)[1], run.ask("/" + (*it)[1].str()));
    auto own = run.ask(std::string("/") + pages[program]);
    run.start(s.root / "in", s.root);
    opened(run);
    auto r = run.reply(own);
    if (r.code != 200 || r.body != page || r.header("Content-Type").value_or("").find("text/html") != 0) mon::fail("page", std::to_string(r.code) + " " + r.header("Content-Type").value_or("no type"));
    std::string line = std::string(program == helloWorld ? "react " : "jasmine ") + mon::hex(page);
    for (auto& [url, i] : asked) {
        auto a = run.reply(i);
        auto type = a.header("Content-Type").value_or("");
        bool script = url.ends_with(".js");
        if (a.code != 200) mon::fail("reference of the page", url + ": " + std::to_string(a.code));
        if (script && type.find("javascript") == std::string::npos) mon::fail("type of a script", url + ": " + type);
        line += " " + mon::hex(url) + ":" + mon::hex(a.header("Content-Encoding").value_or("")) + ":" + mon::hex(a.body);
        mon::count("files served");
    }
    auto answer = pagesNode().ask(line);
    auto shown = mon::unhex(std::string_view(answer).substr(answer.find(' ') + 1));
    if (answer[0] != 'o') mon::fail("page does not show", shown);
    if (program == helloWorld) {
        for (auto t : {"Shopping List for @bob", "<li>Instagram</li>", "<li>WhatsApp</li>", "<li>Oculus</li>"})
            if (shown.find(t) == shown.npos) mon::fail("page shows something else", shown);
    }
    else {
        std::istringstream in(shown);
        std::string status, spec, sent;
        std::getline(in, status);
        std::getline(in, spec);
        std::getline(in, sent);
        if (status != "passed" || !spec.ends_with(": passed") || sent.find(mon::hex("getVersion")) == sent.npos) mon::fail("specifications", shown);
    }
    mon::count("pages shown");
    mon::nontrivial(mon::fnv(shown));
    mon::sample(std::string(run.name()) + " shows " + mon::show(shown, 120));
}

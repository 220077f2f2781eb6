// One part of an M01 program. ORDER: a file that includes every header of the library, in some order; PART: the name of the part.
#include ORDER
#include "m01.hpp"

#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

namespace {
using namespace webfront;
using WF = BasicWF<NetProvider, fs::IndexFS>;
std::vector<std::string>& earlyLines() {
    static std::vector<std::string> lines;
    return lines;
}
#ifndef QUIET
struct Early { // uses the library while the program is being initialised
    Early() {
        log::setLogLevel(log::Error);
        log::addSinks([](std::string_view t) { earlyLines().emplace_back(t); });
        log::error("early {}", STR(PART));
    }
} early;
#endif
std::string plain(std::span<const std::byte> b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }
} // namespace

Part CAT(part_, PART)() {
    Part p;
    p.name = STR(PART);
#ifndef QUIET
    p.early = &earlyLines();
#endif
    p.subscribe = [](std::vector<std::string>* to) { return log::addSinks([to](std::string_view t) { to->emplace_back(t); }); };
    p.unsubscribe = [](std::size_t id) { log::removeSinks(id); };
    p.level = [](int l) {
        switch (l) {
        case 0: log::setLogLevel(log::Disabled); break;
        case 1: log::setLogLevel(log::Error); break;
        case 2: log::setLogLevel(log::Warn); break;
        case 3: log::setLogLevel(log::Info); break;
        default: log::setLogLevel(log::Debug);
        }
    };
    p.record = [](int kind, std::string text) {
        switch (kind) {
        case 1: log::error("{}", text); break;
        case 2: log::warn("{}", text); break;
        case 3: log::info("{}", text); break;
        default: log::debug("{}", text);
        }
    };
    p.makeFunction = [](int kind, std::vector<std::string>* got) -> std::shared_ptr<void> {
        using utils::TypeErasedFunction;
        switch (kind) {
        case 0: return std::make_shared<TypeErasedFunction>([got]() { got->push_back("()"); });
        case 1: return std::make_shared<TypeErasedFunction>([got](int i) { got->push_back(std::to_string(i)); });
        case 2: return std::make_shared<TypeErasedFunction>([got](int i, double d) { got->push_back(std::to_string(i) + " " + std::to_string(d)); });
        default: return std::make_shared<TypeErasedFunction>([got](const char* t) { got->push_back(t); });
        }
    };
    p.callFunction = [](void* f, int kind) -> std::string {
        auto& function = *static_cast<utils::TypeErasedFunction*>(f);
        try {
            switch (kind) {
            case 0: function(); break;
            case 1: function(41); break;
            case 2: function(5, 2.5); break;
            default: {
                const char* text = "text";
                function(std::move(text));
            }
            }
            return "ran";
        }
        catch (const std::invalid_argument&) {
            return "refused";
        }
    };
    p.makeApplication = []() -> std::shared_ptr<void> { return std::make_shared<WF>("80", "."); };
    p.registerFunction = [](void* wf, std::string name, std::vector<std::string>* got) {
        static_cast<WF*>(wf)->cppFunction<void, std::string, double, bool>(name, [got, name](const std::string& s, double d, bool b) { got->push_back(name + "(" + s + "," + std::to_string(d) + "," + (b ? "yes" : "no") + ")"); });
    };
    p.announce = [](void* wf, std::vector<std::string>* got) {
        static_cast<WF*>(wf)->onUIStarted([got](WF::UI ui) {
            got->push_back("announced in " STR(PART));
            ui.jsFunction("f")("part " STR(PART), 7, true);
            ui.addScript("script of " STR(PART));
        });
    };
    p.runOne = [](void* wf) { static_cast<WF*>(wf)->runOne(); };
    p.results = [](const std::string& t) {
        std::vector<std::string> r;
        r.push_back(base64::encode(t));
        r.push_back(std::string(base64::encodeInNetworkOrder(std::vector<std::uint32_t>(t.begin(), t.end()))));
        auto digest = crypto::sha1(t);
        std::string bytes;
        for (auto d : digest) bytes += std::to_string(static_cast<std::uint64_t>(d)) + " ";
        r.push_back(bytes);
        r.push_back(uri::encode(t));
        r.push_back(uri::decode(t));
        std::vector<unsigned char> raw(t.begin(), t.end());
        std::ostringstream dump;
        dump << utils::hexDump(raw);
        r.push_back(dump.str());
        r.push_back(std::string(http::MimeType(std::string_view("html")).toString()) + std::string(http::MimeType(std::string_view(t)).toString()));
        websocket::Frame<NetProvider> frame{std::string_view(t)};
        std::string sent;
        for (auto& b : frame.toBuffers()) sent.append(static_cast<const char*>(b.data()), b.size());
        r.push_back(sent);
        return r;
    };
    p.openFile = [](const std::string& name) -> std::shared_ptr<void> {
        using Files = fs::Multi<fs::IndexFS, fs::ReactFS, fs::JasmineFS, fs::BabelFS>;
        auto f = Files("/").open(name);
        if (!f) return {};
        return std::make_shared<fs::File>(std::move(*f));
    };
    p.readFile = [](void* f) {
        std::string r, b(1000, '\0');
        while (auto n = static_cast<fs::File*>(f)->read(std::span<char>(b))) r.append(b, 0, n);
        return r;
    };
    return p;
}

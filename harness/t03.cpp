// T03: type-erased functions run exactly when the argument types match
#include "monitor.hpp"
#include "utils/TypeErasedFunction.hpp"
#include <functional>
#include <optional>
#include <utility>

MON_RULE("histories of calls of wrapped lambdas, functions, function objects, std::functions and bound callables with every argument list of a matrix, wrappers moved around and originals destroyed, callables that throw or call their own wrapper; non-trivial = one call; distinct by callable, argument list and way of calling");
MON_REQUIRE("matching calls", 2000);
MON_REQUIRE("mismatching calls", 5000);
MON_REQUIRE("results compared", 500);
MON_REQUIRE("calls that threw", 150);
MON_REQUIRE("calls from within", 150);

using webfront::utils::TypeErasedFunction;
using S = std::string;

// what the wrapped callables were called with
static std::vector<S> calls;
static std::function<void()> within; // what the callable does the next time it runs
struct Boom {};
template<typename T>
S shown(const T& v) {
    if constexpr (std::is_same_v<T, S> || std::is_same_v<T, std::string_view> || std::is_convertible_v<T, const char*>) return "'" + S(v) + "'";
    else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
    else if constexpr (requires { *v; v.reset(); }) return "*" + std::to_string(*v);
    else return "?";
}
template<typename... A>
void record(const S& tag, const A&... a) {
    S r = tag + "(";
    ((r += shown(a) + ","), ...);
    calls.push_back(r + ")");
    if (within) std::exchange(within, nullptr)();
}
// one fixed way to produce a result from the arguments
static S text(const S& tag, int n) { return tag + "#" + std::to_string(n); }

struct Args {
    int i;
    double d;
    bool b;
    S s;
    std::size_t z;
};
static Args draw(mon::Rng& rng) { return {static_cast<int>(rng.next()), static_cast<double>(rng.range(-1000, 1000)) / 8, rng.coin(), rng.from("abcdef ", rng.below(40)), static_cast<std::size_t>(rng.next())}; }

// ---- signatures: the argument lists of the matrix --------------------------------------------------------------------
enum Sig { none, i, d, b, s, csr, sv, cc, id, di, is, si, ir, up, isdbz, z, ii, ss, Count };
static const char* sigNames[Count] = {"()", "(int)", "(double)", "(bool)", "(string)", "(const string&)", "(string_view)", "(const char*)", "(int,double)", "(double,int)", "(int,string)", "(string,int)", "(int&)", "(unique_ptr)", "(int,string,double,bool,size_t)", "(size_t)", "(int,int)", "(string,string)"};

/// calls f(arguments) for a signature; the log line the call must leave is tag + returned text
template<typename F>
S invoke(Sig sig, const Args& a, F&& f) {
    auto line = [](auto&&... v) {
        S r = "(";
        ((r += shown(v) + ","), ...);
        return r + ")";
    };
    switch (sig) {
    case none: f(); return line();
    case i: f(int(a.i)); return line(a.i);
    case d: f(double(a.d)); return line(a.d);
    case b: f(bool(a.b)); return line(a.b);
    case s: f(S(a.s)); return line(a.s);
    case csr: {
        const S v = a.s;
        f(v);
        return line(v);
    }
    case sv: f(std::string_view(a.s)); return line(a.s);
    case cc: f(static_cast<const char*>(a.s.c_str())); return line(a.s);
    case id: f(int(a.i), double(a.d)); return line(a.i, a.d);
    case di: f(double(a.d), int(a.i)); return line(a.d, a.i);
    case is: f(int(a.i), S(a.s)); return line(a.i, a.s);
    case si: f(S(a.s), int(a.i)); return line(a.s, a.i);
    case ir: {
        int v = a.i;
        f(v);
        return line(a.i);
    }
    case up: {
        auto p = std::make_unique<int>(a.i);
        f(std::move(p));
        return line(std::make_unique<int>(a.i));
    }
    case isdbz: f(int(a.i), S(a.s), double(a.d), bool(a.b), std::size_t(a.z)); return line(a.i, a.s, a.d, a.b, a.z);
    case z: f(std::size_t(a.z)); return line(a.z);
    case ii: f(int(a.i), int(a.i / 2)); return line(a.i, a.i / 2);
    case ss: f(S(a.s), S(a.s + "!")); return line(a.s, a.s + "!");
    default: throw mon::HarnessError("signature");
    }
}

// ---- callables ---------------------------------------------------------------------------------------------------------
static void freeNone() { record("freeNone"); }
static int freeInt(int v) {
    record("freeInt", v);
    return v ^ 1;
}
static S freeMany(int v, S t, double x, bool y, std::size_t w) {
    record("freeMany", v, t, x, y, w);
    return text("freeMany", v);
}
static void freeRef(int& v) { record("freeRef", v); }
struct Functor {
    S state;
    int count = 0;
    S operator()(S t, int v) {
        record(state, t, v);
        ++count;
        return text(state, v);
    }
};
struct ConstFunctor {
    S state;
    double operator()(double v) const {
        record(state, v);
        return v * 2;
    }
};
struct Member {
    S state;
    int method(int v, double x) {
        record(state, v, x);
        return v / 2;
    }
    S constMethod(S t) const {
        record(state, t);
        return text(state, 1);
    }
};
enum Ret { Void, Int, Double, Text, Bool };
struct Wrapped {
    S tag; // what its calls record
    Sig sig;
    Ret ret;
    TypeErasedFunction f;
    std::optional<S> fixed; // bound callables record bound values, whatever is passed
};
static const int kinds = 24;
static std::shared_ptr<Wrapped> wrap(unsigned kind, mon::Rng& rng) {
    // captured state lives on the heap so that a dangling reference to it is detected
    S tag = rng.from("klmnop", 30);
    auto self = [](S t, Sig g, Ret r, TypeErasedFunction f, std::optional<S> fixed = {}) { return std::make_shared<Wrapped>(Wrapped{std::move(t), g, r, std::move(f), std::move(fixed)}); };
    using namespace std::placeholders;
    switch (kind) {
    case 0: return self(tag, none, Void, [tag] { record(tag); });
    case 1: return self(tag, i, Int, [tag](int v) { record(tag, v); return v ^ 1; });
    case 2: {
        auto lambda = [tag](double v) { record(tag, v); };
        return self(tag, d, Void, lambda);
    }
    case 3: return self(tag, b, Bool, [tag](bool v) { record(tag, v); return !v; });
    case 4: return self(tag, s, Text, [tag](S v) { record(tag, v); return text(tag, 1); });
    case 5: return self(tag, csr, Void, [tag](const S& v) { record(tag, v); });
    case 6: return self(tag, sv, Text, [tag](std::string_view v) { record(tag, v); return text(tag, 1); });
    case 7: return self(tag, cc, Void, [tag](const char* v) { record(tag, v); });
    case 8: return self(tag, id, Double, [tag](int v, double w) { record(tag, v, w); return w * 2; });
    case 9: return self(tag, di, Void, [tag](double w, int v) { record(tag, w, v); });
    case 10: return self(tag, is, Void, [tag](int v, S w) { record(tag, v, w); });
    case 11: return self(tag, si, Text, Functor{tag});
    case 12: return self("freeRef", ir, Void, freeRef);
    case 13: return self(tag, up, Void, [tag](std::unique_ptr<int> p) { record(tag, p); });
    case 14: return self("freeMany", isdbz, Text, freeMany);
    case 15: return self("freeNone", none, Void, freeNone);
    case 16: return self("freeInt", i, Int, &freeInt);
    case 17: return self(tag, d, Double, ConstFunctor{tag});
    case 18: {
        auto inner = std::make_unique<std::function<void(std::size_t)>>([tag](std::size_t v) { record(tag, v); });
        return self(tag, z, Void, TypeErasedFunction(*inner));
    }
    case 19: return self(tag, ii, Void, [tag, n = 0](int v, int w) mutable { ++n; record(tag, v, w); });
    case 20: { // bound member function: the object is copied
        Member m{tag};
        return self(tag, id, Int, TypeErasedFunction(&Member::method, m, _1, _2));
    }
    case 21: { // bound arguments
        S bound = rng.from("qrs", 40);
        return self(tag, ss, Void, TypeErasedFunction([tag](S v, S w) { record(tag, v, w); }, _1, S(bound)), bound);
    }
    case 22: { // bound through a plain function pointer, arguments swapped back
        auto n = static_cast<int>(rng.below(1000));
        return self("freeInt", i, Int, TypeErasedFunction(&freeInt, int(n)), "freeInt(" + std::to_string(n) + ",)");
    }
    default: { // rvalue function object with heap state and a bound rvalue
        S bound = rng.from("tuv", 50);
        return self(tag, s, Text, TypeErasedFunction([tag, copy = std::vector<S>{tag, tag}](S v) { record(copy.at(1), v); return text(copy.at(0), 1); }, S(bound)), tag + "('" + bound + "',)");
    }
    }
}
static void callOnce(Wrapped& w, Sig sig, unsigned way, mon::Rng& rng) {
    auto a = draw(rng);
    calls.clear();
    S result, line;
    bool threw = false, match = sig == w.sig;
    bool typed = way > 0;
    Ret asked = way == 0 ? Void : way == 1 ? w.ret : static_cast<Ret>(rng.below(5));
    auto typedMatch = match && asked == w.ret;
    auto wanted = [&w](const S& line, const Args& from) { return !w.fixed ? w.tag + line : w.sig == ss ? w.tag + "('" + from.s + "','" + *w.fixed + "',)" : *w.fixed; };
    bool throws = rng.chance(8), calledAgain = !throws && rng.chance(8), boom = false;
    auto b = draw(rng);
    S innerLine, innerError;
    auto innerSig = rng.chance(70) ? w.sig : static_cast<Sig>(rng.below(Count));
    if (throws) within = [] { throw Boom{}; };
    if (calledAgain) within = [&] { // calls its own wrapper
        try {
            innerLine = invoke(innerSig, b, [&]<typename... A>(A&&... args) { w.f(std::forward<A>(args)...); });
        }
        catch (const std::invalid_argument&) {
            innerError = "refused";
        }
    };
    S what = w.tag + (throws ? " (throws)" : calledAgain ? S(" (calls itself as ") + sigNames[innerSig] + ")" : S()) + " called " + (typed ? "typed " : "") + "as " + sigNames[sig] + ", is " + sigNames[w.sig];
    try {
        line = invoke(sig, a, [&]<typename... A>(A&&... args) {
            try {
                if (!typed) w.f(std::forward<A>(args)...);
                else
                    switch (asked) {
                    case Void: w.f.call<void>(std::forward<A>(args)...); break;
                    case Int: result = std::to_string(w.f.call<int>(std::forward<A>(args)...)); break;
                    case Double: result = std::to_string(w.f.call<double>(std::forward<A>(args)...)); break;
                    case Bool: result = w.f.call<bool>(std::forward<A>(args)...) ? "1" : "0"; break;
                    case Text: result = w.f.call<S>(std::forward<A>(args)...); break;
                    }
            }
            catch (const std::invalid_argument&) {
                threw = true;
            }
        });
    }
    catch (const Boom&) {
        boom = true;
    }
    catch (const std::exception& e) {
        within = nullptr;
        mon::fail("another exception", what + ": " + e.what());
    }
    within = nullptr;
    bool should = typed ? typedMatch : match;
    if (!should) {
        mon::check(threw, "mismatching call does not throw invalid_argument", [&] { return what; });
        mon::check(calls.empty(), "mismatching call runs something", [&] { return what + ": " + calls[0]; });
        mon::count("mismatching calls");
    }
    else {
        mon::check(!threw, "matching call refused", [&] { return what; });
        mon::check(boom == throws, "exception of the callable does not reach the caller", [&] { return what; });
        if (throws) {
            mon::check(calls.size() == 1, "matching call does not run exactly once", [&] { return what + ": ran " + std::to_string(calls.size()) + " times"; });
            mon::count("calls that threw");
            return;
        }
        if (calledAgain) {
            bool fits = innerSig == w.sig;
            mon::check((innerError == "refused") == !fits, "call from within", [&] { return what + (fits ? " is refused" : " is not refused"); });
            mon::check(calls.size() == 1 + fits, "call from within does not run exactly once", [&] { return what + ": ran " + std::to_string(calls.size()) + " times"; });
            if (fits) mon::check(calls[1] == wanted(innerLine, b), "argument values from within", [&] { return what + ": ran " + calls[1] + " want " + wanted(innerLine, b); });
            calls.resize(1);
            mon::count("calls from within");
        }
        mon::check(calls.size() == 1, "matching call does not run exactly once", [&] { return what + ": ran " + std::to_string(calls.size()) + " times"; });
        S want = wanted(line, a);
        mon::check(calls[0] == want, "argument values", [&] { return what + ": ran " + calls[0] + " want " + want; });
        mon::count("matching calls");
        if (typed && asked != Void) {
            S r;
            int first = a.i;
            if (w.fixed && w.sig == i) first = std::stoi(w.fixed->substr(8));
            if (w.ret == Int) r = w.sig == id ? std::to_string(a.i / 2) : std::to_string(first ^ 1);
            else if (w.ret == Double) r = std::to_string(a.d * 2);
            else if (w.ret == Bool) r = a.b ? "0" : "1";
            else r = w.sig == isdbz || w.sig == si ? text(w.tag, a.i) : text(w.tag, 1);
            mon::check(result == r, "result", [&] { return what + ": got " + result + " want " + r; });
            mon::count("results compared");
        }
    }
    mon::nontrivial(mon::fnv(std::to_string(w.sig) + ":" + std::to_string(w.ret) + ":" + std::to_string(sig) + ":" + std::to_string(way) + ":" + std::to_string(asked) + (w.fixed ? "b" : "")));
}
// every callable with every argument list, both ways of calling
MON_SECTION(matrix, kinds * 4, kinds * 100) {
    auto w = wrap(static_cast<unsigned>(index % kinds), rng);
    for (int g = 0; g < Count; ++g)
        for (unsigned way = 0; way < 3; ++way) callOnce(*w, static_cast<Sig>(g), way, rng);
    mon::sample(w->tag + " " + sigNames[w->sig]);
}
// wrappers kept in a map, moved and called in any order
MON_SECTION(histories, 200, 6000) {
    std::map<S, std::shared_ptr<Wrapped>> all;
    for (auto n = 2 + rng.below(6); n > 0; --n) {
        auto w = wrap(static_cast<unsigned>(rng.below(kinds)), rng);
        if (rng.coin()) {
            TypeErasedFunction moved(std::move(w->f));
            w->f = std::move(moved);
        }
        all[std::to_string(n)] = w;
    }
    for (int n = 0; n < 30; ++n) {
        auto it = std::next(all.begin(), static_cast<std::ptrdiff_t>(rng.below(all.size())));
        auto sig = rng.chance(60) ? it->second->sig : static_cast<Sig>(rng.below(Count));
        callOnce(*it->second, sig, static_cast<unsigned>(rng.below(3)), rng);
        if (rng.chance(10)) {
            auto f = std::make_unique<TypeErasedFunction>(std::move(it->second->f));
            it->second->f = std::move(*f);
        }
    }
}

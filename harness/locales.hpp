// The locales an application may have chosen: the library must not depend on them.
//
// Only C and POSIX locales are installed; others are compiled with localedef into a scratch directory (LOCPATH).
#pragma once
#include "scratch.hpp"
#include <clocale>
#include <locale>

namespace mon {
struct LocaleKind {
    const char *language, *charset;
};
inline constexpr LocaleKind localeKinds[] = {
    {nullptr, nullptr},      // grouping of digits alone
    {"tr_TR", "UTF-8"},      // the upper case of i is not I
    {"fr_FR", "ISO-8859-1"}, // bytes above 0x7f are letters, blanks group digits
    {"tr_TR", "ISO-8859-9"},
    {"de_DE", "ISO-8859-15"},
    {"ru_RU", "KOI8-R"},
};
struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    char do_decimal_point() const override { return ';'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "vrai"; }
};
/// chooses a locale, for C and for C++, until the end of its scope
class Locale {
public:
    explicit Locale(std::size_t which) : before(std::locale()) {
        auto& k = localeKinds[which % std::size(localeKinds)];
        allow(120);
        if (!k.language) {
            std::locale::global(std::locale(std::locale::classic(), new Grouping));
            name = "grouped digits";
            count("locale grouped digits");
            return;
        }
        static Scratch scratch;
        static std::set<std::string> built;
        name = std::string(k.language) + "." + k.charset;
        auto file = std::string(k.language) + "_" + k.charset;
        if (built.insert(file).second) {
            auto cmd = std::string("localedef --no-archive -i ") + k.language + " -f " + k.charset + " " + (scratch.root / file).string() + " >/dev/null 2>&1";
            if (std::system(cmd.c_str()) < 0) count("localedef failed");
        }
        setenv("LOCPATH", scratch.root.c_str(), 1);
        if (!setlocale(LC_ALL, file.c_str())) {
            count("locales that could not be built");
            return;
        }
        try {
            std::locale::global(std::locale(file));
        }
        catch (const std::runtime_error&) {
            count("locales unknown to C++");
        }
        count("locale " + name);
    }
    Locale(const Locale&) = delete;
    Locale& operator=(const Locale&) = delete;
    ~Locale() {
        std::locale::global(before);
        setlocale(LC_ALL, "C");
    }
    std::string name;

private:
    std::locale before;
};
} // namespace mon

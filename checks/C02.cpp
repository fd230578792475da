// C02: typed look-ups of an input file.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include <unistd.h>

#include <inih/INIReader.hpp>
#include <pbt.hpp>

namespace {

std::string lower(std::string s)
{
    for (char& ch : s) {
        ch = ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch - 'A' + 'a') : ch;
    }
    return s;
}
std::string any_case(pbt::Case& c, std::string s)
{
    int const how = c.i(0, 3);
    for (char& ch : s) {
        bool const up = how == 1 || (how == 2 && c.b());
        if (up && ch >= 'a' && ch <= 'z') {
            ch = static_cast<char>(ch - 'a' + 'A');
        }
    }
    return s;
}
struct Entry
{
    std::string section, name; // lower case
    std::vector<std::string> values;
    std::string joined() const
    {
        std::string r;
        for (std::size_t k = 0; k < values.size(); ++k) {
            r += (k != 0 ? "\n" : "") + values[k];
        }
        return r;
    }
};
char const* const sections[] = {"grid", "hydro", "problem", "output", "a b", "r\xC3\xA9seau", "x", ""};
char const* const names[] = {"nx_glob", "nx", "n", "gamma", "max iter", "xmin", "x", "tau-1", "k[0]", "\xC3\xA9"};

std::string spaces(pbt::Case& c)
{
    return c.pick({"", " ", "  ", "\t", " \t"});
}
std::string noise(pbt::Case& c)
{
    return c.pick({"", "", "\n", "; a comment = 1\n", "# [section]\n", "   \n", " ; x\n"});
}
// a layout of the entries: sections may be reopened, entries shuffled, repeated values keep their order
std::string render(pbt::Case& c, std::vector<Entry> const& entries)
{
    struct Item
    {
        std::size_t entry, value;
    };
    std::vector<std::size_t> left(entries.size(), 0);
    std::string text = c.chance(1, 6) ? "\xEF\xBB\xBF" : "";
    std::string section;
    std::string const eol = c.pick({"\n", "\r\n"});
    for (;;) {
        std::vector<std::size_t> open;
        for (std::size_t e = 0; e < entries.size(); ++e) {
            // entries outside of any section come first
            if (left[e] < entries[e].values.size() && (!entries[e].section.empty() || section.empty())) {
                open.push_back(e);
            }
        }
        bool top = false;
        for (std::size_t const e : open) {
            top = top || entries[e].section.empty();
        }
        if (open.empty()) {
            break;
        }
        std::size_t e = open[c.below(open.size())];
        if (top) {
            for (std::size_t const q : open) {
                if (entries[q].section.empty()) {
                    e = q;
                    break;
                }
            }
        }
        Entry const& en = entries[e];
        text += noise(c);
        if (en.section != section || c.chance(1, 10)) {
            if (!en.section.empty()) {
                text += spaces(c).substr(0, 0) + "[" + any_case(c, en.section) + "]" + c.pick({"", " ", " ; comment"}) + eol;
            }
            section = en.section;
        }
        text += any_case(c, en.name) + spaces(c) + c.pick({"=", ":"}) + spaces(c) + en.values[left[e]] + c.pick({"", " ", " ; comment", "\t;"}) + eol;
        ++left[e];
        // the next values may follow as continuation lines
        while (left[e] < en.values.size() && c.chance(1, 3) && en.values[left[e]][0] != ';' && en.values[left[e]][0] != '#') {
            text += c.pick({" ", "\t", "    "}) + en.values[left[e]] + eol;
            ++left[e];
        }
    }
    return text + noise(c);
}
INIReader read(std::string const& text)
{
    std::string const path = (pbt::opt().scratch.empty() ? std::string(".") : pbt::opt().scratch) + "/text.ini";
    FILE* const f = std::fopen(path.c_str(), "wb");
    std::fwrite(text.data(), 1, text.size(), f);
    std::fclose(f);
    return INIReader(path);
}
std::string random_value(pbt::Case& c)
{
    static char const alphabet[] = "abcdefXYZ0123456789.+-_/=:;#[]()\"' \xC3\xA9";
    std::string s;
    int const n = c.chance(1, 8) ? c.i(60, 110) : c.i(1, 12);
    for (int k = 0; k < n; ++k) {
        char const ch = alphabet[c.below(sizeof alphabet - 1)];
        bool const edge = k == 0 || k + 1 == n;
        if (ch == ' ' && (edge || s.back() == ' ')) {
            s += '_';
        } else if (ch == ';' && (k == 0 || s.back() == ' ')) {
            s += ',';
        } else {
            s += ch;
        }
    }
    return s;
}
std::vector<Entry> random_entries(pbt::Case& c, int max)
{
    std::vector<Entry> r;
    int const n = c.i(1, max);
    for (int k = 0; k < n; ++k) {
        Entry e {sections[c.i(0, 7)], names[c.i(0, 9)], {}};
        if (c.chance(1, 10)) {
            e.name = std::string(c.i(1, 45), static_cast<char>('a' + c.i(0, 25)));
        }
        if (c.chance(1, 10)) {
            e.section = std::string(c.i(1, 45), static_cast<char>('a' + c.i(0, 25)));
        }
        bool known = false;
        for (Entry const& q : r) {
            known = known || (q.section == e.section && q.name == e.name);
        }
        if (known) {
            continue;
        }
        int const v = c.chance(1, 4) ? c.i(2, 4) : 1;
        for (int q = 0; q < v; ++q) {
            e.values.push_back(random_value(c));
        }
        r.push_back(e);
    }
    return r;
}
template <class T>
std::optional<T> attempt(std::function<T()> const& f)
{
    try {
        return f();
    } catch (std::exception const&) {
        return std::nullopt;
    }
}
template <class T>
T random_int(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    switch (c.i(0, 3)) {
    case 0:
        return c.b() ? L::min() : L::max();
    case 1:
        return static_cast<T>(c.below(~0ULL) >> c.i(0, 63));
    default:
        return static_cast<T>(c.i(std::is_signed_v<T> ? -2000 : 0, 2000));
    }
}
struct Other // file content around the entry of interest
{
    std::vector<Entry> entries;
};
// the text of a file in which `value` is written under a random key, among other entries
struct Place
{
    INIReader reader;
    std::string section, name, text;
};
Place place(pbt::Case& c, std::string const& value)
{
    std::vector<Entry> e = random_entries(c, 4);
    e[0].values = {value};
    std::string const text = render(c, e);
    return {read(text), any_case(c, e[0].section), any_case(c, e[0].name), text};
}
template <class T>
void integer(pbt::Case& c)
{
    T const x = random_int<T>(c);
    T const def = random_int<T>(c);
    std::string s;
    bool const hex = c.chance(1, 3) && (x >= 0);
    if (hex) {
        char b[40];
        std::snprintf(b, sizeof b, c.b() ? "0x%llx" : "0X%llX", static_cast<unsigned long long>(x));
        s = b;
    } else {
        s = std::to_string(x);
        if (c.chance(1, 6)) { // leading zeros do not change the value
            s.insert(s[0] == '-' ? 1 : 0, std::string(c.i(1, 3), '0'));
        }
        if (x >= 0 && c.chance(1, 8)) {
            s = "+" + s;
        }
    }
    c.note("%s of %zu bytes, default %s", s.c_str(), sizeof(T), std::to_string(def).c_str());
    c.nontrivial();
    c.label(hex ? "hexadecimal" : "decimal");
    Place const p = place(c, s);
    T const got = p.reader.GetInteger(p.section, p.name, def);
    REQUIRE(got == x, "integer ", s, " is read as ", std::to_string(got));
    REQUIRE(p.reader.GetInteger(p.section, p.name + "'", def) == def, "default of an absent integer");
    REQUIRE(p.reader.GetInteger(p.section + "'", p.name, def) == def, "default of an integer of an absent section");
}
template <class T>
void real(pbt::Case& c, char const* fmt, T (*parse)(char const*, char**))
{
    char b[80];
    T v = static_cast<T>(c.sym(1) * std::pow(10., c.d(-30, 30)));
    if (c.chance(1, 8)) {
        v = c.pick({T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::epsilon()});
    }
    switch (c.i(0, 3)) {
    case 0:
        std::snprintf(b, sizeof b, fmt, v);
        break;
    case 1:
        std::snprintf(b, sizeof b, "%.*g", c.i(1, 25), static_cast<double>(static_cast<float>(c.sym(1e4))));
        break;
    case 2:
        std::snprintf(b, sizeof b, "%d.", c.i(-1000, 1000));
        break;
    default:
        std::snprintf(b, sizeof b, "%.*E", c.i(0, 20), c.sym(1) * std::pow(10., c.i(-20, 20)));
    }
    T const def = static_cast<T>(c.sym(10));
    T const ex = parse(b, nullptr);
    c.note("%s as %zu bytes", b, sizeof(T));
    c.nontrivial();
    c.discard_if(!std::isfinite(ex) || (ex != 0 && std::abs(ex) < std::numeric_limits<T>::min()));
    Place const p = place(c, b);
    T const got = p.reader.GetReal(p.section, p.name, def);
    REQUIRE(got == ex, "real ", b, " is read as ", got, " instead of ", ex);
    REQUIRE(p.reader.GetReal(p.section, p.name + "'", def) == def, "default of an absent real");
}

} // namespace

PBT_TEST(strings, 3)
{
    auto const entries = random_entries(c, 12);
    std::string const text = render(c, entries);
    c.note("%zu entries, %zu bytes", entries.size(), text.size());
    c.nontrivial(entries.size() > 1);
    INIReader const r = read(text);
    for (Entry const& e : entries) {
        std::string const got = r.Get(any_case(c, e.section), any_case(c, e.name), "the default");
        REQUIRE(got == e.joined(), "[", e.section, "] ", e.name, " is \"", got, "\" instead of \"", e.joined(), "\" in\n", text);
    }
    // keys that are not there: same names in other sections, prefixes and extensions
    for (int q = 0; q < 6; ++q) {
        Entry const& e = entries[c.below(entries.size())];
        std::string s = c.b() ? e.section : sections[c.i(0, 7)];
        std::string n = c.b() ? e.name : names[c.i(0, 9)];
        switch (c.i(0, 3)) {
        case 0:
            n += c.pick({"x", " ", "0"});
            break;
        case 1:
            n = n.substr(0, n.size() - 1);
            break;
        case 2:
            s += "x";
            break;
        default:
            break;
        }
        bool found = false;
        for (Entry const& k : entries) {
            found = found || (k.section == lower(s) && k.name == lower(n));
        }
        if (!found) {
            std::string const def = random_value(c);
            REQUIRE(r.Get(s, n, def) == def, "absent key [", s, "] ", n, " yields \"", r.Get(s, n, def), "\"");
        }
    }
}

PBT_TEST(integers, 3)
{
    switch (c.i(0, 5)) {
    case 0:
        integer<int>(c);
        break;
    case 1:
        integer<unsigned>(c);
        break;
    case 2:
        integer<long>(c);
        break;
    case 3:
        integer<unsigned long>(c);
        break;
    case 4:
        integer<long long>(c);
        break;
    default:
        integer<unsigned long long>(c);
    }
}

PBT_TEST(reals, 3)
{
    switch (c.i(0, 3)) {
    case 0:
        real<float>(c, "%.9g", std::strtof);
        break;
    case 1:
        real<long double>(c, "%.21Lg", std::strtold);
        break;
    default:
        real<double>(c, "%.17g", std::strtod);
    }
}

PBT_TEST(booleans, 1)
{
    bool const v = c.b();
    std::string const s = any_case(c, v ? c.pick({"true", "yes", "on", "1"}) : c.pick({"false", "no", "off", "0"}));
    bool const def = c.b();
    c.note("%s", s.c_str());
    c.nontrivial(v != def);
    Place const p = place(c, s);
    REQUIRE(p.reader.GetBoolean(p.section, p.name, def) == v, s, " is read as ", !v);
    REQUIRE(p.reader.GetBoolean(p.section, p.name + "'", def) == def, "default of an absent boolean");
}

// never a wrong value: the default or an error
PBT_TEST(not_of_the_type, 1)
{
    std::string const s = c.pick({"abc", "true", "-", "+", ".", "e5", "x1", "[1]", "yess", "tru", "o", "onn", "n", "nope", "\"1\""});
    std::string const big = c.pick({"99999999999", "-99999999999", "4294967296", "2147483648", "-2147483649"});
    std::string const huge = c.pick({"99999999999999999999999", "-99999999999999999999999", "0xfffffffffffffffff"});
    c.note("%s %s %s", s.c_str(), big.c_str(), huge.c_str());
    c.nontrivial();
    Place const p = place(c, s);
    int const di = c.i(-5, 5);
    double const dd = c.sym(3);
    auto const i = attempt<int>([&] { return p.reader.GetInteger(p.section, p.name, di); });
    REQUIRE(!i || *i == di, s, " is read as the integer ", *i);
    auto const r = attempt<double>([&] { return p.reader.GetReal(p.section, p.name, dd); });
    REQUIRE(!r || *r == dd, s, " is read as the real ", *r);
    if (s != "true") {
        bool const db = c.b();
        auto const b = attempt<bool>([&] { return p.reader.GetBoolean(p.section, p.name, db); });
        REQUIRE(!b || *b == db, s, " is read as the boolean ", *b);
    }
    Place const q = place(c, big);
    auto const j = attempt<int>([&] { return q.reader.GetInteger(q.section, q.name, di); });
    REQUIRE(!j || *j == di, big, " is read as the integer ", *j);
    if (big[0] != '-') {
        auto const u = attempt<unsigned>([&] { return q.reader.GetInteger(q.section, q.name, 7U); });
        REQUIRE(!u || *u == 7U || std::to_string(*u) == big, big, " is read as the unsigned integer ", *u);
    }
    Place const h = place(c, huge);
    auto const l = attempt<long>([&] { return h.reader.GetInteger(h.section, h.name, 11L); });
    REQUIRE(!l || *l == 11, huge, " is read as the integer ", *l);
    auto const ul = attempt<unsigned long>([&] { return h.reader.GetInteger(h.section, h.name, 11UL); });
    REQUIRE(!ul || *ul == 11, huge, " is read as the integer ", *ul);
}

PBT_TEST(bad_files, 1)
{
    auto const entries = random_entries(c, 4);
    std::string const text = render(c, entries);
    // break one line
    std::string const bad = c.pick({"a line without separator\n", "[section\n", "[ ;]\n", "word\n"}) + text;
    c.nontrivial();
    c.note("%zu bytes", bad.size());
    REQUIRE(!attempt<int>([&] {
        read(bad);
        return 0;
    }),
            "a file with an error on its first line is accepted");
    REQUIRE(!attempt<int>([&] {
        INIReader const r("/nonexistent/input.ini");
        return 0;
    }),
            "a missing file is accepted");
    INIReader const none;
    REQUIRE(none.Get("a", "b", "c") == "c" && none.GetInteger("", "", 4) == 4 && none.GetReal("x", "y", 2.5) == 2.5 && none.GetBoolean("x", "y", true), "defaults of an empty reader");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}

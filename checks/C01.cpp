// C01: the INI grammar. Built once per set of compile-time options of the parser (INI_* macros).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#include <unistd.h>

#include <inih/ini.h>
#include <pbt.hpp>

namespace {

struct Event
{
    std::string section, name, value;
    int line;
    bool operator==(Event const&) const = default;
};
struct Outcome
{
    std::vector<Event> events;
    int code = 0;
};
struct Sink
{
    Outcome out;
    std::vector<int> refuse; // numbers of the events the handler reports as errors
    int seen = 0;
};

#if INI_HANDLER_LINENO
int handler(void* user, char const* section, char const* name, char const* value, int lineno)
{
#else
int handler(void* user, char const* section, char const* name, char const* value)
{
    int const lineno = 0;
#endif
    auto* const s = static_cast<Sink*>(user);
    s->out.events.push_back({section, name, value, lineno});
    int const n = s->seen++;
    for (int const r : s->refuse) {
        if (r == n) {
            return 0;
        }
    }
    return 1;
}

// ---- the grammar, line by line, in terms of strings

bool blank(char c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}
std::string trimmed(std::string const& s)
{
    std::size_t b = 0;
    std::size_t e = s.size();
    while (b < e && blank(s[b])) {
        ++b;
    }
    while (e > b && blank(s[e - 1])) {
        --e;
    }
    return s.substr(b, e - b);
}
// position of the first stop character or inline comment, or the length
std::size_t find(std::string const& s, std::string const& stops)
{
    std::string const prefixes = INI_INLINE_COMMENT_PREFIXES;
    for (std::size_t k = 0; k < s.size(); ++k) {
        if (stops.find(s[k]) != std::string::npos) {
            return k;
        }
        if (INI_ALLOW_INLINE_COMMENTS != 0 && k > 0 && blank(s[k - 1]) && prefixes.find(s[k]) != std::string::npos) {
            return k;
        }
    }
    return s.size();
}
constexpr std::size_t longest = 49; // of sections, and of names that are continued

Outcome model(std::vector<std::string> const& lines, std::vector<int> const& refuse)
{
    Outcome o;
    std::string section;
    std::string previous;
    int number = 0;
    auto const report = [&](std::string const& name, std::string const& value) {
        int const n = static_cast<int>(o.events.size());
        o.events.push_back({section, name, value, INI_HANDLER_LINENO != 0 ? number : 0});
        for (int const r : refuse) {
            if (r == n && o.code == 0) {
                o.code = number;
            }
        }
    };
    for (std::string const& raw : lines) {
        ++number;
        std::string line = raw.substr(0, raw.find('\0'));
        if (INI_ALLOW_BOM != 0 && number == 1 && line.rfind("\xEF\xBB\xBF", 0) == 0) {
            line = line.substr(3);
        }
        bool const indented = !line.empty() && blank(line[0]);
        std::string const t = trimmed(line);
        bool wrong = false;
        if (t.empty() || t[0] == ';' || t[0] == '#') {
            // nothing
        } else if (INI_ALLOW_MULTILINE != 0 && indented && !previous.empty()) {
            report(previous, t);
        } else if (t[0] == '[') {
            std::size_t const e = 1 + find(t.substr(1), "]");
            if (e < t.size() && t[e] == ']') {
                section = t.substr(1, e - 1).substr(0, longest);
                previous.clear();
            } else {
                wrong = true;
            }
        } else {
            std::size_t const e = find(t, "=:");
            if (e < t.size() && (t[e] == '=' || t[e] == ':')) {
                std::string const name = trimmed(t.substr(0, e));
                std::string value = t.substr(e + 1);
                value = trimmed(value.substr(0, find(value, "")));
                previous = name.substr(0, longest);
                report(name, value);
            } else {
                wrong = true;
            }
        }
        if (wrong && o.code == 0) {
            o.code = number;
        }
        if (INI_STOP_ON_FIRST_ERROR != 0 && o.code != 0) {
            break;
        }
    }
    return o;
}
// what a reader of buffers of n bytes makes of a text
std::vector<std::string> lines_of(std::string const& text, std::size_t n)
{
    std::vector<std::string> r;
    for (std::size_t k = 0; k < text.size();) {
        std::size_t e = k;
        while (e < text.size() && e - k < n - 1 && (e == k || text[e - 1] != '\n')) {
            ++e;
        }
        r.push_back(text.substr(k, e - k));
        k = e;
    }
    return r;
}

// ---- texts

std::string word(pbt::Case& c)
{
    static char const* const words[] = {"a", "Key", "x1", "name", "sec tion", "\xC3\xA9", "a.b", "-", "1e5", "\xEF\xBB\xBF", "a\tb", "k\vk", "\xff"};
    switch (c.i(0, 7)) {
    case 0: { // long, around the limits of the buffers
        int const base = c.pick({48, 49, 50, 199, 17, 64});
        return std::string(std::max(1, base + c.i(-4, 4)), static_cast<char>('a' + c.i(0, 25)));
    }
    case 1: {
        std::string s;
        int const n = c.i(0, 6);
        for (int k = 0; k < n; ++k) {
            s += static_cast<char>(c.i(1, 255));
        }
        return s;
    }
    default:
        return words[c.i(0, 12)];
    }
}
std::string gap(pbt::Case& c)
{
    if (c.chance(1, 12)) {
        return std::string(c.i(1, 220), c.pick({' ', '\t'}));
    }
    return c.pick({"", " ", "  ", "\t", " \t ", "\f", "\v"});
}
std::string comment(pbt::Case& c)
{
    return c.pick({";", " ;", "#", " #", "\t; ", " ;]", " # = ", "; a=b"}) + word(c);
}
std::string line(pbt::Case& c)
{
    std::string s = c.chance(1, 3) ? gap(c) : "";
    switch (c.i(0, 9)) {
    case 0:
        break;
    case 1:
        s += comment(c);
        break;
    case 2:
    case 3:
        s += "[" + gap(c) + word(c) + (c.chance(1, 6) ? comment(c) : "") + (c.chance(7, 8) ? "]" : "") + (c.chance(1, 4) ? word(c) : "");
        break;
    case 4: // continuation, or an error
        s += (c.chance(2, 3) ? " " : "") + word(c);
        break;
    default:
        s += word(c) + gap(c) + c.pick({"=", ":", "= ", " : ", "==", ":="}) + gap(c) + (c.chance(5, 6) ? word(c) : "") + (c.chance(1, 6) ? gap(c) + word(c) : "");
    }
    if (c.chance(1, 5)) {
        s += comment(c);
    }
    return s;
}
std::string random_text(pbt::Case& c)
{
    std::string s = c.chance(1, 8) ? c.pick({"\xEF\xBB\xBF", "\xEF\xBB", "\xEF\xBB\xBF ", " \xEF\xBB\xBF"}) : "";
    int const n = c.i(0, 8);
    for (int k = 0; k < n; ++k) {
        s += line(c);
        s += k + 1 < n || c.b() ? c.pick({"\n", "\r\n", "\n\n", " \n", "\r"}) : "";
    }
    // a few random edits
    int const edits = c.chance(1, 3) ? c.i(1, 3) : 0;
    for (int k = 0; k < edits && !s.empty(); ++k) {
        std::size_t const p = c.below(s.size());
        switch (c.i(0, 3)) {
        case 0:
            s.erase(p, 1 + c.below(3));
            break;
        case 1:
            s.insert(p, 1, c.pick({'=', ':', ';', '#', '[', ']', ' ', '\n', '\t', '\r'}));
            break;
        case 2:
            s[p] = static_cast<char>(c.i(0, 255));
            break;
        default:
            s.insert(p, std::string(c.i(1, 230), c.pick({' ', 'z', '=', ';'})));
        }
    }
    return s;
}
std::string quote(std::string const& s)
{
    std::string r = "\"";
    for (char const ch : s) {
        if (ch == '\n') {
            r += "\\n";
        } else if (ch >= 32 && ch < 127) {
            r += ch;
        } else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(ch));
            r += b;
        }
    }
    return r + "\"";
}
void compare(Outcome const& got, Outcome const& ex, char const* route)
{
    for (std::size_t k = 0; k < std::min(got.events.size(), ex.events.size()); ++k) {
        Event const& a = got.events[k];
        Event const& b = ex.events[k];
        REQUIRE(a == b, route, ": event ", k, " is [", quote(a.section), "] ", quote(a.name), " = ", quote(a.value), " (line ", a.line, ") instead of [", quote(b.section), "] ", quote(b.name), " = ", quote(b.value), " (line ", b.line, ")");
    }
    REQUIRE(got.events.size() == ex.events.size(), route, ": ", got.events.size(), " values instead of ", ex.events.size());
    REQUIRE(got.code == ex.code, route, " returns ", got.code, " instead of ", ex.code);
}
std::string path()
{
    return (pbt::opt().scratch.empty() ? std::string(".") : pbt::opt().scratch) + "/text.ini";
}
// a reader with lines of its own choosing
struct Feed
{
    std::vector<std::string> lines;
    std::size_t at = 0;
    int widest = 0;
};
char* feed(char* str, int num, void* stream)
{
    auto* const f = static_cast<Feed*>(stream);
    f->widest = num;
    if (f->at == f->lines.size()) {
        return nullptr;
    }
    std::memset(str, 'Z', num); // everything up to num may be used
    std::string const& l = f->lines[f->at++];
    std::memcpy(str, l.c_str(), l.size() + 1);
    return str;
}
std::vector<int> refusals(pbt::Case& c)
{
    std::vector<int> r;
    int const n = c.chance(1, 3) ? c.i(1, 2) : 0;
    for (int k = 0; k < n; ++k) {
        r.push_back(c.i(0, 6));
    }
    return r;
}

} // namespace

PBT_TEST(strings, 5)
{
    std::string s = random_text(c);
    s = s.substr(0, s.find('\0'));
    auto const refuse = refusals(c);
    auto const ex = model(lines_of(s, INI_MAX_LINE), refuse);
    c.note("%s", quote(s).c_str());
    c.nontrivial(!ex.events.empty());
    c.label(ex.code != 0 ? "error" : "good");
    // exactly as large as the text, so that the sanitizer sees any access beyond
    char* const p = static_cast<char*>(std::malloc(s.size() + 1));
    std::memcpy(p, s.c_str(), s.size() + 1);
    Sink k {{}, refuse};
    k.out.code = ini_parse_string(p, handler, &k);
    std::free(p);
    compare(k.out, ex, "string");
}

PBT_TEST(files, 1)
{
    std::string const s = random_text(c);
    auto const refuse = refusals(c);
    auto const ex = model(lines_of(s, INI_MAX_LINE), refuse);
    c.note("%s", quote(s).c_str());
    c.nontrivial(!ex.events.empty());
    FILE* f = std::fopen(path().c_str(), "wb");
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
    Sink k {{}, refuse};
    k.out.code = ini_parse(path().c_str(), handler, &k);
    compare(k.out, ex, "file name");
    Sink q {{}, refuse};
    f = std::fopen(path().c_str(), "rb");
    q.out.code = ini_parse_file(f, handler, &q);
    long const at = std::ftell(f);
    REQUIRE(at >= 0, "the file was closed");
    std::fclose(f);
    compare(q.out, ex, "file");
    ::unlink(path().c_str());
    Sink none;
    REQUIRE(ini_parse(path().c_str(), handler, &none) == -1, "a missing file is not reported");
    REQUIRE(none.out.events.empty(), "values from a missing file");
}

PBT_TEST(readers, 2)
{
    Feed f;
    int const n = c.i(0, 6);
    std::string all;
    for (int k = 0; k < n; ++k) {
        std::string l = line(c);
        l = l.substr(0, l.find('\0')).substr(0, INI_MAX_LINE - 2) + c.pick({"\n", "", "\r\n"});
        l = l.substr(0, INI_MAX_LINE - 1);
        f.lines.push_back(l);
        all += quote(l) + " ";
    }
    auto const refuse = refusals(c);
    auto const ex = model(f.lines, refuse);
    c.note("%s", all.c_str());
    c.nontrivial(!ex.events.empty());
    Sink k {{}, refuse};
    k.out.code = ini_parse_stream(feed, &f, handler, &k);
    REQUIRE(f.widest <= INI_MAX_LINE && (n == 0 || f.widest >= 2), "the reader is offered ", f.widest, " bytes");
    compare(k.out, ex, "reader");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}

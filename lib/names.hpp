// Names of schemes and near misses of them
#pragma once

#include <cctype>
#include <string>
#include <vector>

#include <pbt.hpp>

namespace hz {

inline std::vector<std::string> const all_names {
        "HLL", "HLLC", "Low Mach", "Constant", "VanLeer", "Minmod", "VanAlbada", "NullGradient", "Periodic", "Reflexive", "UserDefined", "Regular", "Off", "Heat_nickel", "On", "None"};

// another spelling of a name, or the name of something else
inline std::string near_miss(pbt::Case& c, std::vector<std::string> const& valid)
{
    std::string s = c.pick(valid);
    auto const low = [](char x) { return static_cast<char>(std::tolower(static_cast<unsigned char>(x))); };
    auto const up = [](char x) { return static_cast<char>(std::toupper(static_cast<unsigned char>(x))); };
    switch (c.i(0, 11)) {
    case 0:
        for (char& x : s) {
            x = low(x);
        }
        break;
    case 1:
        for (char& x : s) {
            x = up(x);
        }
        break;
    case 2: {
        char& x = s[c.below(s.size())];
        x = x == low(x) ? up(x) : low(x);
        break;
    }
    case 3:
        s += c.pick({"x", "_", "2", " 2", "C", "e"});
        break;
    case 4:
        s = c.pick({"x", "_", "My"}) + s;
        break;
    case 5:
        s.erase(c.below(s.size()), 1);
        break;
    case 6:
        s = s.substr(0, c.below(s.size()));
        break;
    case 7:
        if (s.size() > 1) {
            std::size_t const k = c.below(s.size() - 1);
            std::swap(s[k], s[k + 1]);
        }
        break;
    case 8: {
        std::string t;
        for (char const x : s) {
            t += x == ' ' ? "_" : x == '_' ? " " : std::string(1, x);
        }
        s = t;
        break;
    }
    case 9:
        s = c.pick(all_names);
        break;
    case 10:
        s += s;
        break;
    default: {
        std::size_t const n = c.below(12);
        s.clear();
        for (std::size_t k = 0; k < n; ++k) {
            s += static_cast<char>('a' + c.below(26));
        }
    }
    }
    return s;
}

} // namespace hz

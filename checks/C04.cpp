// C04: integer narrowing.
#include <int_cast.hpp>
#include <pbt.hpp>

namespace {

using wide = __int128;
using Types = std::tuple<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>;
constexpr int ntypes = std::tuple_size_v<Types>;

std::string text(wide x)
{
    if (x == 0) {
        return "0";
    }
    bool const neg = x < 0;
    std::string s;
    for (; x != 0; x /= 10) {
        s.insert(s.begin(), static_cast<char>('0' + (neg ? -(x % 10) : x % 10)));
    }
    return neg ? "-" + s : s;
}
template <class T>
T draw(pbt::Case& c)
{
    using L = std::numeric_limits<T>;
    unsigned long long bits = 0;
    switch (c.i(0, 4)) {
    case 0: // the limits of some type, give or take one
        bits = c.pick({0ULL, 0x7fULL, 0x80ULL, 0xffULL, 0x100ULL, 0x7fffULL, 0x8000ULL, 0xffffULL, 0x10000ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL}) + static_cast<unsigned long long>(c.i(-2, 2));
        break;
    case 1: // their opposites
        bits = -c.pick({0ULL, 0x7fULL, 0x80ULL, 0xffULL, 0x100ULL, 0x7fffULL, 0x8000ULL, 0xffffULL, 0x10000ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL}) + static_cast<unsigned long long>(c.i(-2, 2));
        break;
    case 2:
        return c.b() ? L::min() : L::max();
    default:
        bits = c.below(~0ULL) >> c.i(0, 63);
        bits = c.b() ? bits : -bits;
    }
    return static_cast<T>(bits);
}
template <class R, class T>
void check(pbt::Case& c)
{
    T const x = draw<T>(c);
    wide const v = static_cast<wide>(x);
    bool const fits = v >= static_cast<wide>(std::numeric_limits<R>::min()) && v <= static_cast<wide>(std::numeric_limits<R>::max());
    c.note("%s from %d to %d bytes", text(v).c_str(), static_cast<int>(sizeof(T)), static_cast<int>(sizeof(R)));
    c.nontrivial(!std::is_same_v<R, T>);
    c.label(fits ? "fits" : "refused");
    bool refused = false;
    wide got = 0;
    try {
        R const r = hclpp::int_cast<R>(x);
        got = static_cast<wide>(r);
    } catch (std::exception const&) {
        refused = true;
    }
    if (fits) {
        REQUIRE(!refused, "conversion of ", text(v), " is refused");
        REQUIRE(got == v, "conversion of ", text(v), " yields ", text(got));
    } else {
        REQUIRE(refused, "conversion of ", text(v), " yields ", text(got), " instead of an error");
    }
}
template <class R>
void from(pbt::Case& c, int t)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((static_cast<int>(I) == t ? check<R, std::tuple_element_t<I, Types>>(c) : void()), ...);
    }(std::make_index_sequence<ntypes>());
}

} // namespace

PBT_TEST(int_cast, 1)
{
    int const r = c.i(0, ntypes - 1);
    int const t = c.i(0, ntypes - 1);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((static_cast<int>(I) == r ? from<std::tuple_element_t<I, Types>>(c, t) : void()), ...);
    }(std::make_index_sequence<ntypes>());
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}

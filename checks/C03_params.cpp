// C03: every run parameter is what the input file says, and its default when the file is silent.
#include <cctype>
#include <cstring>

#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

using hclpp::Param;

enum class Kind { Int, Real, Bool, Text };
struct Value
{
    long long i = 0;
    double d = 0;
    std::string s;
};
struct Key
{
    char const* section;
    char const* key;
    Kind kind;
    Value def;
    Value (*get)(Param const&);
};
Value of_i(long long v)
{
    Value r;
    r.i = v;
    return r;
}
Value of_d(double v)
{
    Value r;
    r.d = v;
    return r;
}
Value of_s(std::string v)
{
    Value r;
    r.s = std::move(v);
    return r;
}
#define INT(sec, key, def, expr) Key {sec, key, Kind::Int, of_i(def), [](Param const& p) { return of_i(p.expr); }}
#define REAL(sec, key, def, expr) Key {sec, key, Kind::Real, of_d(def), [](Param const& p) { return of_d(p.expr); }}
#define BOOL(sec, key, def, expr) Key {sec, key, Kind::Bool, of_i(def), [](Param const& p) { return of_i(p.expr ? 1 : 0); }}
#define TEXT(sec, key, def, expr) Key {sec, key, Kind::Text, of_s(def), [](Param const& p) { return of_s(p.expr); }}
std::vector<Key> const& keys()
{
    static std::vector<Key> const k {
            TEXT("Problem", "type", "ShockTube", problem),
            BOOL("Problem", "restart", 0, restart),
            TEXT("Problem", "restart_file", "None", restart_file),
            REAL("Problem", "rmax_shift", 1e20, rmax_shift),
            INT("Grid", "Nx0_glob", 0, Nx_glob_ng[0]),
            INT("Grid", "Nx1_glob", 0, Nx_glob_ng[1]),
            INT("Grid", "Nx2_glob", 0, Nx_glob_ng[2]),
            TEXT("Grid", "type", "Regular", grid_type),
            INT("Grid", "Nghost", 2, Ng),
            REAL("Grid", "x0min", 0, x0min),
            REAL("Grid", "x0max", 1, x0max),
            REAL("Grid", "x1min", 0, x1min),
            REAL("Grid", "x1max", 1, x1max),
            REAL("Grid", "x2min", 0, x2min),
            REAL("Grid", "x2max", 1, x2max),
            TEXT("Grid", "shift_grid", "Off", shift_grid),
            BOOL("Parallelization", "mpi_device_aware", 0, mpi_device_aware),
            INT("Parallelization", "mpi_dims_cart_x0", 0, mpi_dims_cart[0]),
            INT("Parallelization", "mpi_dims_cart_x1", 0, mpi_dims_cart[1]),
            INT("Parallelization", "mpi_dims_cart_x2", 0, mpi_dims_cart[2]),
            REAL("Run", "t_ini", 0, t_ini),
            REAL("Run", "t_end", 0.2, t_end),
            REAL("Run", "cfl", 0.4, cfl),
            INT("Output", "max_iter", 10000, max_iter),
            INT("Output", "iter_frequency", 0, iter_output_frequency),
            REAL("Output", "time_frequency", 0, time_output_frequency),
            REAL("Output", "time_first_output", 0, time_first_output), // default: t_ini + time_frequency
            TEXT("Output", "directory", ".", directory),
            TEXT("Output", "prefix", "result", prefix),
            INT("Output", "time_job", 20, time_job),
            TEXT("Hydro", "reconstruction", "VanLeer", reconstruction_type),
            TEXT("Hydro", "riemann_solver", "HLL", riemann_solver),
            REAL("Gravity", "gx0", 0, gx0),
            REAL("Gravity", "gx1", 0, gx1),
            REAL("Gravity", "gx2", 0, gx2),
            REAL("Gravity", "M", 1, M),
            REAL("Perfect Gas", "gamma", 5. / 3, gamma),
            REAL("Perfect Gas", "mu", 1, mu),
            TEXT("Boundary Condition", "BC", "", bc_choice),
            TEXT("Boundary Condition", "priority", "", bc_priority),
            INT("Passive Scalar", "nfx", 0, nfx),
            TEXT("User step", "user_step", "Off", user_step),
            TEXT("Pressure fix", "pressure_fix", "Off", pressure_fix),
            REAL("Pressure fix", "eps_pf", 1e-6, eps_pf),
    };
    return k;
}
// section and key names are case insensitive
std::string vary(pbt::Case& c, std::string s)
{
    int const mode = c.i(0, 3); // 0, 1: as documented, 2: lower, 3: upper
    for (char& x : s) {
        if (mode == 2) {
            x = static_cast<char>(std::tolower(static_cast<unsigned char>(x)));
        } else if (mode == 3) {
            x = static_cast<char>(std::toupper(static_cast<unsigned char>(x)));
        }
    }
    return s;
}
std::string number(pbt::Case& c, double v)
{
    char b[64];
    std::snprintf(b, sizeof b, c.pick({"%.17g", "%.17e", "%a"}), v);
    return b;
}
struct Line
{
    std::string section, text;
};
std::string render(pbt::Case& c, std::vector<Line> lines)
{
    // any order of the entries; a section may be opened several times
    for (std::size_t k = lines.size(); k > 1; --k) {
        std::swap(lines[k - 1], lines[c.below(k)]);
    }
    bool const grouped = c.b();
    std::string t;
    if (grouped) {
        std::vector<std::string> order;
        for (Line const& l : lines) {
            if (std::find(order.begin(), order.end(), l.section) == order.end()) {
                order.push_back(l.section);
            }
        }
        for (auto const& s : order) {
            t += "[" + s + "]\n";
            for (Line const& l : lines) {
                if (l.section == s) {
                    t += l.text + "\n";
                }
            }
        }
    } else {
        std::string open;
        for (Line const& l : lines) {
            if (l.section != open || c.chance(1, 4)) {
                t += "[" + l.section + "]\n";
                open = l.section;
            }
            t += l.text + "\n";
        }
    }
    return t;
}
char const* const words[] = {"HLLC", "Low Mach", "VanAlbada", "Periodic", "UserDefined", "run_a", "a b c", "out/x y", "On", "Off", "Minmod", "None", "x.h5", "..", "Heat_nickel", "X_left Y_right", "true", "0", "1.5"};

} // namespace

PBT_TEST(parameters, 3)
{
    reset(0);
    auto const& ks = keys();
    int const density = c.i(0, 3);
    std::vector<bool> given(ks.size(), false);
    std::vector<Value> want(ks.size());
    std::vector<Line> lines;
    std::size_t n = 0;
    for (std::size_t q = 0; q < ks.size(); ++q) {
        Key const& k = ks[q];
        want[q] = k.def;
        given[q] = density == 3 || c.chance(density, 3);
        if (density == 0) {
            given[q] = c.chance(1, 30);
        }
        if (!given[q]) {
            continue;
        }
        ++n;
        std::string text;
        if (k.kind == Kind::Int) {
            long long const v = c.chance(1, 8) ? c.pick({0LL, 1LL, -1LL, 2147483647LL, -2147483647LL - 1}) : c.i(-100000, 100000);
            want[q] = of_i(v);
            text = pbt::cat(c.b() && v > 0 ? "+" : "", v);
        } else if (k.kind == Kind::Real) {
            double const v = c.chance(1, 8) ? c.pick({0., 1., -1., 1e300, -1e-300}) : c.b() ? c.sym(10.) : c.logd(1e-30, 1e30);
            want[q] = of_d(v);
            text = number(c, v);
        } else if (k.kind == Kind::Bool) {
            bool const v = c.b();
            want[q] = of_i(v ? 1 : 0);
            text = v ? c.pick({"true", "yes", "on", "1", "True", "YES", "On"}) : c.pick({"false", "no", "off", "0", "False", "NO", "Off"});
        } else {
            want[q] = of_s(c.pick(std::vector<std::string>(std::begin(words), std::end(words))));
            text = want[q].s;
        }
        lines.push_back({vary(c, k.section), vary(c, k.key) + c.pick({"=", " = ", ": ", "  :  "}) + text + c.pick({"", "", "   ", " ; a comment"})});
    }
    // entries that are none of the parameters: the same keys in other sections, other keys, setup parameters
    int const extra = c.i(0, 6);
    for (int e = 0; e < extra; ++e) {
        std::string const section = c.pick({"Initialisation", "Other", "Grid", "Run", "Output", "Hydro"});
        Key const& k = ks[c.below(ks.size())];
        std::string key = c.pick({std::string(k.key), std::string(k.key) + "_", "x" + std::string(k.key)});
        bool clash = false;
        for (Key const& o : ks) {
            clash = clash || (strcasecmp(o.section, section.c_str()) == 0 && strcasecmp(o.key, key.c_str()) == 0);
        }
        if (!clash) {
            lines.push_back({section, key + " = 77"});
        }
    }
    for (std::size_t q = 0; q < ks.size(); ++q) {
        if (std::strcmp(ks[q].key, "time_first_output") == 0 && !given[q]) {
            double t = 0;
            for (std::size_t p = 0; p < ks.size(); ++p) {
                if (std::strcmp(ks[p].key, "t_ini") == 0 || std::strcmp(ks[p].key, "time_frequency") == 0) {
                    t += want[p].d;
                }
            }
            want[q] = of_d(t);
        }
    }
    std::string const text = render(c, lines);
    c.note("%zu of %zu parameters given", n, ks.size());
    c.nontrivial(n >= 2 && n < ks.size());
    Param const p0 = make_param(text);
    Param p = p0; // copies keep the values
    if (c.b()) {
        Param other = make_param("");
        other = p0;
        p = other;
    }
    for (std::size_t q = 0; q < ks.size(); ++q) {
        Key const& k = ks[q];
        Value const got = k.get(p);
        std::string const what = pbt::cat("[", k.section, "] ", k.key, given[q] ? " (given)" : " (omitted)");
        if (k.kind == Kind::Real) {
            REQUIRE(got.d == want[q].d, what, " is ", pbt::cat(got.d), " instead of ", want[q].d);
        } else if (k.kind == Kind::Text) {
            REQUIRE(got.s == want[q].s, what, " is '", got.s, "' instead of '", want[q].s, "'");
        } else {
            REQUIRE(got.i == want[q].i, what, " is ", got.i, " instead of ", want[q].i);
        }
    }
}

// a value that is not of the type of the parameter is refused
PBT_TEST(not_a_value, 1)
{
    reset(0);
    auto const& ks = keys();
    Key const& k = ks[c.below(ks.size())];
    c.discard_if(k.kind == Kind::Text);
    std::string bad;
    if (k.kind == Kind::Int) {
        bad = c.pick({"abc", "2147483648", "-2147483649", "99999999999", "--1", "x12", "ten"});
    } else if (k.kind == Kind::Real) {
        bad = c.pick({"abc", "1e999", "--1", "x1", "e5", "one", "."});
    } else {
        bad = c.pick({"maybe", "2", "truee", "t", "-1", "yess", "of"});
    }
    std::string const text = pbt::cat("[", vary(c, k.section), "]\n", vary(c, k.key), " = ", bad, "\n");
    c.note("%s = %s", k.key, bad.c_str());
    c.nontrivial();
    bool thrown = false;
    try {
        make_param(text);
    } catch (std::exception const&) {
        thrown = true;
    }
    REQUIRE(thrown, "[", k.section, "] ", k.key, " = ", bad, " is accepted");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}

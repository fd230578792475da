// O02: the visualisation index (XDMF) against the files written.
#include <cstring>
#include <sstream>

#include <files.hpp>
#include <runs.hpp>

using namespace hz;

namespace {

// ---- a minimal XML reader: elements, attributes and text, strict about nesting and quoting
struct Node
{
    std::string name;
    std::map<std::string, std::string> attr;
    std::string text;
    std::vector<Node> sub;
    std::string const& at(std::string const& k) const
    {
        auto const it = attr.find(k);
        if (it == attr.end()) {
            pbt::fail("the index has a <", name, "> without ", k);
        }
        return it->second;
    }
    std::vector<Node const*> all(std::string const& n) const
    {
        std::vector<Node const*> r;
        for (auto const& s : sub) {
            if (s.name == n) {
                r.push_back(&s);
            }
        }
        return r;
    }
    Node const& one(std::string const& n) const
    {
        auto const r = all(n);
        if (r.size() != 1) {
            pbt::fail("the index has a <", name, "> with ", r.size(), " <", n, ">");
        }
        return *r[0];
    }
};
struct Xml
{
    std::string const& s;
    std::size_t p = 0;
    [[noreturn]] void bad(char const* what) const { pbt::fail("the index is not well-formed: ", what, " near '", s.substr(p > 20 ? p - 20 : 0, 60), "'"); }
    void ws()
    {
        while (p < s.size() && std::strchr(" \t\r\n", s[p]) != nullptr) {
            ++p;
        }
    }
    bool starts(char const* t) const { return s.compare(p, std::strlen(t), t) == 0; }
    std::string word()
    {
        std::string w;
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) != 0 || std::strchr("_:.-", s[p]) != nullptr)) {
            w += s[p++];
        }
        if (w.empty()) {
            bad("a name is missing");
        }
        return w;
    }
    Node element()
    {
        if (!starts("<")) {
            bad("an element is missing");
        }
        ++p;
        Node n;
        n.name = word();
        for (;;) {
            std::size_t const before = p;
            ws();
            if (starts("/>")) {
                p += 2;
                return n;
            }
            if (starts(">")) {
                ++p;
                break;
            }
            if (p == before) {
                bad("no space before an attribute");
            }
            std::string const k = word();
            ws();
            if (!starts("=")) {
                bad("an attribute without value");
            }
            ++p;
            ws();
            if (!starts("\"")) {
                bad("an unquoted attribute");
            }
            std::size_t const e = s.find('"', p + 1);
            if (e == std::string::npos || s.substr(p + 1, e - p - 1).find('<') != std::string::npos) {
                bad("an unterminated attribute");
            }
            if (!n.attr.emplace(k, s.substr(p + 1, e - p - 1)).second) {
                bad("a repeated attribute");
            }
            p = e + 1;
        }
        for (;;) {
            if (p >= s.size()) {
                bad("the text ends inside an element");
            }
            if (starts("</")) {
                p += 2;
                if (word() != n.name) {
                    bad("the nesting is wrong");
                }
                ws();
                if (!starts(">")) {
                    bad("an end tag is not closed");
                }
                ++p;
                return n;
            }
            if (starts("<!--")) {
                std::size_t const e = s.find("-->", p);
                if (e == std::string::npos) {
                    bad("an unterminated comment");
                }
                p = e + 3;
            } else if (starts("<")) {
                n.sub.push_back(element());
            } else {
                n.text += s[p++];
            }
        }
    }
    Node document()
    {
        ws();
        while (starts("<?") || starts("<!")) {
            std::size_t const e = s.find('>', p);
            if (e == std::string::npos) {
                bad("an unterminated declaration");
            }
            p = e + 1;
            ws();
        }
        Node n = element();
        ws();
        if (p != s.size()) {
            bad("text after the root element");
        }
        return n;
    }
};

std::vector<long> numbers(std::string const& t)
{
    std::istringstream is(t);
    std::vector<long> r;
    long v = 0;
    while (is >> v) {
        r.push_back(v);
    }
    if (!is.eof()) {
        pbt::fail("'", t, "' is not a list of extents");
    }
    return r;
}
std::string trim(std::string const& t)
{
    std::size_t const a = t.find_first_not_of(" \t\r\n");
    std::size_t const b = t.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : t.substr(a, b - a + 1);
}

struct Ref
{
    std::string file, dset;
    std::vector<long> dims;
};
Ref item(Node const& parent_item)
{
    Node const& d = parent_item;
    Ref r;
    r.dims = numbers(d.at("Dimensions"));
    REQUIRE(d.at("Format") == "HDF" && d.at("NumberType") == "Float" && d.at("Precision") == "8", "a data item is not declared as double precision HDF5 data");
    std::string const t = trim(d.text);
    std::size_t const c = t.find(":/");
    REQUIRE(c != std::string::npos, "'", t, "' is not a reference to a dataset");
    r.file = t.substr(0, c);
    r.dset = t.substr(c + 2);
    return r;
}

struct Entry
{
    double t;
    std::vector<Ref> axes;
    std::map<std::string, Ref> fields;
    std::vector<long> topology;
};
std::vector<Entry> read_index(std::string const& path)
{
    std::ifstream f(path, std::ios::binary);
    REQUIRE(f.good(), "the index ", fs::path(path).filename().string(), " does not exist");
    std::stringstream ss;
    ss << f.rdbuf();
    std::string const text = ss.str();
    Node const root = Xml {text}.document();
    REQUIRE(root.name == "Xdmf", "the root of the index is <", root.name, ">");
    Node const& series = root.one("Domain").one("Grid");
    REQUIRE(series.at("GridType") == "Collection" && series.at("CollectionType") == "Temporal", "the index is not a temporal collection");
    std::vector<Entry> r;
    for (Node const* const g : series.all("Grid")) {
        REQUIRE(g->at("GridType") == "Uniform", "an entry of the index is not a uniform grid");
        Entry e;
        std::string const& tv = g->one("Time").at("Value");
        std::size_t used = 0;
        e.t = std::stod(tv, &used);
        REQUIRE(used == tv.size(), "the time '", tv, "' is not a number");
        REQUIRE(g->one("Topology").at("TopologyType") == "3DRectMesh", "the topology is not a rectilinear mesh");
        e.topology = numbers(g->one("Topology").at("Dimensions"));
        Node const& geo = g->one("Geometry");
        REQUIRE(geo.at("GeometryType") == "VXVYVZ", "the geometry is not given by three axes");
        for (Node const* const d : geo.all("DataItem")) {
            e.axes.push_back(item(*d));
        }
        REQUIRE(e.axes.size() == 3, "the geometry has ", e.axes.size(), " axes");
        for (Node const* const a : g->all("Attribute")) {
            REQUIRE(a->at("Center") == "Cell" && a->at("AttributeType") == "Scalar", "a field is not declared as a scalar per cell");
            REQUIRE(e.fields.emplace(a->at("Name"), item(a->one("DataItem"))).second, "the field ", a->at("Name"), " is listed twice");
        }
        r.push_back(std::move(e));
    }
    return r;
}

// every field of the file that has the extents of the mesh is listed, and nothing else
void same_as_file(Entry const& e, H5File const& f, std::string const& name, int nfx)
{
    REQUIRE(e.t == f.scalar("current_time"), "the index gives the time ", e.t, " for ", name, ", written at ", f.scalar("current_time"));
    std::vector<std::string> want {"rho", "P", "E", "T"};
    for (int d = 0; d < ndim; ++d) {
        want.push_back("ux" + std::to_string(d));
    }
    for (int n = 0; n < nfx; ++n) {
        want.push_back("fx" + std::to_string(n));
    }
    for (auto const& w : want) {
        REQUIRE(e.fields.count(w) == 1, "the field ", w, " of ", name, " is not in the index");
    }
    REQUIRE(e.fields.size() == want.size(), "the index lists ", e.fields.size(), " fields for ", name, " instead of ", want.size());
    std::vector<long> mesh;
    for (int d = 0; d < 3; ++d) {
        auto const& a = e.axes[d];
        REQUIRE(a.file == name, "an axis refers to ", a.file, " instead of ", name);
        REQUIRE(a.dset == "x" + std::to_string(d) + "_ng", "axis ", d, " refers to ", a.dset);
        REQUIRE(f.at(a.dset).dims == a.dims, "the extent of axis ", d, " of ", name, " is wrong in the index");
        mesh.insert(mesh.begin(), a.dims[0]);
    }
    REQUIRE(e.topology == mesh, "the topology does not match the axes of ", name);
    for (auto const& [n, r] : e.fields) {
        REQUIRE(r.file == name && r.dset == n, "the field ", n, " of ", name, " refers to ", r.file, ":/", r.dset);
        REQUIRE(f.at(n).dims == r.dims, "the extents of ", n, " of ", name, " are wrong in the index");
        for (int d = 0; d < 3; ++d) {
            REQUIRE(r.dims[d] + 1 == mesh[d], "the field ", n, " of ", name, " does not fit the mesh");
        }
    }
}
void same_as_files(std::string const& dir, std::string const& prefix, std::map<std::string, H5File> const& files, int nfx)
{
    auto const index = read_index(dir + "/" + prefix + ".xmf");
    REQUIRE(index.size() == files.size(), "the index lists ", index.size(), " outputs, ", files.size(), " were written");
    std::size_t q = 0;
    for (auto const& [name, f] : files) {
        same_as_file(index[q], f, name, nfx);
        ++q;
    }
}

} // namespace

// the library: one process writes a growing list
PBT_TEST(growing_list, 1)
{
    install_capture();
    reset(c);
    MeshOpt o;
    o.ng_min = 1;
    int const n = c.chance(1, 3) ? c.i(2, 4) : 1;
    auto const dims = random_dims(c, n);
    o.parts = dims;
    Mesh const m = random_mesh(c, o);
    int const nfx = c.chance(1, 6) ? 10 : c.i(0, 4);
    std::string const prefix = c.pick(std::vector<std::string> {"result", "a.b-c_d", "p"});
    std::string const dir = scratch_dir("o02");
    int const first = c.chance(1, 3) ? c.i(1, 30) : c.chance(1, 6) ? 99999990 : 0;
    int const count = c.i(1, 6);
    std::vector<double> t;
    double now = c.sym(2.) * c.pick({1., 1e-8, 1e6});
    double const dt = c.logd(1e-9, 1e3);
    for (int k = 0; k < count; ++k) {
        t.push_back(now);
        now += dt * c.d(0.1, 1.);
    }
    c.note("%s ranks=%d nfx=%d first=%d outputs=%d t=%.17g..", show(m).c_str(), n, nfx, first, count, t[0]);
    c.nontrivial();
    c.label(pbt::cat(count, " outputs"));
    ranks(
            n,
            [&](int) {
                Grid g(m.nx, dims, m.ng);
                set_grid(g, m);
                Fields const f(g, 0);
                hclpp::XmlWriter const w(dir, prefix, nfx);
                std::vector<std::pair<int, double>> record;
                for (int k = 0; k < count; ++k) {
                    record.emplace_back(k * 3, t[k]);
                    w(g, first + k, record, f.x0.const_view(), f.x1.const_view(), f.x2.const_view());
                    if (g.mpi_rank != 0) {
                        continue;
                    }
                    auto const index = read_index(dir + "/" + prefix + ".xmf");
                    REQUIRE(static_cast<int>(index.size()) == k + 1, "the index lists ", index.size(), " outputs instead of ", k + 1);
                    for (int q = 0; q <= k; ++q) {
                        H5File h;
                        for (int d = 0; d < 3; ++d) {
                            h.d["x" + std::to_string(d) + "_ng"].dims = {m.nx[d] + 1};
                        }
                        h.d["current_time"].v = {t[q]};
                        for (int d = 0; d < ndim; ++d) {
                            h.d["ux" + std::to_string(d)].dims = {m.nx[2], m.nx[1], m.nx[0]};
                        }
                        for (int d = 0; d < nfx; ++d) {
                            h.d["fx" + std::to_string(d)].dims = {m.nx[2], m.nx[1], m.nx[0]};
                        }
                        for (char const* const s : {"rho", "P", "E", "T"}) {
                            h.d[s].dims = {m.nx[2], m.nx[1], m.nx[0]};
                        }
                        h.name = "model";
                        same_as_file(index[q], h, output_name(prefix, first + q), nfx);
                    }
                }
            },
            c.below(100), random_perm(c, n));
}

// the whole program, also continued from one of its outputs
PBT_TEST(runs, 1)
{
    RunOpt o;
    o.shift = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 6.) * r.dt_est));
    int const f = c.i(0, 3);
    if (f > 0) {
        r.ini.set("Output", "iter_frequency", f);
    }
    if (c.chance(1, 2)) {
        r.ini.set("Output", "time_frequency", c.d(0.3, 3.) * r.dt_est);
    }
    r.ini.set("Output", "max_iter", 20);
    std::string const prefix = c.pick(std::vector<std::string> {"result", "a.b-c_d", "p"});
    r.ini.set("Output", "prefix", prefix);
    Machine const m = random_machine(c, r, 4);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    std::string const dir = scratch_dir("o02run");
    RunResult const x = run_program(r.ini, dir, m);
    c.discard_if(!x.success());
    auto const files = outputs(dir);
    same_as_files(dir, prefix, files, r.nfx);
    c.nontrivial(files.size() > 1);
    if (files.size() < 2 || c.b()) {
        return;
    }
    auto it = files.begin();
    std::advance(it, c.i(0, static_cast<int>(files.size()) - 2));
    Ini ini = r.ini;
    ini.set("Problem", "restart", "true");
    ini.set("Problem", "restart_file", dir + "/" + it->first);
    std::string const dir2 = scratch_dir("o02cont");
    Machine const m2 = random_machine(c, r, 3);
    c.note("| from %s on %s", it->first.c_str(), show(m2).c_str());
    RunResult const y = run_program(ini, dir2, m2);
    c.discard_if(!y.success());
    same_as_files(dir2, prefix, outputs(dir2), r.nfx);
    c.label("continued");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}

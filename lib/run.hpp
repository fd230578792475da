// Runs the whole program (main.cpp compiled as heraclespp_main) on n ranks and reads back what it wrote.
#pragma once

#include <cstdarg>
#include <filesystem>
#include <iostream>
#include <map>
#include <streambuf>
#include <tuple>

#include <hdf5.h>
#include <paraconf.h>
#include <pdi.h>

#include <harness.hpp>

auto heraclespp_main(int argc, char** argv) -> int;

namespace hz {

namespace fs = std::filesystem;

// ---- standard streams of the ranks (threads): captured per thread

struct Capture : std::streambuf
{
    std::string& (*text)();
    explicit Capture(std::string& (*t)()) : text(t) {}
    int overflow(int ch) override
    {
        if (ch != EOF && text().size() < (1U << 16)) {
            text() += static_cast<char>(ch);
        }
        return 0;
    }
    std::streamsize xsputn(char const* s, std::streamsize n) override
    {
        if (text().size() < (1U << 16)) {
            text().append(s, static_cast<std::size_t>(n));
        }
        return n;
    }
};
inline std::string& out_text()
{
    static thread_local std::string s;
    return s;
}
inline std::string& err_text()
{
    static thread_local std::string s;
    return s;
}
inline void install_capture()
{
    static Capture out(out_text);
    static Capture err(err_text);
    std::cout.rdbuf(&out);
    std::cerr.rdbuf(&err);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
}

// ---- input file

struct Ini
{
    std::vector<std::tuple<std::string, std::string, std::string>> e; // section, key, value
    void set(std::string const& s, std::string const& k, std::string const& v)
    {
        for (auto& x : e) {
            if (std::get<0>(x) == s && std::get<1>(x) == k) {
                std::get<2>(x) = v;
                return;
            }
        }
        e.emplace_back(s, k, v);
    }
    void set(std::string const& s, std::string const& k, char const* v) { set(s, k, std::string(v)); }
    void set(std::string const& s, std::string const& k, int v) { set(s, k, std::to_string(v)); }
    void set(std::string const& s, std::string const& k, double v)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", v);
        set(s, k, std::string(b));
    }
    void unset(std::string const& s, std::string const& k)
    {
        std::erase_if(e, [&](auto const& x) { return std::get<0>(x) == s && std::get<1>(x) == k; });
    }
    std::string get(std::string const& s, std::string const& k) const
    {
        for (auto const& x : e) {
            if (std::get<0>(x) == s && std::get<1>(x) == k) {
                return std::get<2>(x);
            }
        }
        return "";
    }
    std::string text() const
    {
        std::map<std::string, std::string> sec;
        for (auto const& [s, k, v] : e) {
            sec[s] += k + " = " + v + "\n";
        }
        std::string t;
        for (auto const& [s, body] : sec) {
            t += "[" + s + "]\n" + body;
        }
        return t;
    }
    std::string show() const
    {
        std::string t;
        for (auto const& [s, k, v] : e) {
            t += (t.empty() ? "" : " ") + k + "=" + v;
        }
        return t;
    }
};

// ---- one run

struct Machine
{
    int n = 1;
    std::array<int, 3> dims {0, 0, 0};
    std::vector<int> perm;
    std::uint64_t schedule = 0;
    int order = 0;
    std::uint64_t order_seed = 0;
    int chunks = 1;
    bool strict = false;
    long long budget = 2000000;
};
inline std::string show(Machine const& m)
{
    return pbt::cat("ranks=", m.n, " grid=", m.dims[0], "x", m.dims[1], "x", m.dims[2], m.perm.empty() ? "" : " reordered", " order=", m.order, m.strict ? " strict" : "");
}

struct RunResult
{
    vmpi::Outcome o;
    std::vector<int> rc;
    std::vector<bool> peer;
    std::vector<std::string> out, err;
    std::string fault;
    bool runaway = false;
    std::vector<long> kept, peak; // arrays that are still allocated at the end, and the most at one time
    std::vector<char> closed; // both MPI and Kokkos are finalized
    std::vector<char> pdi; // PDI not finalized, or trees not destroyed
    bool success() const
    {
        for (int const r : rc) {
            if (r != 0) {
                return false;
            }
        }
        return o.ok();
    }
    // every rank ended with an error of its own
    bool refused() const
    {
        for (std::size_t k = 0; k < rc.size(); ++k) {
            if (rc[k] == 0 || peer[k]) {
                return false;
            }
        }
        return !o.deadlock && !runaway;
    }
    std::string describe() const
    {
        std::string s;
        for (std::size_t k = 0; k < rc.size(); ++k) {
            s += pbt::cat(k == 0 ? "" : "; ", "rank ", k, ": ", rc[k], peer[k] ? " (peer)" : "", " ", err[k].substr(0, 200));
        }
        if (o.deadlock) {
            s += " [deadlock]";
        }
        if (runaway) {
            s += " [runaway]";
        }
        for (auto const& p : o.problems) {
            s += " [" + p + "]";
        }
        return s;
    }
};

inline std::string scratch_dir(std::string const& name)
{
    std::string const base = (pbt::opt().scratch.empty() ? std::string("/tmp") : pbt::opt().scratch) + "/" + name;
    fs::remove_all(base);
    fs::create_directories(base);
    return base;
}

inline RunResult run_program(Ini ini, std::string const& dir, Machine const& m, std::vector<std::string> const& options = {})
{
    install_capture();
    ini.set("Output", "directory", dir);
    for (int d = 0; d < 3; ++d) {
        ini.set("Parallelization", "mpi_dims_cart_x" + std::to_string(d), m.dims[d]);
    }
    std::string const path = dir + "/input.ini";
    {
        std::ofstream f(path, std::ios::binary);
        f << ini.text();
    }
    RunResult r;
    r.rc.assign(m.n, -1);
    r.peer.assign(m.n, false);
    r.out.resize(m.n);
    r.err.resize(m.n);
    r.kept.resize(m.n);
    r.peak.resize(m.n);
    r.pdi.resize(m.n);
    r.closed.resize(m.n);
    std::mutex mu;
    std::vector<char> peer(m.n, 0);
    r.o = vmpi::run(
            m.n,
            [&](int rank) {
                reset(m.order, m.order_seed, m.strict);
                kstub::st().reduce_chunks = m.chunks;
                kstub::st().kernel_budget = m.budget;
                out_text().clear();
                err_text().clear();
                std::string a0 = "heracles";
                std::string a1 = path;
                std::vector<std::string> more = options;
                std::vector<char*> argv {a0.data(), a1.data()};
                for (auto& a : more) {
                    argv.push_back(a.data());
                }
                int const argc = static_cast<int>(argv.size());
                argv.push_back(nullptr);
                int rc = 1;
                bool run = false;
                std::string what;
                auto& k = kstub::st();
                long const before = k.live;
                k.peak = k.live;
                k.phase = kstub::State::Phase::Before;
                vmpi::self().lifecycle = true;
                int const trees = pdi_stub_trees();
                try {
                    rc = heraclespp_main(argc, argv.data());
                } catch (kstub::Runaway const&) {
                    run = true;
                } catch (std::exception const& e) {
                    what = e.what();
                } catch (...) {
                    what = "unknown exception";
                }
                bool const closed = k.phase == kstub::State::Phase::After && vmpi::self().finalized;
                k.phase = kstub::State::Phase::Any;
                vmpi::self().lifecycle = false;
                {
                    std::lock_guard<std::mutex> const l(mu);
                    r.rc[rank] = rc;
                    r.closed[rank] = closed ? 1 : 0;
                    r.kept[rank] = k.live - before;
                    r.peak[rank] = k.peak - before;
                    r.pdi[rank] = pdi_stub_live() || pdi_stub_trees() != trees ? 1 : 0;
                    peer[rank] = vmpi::self().peer ? 1 : 0;
                    r.out[rank] = out_text();
                    r.err[rank] = err_text() + what;
                    r.runaway = r.runaway || run;
                    if (kstub::st().faults != 0 && r.fault.empty()) {
                        r.fault = kstub::st().first_fault;
                    }
                }
                if (rc != 0) {
                    if (vmpi::self().peer) {
                        throw vmpi::PeerFailure(err_text());
                    }
                    throw std::runtime_error("program failed: " + err_text() + what);
                }
            },
            m.schedule,
            m.perm);
    for (int k = 0; k < m.n; ++k) {
        r.peer[k] = peer[k] != 0;
    }
    if (!r.fault.empty()) {
        pbt::fail("out of bounds access or violated precondition in the code under test: ", r.fault, " (", show(m), ")");
    }
    return r;
}
inline RunResult run_ok(Ini const& ini, std::string const& dir, Machine const& m, std::vector<std::string> const& options = {})
{
    RunResult r = run_program(ini, dir, m, options);
    if (!r.success()) {
        pbt::fail("the run did not complete: ", r.describe(), " (", show(m), ")");
    }
    return r;
}

// ---- output files

struct Dset
{
    std::vector<long> dims;
    std::vector<double> v;
};
struct H5File
{
    std::string name;
    std::map<std::string, Dset> d;
    double scalar(std::string const& k) const
    {
        auto const it = d.find(k);
        if (it == d.end() || it->second.v.size() != 1) {
            pbt::fail("no scalar ", k, " in ", name);
        }
        return it->second.v[0];
    }
    int integer(std::string const& k) const { return static_cast<int>(scalar(k)); }
    Dset const& at(std::string const& k) const
    {
        auto const it = d.find(k);
        if (it == d.end()) {
            pbt::fail("no dataset ", k, " in ", name);
        }
        return it->second;
    }
};
inline bool h5_read(std::string const& path, H5File& out)
{
    out.name = fs::path(path).filename().string();
    hid_t const f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) {
        return false;
    }
    H5G_info_t info;
    H5Gget_info(f, &info);
    for (hsize_t k = 0; k < info.nlinks; ++k) {
        char name[256];
        H5Lget_name_by_idx(f, ".", H5_INDEX_NAME, H5_ITER_INC, k, name, sizeof name, H5P_DEFAULT);
        hid_t const ds = H5Dopen2(f, name, H5P_DEFAULT);
        if (ds < 0) {
            continue;
        }
        hid_t const sp = H5Dget_space(ds);
        hsize_t dims[8];
        int const nd = H5Sget_simple_extent_dims(sp, dims, nullptr);
        Dset x;
        std::size_t n = 1;
        for (int q = 0; q < nd; ++q) {
            x.dims.push_back(static_cast<long>(dims[q]));
            n *= dims[q];
        }
        x.v.resize(n);
        H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.v.data());
        H5Sclose(sp);
        H5Dclose(ds);
        out.d[name] = std::move(x);
    }
    H5Fclose(f);
    return true;
}
inline std::string output_name(std::string const& prefix, int id)
{
    char b[32];
    std::snprintf(b, sizeof b, "_%08d.h5", id);
    return prefix + b;
}
// every output file of a directory, ordered by name; fails on unreadable files
inline std::map<std::string, H5File> outputs(std::string const& dir)
{
    std::map<std::string, H5File> r;
    for (auto const& e : fs::directory_iterator(dir)) {
        if (e.path().extension() == ".h5") {
            H5File f;
            if (!h5_read(e.path().string(), f)) {
                pbt::fail("output file ", e.path().filename().string(), " is not a readable HDF5 file");
            }
            r[f.name] = std::move(f);
        }
    }
    return r;
}

// compare two outputs (fields scaled by their largest magnitude); tol 0: bitwise
inline std::string differ(H5File const& a, H5File const& b, double tol)
{
    for (auto const& [k, x] : a.d) {
        auto const it = b.d.find(k);
        if (it == b.d.end()) {
            return "dataset " + k + " is missing";
        }
        auto const& y = it->second;
        if (x.dims != y.dims) {
            return "extents of " + k + " differ";
        }
        double scale = 0;
        // velocity components share their scale
        std::vector<std::string> const vel {"ux0", "ux1", "ux2"};
        bool const is_vel = std::find(vel.begin(), vel.end(), k) != vel.end();
        for (auto const& n : is_vel ? vel : std::vector<std::string> {k}) {
            auto const q = a.d.find(n);
            if (q != a.d.end()) {
                for (double const w : q->second.v) {
                    scale = std::max(scale, std::abs(w));
                }
            }
        }
        if (is_vel && a.d.count("P") != 0 && a.d.count("rho") != 0) {
            for (std::size_t q = 0; q < x.v.size(); ++q) {
                scale = std::max(scale, std::sqrt(std::abs(a.d.at("P").v[q] / a.d.at("rho").v[q])));
            }
        }
        for (std::size_t q = 0; q < x.v.size(); ++q) {
            bool const same = x.v[q] == y.v[q] || (std::isnan(x.v[q]) && std::isnan(y.v[q]));
            if (!same && !(std::abs(x.v[q] - y.v[q]) <= tol * scale)) {
                return pbt::cat(k, "[", q, "] = ", x.v[q], " and ", y.v[q], " differ by ", x.v[q] - y.v[q]);
            }
        }
    }
    for (auto const& [k, y] : b.d) {
        if (a.d.count(k) == 0) {
            return "dataset " + k + " is new";
        }
    }
    return "";
}
inline void same_outputs(std::map<std::string, H5File> const& a, std::map<std::string, H5File> const& b, double tol, std::string const& what)
{
    for (auto const& [n, f] : a) {
        auto const it = b.find(n);
        if (it == b.end()) {
            pbt::fail(what, ": output ", n, " is missing");
        }
        std::string const s = differ(f, it->second, tol);
        if (!s.empty()) {
            pbt::fail(what, ": in ", n, ": ", s);
        }
    }
    for (auto const& [n, f] : b) {
        if (a.count(n) == 0) {
            pbt::fail(what, ": unexpected output ", n);
        }
    }
}

} // namespace hz

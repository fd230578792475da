#include <mpi.h>

#include <cctype>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <hdf5.h>
#include <yaml-cpp/yaml.h>

#include "pdi.h"

namespace {

struct Type
{
    enum Kind { Int, Int64, Double, Char, Comm } kind = Int;
    bool array = false;
    std::vector<long> size; // evaluated
    std::size_t elem() const
    {
        switch (kind) {
        case Int:
            return 4;
        case Char:
            return 1;
        default:
            return 8;
        }
    }
    std::size_t count() const
    {
        std::size_t n = 1;
        for (long const s : size) {
            n *= static_cast<std::size_t>(s < 0 ? 0 : s);
        }
        return n;
    }
    hid_t h5() const
    {
        switch (kind) {
        case Int:
            return H5T_NATIVE_INT;
        case Int64:
            return H5T_NATIVE_INT64;
        case Double:
            return H5T_NATIVE_DOUBLE;
        case Char:
            return H5T_NATIVE_CHAR;
        default:
            throw std::runtime_error("PDI error: type cannot be stored in HDF5");
        }
    }
};

struct Value
{
    bool is_string = false;
    double num = 0;
    std::string str;
};

struct Shared
{
    void* ptr = nullptr;
    int access = 0;
};

struct Context
{
    bool live = false;
    YAML::Node conf;
    std::map<std::string, std::vector<unsigned char>> metadata_value;
    std::map<std::string, Type> metadata_type;
    std::map<std::string, Shared> shared;
};

Context& ctx()
{
    static thread_local Context c;
    return c;
}

[[noreturn]] void error(std::string const& m) { throw std::runtime_error("PDI error: " + m); }

class H5Id
{
public:
    hid_t id;
    herr_t (*close)(hid_t);
    H5Id(hid_t i, herr_t (*c)(hid_t), std::string const& what) : id(i), close(c)
    {
        if (id < 0) {
            error(what);
        }
    }
    H5Id(H5Id const&) = delete;
    ~H5Id() { close(id); }
    operator hid_t() const { return id; }
};

YAML::Node root()
{
    YAML::Node n(ctx().conf);
    if (n["pdi"]) {
        return n["pdi"];
    }
    return n;
}

// ---- expressions

Value meta_value(std::string const& name, bool indexed, long idx);

struct Parser
{
    std::string const& s;
    std::size_t p = 0;
    explicit Parser(std::string const& str) : s(str) {}
    void ws()
    {
        while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p])) != 0) {
            ++p;
        }
    }
    bool eat(char const* tok)
    {
        ws();
        std::size_t const n = std::strlen(tok);
        if (s.compare(p, n, tok) == 0) {
            p += n;
            return true;
        }
        return false;
    }
    double reference()
    {
        // after '$'
        bool const brace = p < s.size() && s[p] == '{';
        if (brace) {
            ++p;
        }
        std::string name;
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) != 0 || s[p] == '_')) {
            name += s[p++];
        }
        bool indexed = false;
        long idx = 0;
        if (p < s.size() && s[p] == '[') {
            ++p;
            indexed = true;
            idx = std::lround(expr());
            if (!eat("]")) {
                error("expected ] in '" + s + "'");
            }
        }
        if (brace) {
            if (p >= s.size() || s[p] != '}') {
                error("expected } in '" + s + "'");
            }
            ++p;
        }
        Value const v = meta_value(name, indexed, idx);
        if (v.is_string) {
            error("'" + name + "' is not a number");
        }
        return v.num;
    }
    double primary()
    {
        ws();
        if (eat("(")) {
            double const v = expr();
            if (!eat(")")) {
                error("expected ) in '" + s + "'");
            }
            return v;
        }
        if (eat("-")) {
            return -primary();
        }
        if (p < s.size() && s[p] == '$') {
            ++p;
            return reference();
        }
        char const* const b = s.c_str() + p;
        char* e = nullptr;
        double const v = std::strtod(b, &e);
        if (e == b) {
            error("cannot parse expression '" + s + "'");
        }
        p += static_cast<std::size_t>(e - b);
        return v;
    }
    double mul()
    {
        double v = primary();
        for (;;) {
            if (eat("*")) {
                v *= primary();
            } else if (eat("/")) {
                v = std::trunc(v / primary());
            } else if (eat("%")) {
                v = std::fmod(v, primary());
            } else {
                return v;
            }
        }
    }
    double add()
    {
        double v = mul();
        for (;;) {
            if (eat("+")) {
                v += mul();
            } else if (eat("-")) {
                v -= mul();
            } else {
                return v;
            }
        }
    }
    double cmp()
    {
        double const v = add();
        if (eat("!=")) {
            return v != add() ? 1 : 0;
        }
        if (eat(">=")) {
            return v >= add() ? 1 : 0;
        }
        if (eat("<=")) {
            return v <= add() ? 1 : 0;
        }
        if (eat("==") || eat("=")) {
            return v == add() ? 1 : 0;
        }
        if (eat(">")) {
            return v > add() ? 1 : 0;
        }
        if (eat("<")) {
            return v < add() ? 1 : 0;
        }
        return v;
    }
    double expr()
    {
        double v = cmp();
        for (;;) {
            if (eat("&&") || eat("&")) {
                double const w = cmp();
                v = (v != 0 && w != 0) ? 1 : 0;
            } else if (eat("||") || eat("|")) {
                double const w = cmp();
                v = (v != 0 || w != 0) ? 1 : 0;
            } else {
                return v;
            }
        }
    }
    double whole()
    {
        double const v = expr();
        ws();
        if (p != s.size()) {
            error("trailing characters in expression '" + s + "'");
        }
        return v;
    }
};

double eval_num(std::string const& s) { return Parser(s).whole(); }
long eval_int(YAML::Node const& n) { return std::lround(eval_num(n.as<std::string>())); }

std::string eval_str(std::string const& s)
{
    std::string out;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] != '$') {
            out += s[i++];
            continue;
        }
        ++i;
        bool const brace = i < s.size() && s[i] == '{';
        if (brace) {
            ++i;
        }
        std::string name;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) != 0 || s[i] == '_')) {
            name += s[i++];
        }
        bool indexed = false;
        long idx = 0;
        if (i < s.size() && s[i] == '[') {
            std::size_t const e = s.find(']', i);
            if (e == std::string::npos) {
                error("expected ] in '" + s + "'");
            }
            indexed = true;
            idx = std::lround(eval_num(s.substr(i + 1, e - i - 1)));
            i = e + 1;
        }
        if (brace) {
            if (i >= s.size() || s[i] != '}') {
                error("expected } in '" + s + "'");
            }
            ++i;
        }
        Value const v = meta_value(name, indexed, idx);
        if (v.is_string) {
            out += v.str;
        } else {
            out += std::to_string(std::lround(v.num));
        }
    }
    return out;
}

Type eval_type(YAML::Node const& n)
{
    Type t;
    auto scalar_kind = [](std::string const& k) {
        if (k == "int") {
            return Type::Int;
        }
        if (k == "int64") {
            return Type::Int64;
        }
        if (k == "double") {
            return Type::Double;
        }
        if (k == "char") {
            return Type::Char;
        }
        if (k == "MPI_Comm") {
            return Type::Comm;
        }
        error("unknown type '" + k + "'");
    };
    if (n.IsScalar()) {
        t.kind = scalar_kind(n.as<std::string>());
        return t;
    }
    std::string const k = n["type"].as<std::string>();
    if (k != "array") {
        t.kind = scalar_kind(k);
        return t;
    }
    t.array = true;
    t.kind = scalar_kind(n["subtype"].as<std::string>());
    YAML::Node const sz = n["size"];
    if (!sz) {
        error("array without size");
    }
    if (sz.IsSequence()) {
        for (auto const& e : sz) {
            t.size.push_back(eval_int(e));
        }
    } else {
        t.size.push_back(eval_int(sz));
    }
    return t;
}

double load(Type::Kind k, unsigned char const* p)
{
    switch (k) {
    case Type::Int: {
        int v;
        std::memcpy(&v, p, sizeof v);
        return v;
    }
    case Type::Int64: {
        long v;
        std::memcpy(&v, p, sizeof v);
        return static_cast<double>(v);
    }
    case Type::Double: {
        double v;
        std::memcpy(&v, p, sizeof v);
        return v;
    }
    default:
        error("not a numeric value");
    }
}

Value meta_value(std::string const& name, bool indexed, long idx)
{
    Context& c = ctx();
    auto const it = c.metadata_value.find(name);
    if (it == c.metadata_value.end()) {
        error("reference to undefined value '" + name + "'");
    }
    Type const& t = c.metadata_type[name];
    Value v;
    if (indexed) {
        if (!t.array || idx < 0 || static_cast<std::size_t>(idx) >= t.count()) {
            error("index out of range for '" + name + "'");
        }
        v.num = load(t.kind, it->second.data() + static_cast<std::size_t>(idx) * t.elem());
        return v;
    }
    if (t.array && t.kind == Type::Char) {
        v.is_string = true;
        v.str.assign(reinterpret_cast<char const*>(it->second.data()), it->second.size());
        std::size_t const z = v.str.find('\0');
        if (z != std::string::npos) {
            v.str.resize(z);
        }
        return v;
    }
    if (t.array) {
        error("'" + name + "' is an array");
    }
    v.num = load(t.kind, it->second.data());
    return v;
}

bool truthy(YAML::Node const& n) { return !n || eval_num(n.as<std::string>()) != 0; }

struct Selection
{
    bool set = false;
    std::vector<hsize_t> start, size;
};

Selection eval_selection(YAML::Node const& n, std::size_t rank)
{
    Selection s;
    if (!n) {
        return s;
    }
    s.set = true;
    auto list = [](YAML::Node const& x, std::vector<hsize_t>& out) {
        if (!x) {
            return;
        }
        auto push = [&](YAML::Node const& e) {
            long const v = eval_int(e);
            if (v < 0) {
                error("negative selection");
            }
            out.push_back(static_cast<hsize_t>(v));
        };
        if (x.IsSequence()) {
            for (auto const& e : x) {
                push(e);
            }
        } else {
            push(x);
        }
    };
    list(n["size"], s.size);
    list(n["start"], s.start);
    if (s.start.empty()) {
        s.start.assign(rank, 0);
    }
    if (s.size.size() != rank || s.start.size() != rank) {
        error("selection rank mismatch");
    }
    return s;
}

void select(hid_t space, Selection const& s)
{
    if (!s.set) {
        return;
    }
    if (H5Sselect_hyperslab(space, H5S_SELECT_SET, s.start.data(), nullptr, s.size.data(), nullptr) < 0) {
        error("invalid selection");
    }
    if (H5Sselect_valid(space) <= 0) {
        error("selection out of bounds");
    }
}

std::vector<hsize_t> dims_of(Type const& t)
{
    std::vector<hsize_t> d;
    for (long const s : t.size) {
        if (s < 0) {
            error("negative array size");
        }
        d.push_back(static_cast<hsize_t>(s));
    }
    return d;
}

hid_t make_space(std::vector<hsize_t> const& d)
{
    return d.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple(static_cast<int>(d.size()), d.data(), nullptr);
}

void transfer(YAML::Node const& file, hid_t file_id, std::string const& name, YAML::Node const& spec, bool writing)
{
    Context& c = ctx();
    if (spec && spec.IsMap() && !truthy(spec["when"])) {
        return;
    }
    std::string dset = name;
    if (spec && spec.IsScalar()) {
        dset = eval_str(spec.as<std::string>());
    }
    YAML::Node mem_node(YAML::NodeType::Undefined);
    YAML::Node dat_node(YAML::NodeType::Undefined);
    bool has_mem = false;
    bool has_dat = false;
    if (spec && spec.IsMap()) {
        if (spec["dataset"]) {
            dset = eval_str(spec["dataset"].as<std::string>());
        }
        if (spec["attribute"]) {
            error("attributes are not supported by the stand-in");
        }
        if (spec["memory_selection"]) {
            has_mem = true;
        }
        if (spec["dataset_selection"]) {
            has_dat = true;
        }
    }
    auto const sh = c.shared.find(name);
    if (sh == c.shared.end() || sh->second.ptr == nullptr) {
        error("data '" + name + "' is not shared");
    }
    if (writing && (sh->second.access & PDI_OUT) == 0) {
        error("data '" + name + "' is not readable");
    }
    if (!writing && (sh->second.access & PDI_IN) == 0) {
        error("data '" + name + "' is not writable");
    }
    YAML::Node const type_node = root()["metadata"][name] ? root()["metadata"][name] : root()["data"][name];
    if (!type_node) {
        error("no type for '" + name + "'");
    }
    Type const t = eval_type(type_node);
    std::vector<hsize_t> const mem_dims = dims_of(t);
    H5Id const mem_space(make_space(mem_dims), H5Sclose, "memory space");
    Selection const msel = has_mem ? eval_selection(spec["memory_selection"], mem_dims.size()) : Selection();
    select(mem_space, msel);

    std::string const path = dset;
    if (writing) {
        std::vector<hsize_t> file_dims;
        Type ft = t;
        YAML::Node const dsets = file["datasets"];
        if (dsets && dsets[dset]) {
            ft = eval_type(dsets[dset]);
            file_dims = dims_of(ft);
        } else if (msel.set) {
            file_dims = msel.size;
        } else {
            file_dims = mem_dims;
        }
        H5Id const file_space(make_space(file_dims), H5Sclose, "file space");
        select(file_space, has_dat ? eval_selection(spec["dataset_selection"], file_dims.size()) : Selection());
        hid_t d = -1;
        if (H5Lexists(file_id, path.c_str(), H5P_DEFAULT) > 0) {
            d = H5Dopen2(file_id, path.c_str(), H5P_DEFAULT);
        } else {
            d = H5Dcreate2(file_id, path.c_str(), ft.h5(), file_space, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        }
        H5Id const dset_id(d, H5Dclose, "cannot create dataset '" + path + "'");
        if (H5Sget_select_npoints(mem_space) != H5Sget_select_npoints(file_space)) {
            error("incompatible selections for dataset '" + path + "'");
        }
        if (H5Dwrite(dset_id, t.h5(), mem_space, file_space, H5P_DEFAULT, sh->second.ptr) < 0) {
            error("cannot write dataset '" + path + "'");
        }
    } else {
        H5Id const dset_id(H5Dopen2(file_id, path.c_str(), H5P_DEFAULT), H5Dclose, "cannot open dataset '" + path + "'");
        H5Id const file_space(H5Dget_space(dset_id), H5Sclose, "file space");
        int const fr = H5Sget_simple_extent_ndims(file_space);
        select(file_space, has_dat ? eval_selection(spec["dataset_selection"], static_cast<std::size_t>(fr)) : Selection());
        if (H5Sget_select_npoints(mem_space) != H5Sget_select_npoints(file_space)) {
            error("incompatible selections for dataset '" + path + "'");
        }
        if (H5Dread(dset_id, t.h5(), mem_space, file_space, H5P_DEFAULT, sh->second.ptr) < 0) {
            error("cannot read dataset '" + path + "'");
        }
    }
}

void barrier(YAML::Node const& file)
{
    if (!file["communicator"]) {
        return;
    }
    std::string const e = file["communicator"].as<std::string>();
    std::string name = e;
    name.erase(0, name.find_first_not_of("${ "));
    std::size_t const end = name.find_last_not_of("} ");
    name.resize(end + 1);
    MPI_Comm comm = nullptr;
    if (name == "MPI_COMM_WORLD") {
        comm = MPI_COMM_WORLD;
    } else {
        auto const it = ctx().metadata_value.find(name);
        if (it == ctx().metadata_value.end() || it->second.size() != sizeof(MPI_Comm)) {
            error("undefined communicator '" + e + "'");
        }
        std::memcpy(&comm, it->second.data(), sizeof comm);
    }
    MPI_Barrier(comm);
}

void each(YAML::Node const& block, std::string const& /*what*/, YAML::Node const& file, hid_t id, bool writing)
{
    if (!block) {
        return;
    }
    auto one = [&](std::string const& name, YAML::Node const& spec) {
        if (spec.IsSequence()) {
            for (auto const& e : spec) {
                transfer(file, id, name, e, writing);
            }
        } else {
            transfer(file, id, name, spec, writing);
        }
    };
    if (block.IsMap()) {
        for (auto const& kv : block) {
            one(kv.first.as<std::string>(), kv.second);
        }
    } else if (block.IsSequence()) {
        for (auto const& n : block) {
            one(n.as<std::string>(), YAML::Node());
        }
    } else {
        one(block.as<std::string>(), YAML::Node());
    }
}

void do_file(YAML::Node const& file)
{
    if (!truthy(file["when"])) {
        return;
    }
    std::string const path = eval_str(file["file"].as<std::string>());
    barrier(file);
    {
        bool const writing = static_cast<bool>(file["write"]);
        if (writing) {
            std::string const policy = file["collision_policy"] ? file["collision_policy"].as<std::string>() : "skip_and_warn";
            bool exists = false;
            if (FILE* const f = std::fopen(path.c_str(), "rb")) {
                exists = true;
                std::fclose(f);
            }
            hid_t id = -1;
            if (!exists) {
                id = H5Fcreate(path.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
            } else if (policy == "replace" || policy == "replace_and_warn") {
                id = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            } else if (policy == "write_into") {
                id = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
            } else if (policy == "error") {
                error("file '" + path + "' already exists");
            } else {
                barrier(file);
                return; // skip
            }
            H5Id const fid(id, H5Fclose, "cannot open '" + path + "' for writing");
            each(file["write"], "write", file, fid, true);
        }
        if (file["read"]) {
            H5Id const fid(H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT), H5Fclose, "cannot open '" + path + "' for reading");
            each(file["read"], "read", file, fid, false);
        }
    }
    barrier(file);
}

void trigger(std::string const& event)
{
    YAML::Node const conf = root();
    YAML::Node const files = conf["plugins"]["decl_hdf5"];
    if (!files) {
        return;
    }
    auto handle = [&](YAML::Node const& f) {
        YAML::Node const on = f["on_event"];
        if (!on) {
            return;
        }
        bool match = false;
        if (on.IsSequence()) {
            for (auto const& e : on) {
                match = match || e.as<std::string>() == event;
            }
        } else {
            match = on.as<std::string>() == event;
        }
        if (match) {
            do_file(f);
        }
    };
    if (files.IsSequence()) {
        for (auto const& f : files) {
            handle(f);
        }
    } else {
        handle(files);
    }
}

void share(std::string const& name, void* data, int access)
{
    Context& c = ctx();
    if (data == nullptr && name == "nullptr") {
        return;
    }
    YAML::Node const conf = root();
    if (conf["metadata"][name]) {
        Type const t = eval_type(conf["metadata"][name]);
        std::size_t const n = t.elem() * t.count();
        if (data == nullptr && n > 0) {
            error("null pointer for metadata '" + name + "'");
        }
        auto const* const b = static_cast<unsigned char const*>(data);
        c.metadata_value[name].assign(b, b + n);
        c.metadata_type[name] = t;
    }
    c.shared[name] = Shared {data, access};
}

void reclaim(std::string const& name)
{
    Context& c = ctx();
    auto const it = c.shared.find(name);
    if (it == c.shared.end()) {
        return;
    }
    if (c.metadata_value.count(name) != 0 && it->second.ptr != nullptr) {
        auto const* const b = static_cast<unsigned char const*>(it->second.ptr);
        auto& v = c.metadata_value[name];
        v.assign(b, b + v.size());
    }
    c.shared.erase(it);
}

void alive()
{
    if (!ctx().live) {
        error("PDI is not initialized");
    }
}

} // namespace

int& pdi_stub_trees()
{
    static thread_local int n = 0;
    return n;
}
bool pdi_stub_live()
{
    return ctx().live;
}
PC_tree_t PC_parse_string(char const* document)
{
    ++pdi_stub_trees();
    PC_tree_t t {};
    t.node = new YAML::Node(YAML::Load(document));
    return t;
}
PC_tree_t PC_parse_path(char const* path)
{
    ++pdi_stub_trees();
    PC_tree_t t {};
    t.node = new YAML::Node(YAML::LoadFile(path));
    return t;
}
void PC_tree_destroy(PC_tree_t* tree)
{
    pdi_stub_trees() -= tree->node != nullptr ? 1 : 0;
    delete static_cast<YAML::Node*>(tree->node);
    tree->node = nullptr;
}
PDI_status_t PDI_init(PC_tree_t conf)
{
    static bool const quiet = (H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr), true);
    (void)quiet;
    ctx() = Context();
    ctx().live = true;
    ctx().conf = YAML::Clone(*static_cast<YAML::Node*>(conf.node));
    return PDI_OK;
}
PDI_status_t PDI_finalize()
{
    ctx() = Context();
    return PDI_OK;
}
PDI_status_t PDI_multi_expose(char const* event, char const* name, void const* data, PDI_inout_t access, ...)
{
    alive();
    std::vector<std::string> names;
    va_list ap;
    va_start(ap, access);
    char const* n = name;
    void* d = const_cast<void*>(data);
    int a = access;
    try {
        for (;;) {
            share(n, d, a);
            names.emplace_back(n);
            n = va_arg(ap, char const*);
            if (n == nullptr) {
                break;
            }
            d = va_arg(ap, void*);
            a = va_arg(ap, int);
        }
        va_end(ap);
        trigger(event);
    } catch (YAML::Exception const& e) {
        error(std::string("bad specification: ") + e.what());
    }
    for (std::size_t i = names.size(); i-- > 0;) {
        reclaim(names[i]);
    }
    return PDI_OK;
}
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access)
{
    alive();
    share(name, const_cast<void*>(data), access);
    return PDI_OK;
}
PDI_status_t PDI_reclaim(char const* name)
{
    alive();
    reclaim(name);
    return PDI_OK;
}
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access)
{
    PDI_share(name, data, access);
    return PDI_reclaim(name);
}
PDI_status_t PDI_event(char const* event)
{
    alive();
    trigger(event);
    return PDI_OK;
}

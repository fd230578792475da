// An in-process stand-in for the parts of MPI that HERACLES++ uses.
// Ranks are threads of one process and exactly one of them runs at a time (a baton is passed at blocking calls only),
// so that a run is a deterministic function of the scheduling seed.  Deadlocks, mismatched collectives, truncated
// messages and messages that are never received are reported to the harness.
// Functions are named vmpi_* so that they cannot clash with the MPI library which libhdf5_openmpi pulls in.
#pragma once

#include <algorithm>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>

struct vmpi_comm_s;
typedef vmpi_comm_s* MPI_Comm;
typedef int MPI_Info;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef long MPI_Offset;
typedef long MPI_Count;
typedef int MPI_File;
typedef int MPI_Group;
struct MPI_Status
{
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
    int count_bytes;
};

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_DIMS 12
#define MPI_INFO_NULL 0
#define MPI_FILE_NULL 0
#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_COMM_WORLD (::vmpi::world_comm())
#define MPI_COMM_SELF (::vmpi::self_comm())
#define MPI_IN_PLACE (reinterpret_cast<void*>(-1L))
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 64

// datatypes: (id << 8) | size
#define MPI_DATATYPE_NULL 0
#define MPI_DOUBLE ((1 << 8) | 8)
#define MPI_INT ((2 << 8) | 4)
#define MPI_CXX_BOOL ((3 << 8) | 1)
#define MPI_C_BOOL ((3 << 8) | 1)
#define MPI_CHAR ((4 << 8) | 1)
#define MPI_BYTE ((5 << 8) | 1)
#define MPI_UNSIGNED ((6 << 8) | 4)
#define MPI_LONG ((7 << 8) | 8)
#define MPI_UNSIGNED_LONG ((8 << 8) | 8)
#define MPI_FLOAT ((9 << 8) | 4)
#define MPI_UINT64_T ((8 << 8) | 8)
#define MPI_INT64_T ((7 << 8) | 8)
#define MPI_LONG_LONG ((7 << 8) | 8)
#define MPI_INT32_T MPI_INT

#define MPI_REQUEST_NULL 0
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8

namespace vmpi {

struct Deadlock : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct PeerFailure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
struct UsageError : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct World;

} // namespace vmpi

struct vmpi_comm_s
{
    vmpi::World* world = nullptr;
    int id = 0;
    std::vector<int> members; // comm rank -> world rank
    bool cart = false;
    std::vector<int> dims, periods;
    std::vector<long> seq; // next collective number, per comm rank
    int freed = 0;
    bool self = false; // MPI_COMM_SELF
    std::vector<bool> gone; // per comm rank
};

namespace vmpi {

struct Slot
{
    std::string signature;
    std::vector<std::vector<unsigned char>> in;
    std::vector<bool> here;
    int arrived = 0;
    int left = 0;
    bool done = false;
    std::vector<unsigned char> out;
    std::vector<MPI_Comm> out_comms; // by comm rank
};

struct Message
{
    int comm, src, dst, tag;
    std::vector<unsigned char> data;
    long id = 0;
};

struct Request
{
    int id = 0, owner = 0, comm = 0, me = 0, src = 0, tag = 0;
    bool send = false;
    void* buf = nullptr;
    std::size_t bytes = 0;
    std::vector<unsigned char> data;
    long msg = -1; // the message it is matched with (0: none is needed, -1: not yet)
};

struct World
{
    int size = 1;
    std::uint64_t rng = 0x9e3779b97f4a7c15ULL;
    std::vector<int> reorder; // permutation used by MPI_Cart_create(reorder = 1)
    std::list<vmpi_comm_s> comms;
    MPI_Comm world = nullptr;
    std::map<std::pair<int, long>, Slot> slots;
    std::list<Message> mail;
    std::list<Request> requests;
    int n_requests = 0;
    long long n_collectives = 0, n_messages = 0, n_switches = 0;
    std::vector<std::string> problems;

    // scheduler
    std::mutex m;
    std::condition_variable cv;
    int running = -1;
    std::vector<int> state; // 0 runnable, 1 waiting, 2 finished
    std::vector<std::function<bool()>> pred;
    bool threaded = false;
    bool dead = false; // deadlock or rank failure: everybody leaves
    bool deadlocked = false;
    std::string why;

    explicit World(int n) : size(n), state(n, 0), pred(n)
    {
        comms.emplace_back();
        world = &comms.back();
        world->world = this;
        world->id = 0;
        for (int i = 0; i < n; ++i) {
            world->members.push_back(i);
        }
        world->seq.assign(n, 0);
    }
    World(World const&) = delete;

    std::uint64_t next()
    {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        return rng;
    }

    // choose who runs next; called with the lock held
    void pick()
    {
        std::vector<int> cand;
        for (int r = 0; r < size; ++r) {
            if (state[r] == 0 || (state[r] == 1 && (dead || pred[r]()))) {
                cand.push_back(r);
            }
        }
        if (cand.empty()) {
            bool waiting = false;
            for (int r = 0; r < size; ++r) {
                waiting = waiting || state[r] == 1;
            }
            if (!waiting) {
                running = -1;
                return;
            }
            dead = true;
            deadlocked = true;
            if (why.empty()) {
                why = "deadlock: every unfinished rank is waiting";
            }
            for (int r = 0; r < size; ++r) {
                if (state[r] == 1) {
                    cand.push_back(r);
                }
            }
        }
        running = cand[next() % cand.size()];
    }
};

struct Self
{
    World* w = nullptr;
    int rank = 0;
    bool initialized = false;
    bool finalized = false;
    bool lifecycle = false; // MPI is used between MPI_Init and MPI_Finalize only
    bool peer = false; // ended because another rank ended or every rank waits
};

inline Self& self()
{
    static thread_local Self s;
    static thread_local std::unique_ptr<World> single;
    if (s.w == nullptr) {
        single = std::make_unique<World>(1);
        s.w = single.get();
        s.rank = 0;
    }
    return s;
}

inline MPI_Comm new_comm(World& w, std::vector<int> members)
{
    w.comms.emplace_back();
    vmpi_comm_s& c = w.comms.back();
    c.world = &w;
    c.id = static_cast<int>(w.comms.size());
    c.seq.assign(members.size(), 0);
    c.members = std::move(members);
    return &c;
}
inline MPI_Comm self_comm()
{
    static thread_local MPI_Comm c = nullptr;
    static thread_local World* of = nullptr;
    if (of != self().w) {
        of = self().w;
        c = new_comm(*of, {self().rank});
        c->self = true;
    }
    return c;
}

[[noreturn]] inline void usage(std::string const& what);
inline void up()
{
    Self const& s = self();
    if (s.lifecycle && (!s.initialized || s.finalized)) {
        usage(s.finalized ? "MPI is used after MPI_Finalize" : "MPI is used before MPI_Init");
    }
}
inline MPI_Comm world_comm()
{
    up();
    return self().w->world;
}
[[noreturn]] inline void usage(std::string const& what)
{
    World& w = *self().w;
    w.problems.push_back(what);
    throw UsageError("MPI usage error: " + what);
}

inline void check_comm(MPI_Comm c)
{
    if (c == nullptr) {
        usage("null communicator");
    }
    if (c->world != self().w) {
        usage("foreign communicator");
    }
    up();
    for (std::size_t i = 0; i < c->gone.size(); ++i) {
        if (c->gone[i] && c->members[i] == self().rank) {
            usage("a communicator is used after it was freed");
        }
    }
}
inline int rank_in(MPI_Comm c)
{
    check_comm(c);
    for (std::size_t i = 0; i < c->members.size(); ++i) {
        if (c->members[i] == self().rank) {
            return static_cast<int>(i);
        }
    }
    usage("rank is not a member of the communicator");
}

// Wait until p() holds, letting other ranks run.
inline void wait_until(std::function<bool()> const& p)
{
    Self& s = self();
    World& w = *s.w;
    if (!w.threaded) {
        if (!p()) {
            w.deadlocked = true;
            throw Deadlock("deadlock in a single rank run");
        }
        return;
    }
    std::unique_lock<std::mutex> lk(w.m);
    w.state[s.rank] = 1;
    w.pred[s.rank] = p;
    ++w.n_switches;
    w.pick();
    w.cv.notify_all();
    w.cv.wait(lk, [&] { return w.running == s.rank; });
    w.state[s.rank] = 0;
    bool const ok = p();
    w.pred[s.rank] = nullptr;
    if (!ok) {
        s.peer = true;
        if (w.deadlocked) {
            throw Deadlock(w.why);
        }
        throw PeerFailure(w.why);
    }
}

inline std::size_t type_size(MPI_Datatype t)
{
    std::size_t const s = static_cast<std::size_t>(t & 0xff);
    if (s == 0) {
        usage("bad datatype");
    }
    return s;
}

template <class T>
void reduce_typed(T* acc, T const* in, int n, MPI_Op op)
{
    for (int i = 0; i < n; ++i) {
        switch (op) {
        case MPI_SUM:
            acc[i] = static_cast<T>(acc[i] + in[i]);
            break;
        case MPI_PROD:
            acc[i] = static_cast<T>(acc[i] * in[i]);
            break;
        case MPI_MAX:
            acc[i] = acc[i] > in[i] ? acc[i] : in[i];
            break;
        case MPI_MIN:
            acc[i] = acc[i] < in[i] ? acc[i] : in[i];
            break;
        case MPI_LAND:
            acc[i] = static_cast<T>(acc[i] && in[i]);
            break;
        case MPI_LOR:
            acc[i] = static_cast<T>(acc[i] || in[i]);
            break;
        default:
            usage("unsupported reduction operation");
        }
    }
}
inline void reduce_into(void* acc, void const* in, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t) {
    case MPI_DOUBLE:
        return reduce_typed(static_cast<double*>(acc), static_cast<double const*>(in), n, op);
    case MPI_FLOAT:
        return reduce_typed(static_cast<float*>(acc), static_cast<float const*>(in), n, op);
    case MPI_INT:
        return reduce_typed(static_cast<int*>(acc), static_cast<int const*>(in), n, op);
    case MPI_UNSIGNED:
        return reduce_typed(static_cast<unsigned*>(acc), static_cast<unsigned const*>(in), n, op);
    case MPI_LONG:
        return reduce_typed(static_cast<long*>(acc), static_cast<long const*>(in), n, op);
    case MPI_UNSIGNED_LONG:
        return reduce_typed(static_cast<unsigned long*>(acc), static_cast<unsigned long const*>(in), n, op);
    case MPI_CXX_BOOL:
        return reduce_typed(static_cast<unsigned char*>(acc), static_cast<unsigned char const*>(in), n, op);
    default:
        usage("reduction on an unsupported datatype");
    }
}

// Generic collective: everybody contributes bytes, `finish` runs once when the last rank arrives.
inline Slot& collective(MPI_Comm c, std::string const& sig, void const* data, std::size_t bytes, std::function<void(Slot&)> const& finish, std::vector<unsigned char>& result)
{
    int const me = rank_in(c);
    World& w = *self().w;
    std::unique_lock<std::mutex> lk(w.m);
    long const seq = c->seq[me]++;
    Slot& slot = w.slots[{c->id, seq}];
    int const n = static_cast<int>(c->members.size());
    if (slot.arrived == 0) {
        slot.signature = sig;
        slot.in.resize(n);
        slot.here.assign(n, false);
        ++w.n_collectives;
    } else if (slot.signature != sig) {
        std::string const msg = "mismatched collectives on one communicator: " + slot.signature + " vs " + sig;
        lk.unlock();
        usage(msg);
    }
    slot.in[me].assign(static_cast<unsigned char const*>(data), static_cast<unsigned char const*>(data) + bytes);
    slot.here[me] = true;
    ++slot.arrived;
    if (slot.arrived == n) {
        finish(slot);
        slot.done = true;
    }
    lk.unlock();
    wait_until([&slot] { return slot.done; });
    result = slot.out;
    return slot;
}
inline void leave(MPI_Comm c, Slot& slot)
{
    World& w = *self().w;
    std::unique_lock<std::mutex> const lk(w.m);
    if (++slot.left == static_cast<int>(c->members.size())) {
        for (auto it = w.slots.begin(); it != w.slots.end(); ++it) {
            if (&it->second == &slot) {
                w.slots.erase(it);
                break;
            }
        }
    }
}

// A message is matched with the first receive posted for it (or the other way round).  The data reach the buffer of a
// receive when it is completed, never before.
inline bool matches(Request const& r, Message const& m)
{
    return !r.send && r.msg < 0 && m.comm == r.comm && m.dst == r.me && (r.src == MPI_ANY_SOURCE || m.src == r.src) && (r.tag == MPI_ANY_TAG || m.tag == r.tag);
}
inline void take(Request& r, Message& m)
{
    r.msg = m.id;
    r.src = m.src;
    r.tag = m.tag;
    r.data = std::move(m.data);
}
// the number of the message (0: none)
inline long post(MPI_Comm c, int dst, int tag, void const* buf, std::size_t bytes)
{
    if (dst == MPI_PROC_NULL) {
        return 0;
    }
    if (dst < 0 || dst >= static_cast<int>(c->members.size())) {
        usage("message to an invalid rank");
    }
    World& w = *self().w;
    Message msg;
    msg.comm = c->id;
    msg.src = rank_in(c);
    msg.dst = dst;
    msg.tag = tag;
    msg.data.assign(static_cast<unsigned char const*>(buf), static_cast<unsigned char const*>(buf) + bytes);
    std::unique_lock<std::mutex> const lk(w.m);
    msg.id = ++w.n_messages;
    for (Request& r : w.requests) {
        if (matches(r, msg)) {
            take(r, msg);
            return msg.id;
        }
    }
    w.mail.push_back(std::move(msg));
    return w.n_messages;
}
// waits until somebody has asked for the message
inline void wait_matched(long id)
{
    World& w = *self().w;
    wait_until([&w, id] { return std::none_of(w.mail.begin(), w.mail.end(), [id](Message const& m) { return m.id == id; }); });
}
inline Request& post_receive(MPI_Comm c, int src, int tag, void* buf, std::size_t bytes)
{
    World& w = *self().w;
    if (src != MPI_ANY_SOURCE && src != MPI_PROC_NULL && (src < 0 || src >= static_cast<int>(c->members.size()))) {
        usage("receive from an invalid rank");
    }
    Request r;
    r.comm = c->id;
    r.me = rank_in(c);
    r.owner = self().rank;
    r.src = src;
    r.tag = tag;
    r.buf = buf;
    r.bytes = bytes;
    std::unique_lock<std::mutex> const lk(w.m);
    r.id = ++w.n_requests;
    if (src == MPI_PROC_NULL) {
        r.msg = 0;
    } else {
        for (auto it = w.mail.begin(); it != w.mail.end(); ++it) {
            if (matches(r, *it)) {
                take(r, *it);
                w.mail.erase(it);
                break;
            }
        }
    }
    w.requests.push_back(std::move(r));
    return w.requests.back();
}
// the request is done and forgotten
inline void complete(Request& r, MPI_Status* st)
{
    World& w = *self().w;
    if (r.send) {
        if (r.msg > 0) {
            wait_matched(r.msg);
        }
        if (!r.data.empty() && std::memcmp(r.data.data(), r.buf, r.data.size()) != 0) {
            usage("a send buffer was modified before the message was complete");
        }
    } else {
        wait_until([&r] { return r.msg >= 0; });
        if (r.data.size() > r.bytes) {
            usage("message truncated");
        }
        if (!r.data.empty()) {
            std::memcpy(r.buf, r.data.data(), r.data.size());
        }
        if (st != nullptr && r.msg > 0) {
            st->MPI_SOURCE = r.src;
            st->MPI_TAG = r.tag;
            st->MPI_ERROR = 0;
            st->count_bytes = static_cast<int>(r.data.size());
        }
    }
    std::unique_lock<std::mutex> const lk(w.m);
    w.requests.remove_if([&r](Request const& x) { return &x == &r; });
}
inline Request& request(MPI_Request id)
{
    for (Request& r : self().w->requests) {
        if (r.id == id && r.owner == self().rank) {
            return r;
        }
    }
    usage("invalid request");
}
inline void fetch(MPI_Comm c, int src, int tag, void* buf, std::size_t bytes, MPI_Status* st)
{
    complete(post_receive(c, src, tag, buf, bytes), st);
}

inline int cart_rank_of(MPI_Comm c, std::vector<int> coords)
{
    int r = 0;
    for (std::size_t i = 0; i < c->dims.size(); ++i) {
        if (coords[i] < 0 || coords[i] >= c->dims[i]) {
            if (!c->periods[i]) {
                return MPI_PROC_NULL;
            }
            coords[i] = ((coords[i] % c->dims[i]) + c->dims[i]) % c->dims[i];
        }
        r = r * c->dims[i] + coords[i];
    }
    return r;
}
inline std::vector<int> cart_coords_of(MPI_Comm c, int rank)
{
    std::vector<int> x(c->dims.size());
    for (std::size_t i = c->dims.size(); i-- > 0;) {
        x[i] = rank % c->dims[i];
        rank /= c->dims[i];
    }
    return x;
}

struct Outcome
{
    bool deadlock = false;
    std::vector<std::string> errors; // per rank; empty: the rank returned normally
    std::vector<std::string> problems; // usage errors, unreceived messages
    long long collectives = 0, messages = 0, switches = 0;
    int unfreed = 0; // communicators that some process has not freed
    bool ok() const
    {
        for (auto const& e : errors) {
            if (!e.empty()) {
                return false;
            }
        }
        return !deadlock && problems.empty();
    }
    std::string first_error() const
    {
        for (auto const& e : errors) {
            if (!e.empty() && e.rfind("peer: ", 0) != 0) {
                return e;
            }
        }
        for (auto const& e : errors) {
            if (!e.empty()) {
                return e;
            }
        }
        return problems.empty() ? std::string() : problems.front();
    }
};

// Run fn(rank) on n ranks.  reorder: permutation of 0..n-1 for MPI_Cart_create (empty: identity).
inline Outcome run(int n, std::function<void(int)> const& fn, std::uint64_t seed = 0, std::vector<int> reorder = {})
{
    World w(n);
    w.rng = (seed + 1) * 0x9e3779b97f4a7c15ULL | 1;
    w.reorder = std::move(reorder);
    w.threaded = true;
    Outcome out;
    out.errors.assign(n, "");
    std::vector<std::thread> th;
    {
        std::unique_lock<std::mutex> const lk(w.m);
        w.pick();
    }
    for (int r = 0; r < n; ++r) {
        th.emplace_back([&, r] {
            Self& s = self();
            s = Self {};
            s.w = &w;
            s.rank = r;
            {
                std::unique_lock<std::mutex> lk(w.m);
                w.cv.wait(lk, [&] { return w.running == r; });
            }
            std::string err;
            bool peer = false;
            try {
                fn(r);
            } catch (PeerFailure const& e) {
                err = std::string("peer: ") + e.what();
                peer = true;
            } catch (Deadlock const& e) {
                err = std::string("peer: ") + e.what();
                peer = true;
            } catch (std::exception const& e) {
                err = e.what();
                if (err.empty()) {
                    err = "exception";
                }
            } catch (...) {
                err = "unknown exception";
            }
            std::unique_lock<std::mutex> const lk(w.m);
            out.errors[r] = err;
            if (!err.empty() && !peer && !w.dead) {
                w.dead = true;
                w.why = "rank " + std::to_string(r) + " failed: " + err;
            }
            w.state[r] = 2;
            w.pick();
            w.cv.notify_all();
        });
    }
    for (auto& t : th) {
        t.join();
    }
    out.deadlock = w.deadlocked;
    out.problems = w.problems;
    if (!w.dead) {
        for (auto const& m : w.mail) {
            out.problems.push_back(
                    "message from rank " + std::to_string(m.src) + " to " + std::to_string(m.dst) + " (tag " + std::to_string(m.tag) + ") was never received");
        }
        for (auto const& r : w.requests) {
            out.problems.push_back("a request of rank " + std::to_string(r.owner) + " was never completed");
        }
        if (!w.slots.empty()) {
            out.problems.push_back("unfinished collective " + w.slots.begin()->second.signature);
        }
    }
    for (auto const& c : w.comms) {
        if (&c != w.world && !c.self && c.freed < static_cast<int>(c.members.size())) {
            ++out.unfreed;
        }
    }
    out.collectives = w.n_collectives;
    out.messages = w.n_messages;
    out.switches = w.n_switches;
    return out;
}

} // namespace vmpi

// ---------------------------------------------------------------- the MPI functions

inline int vmpi_Init(int*, char***)
{
    if (vmpi::self().initialized && vmpi::self().lifecycle) {
        vmpi::usage("MPI_Init is called twice");
    }
    vmpi::self().initialized = true;
    return 0;
}
inline int vmpi_Init_thread(int*, char***, int req, int* prov)
{
    vmpi::self().initialized = true;
    if (prov != nullptr) {
        *prov = req;
    }
    return 0;
}
inline int vmpi_Finalize()
{
    vmpi::up();
    vmpi::self().finalized = true;
    return 0;
}
inline int vmpi_Initialized(int* f)
{
    *f = vmpi::self().initialized ? 1 : 0;
    return 0;
}
inline int vmpi_Finalized(int* f)
{
    *f = vmpi::self().finalized ? 1 : 0;
    return 0;
}
inline int vmpi_Abort(MPI_Comm, int code) { throw std::runtime_error("MPI_Abort(" + std::to_string(code) + ")"); }
inline double vmpi_Wtime()
{
    static thread_local double t = 0;
    return t += 1e-3;
}
inline int vmpi_Comm_rank(MPI_Comm c, int* r)
{
    *r = vmpi::rank_in(c);
    return 0;
}
inline int vmpi_Comm_size(MPI_Comm c, int* n)
{
    vmpi::check_comm(c);
    *n = static_cast<int>(c->members.size());
    return 0;
}
inline int vmpi_Comm_free(MPI_Comm* c)
{
    if (*c == nullptr) {
        vmpi::usage("MPI_Comm_free of a null communicator");
    }
    vmpi::check_comm(*c);
    (*c)->freed++;
    (*c)->gone.resize((*c)->members.size(), false);
    for (std::size_t i = 0; i < (*c)->members.size(); ++i) {
        if ((*c)->members[i] == vmpi::self().rank) {
            (*c)->gone[i] = true;
        }
    }
    *c = nullptr;
    return 0;
}
inline int vmpi_Barrier(MPI_Comm c)
{
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(c, "Barrier", "", 0, [](vmpi::Slot&) {}, r);
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm c)
{
    std::size_t const bytes = static_cast<std::size_t>(count) * vmpi::type_size(t);
    vmpi::check_comm(c);
    if (root < 0 || root >= static_cast<int>(c->members.size())) {
        vmpi::usage("MPI_Bcast with an invalid root");
    }
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(
            c,
            "Bcast root=" + std::to_string(root) + " bytes=" + std::to_string(bytes),
            buf,
            bytes,
            [root](vmpi::Slot& sl) { sl.out = sl.in[root]; },
            r);
    std::memcpy(buf, r.data(), bytes);
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Allreduce(void const* in, void* out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    if (in == MPI_IN_PLACE) {
        in = out;
    }
    std::size_t const bytes = static_cast<std::size_t>(count) * vmpi::type_size(t);
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(
            c,
            "Allreduce type=" + std::to_string(t) + " op=" + std::to_string(op) + " count=" + std::to_string(count),
            in,
            bytes,
            [=](vmpi::Slot& sl) {
                sl.out = sl.in[0];
                for (std::size_t k = 1; k < sl.in.size(); ++k) {
                    vmpi::reduce_into(sl.out.data(), sl.in[k].data(), count, t, op);
                }
            },
            r);
    if (bytes > 0) {
        std::memcpy(out, r.data(), bytes);
    }
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Reduce(void const* in, void* out, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
    if (in == MPI_IN_PLACE) {
        in = out;
    }
    std::size_t const bytes = static_cast<std::size_t>(count) * vmpi::type_size(t);
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(
            c,
            "Reduce root=" + std::to_string(root) + " type=" + std::to_string(t) + " op=" + std::to_string(op) + " count=" + std::to_string(count),
            in,
            bytes,
            [=](vmpi::Slot& sl) {
                sl.out = sl.in[0];
                for (std::size_t k = 1; k < sl.in.size(); ++k) {
                    vmpi::reduce_into(sl.out.data(), sl.in[k].data(), count, t, op);
                }
            },
            r);
    if (vmpi::rank_in(c) == root && bytes > 0) {
        std::memcpy(out, r.data(), bytes);
    }
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Allgather(void const* in, int scount, MPI_Datatype st, void* out, int rcount, MPI_Datatype rt, MPI_Comm c)
{
    std::size_t const bytes = static_cast<std::size_t>(rcount) * vmpi::type_size(rt);
    if (in == MPI_IN_PLACE) {
        in = static_cast<unsigned char*>(out) + bytes * vmpi::rank_in(c);
    } else if (static_cast<std::size_t>(scount) * vmpi::type_size(st) != bytes) {
        vmpi::usage("MPI_Allgather send and receive sizes differ");
    }
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(
            c,
            "Allgather bytes=" + std::to_string(bytes),
            in,
            bytes,
            [](vmpi::Slot& sl) {
                for (auto const& v : sl.in) {
                    sl.out.insert(sl.out.end(), v.begin(), v.end());
                }
            },
            r);
    std::memcpy(out, r.data(), r.size());
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Gather(void const* in, int scount, MPI_Datatype st, void* out, int rcount, MPI_Datatype rt, int root, MPI_Comm c)
{
    std::vector<unsigned char> tmp(static_cast<std::size_t>(rcount) * vmpi::type_size(rt) * c->members.size());
    if (in == MPI_IN_PLACE) {
        std::memcpy(tmp.data(), out, tmp.size());
    }
    vmpi_Allgather(in, scount, st, tmp.data(), rcount, rt, c);
    if (vmpi::rank_in(c) == root) {
        std::memcpy(out, tmp.data(), tmp.size());
    }
    return 0;
}
// A standard send may or may not wait for its receive: the seed decides.
inline int vmpi_Send(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    vmpi::check_comm(c);
    long const id = vmpi::post(c, dst, tag, buf, static_cast<std::size_t>(count) * vmpi::type_size(t));
    if (id > 0 && (vmpi::self().w->next() >> 20) % 2 == 0) {
        vmpi::wait_matched(id);
    }
    return 0;
}
inline int vmpi_Ssend(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    vmpi::check_comm(c);
    long const id = vmpi::post(c, dst, tag, buf, static_cast<std::size_t>(count) * vmpi::type_size(t));
    if (id > 0) {
        vmpi::wait_matched(id);
    }
    return 0;
}
inline int vmpi_Recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
    vmpi::check_comm(c);
    vmpi::fetch(c, src, tag, buf, static_cast<std::size_t>(count) * vmpi::type_size(t), st);
    return 0;
}
inline int vmpi_Isend(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* out)
{
    vmpi::check_comm(c);
    vmpi::World& w = *vmpi::self().w;
    vmpi::Request r;
    r.send = true;
    r.owner = vmpi::self().rank;
    r.buf = const_cast<void*>(buf);
    r.bytes = static_cast<std::size_t>(count) * vmpi::type_size(t);
    r.data.assign(static_cast<unsigned char const*>(buf), static_cast<unsigned char const*>(buf) + r.bytes);
    r.msg = vmpi::post(c, dst, tag, buf, r.bytes);
    std::unique_lock<std::mutex> const lk(w.m);
    r.id = ++w.n_requests;
    *out = r.id;
    w.requests.push_back(std::move(r));
    return 0;
}
inline int vmpi_Irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* out)
{
    vmpi::check_comm(c);
    *out = vmpi::post_receive(c, src, tag, buf, static_cast<std::size_t>(count) * vmpi::type_size(t)).id;
    return 0;
}
inline int vmpi_Wait(MPI_Request* r, MPI_Status* st)
{
    if (*r != MPI_REQUEST_NULL) {
        vmpi::complete(vmpi::request(*r), st);
        *r = MPI_REQUEST_NULL;
    }
    return 0;
}
inline int vmpi_Waitall(int n, MPI_Request* r, MPI_Status* st)
{
    for (int k = 0; k < n; ++k) {
        vmpi_Wait(r + k, st == nullptr ? nullptr : st + k);
    }
    return 0;
}
inline int vmpi_Sendrecv(
        void const* sbuf, int scount, MPI_Datatype st, int dst, int stag, void* rbuf, int rcount, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* status)
{
    vmpi::check_comm(c);
    vmpi::post(c, dst, stag, sbuf, static_cast<std::size_t>(scount) * vmpi::type_size(st));
    return vmpi_Recv(rbuf, rcount, rt, src, rtag, c, status);
}
inline int vmpi_Sendrecv_replace(void* buf, int count, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* status)
{
    return vmpi_Sendrecv(buf, count, t, dst, stag, buf, count, t, src, rtag, c, status);
}
template <bool Inclusive>
inline int vmpi_scan(void const* in, void* out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c, char const* name)
{
    if (in == MPI_IN_PLACE) {
        in = out;
    }
    std::size_t const bytes = static_cast<std::size_t>(count) * vmpi::type_size(t);
    std::vector<unsigned char> r;
    vmpi::Slot& s = vmpi::collective(
            c,
            std::string(name) + " type=" + std::to_string(t) + " op=" + std::to_string(op) + " count=" + std::to_string(count),
            in,
            bytes,
            [](vmpi::Slot& sl) {
                for (auto const& v : sl.in) {
                    sl.out.insert(sl.out.end(), v.begin(), v.end());
                }
            },
            r);
    int const n = vmpi::rank_in(c) + (Inclusive ? 1 : 0);
    if (n > 0 && bytes > 0) {
        std::vector<unsigned char> acc(r.begin(), r.begin() + static_cast<long>(bytes));
        for (int k = 1; k < n; ++k) {
            vmpi::reduce_into(acc.data(), r.data() + bytes * static_cast<std::size_t>(k), count, t, op);
        }
        std::memcpy(out, acc.data(), bytes);
    }
    vmpi::leave(c, s);
    return 0;
}
inline int vmpi_Scan(void const* in, void* out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return vmpi_scan<true>(in, out, count, t, op, c, "Scan"); }
inline int vmpi_Exscan(void const* in, void* out, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return vmpi_scan<false>(in, out, count, t, op, c, "Exscan"); }
inline int vmpi_Cartdim_get(MPI_Comm c, int* n)
{
    vmpi::check_comm(c);
    *n = static_cast<int>(c->dims.size());
    return 0;
}
inline int vmpi_Get_processor_name(char* name, int* len)
{
    std::strcpy(name, "verif");
    *len = 5;
    return 0;
}
inline int vmpi_Get_count(MPI_Status const* s, MPI_Datatype t, int* n)
{
    *n = s->count_bytes / static_cast<int>(vmpi::type_size(t));
    return 0;
}
inline int vmpi_Dims_create(int nnodes, int ndims, int* dims)
{
    int fixed = 1;
    std::vector<int> free_idx;
    for (int i = 0; i < ndims; ++i) {
        if (dims[i] < 0) {
            throw std::runtime_error("MPI_Dims_create: negative dimension");
        }
        if (dims[i] > 0) {
            fixed *= dims[i];
        } else {
            free_idx.push_back(i);
        }
    }
    if (nnodes % fixed != 0 || (free_idx.empty() && fixed != nnodes)) {
        throw std::runtime_error("MPI_Dims_create: MPI_ERR_DIMS invalid topology dimension(s)");
    }
    int n = nnodes / fixed;
    std::vector<int> factors;
    for (int p = 2; p <= n; ++p) {
        while (n % p == 0) {
            factors.push_back(p);
            n /= p;
        }
    }
    if (free_idx.empty()) {
        return 0;
    }
    std::vector<int> bins(free_idx.size(), 1);
    for (std::size_t k = factors.size(); k-- > 0;) {
        *std::min_element(bins.begin(), bins.end()) *= factors[k];
    }
    std::sort(bins.rbegin(), bins.rend());
    for (std::size_t k = 0; k < free_idx.size(); ++k) {
        dims[free_idx[k]] = bins[k];
    }
    return 0;
}
inline int vmpi_Cart_create(MPI_Comm old, int nd, int const* dims, int const* periods, int reorder, MPI_Comm* out)
{
    std::string sig = "Cart_create";
    int total = 1;
    for (int i = 0; i < nd; ++i) {
        sig += " " + std::to_string(dims[i]) + (periods[i] != 0 ? "p" : "");
        total *= dims[i];
    }
    vmpi::check_comm(old);
    if (total > static_cast<int>(old->members.size()) || total <= 0) {
        throw std::runtime_error("MPI_Cart_create: the grid does not fit the communicator");
    }
    std::vector<unsigned char> r;
    vmpi::World& w = *vmpi::self().w;
    vmpi::Slot& s = vmpi::collective(
            old,
            sig,
            "",
            0,
            [&](vmpi::Slot& sl) {
                std::vector<int> members;
                for (int i = 0; i < total; ++i) {
                    bool const perm = reorder != 0 && w.reorder.size() == old->members.size() && total == static_cast<int>(old->members.size());
                    members.push_back(old->members[perm ? w.reorder[i] : i]);
                }
                MPI_Comm const c = vmpi::new_comm(w, members);
                c->cart = true;
                c->dims.assign(dims, dims + nd);
                c->periods.assign(periods, periods + nd);
                sl.out_comms.assign(old->members.size(), nullptr);
                for (std::size_t i = 0; i < old->members.size(); ++i) {
                    if (std::find(members.begin(), members.end(), old->members[i]) != members.end()) {
                        sl.out_comms[i] = c;
                    }
                }
            },
            r);
    *out = s.out_comms[vmpi::rank_in(old)];
    vmpi::leave(old, s);
    return 0;
}
inline int vmpi_Cart_coords(MPI_Comm c, int rank, int nd, int* coords)
{
    vmpi::check_comm(c);
    auto const x = vmpi::cart_coords_of(c, rank);
    for (int i = 0; i < nd && i < static_cast<int>(x.size()); ++i) {
        coords[i] = x[i];
    }
    return 0;
}
inline int vmpi_Cart_rank(MPI_Comm c, int const* coords, int* rank)
{
    vmpi::check_comm(c);
    *rank = vmpi::cart_rank_of(c, std::vector<int>(coords, coords + c->dims.size()));
    if (*rank == MPI_PROC_NULL) {
        vmpi::usage("MPI_Cart_rank: coordinates out of range");
    }
    return 0;
}
inline int vmpi_Cart_get(MPI_Comm c, int nd, int* dims, int* periods, int* coords)
{
    auto const x = vmpi::cart_coords_of(c, vmpi::rank_in(c));
    for (int i = 0; i < nd; ++i) {
        dims[i] = c->dims[i];
        periods[i] = c->periods[i];
        coords[i] = x[i];
    }
    return 0;
}
inline int vmpi_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dst)
{
    vmpi::check_comm(c);
    if (!c->cart || dir < 0 || dir >= static_cast<int>(c->dims.size())) {
        vmpi::usage("MPI_Cart_shift: invalid direction");
    }
    auto x = vmpi::cart_coords_of(c, vmpi::rank_in(c));
    auto y = x;
    x[dir] -= disp;
    y[dir] += disp;
    *src = vmpi::cart_rank_of(c, x);
    *dst = vmpi::cart_rank_of(c, y);
    return 0;
}
inline int vmpi_Comm_split(MPI_Comm old, int color, int key, MPI_Comm* out)
{
    int const v[2] = {color, key};
    std::vector<unsigned char> r;
    vmpi::World& w = *vmpi::self().w;
    vmpi::Slot& s = vmpi::collective(
            old,
            "Comm_split",
            v,
            sizeof v,
            [&](vmpi::Slot& sl) {
                std::map<int, std::vector<std::pair<int, int>>> groups; // color -> (key, comm rank)
                for (std::size_t i = 0; i < sl.in.size(); ++i) {
                    int ck[2];
                    std::memcpy(ck, sl.in[i].data(), sizeof ck);
                    if (ck[0] != MPI_UNDEFINED) {
                        groups[ck[0]].emplace_back(ck[1], static_cast<int>(i));
                    }
                }
                sl.out_comms.assign(sl.in.size(), nullptr);
                for (auto& [col, g] : groups) {
                    std::stable_sort(g.begin(), g.end());
                    std::vector<int> members;
                    for (auto const& [k, i] : g) {
                        members.push_back(old->members[i]);
                    }
                    MPI_Comm const c = vmpi::new_comm(w, members);
                    for (auto const& [k, i] : g) {
                        sl.out_comms[i] = c;
                    }
                }
            },
            r);
    *out = s.out_comms[vmpi::rank_in(old)];
    vmpi::leave(old, s);
    return 0;
}
inline int vmpi_Comm_dup(MPI_Comm old, MPI_Comm* out)
{
    vmpi_Comm_split(old, 0, vmpi::rank_in(old), out);
    (*out)->cart = old->cart;
    (*out)->dims = old->dims;
    (*out)->periods = old->periods;
    return 0;
}
inline int vmpi_Cart_sub(MPI_Comm old, int const* remain, MPI_Comm* out)
{
    auto const x = vmpi::cart_coords_of(old, vmpi::rank_in(old));
    int color = 0;
    std::vector<int> dims;
    std::vector<int> periods;
    for (std::size_t i = 0; i < x.size(); ++i) {
        if (remain[i] == 0) {
            color = color * old->dims[i] + x[i];
        } else {
            dims.push_back(old->dims[i]);
            periods.push_back(old->periods[i]);
        }
    }
    vmpi_Comm_split(old, color, vmpi::rank_in(old), out);
    (*out)->cart = true;
    (*out)->dims = dims;
    (*out)->periods = periods;
    return 0;
}

#define MPI_Init vmpi_Init
#define MPI_Init_thread vmpi_Init_thread
#define MPI_Finalize vmpi_Finalize
#define MPI_Initialized vmpi_Initialized
#define MPI_Finalized vmpi_Finalized
#define MPI_Abort vmpi_Abort
#define MPI_Wtime vmpi_Wtime
#define MPI_Comm_rank vmpi_Comm_rank
#define MPI_Comm_size vmpi_Comm_size
#define MPI_Comm_free vmpi_Comm_free
#define MPI_Comm_split vmpi_Comm_split
#define MPI_Comm_dup vmpi_Comm_dup
#define MPI_Barrier vmpi_Barrier
#define MPI_Bcast vmpi_Bcast
#define MPI_Allreduce vmpi_Allreduce
#define MPI_Reduce vmpi_Reduce
#define MPI_Allgather vmpi_Allgather
#define MPI_Gather vmpi_Gather
#define MPI_Send vmpi_Send
#define MPI_Recv vmpi_Recv
#define MPI_Ssend vmpi_Ssend
#define MPI_Isend vmpi_Isend
#define MPI_Irecv vmpi_Irecv
#define MPI_Wait vmpi_Wait
#define MPI_Waitall vmpi_Waitall
#define MPI_Scan vmpi_Scan
#define MPI_Exscan vmpi_Exscan
#define MPI_Cartdim_get vmpi_Cartdim_get
#define MPI_Get_processor_name vmpi_Get_processor_name
#define MPI_Sendrecv vmpi_Sendrecv
#define MPI_Sendrecv_replace vmpi_Sendrecv_replace
#define MPI_Get_count vmpi_Get_count
#define MPI_Dims_create vmpi_Dims_create
#define MPI_Cart_create vmpi_Cart_create
#define MPI_Cart_coords vmpi_Cart_coords
#define MPI_Cart_rank vmpi_Cart_rank
#define MPI_Cart_get vmpi_Cart_get
#define MPI_Cart_shift vmpi_Cart_shift
#define MPI_Cart_sub vmpi_Cart_sub

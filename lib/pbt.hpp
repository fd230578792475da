// Choice-sequence property based testing.
// A test case is a function of a sequence of bounded choices.  Random mode draws and records them, replay mode reads
// them back (a missing choice reads as 0, which every generator maps to its simplest value), and the shrinker edits the
// recorded sequence (delete blocks, zero, halve, decrement) while the case keeps failing.  Shrinking and replaying
// happen in forked children, so that crashes and hangs are handled like ordinary failures.
#pragma once

#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

using u64 = std::uint64_t;

struct Failure
{
    std::string msg;
    std::string key; // non-empty: this failure is an instance of a (possibly listed) known finding
};
struct Discard
{
};

inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hash_str(std::string const& s)
{
    u64 h = 1469598103934665603ULL;
    for (unsigned char const c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return mix(h);
}

class Case
{
public:
    std::vector<u64> choices;
    bool replay = false;
    bool guided = false; // the choices are a mutated prefix: out of range wraps around, missing is random
    std::size_t pos = 0;
    u64 rng = 1;
    bool is_nontrivial = false;
    std::string text;
    std::vector<std::string> labels;

    // choice in [0, n)
    u64 below(u64 n)
    {
        if (n <= 1) {
            return 0;
        }
        u64 v = 0;
        if (guided && pos < choices.size()) {
            choices[pos] %= n;
            v = choices[pos];
        } else if (replay) {
            v = pos < choices.size() ? choices[pos] : 0;
            if (v >= n) {
                v = n - 1;
            }
            if (pos < choices.size()) {
                choices[pos] = v;
            } else {
                choices.push_back(v);
            }
        } else {
            rng = mix(rng);
            v = static_cast<u64>((static_cast<unsigned __int128>(rng) * n) >> 64);
            choices.push_back(v);
        }
        ++pos;
        publish();
        return v;
    }
    int i(int lo, int hi) { return lo + static_cast<int>(below(static_cast<u64>(static_cast<long>(hi) - lo + 1))); }
    bool b() { return below(2) != 0; }
    bool chance(int num, int den) { return static_cast<int>(below(den)) >= den - num; }
    double u01() { return static_cast<double>(below(1ULL << 32)) / 4294967296.0; }
    double d(double lo, double hi) { return lo + (hi - lo) * u01(); }
    double logd(double lo, double hi) { return lo * std::pow(hi / lo, u01()); }
    // symmetric around 0, 0 is the simplest
    double sym(double a)
    {
        bool const neg = b();
        double const x = a * u01();
        return neg ? -x : x;
    }
    template <class T>
    T pick(std::vector<T> const& v)
    {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v)
    {
        return v.begin()[below(v.size())];
    }

    void nontrivial(bool v = true) { is_nontrivial = is_nontrivial || v; }
    void label(std::string const& s) { labels.push_back(s); }
    [[gnu::format(printf, 2, 3)]] void note(char const* fmt, ...)
    {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!text.empty()) {
            text += ' ';
        }
        text += buf;
    }
    void discard_if(bool c)
    {
        if (c) {
            throw Discard();
        }
    }

private:
    void publish();
};

// ---- coverage guidance (binaries compiled with -fsanitize-coverage=trace-pc -DPBT_COVERAGE)

#ifdef PBT_COVERAGE
inline constexpr bool has_coverage = true;
inline unsigned char g_cov[1U << 16];
inline std::uintptr_t g_cov_prev = 0;
#else
inline constexpr bool has_coverage = false;
#endif

// Choice sequences that reached new code (edges, with bucketed counts), and mutations of them
class Corpus
{
public:
    std::vector<std::vector<u64>> entries;
    long points = 0;

    static void clear()
    {
#ifdef PBT_COVERAGE
        std::memset(g_cov, 0, sizeof g_cov);
        g_cov_prev = 0;
#endif
    }
    void collect([[maybe_unused]] std::vector<u64> const& choices)
    {
#ifdef PBT_COVERAGE
        bool fresh = false;
        for (std::size_t k = 0; k < sizeof g_cov; ++k) {
            unsigned const n = g_cov[k];
            if (n == 0) {
                continue;
            }
            unsigned const bit = 1U << (n < 4 ? n - 1 : n < 8 ? 3 : n < 16 ? 4 : n < 32 ? 5 : n < 128 ? 6 : 7);
            if ((m_seen[k] & bit) == 0) {
                points += m_seen[k] == 0 ? 1 : 0;
                m_seen[k] |= static_cast<unsigned char>(bit);
                fresh = true;
            }
        }
        if (fresh && entries.size() < 20000 && choices.size() < 5000) {
            entries.push_back(choices);
        }
#endif
    }
    std::vector<u64> mutate(u64& rng) const
    {
        auto rnd = [&](u64 n) {
            rng = mix(rng);
            return static_cast<u64>((static_cast<unsigned __int128>(rng) * n) >> 64);
        };
        // recent entries are preferred
        std::size_t const n = entries.size();
        std::vector<u64> v = entries[rnd(2) != 0 ? n - 1 - rnd(std::min<u64>(n, 32)) : rnd(n)];
        for (u64 k = 1 + rnd(4); k > 0 && !v.empty(); --k) {
            std::size_t const p = rnd(v.size());
            switch (rnd(8)) {
            case 0:
                v[p] = mix(rng);
                break;
            case 1:
                v[p] = rnd(16);
                break;
            case 2:
                ++v[p];
                break;
            case 3:
                v[p] -= v[p] > 0 ? 1 : 0;
                break;
            case 4: // the rest is new
                v.resize(p);
                break;
            case 5: // a block is left out
                v.erase(v.begin() + static_cast<long>(p), v.begin() + static_cast<long>(std::min<u64>(v.size(), p + 1 + rnd(8))));
                break;
            case 6: { // a block is repeated
                std::vector<u64> const b(v.begin() + static_cast<long>(p), v.begin() + static_cast<long>(std::min<u64>(v.size(), p + 1 + rnd(8))));
                v.insert(v.begin() + static_cast<long>(p), b.begin(), b.end());
                break;
            }
            default: { // the end of another one
                std::vector<u64> const& o = entries[rnd(n)];
                if (!o.empty()) {
                    std::size_t const q = rnd(o.size());
                    v.resize(p);
                    v.insert(v.end(), o.begin() + static_cast<long>(q), o.end());
                }
            }
            }
        }
        return v;
    }

private:
    std::vector<unsigned char> m_seen = std::vector<unsigned char>(1U << 16);
};

struct Test
{
    std::string name;
    double weight;
    std::function<void(Case&)> fn;
};
inline std::vector<Test>& tests()
{
    static std::vector<Test> t;
    return t;
}
struct Register
{
    Register(char const* n, double w, std::function<void(Case&)> f) { tests().push_back({n, w, std::move(f)}); }
};

// Shared with the parent process (shrinking) and with the crash handler.
struct Page
{
    static constexpr std::size_t cap = 1U << 20;
    u64 n;
    u64 choice[cap];
    char msg[8192];
    char key[256];
    char text[16384];
};
inline Page*& page()
{
    static Page* p = nullptr;
    return p;
}
inline void Case::publish()
{
    Page* const p = page();
    if (p != nullptr) {
        std::size_t const k = pos - 1;
        if (k < Page::cap) {
            p->choice[k] = choices[k];
            p->n = k + 1;
        }
    }
}
inline void set_str(char* dst, std::size_t cap, std::string const& s)
{
    std::size_t const n = std::min(cap - 1, s.size());
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

enum Result { Pass = 0, Fail = 1, Disc = 2 };

inline Result run_one(Test const& t, Case& c, Failure& f)
{
    try {
        t.fn(c);
        return Pass;
    } catch (Failure const& e) {
        f = e;
        return Fail;
    } catch (Discard const&) {
        return Disc;
    } catch (std::exception const& e) {
        f.msg = std::string("unexpected exception: ") + e.what();
        return Fail;
    }
}

inline std::string json_str(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char const ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o + "\"";
}

// ---- options

struct Options
{
    u64 seed = 1;
    long cases = 100;
    double time_s = 1e9;
    double case_cpu_s = 30;
    std::string out, replay, only, crash_file;
    std::set<std::string> known;
    int shard = 0, shards = 1;
    bool no_shrink = false;
    std::string scratch;
};
inline Options& opt()
{
    static Options o;
    return o;
}

inline char g_crash_path[4096];
inline char g_current_test[256];
inline void crash_handler(int sig)
{
    // best effort: dump the current choices so that the driver can replay the case
    FILE* const f = std::fopen(g_crash_path, "w");
    if (f != nullptr) {
        std::fprintf(f, "%s\nsignal %d\n", g_current_test, sig);
        Page* const p = page();
        for (u64 k = 0; p != nullptr && k < p->n; ++k) {
            std::fprintf(f, "%llu\n", static_cast<unsigned long long>(p->choice[k]));
        }
        std::fclose(f);
    }
    _exit(70);
}
inline void install_handlers(bool on)
{
    static char* stack = nullptr;
    if (stack == nullptr) {
        stack = static_cast<char*>(std::malloc(1 << 18));
        stack_t ss {};
        ss.ss_sp = stack;
        ss.ss_size = 1 << 18;
        sigaltstack(&ss, nullptr);
    }
    for (int const s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGPROF}) {
        struct sigaction sa {};
        sa.sa_handler = on ? crash_handler : SIG_DFL;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
}
inline void arm(double s)
{
    itimerval it {};
    it.it_value.tv_sec = static_cast<long>(s);
    it.it_value.tv_usec = static_cast<long>((s - std::floor(s)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Run in a forked child.  Returns Pass/Fail/Disc; on Fail page() holds choices, message, key and text.
inline Result run_forked(Test const& t, std::vector<u64> const& choices)
{
    Page* const p = page();
    p->n = 0;
    p->msg[0] = p->key[0] = p->text[0] = 0;
    std::fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0) {
        install_handlers(false);
        rlimit const no_core {0, 0};
        setrlimit(RLIMIT_CORE, &no_core);
        if (std::freopen("/dev/null", "w", stderr) == nullptr) {
        }
        arm(opt().case_cpu_s);
        Case c;
        c.replay = true;
        c.choices = choices;
        Failure f;
        Result const r = run_one(t, c, f);
        set_str(p->text, sizeof p->text, c.text);
        set_str(p->msg, sizeof p->msg, f.msg);
        set_str(p->key, sizeof p->key, f.key);
        p->n = std::min<u64>(c.pos, Page::cap);
        for (u64 k = 0; k < p->n; ++k) {
            p->choice[k] = c.choices[k];
        }
        _exit(r);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) <= 2) {
        return static_cast<Result>(WEXITSTATUS(status));
    }
    std::string how;
    if (WIFSIGNALED(status)) {
        int const sg = WTERMSIG(status);
        how = sg == SIGPROF ? "the code under test does not terminate (CPU limit of the case)"
              : sg == SIGABRT ? "the code under test aborted (assertion, std::terminate or sanitizer)"
                              : std::string("the code under test crashed with signal ") + strsignal(sg);
    } else {
        how = "the code under test ended the process with status " + std::to_string(WEXITSTATUS(status));
    }
    set_str(p->msg, sizeof p->msg, how);
    return Fail;
}

struct Found
{
    std::string test, msg, key, text;
    std::vector<u64> choices;
};

inline Found from_page(std::string const& test)
{
    Page* const p = page();
    Found f;
    f.test = test;
    f.msg = p->msg;
    f.key = p->key;
    f.text = p->text;
    f.choices.assign(p->choice, p->choice + p->n);
    return f;
}

inline Found shrink(Test const& t, std::vector<u64> start, double limit_s)
{
    auto const t0 = std::chrono::steady_clock::now();
    auto expired = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit_s; };
    Found best;
    best.test = t.name;
    best.choices = start;
    if (run_forked(t, start) != Fail) {
        best.msg = "not reproduced";
        best.key = "";
        return best;
    }
    best = from_page(t.name);
    if (best.choices.empty() && !start.empty()) {
        best.choices = start;
    }
    std::string const key = best.key;
    auto smaller = [](std::vector<u64> const& a, std::vector<u64> const& b) {
        if (a.size() != b.size()) {
            return a.size() < b.size();
        }
        return a < b;
    };
    auto attempt = [&](std::vector<u64> const& c) {
        if (expired()) {
            return false;
        }
        if (run_forked(t, c) == Fail && page()->key == key) {
            Found f = from_page(t.name);
            if (smaller(f.choices, best.choices)) {
                best = f;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && !expired()) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(best.choices.size() / 2, 1); len >= 1; len /= 2) {
            for (std::size_t k = best.choices.size(); k-- > 0;) {
                if (k + len > best.choices.size()) {
                    continue;
                }
                std::vector<u64> c = best.choices;
                c.erase(c.begin() + static_cast<long>(k), c.begin() + static_cast<long>(k + len));
                if (attempt(c)) {
                    progress = true;
                }
                if (expired()) {
                    break;
                }
            }
            if (expired()) {
                break;
            }
        }
        for (std::size_t len = std::max<std::size_t>(best.choices.size() / 2, 1); len >= 1; len /= 2) {
            for (std::size_t k = 0; k + len <= best.choices.size() && !expired(); k += len) {
                std::vector<u64> c = best.choices;
                bool any = false;
                for (std::size_t q = k; q < k + len; ++q) {
                    any = any || c[q] != 0;
                    c[q] = 0;
                }
                if (any && attempt(c)) {
                    progress = true;
                }
            }
            if (expired()) {
                break;
            }
        }
        for (std::size_t k = 0; k < best.choices.size() && !expired(); ++k) {
            u64 lo = 0; // binary search towards the smallest failing value
            while (k < best.choices.size() && lo < best.choices[k] && !expired()) {
                u64 const mid = lo + ((best.choices[k] - lo) / 2);
                std::vector<u64> c = best.choices;
                c[k] = mid;
                if (attempt(c)) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

inline void write_replay(std::string const& path, Found const& f)
{
    FILE* const o = std::fopen(path.c_str(), "w");
    if (o == nullptr) {
        return;
    }
    std::fprintf(o, "%s\n", f.test.c_str());
    std::fprintf(o, "replay\n");
    for (u64 const c : f.choices) {
        std::fprintf(o, "%llu\n", static_cast<unsigned long long>(c));
    }
    std::fclose(o);
}

inline bool read_replay(std::string const& path, std::string& test, std::vector<u64>& choices)
{
    FILE* const f = std::fopen(path.c_str(), "r");
    if (f == nullptr) {
        return false;
    }
    char line[4096];
    int n = 0;
    while (std::fgets(line, sizeof line, f) != nullptr) {
        std::string s(line);
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) {
            s.pop_back();
        }
        if (n == 0) {
            test = s;
        } else if (n >= 2 && !s.empty()) {
            choices.push_back(std::strtoull(s.c_str(), nullptr, 10));
        }
        ++n;
    }
    std::fclose(f);
    return n >= 2;
}

struct Stats
{
    long cases = 0, discarded = 0, nontrivial = 0, known = 0;
    std::unordered_set<u64> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::map<std::string, std::pair<long, std::string>> known_hits;
};

inline int main(int argc, char** argv)
{
    Options& o = opt();
    for (int k = 1; k < argc; ++k) {
        std::string const a = argv[k];
        auto val = [&] { return k + 1 < argc ? std::string(argv[++k]) : std::string(); };
        if (a == "--seed") {
            o.seed = std::strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--cases") {
            o.cases = std::atol(val().c_str());
        } else if (a == "--time") {
            o.time_s = std::atof(val().c_str());
        } else if (a == "--case-cpu") {
            o.case_cpu_s = std::atof(val().c_str());
        } else if (a == "--out") {
            o.out = val();
        } else if (a == "--replay") {
            o.replay = val();
        } else if (a == "--only") {
            o.only = val();
        } else if (a == "--scratch") {
            o.scratch = val();
        } else if (a == "--shard") {
            std::string const s = val();
            o.shard = std::atoi(s.c_str());
            o.shards = std::atoi(s.c_str() + s.find('/') + 1);
        } else if (a == "--known") {
            std::stringstream ss(val());
            std::string k2;
            while (std::getline(ss, k2, ',')) {
                o.known.insert(k2);
            }
        } else if (a == "--no-shrink") {
            o.no_shrink = true;
        }
    }
    page() = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    if (!o.replay.empty()) {
        std::string name;
        std::vector<u64> choices;
        if (!read_replay(o.replay, name, choices)) {
            std::fprintf(stderr, "cannot read %s\n", o.replay.c_str());
            return 2;
        }
        for (Test const& t : tests()) {
            if (t.name != name) {
                continue;
            }
            if (!o.no_shrink) {
                // shrink a raw (e.g. crash) recording and rewrite it
                Found const f = shrink(t, choices, 40);
                if (f.msg != "not reproduced") {
                    write_replay(o.replay, f);
                }
                choices = f.choices;
            }
            Result const r = run_forked(t, choices);
            Page const* const p = page();
            std::printf("{\"result\": %d, \"msg\": %s, \"key\": %s, \"text\": %s}\n", static_cast<int>(r), json_str(p->msg).c_str(), json_str(p->key).c_str(), json_str(p->text).c_str());
            return r == Fail ? 1 : 0;
        }
        std::fprintf(stderr, "no test named %s\n", name.c_str());
        return 2;
    }

    std::snprintf(g_crash_path, sizeof g_crash_path, "%s.crash", o.out.c_str());
    install_handlers(true);
    auto const t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::map<std::string, Stats> stats;
    std::vector<Found> found;
    double total_weight = 0;
    for (Test const& t : tests()) {
        if (o.only.empty() || t.name.find(o.only) != std::string::npos) {
            total_weight += t.weight;
        }
    }
    double used = 0;
    for (Test const& t : tests()) {
        if (!(o.only.empty() || t.name.find(o.only) != std::string::npos)) {
            continue;
        }
        used += t.weight;
        double const deadline = o.time_s * used / total_weight;
        Stats& s = stats[t.name];
        Corpus corpus;
        set_str(g_current_test, sizeof g_current_test, t.name);
        long const want = std::max<long>(1, std::lround(static_cast<double>(o.cases) * t.weight / o.shards));
        for (long k = 0; k < want && elapsed() < deadline && s.discarded < 20 * want + 1000; ++k) {
            Case c;
            c.rng = mix(mix(o.seed) ^ hash_str(t.name) ^ mix(static_cast<u64>(k) * 1000003ULL + static_cast<u64>(o.shard)));
            if (has_coverage && !corpus.entries.empty() && k % 4 != 0) {
                c.choices = corpus.mutate(c.rng);
                c.guided = true;
            }
            Corpus::clear();
            page()->n = 0;
            arm(o.case_cpu_s);
            Failure f;
            Result const r = run_one(t, c, f);
            c.choices.resize(std::min(c.choices.size(), c.pos));
            if (r == Pass) {
                corpus.collect(c.choices);
            }
            if (r == Disc) {
                ++s.discarded;
                if (s.discarded < 20 * want) {
                    --k;
                    // a different stream for the retry
                    o.seed = mix(o.seed + 1);
                }
                continue;
            }
            ++s.cases;
            for (auto const& l : c.labels) {
                ++s.labels[l];
            }
            if (c.is_nontrivial) {
                ++s.nontrivial;
                u64 h = 7;
                for (u64 const v : c.choices) {
                    h = mix(h ^ v);
                }
                s.distinct.insert(h);
                if (s.samples.size() < 2) {
                    s.samples.push_back(c.text.substr(0, 400));
                }
            }
            if (r == Fail) {
                if (!f.key.empty() && o.known.count(f.key) != 0) {
                    ++s.known;
                    auto& kh = s.known_hits[f.key];
                    if (kh.first++ == 0) {
                        kh.second = f.msg;
                    }
                    continue;
                }
                arm(0);
                Found fd;
                fd.test = t.name;
                fd.msg = f.msg;
                fd.key = f.key;
                fd.text = c.text;
                fd.choices = c.choices;
                if (!o.no_shrink) {
                    Found const sh = shrink(t, c.choices, 25);
                    if (sh.msg != "not reproduced") {
                        fd = sh;
                    } else {
                        fd.msg += " [not reproduced in a forked replay]";
                    }
                }
                found.push_back(fd);
                break; // one failure per test is enough
            }
        }
        arm(0);
        if (has_coverage) {
            s.labels["code points reached"] = corpus.points;
            s.labels["corpus entries"] = static_cast<long>(corpus.entries.size());
        }
    }
    // ---- report
    FILE* const out = std::fopen(o.out.c_str(), "w");
    if (out == nullptr) {
        return 2;
    }
    std::fprintf(out, "{\"tests\": {");
    bool first = true;
    for (auto const& [name, s] : stats) {
        std::fprintf(
                out,
                "%s\n%s: {\"cases\": %ld, \"discarded\": %ld, \"nontrivial\": %ld, \"distinct\": %zu, \"known\": %ld, \"labels\": {",
                first ? "" : ",",
                json_str(name).c_str(),
                s.cases,
                s.discarded,
                s.nontrivial,
                s.distinct.size(),
                s.known);
        first = false;
        bool f2 = true;
        for (auto const& [l, n] : s.labels) {
            std::fprintf(out, "%s%s: %ld", f2 ? "" : ", ", json_str(l).c_str(), n);
            f2 = false;
        }
        std::fprintf(out, "}, \"samples\": [");
        f2 = true;
        for (auto const& x : s.samples) {
            std::fprintf(out, "%s%s", f2 ? "" : ", ", json_str(x).c_str());
            f2 = false;
        }
        std::fprintf(out, "], \"known_hits\": {");
        f2 = true;
        for (auto const& [k, v] : s.known_hits) {
            std::fprintf(out, "%s%s: [%ld, %s]", f2 ? "" : ", ", json_str(k).c_str(), v.first, json_str(v.second).c_str());
            f2 = false;
        }
        std::fprintf(out, "}}");
    }
    std::fprintf(out, "},\n\"failures\": [");
    first = true;
    int n = 0;
    for (auto const& f : found) {
        std::string const rp = o.out + ".replay" + std::to_string(n++);
        write_replay(rp, f);
        std::fprintf(
                out,
                "%s\n{\"test\": %s, \"msg\": %s, \"key\": %s, \"text\": %s, \"replay\": %s}",
                first ? "" : ",",
                json_str(f.test).c_str(),
                json_str(f.msg).c_str(),
                json_str(f.key).c_str(),
                json_str(f.text).c_str(),
                json_str(rp).c_str());
        first = false;
    }
    std::fprintf(out, "]}\n");
    std::fclose(out);
    return found.empty() ? 0 : 1;
}

// ---- helpers for oracles

template <class... A>
std::string cat(A const&... a)
{
    std::ostringstream os;
    os.precision(17);
    (os << ... << a);
    return os.str();
}

template <class... A>
[[noreturn]] void fail(A const&... a)
{
    throw Failure {cat(a...), ""};
}
template <class... A>
[[noreturn]] void known(std::string const& key, A const&... a)
{
    throw Failure {cat(a...), key};
}
inline bool close(double a, double b, double rel, double scale = 0)
{
    if (std::isnan(a) || std::isnan(b)) {
        return std::isnan(a) && std::isnan(b);
    }
    if (a == b) {
        return true;
    }
    if (std::isinf(a) || std::isinf(b)) {
        return false;
    }
    return std::abs(a - b) <= rel * std::max({std::abs(a), std::abs(b), std::abs(scale)});
}

} // namespace pbt

#ifdef PBT_COVERAGE
// positions are relative to a function of the program, so that a run does not depend on where it is loaded
extern "C" __attribute__((no_sanitize_coverage, no_sanitize_address, weak)) void __sanitizer_cov_trace_pc()
{
    std::uintptr_t const pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<std::uintptr_t>(&__sanitizer_cov_trace_pc);
    std::uintptr_t const k = (pc * 0x9E3779B1U >> 8) & 0xffffU;
    unsigned char& n = pbt::g_cov[k ^ pbt::g_cov_prev];
    n += n != 255 ? 1 : 0;
    pbt::g_cov_prev = k >> 1;
}
#endif

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TEST(name, weight)                                                                                                                       \
    static void PBT_CAT(pbt_fn_, name)(pbt::Case&);                                                                                                  \
    static pbt::Register const PBT_CAT(pbt_reg_, name)(#name, weight, PBT_CAT(pbt_fn_, name));                                                       \
    static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Case& c)
#define REQUIRE(cond, ...)                                                                                                                           \
    do {                                                                                                                                             \
        if (!(cond)) {                                                                                                                               \
            ::pbt::fail("[" #cond "] ", __VA_ARGS__);                                                                                                \
        }                                                                                                                                            \
    } while (false)

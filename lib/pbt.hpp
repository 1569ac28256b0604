// A small property-based testing engine.
//
// A case is a function of a sequence of bounded choices. Random generation draws the choices from
// a seeded generator and records them; shrinking edits the recorded sequence (deletes blocks,
// lowers values) and runs the same function on it; replaying runs it on a stored sequence; a
// fuzzer supplies them from its input. Every case is a pure function of (seed, sub-test, index).
//
// Cases run in forked workers that write their choices to shared memory, so that a case that
// crashes, is stopped by a sanitizer, or runs out of its CPU time is recovered, shrunk and
// replayed like any other failure.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <iterator>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using i64 = std::int64_t;

struct Failure {
    std::string msg;
};

[[noreturn]] inline void fail(std::string msg) {
    throw Failure{std::move(msg)};
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
//! CHECK(condition, message stream expression)
#define CHECK(cond, ...)                                                                  \
    do {                                                                                  \
        if(!(cond)) {                                                                     \
            std::ostringstream pbt_os_;                                                   \
            pbt_os_ << #cond << " is false (line " << __LINE__ << "): " __VA_OPT__(<<)    \
              __VA_ARGS__;                                                                \
            ::pbt::fail(pbt_os_.str());                                                   \
        }                                                                                 \
    } while(0)

inline u64 splitmix(u64& s) {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

constexpr std::size_t max_choices = 1u << 15;

//! What a worker shares with its parent
struct Slot {
    volatile u32 state;  // 0 idle, 1 running, 2 failed
    volatile u32 sub;
    volatile u64 index;
    volatile u64 first;  // first index of the running chunk
    volatile u64 count;
    volatile u64 done;
    u64 choices[max_choices];
    char msg[2048];
};

class Case {
public:
    enum class Mode { random, replay, bytes };

    bool verbose = false;
    std::ostream* out = &std::cerr;

    Case(Mode mode, Slot* slot) : m_mode(mode), m_slot(slot) { m_slot->count = 0; }

    void seed(u64 s, u64 index) {
        m_rng = s;
        splitmix(m_rng);
        m_index = index;
    }

    void replay(const std::vector<u64>* v) { m_replay = v; }

    void bytes(const std::uint8_t* d, std::size_t n) {
        m_bytes = d;
        m_nbytes = n;
    }

    //! A choice in [0, bound); 0 is always the simplest one
    u64 draw(u64 bound) {
        if(bound <= 1)
            return 0;
        switch(m_mode) {
        case Mode::random: return push(uniform(bound));
        case Mode::replay: {
            if(m_pos >= m_replay->size())
                return push(0);
            const u64 v = (*m_replay)[m_pos++];
            return push(v < bound ? v : v % bound);
        }
        default: {
            u64 v = 0, range = 1;
            while(range < bound && m_bpos < m_nbytes) {
                v = (v << 8) | m_bytes[m_bpos++];
                if(range > (u64(1) << 55))
                    break;
                range <<= 8;
            }
            return push(v % bound);
        }
        }
    }

    //! The number of the case, modulo n: enumerates [0, n) when there are enough cases
    u64 enumerate(u64 n) {
        if(n > 1 && m_mode == Mode::random)
            return push(m_index % n);
        return draw(n);
    }

    u64 bits() {
        const u64 hi = draw(u64(1) << 32);
        return (hi << 32) | draw(u64(1) << 32);
    }

    //! [lo, hi], simplest is lo
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(draw(static_cast<u64>(hi - lo) + 1)); }

    //! true num times out of den; false is the simplest
    bool chance(u64 num, u64 den) { return draw(den) >= den - num; }

    template<typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + draw(l.size()));
    }

    //! Controls the length of a history: call once, then loop `while(more())`
    void begin_loop(std::initializer_list<u64> mean_lengths = {4, 10, 25, 60}) {
        m_loop = *(mean_lengths.begin() + draw(mean_lengths.size()));
    }
    bool more() { return !exhausted() && draw(m_loop + 1) != 0; }

    bool exhausted() const { return m_slot->count + 8 >= max_choices; }

    void nontrivial() { m_nontrivial = true; }
    bool is_nontrivial() const { return m_nontrivial; }

    void label(const std::string& l) {
        if(m_labels)
            ++(*m_labels)[l];
    }
    void labels(std::map<std::string, u64>* l) { m_labels = l; }

    u64 hash() const {
        u64 h = 0xcbf29ce484222325ull;
        for(u64 i = 0; i < m_slot->count; ++i) {
            h ^= m_slot->choices[i];
            h *= 0x100000001b3ull;
            h ^= h >> 29;
        }
        return h ? h : 1;
    }

private:
    u64 uniform(u64 bound) {
        // multiply-shift: the bias is irrelevant here
        return static_cast<u64>((static_cast<unsigned __int128>(splitmix(m_rng)) * bound) >> 64);
    }

    u64 push(u64 v) {
        const u64 n = m_slot->count;
        if(n >= max_choices)
            return 0;
        m_slot->choices[n] = v;
        m_slot->count      = n + 1;
        return v;
    }

    Mode m_mode;
    Slot* m_slot;
    u64 m_rng = 0, m_index = 0;
    const std::vector<u64>* m_replay = nullptr;
    std::size_t m_pos = 0;
    const std::uint8_t* m_bytes = nullptr;
    std::size_t m_nbytes = 0, m_bpos = 0;
    u64 m_loop = 10;
    bool m_nontrivial = false;
    std::map<std::string, u64>* m_labels = nullptr;
};

#define LOG(...)                          \
    do {                                  \
        if(c.verbose)                     \
            (*c.out) << __VA_ARGS__ << '\n' << std::flush; \
    } while(0)

//! A length up to max, often close to where an integer of 7, 8, 15 or 16 bits overflows
inline std::size_t long_length(Case& c, std::size_t max) {
    static constexpr std::size_t near[] = {127, 255, 256, 32767, 65535, 65536, 131072};
    if(c.chance(1, 4))
        return c.draw(max + 1);
    std::size_t n = near[c.draw(std::size(near))] + c.draw(4);
    n -= c.draw(3);
    return n < max ? n : max;
}

struct Sub {
    const char* name;
    void (*fn)(Case&);
    u64 quick, thorough;
};

inline std::vector<Sub>& subs() {
    static std::vector<Sub> s;
    return s;
}

struct Register {
    Register(const char* name, void (*fn)(Case&), u64 quick, u64 thorough) {
        subs().push_back({name, fn, quick, thorough});
    }
};

//! SUB(name, cases in the quick tier, cases in the thorough tier) { ... uses Case& c ... }
#define SUB(name, quick, thorough)                                              \
    static void pbt_sub_##name(::pbt::Case& c);                                 \
    static ::pbt::Register pbt_reg_##name{#name, &pbt_sub_##name, quick, thorough}; \
    static void pbt_sub_##name([[maybe_unused]] ::pbt::Case& c)

//! SUB_T(name, function template instance, quick, thorough)
#define SUB_T(name, fn, quick, thorough) \
    static ::pbt::Register pbt_reg_##name{#name, fn, quick, thorough}

inline double now() {
    timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

// A case may use so many seconds of the processor and so much memory
constexpr u64 memory_limit_mb = 1500;
#if defined(__SANITIZE_THREAD__) || defined(PBT_FUZZ)
inline void set_case_timer(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
#else
inline volatile int case_ticks = 0;
inline void on_tick(int) {
    const int keep = errno;
    case_ticks     = case_ticks - 1;
    if(case_ticks <= 0) {
        signal(SIGPROF, SIG_DFL);
        raise(SIGPROF);
    }
    char b[96];
    const int fd = open("/proc/self/statm", O_RDONLY);
    if(fd >= 0) {
        const ssize_t n = read(fd, b, sizeof b - 1);
        close(fd);
        b[n > 0 ? n : 0] = 0;
        const char* p    = b;
        while(*p && *p != ' ')
            ++p;
        u64 pages = 0;
        for(p += *p == ' '; *p >= '0' && *p <= '9'; ++p)
            pages = pages * 10 + static_cast<u64>(*p - '0');
        if(pages > memory_limit_mb * 256) {
            signal(SIGXCPU, SIG_DFL);
            raise(SIGXCPU);
        }
    }
    errno = keep;
}
inline void set_case_timer(int seconds) {
    static bool installed = false;
    if(!installed) {
        installed = true;
        static char stack[1 << 16];
        stack_t old{};
        if(sigaltstack(nullptr, &old) == 0 && (old.ss_flags & SS_DISABLE)) {
            stack_t s{};
            s.ss_sp   = stack;
            s.ss_size = sizeof stack;
            sigaltstack(&s, nullptr);
        }
        struct sigaction a{};
        a.sa_handler = on_tick;
        a.sa_flags   = SA_RESTART | SA_ONSTACK;
        sigaction(SIGPROF, &a, nullptr);
    }
    case_ticks = seconds * 10;
    static bool running = false;
    static pid_t owner  = 0;
    if(running && owner == getpid())
        return;
    running = true;
    owner   = getpid();
    itimerval t{};
    t.it_value.tv_usec = t.it_interval.tv_usec = 100000;
    setitimer(ITIMER_PROF, &t, nullptr);
}
#endif

//! Runs one case. Returns false and fills the slot's message when it fails.
inline bool run_case(const Sub& s, Case& c, Slot* slot) {
    try {
        s.fn(c);
        return true;
    }
    catch(const Failure& f) {
        std::snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
    }
    catch(const std::exception& e) {
        std::snprintf(slot->msg, sizeof slot->msg, "unexpected exception: %s", e.what());
    }
    catch(...) {
        std::snprintf(slot->msg, sizeof slot->msg, "unexpected exception");
    }
    return false;
}

inline u64 case_seed(u64 seed, u64 sub, u64 index) {
    u64 s = seed * 0x9E3779B97F4A7C15ull + sub * 0xD1B54A32D192ED03ull + index;
    splitmix(s);
    splitmix(s);
    return s;
}

struct Runner {
    u64 seed = 1;
    bool thorough = false;
    double scale = 1;
    unsigned jobs = 8;
    double max_seconds = 300;
    int case_seconds = 20;
    std::string work = ".";
    std::string only;

    static Slot* map_slots(std::size_t n) {
        void* p = mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                       -1, 0);
        if(p == MAP_FAILED) {
            std::perror("mmap");
            std::exit(2);
        }
        return static_cast<Slot*>(p);
    }

    enum class Outcome { pass, fail, inconclusive };

    //! Runs one sequence of choices in a child process.
    //! The normalised choices and the message are left in slot.
    Outcome run_child(u64 sub, const std::vector<u64>& choices, Slot* slot, bool verbose = false,
                      int out_fd = -1) {
        slot->count  = 0;
        slot->msg[0] = 0;
        std::fflush(nullptr);
        const pid_t pid = fork();
        if(pid < 0)
            return Outcome::inconclusive;
        if(pid == 0) {
            const int null = open("/dev/null", O_WRONLY);
            dup2(out_fd >= 0 ? out_fd : null, 2);
            dup2(out_fd >= 0 ? out_fd : null, 1);
            set_case_timer(case_seconds);
            Case c(Case::Mode::replay, slot);
            c.replay(&choices);
            c.verbose = verbose;
            const bool ok = run_case(subs()[sub], c, slot);
            if(verbose && !ok)
                std::cerr << "FAILED: " << slot->msg << std::endl;
            _exit(ok ? 0 : 77);
        }
        return wait_child(pid, slot);
    }

    Outcome wait_child(pid_t pid, Slot* slot) {
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return Outcome::pass;
        describe(st, slot);
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            return Outcome::inconclusive;
        return Outcome::fail;
    }

    static void describe(int st, Slot* slot) {
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77)
            return;
        if(WIFSIGNALED(st))
            std::snprintf(slot->msg, sizeof slot->msg, "killed by signal %d (%s)%s", WTERMSIG(st),
                          strsignal(WTERMSIG(st)),
                          WTERMSIG(st) == SIGPROF ? ": the case did not end"
                          : WTERMSIG(st) == SIGXCPU ? ": the case used more than 1500 MB" : "");
        else
            std::snprintf(slot->msg, sizeof slot->msg,
                          "the process ended with status %d (sanitizer or runtime check)",
                          WEXITSTATUS(st));
    }

    Outcome run_range(u64 sub, u64 first, u64 last, u64 stride, Slot* slot, int out_fd = -1) {
        slot->count  = 0;
        slot->msg[0] = 0;
        const pid_t pid = fork();
        if(pid < 0)
            return Outcome::inconclusive;
        if(pid == 0) {
            const int null = open("/dev/null", O_WRONLY);
            dup2(out_fd >= 0 ? out_fd : null, 2);
            for(u64 i = first; i <= last; i += stride) {
                set_case_timer(case_seconds);
                slot->index = i;
                Case c(Case::Mode::random, slot);
                c.seed(case_seed(seed, sub, i), i);
                if(!run_case(subs()[sub], c, slot))
                    _exit(77);
            }
            _exit(0);
        }
        return wait_child(pid, slot);
    }

    //! Makes a failing sequence of choices as small as it can.
    std::vector<u64> shrink(u64 sub, std::vector<u64> best, Slot* slot, std::string& msg,
                            double budget_s) {
        const double end = now() + budget_s;
        u64 tries        = 0;
        auto attempt = [&](const std::vector<u64>& cand) {
            if(now() > end || tries > 6000)
                return false;
            ++tries;
            if(run_child(sub, cand, slot) != Outcome::fail)
                return false;
            std::vector<u64> used(slot->choices, slot->choices + slot->count);
            while(!used.empty() && used.back() == 0)
                used.pop_back();
            if(used.size() < best.size() || (used.size() == best.size() && used < best)) {
                best = used;
                msg  = slot->msg;
                return true;
            }
            return false;
        };
        for(bool progress = true; progress && now() < end;) {
            progress = false;
            for(std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
                for(std::size_t i = 0; i + len <= best.size();) {
                    std::vector<u64> cand = best;
                    const std::size_t at = best.size() - len - i;
                    cand.erase(cand.begin() + at, cand.begin() + at + len);
                    if(attempt(cand))
                        progress = true;
                    else
                        i += std::max<std::size_t>(len / 2, 1);
                }
                if(len <= 8 && len > 1)
                    for(std::size_t l2 = len - 1; l2 > len / 2; --l2)
                        for(std::size_t i = 0; i + l2 <= best.size();) {
                            std::vector<u64> cand = best;
                            const std::size_t at = best.size() - l2 - i;
                            cand.erase(cand.begin() + at, cand.begin() + at + l2);
                            if(attempt(cand))
                                progress = true;
                            else
                                ++i;
                        }
            }
            for(std::size_t i = 0; i < best.size(); ++i) {
                if(best[i] == 0)
                    continue;
                std::vector<u64> cand = best;
                cand[i] = 0;
                if(attempt(cand)) {
                    progress = true;
                    continue;
                }
                u64 lo = 0;  // fails to reproduce
                while(i < best.size() && best[i] > lo + 1) {
                    const u64 mid = lo + (best[i] - lo) / 2;
                    cand = best;
                    cand[i] = mid;
                    if(attempt(cand))
                        progress = true;
                    else
                        lo = mid;
                    if(now() > end)
                        break;
                }
            }
        }
        return best;
    }

    static std::string esc(const std::string& s) {
        std::string r;
        for(unsigned char ch : s) {
            if(ch == '"' || ch == '\\')
                (r += '\\') += static_cast<char>(ch);
            else if(ch == '\n')
                r += "\\n";
            else if(ch < 32 || ch > 126) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            }
            else
                r += static_cast<char>(ch);
        }
        return r;
    }

    void write_replay(const std::string& path, u64 sub, const std::vector<u64>& choices,
                      const std::string& msg) {
        std::ofstream f(path);
        f << "sub " << subs()[sub].name << "\n# " << esc(msg) << "\nchoices";
        for(u64 v : choices)
            f << ' ' << v;
        f << "\n";
    }

    int replay_file(const std::string& path) {
        std::ifstream f(path);
        std::string line, name;
        std::vector<u64> choices;
        u64 r_first = 0, r_last = 0, r_stride = 0;
        while(std::getline(f, line)) {
            std::istringstream is(line);
            std::string key;
            is >> key;
            if(key == "sub")
                is >> name;
            else if(key == "choices")
                for(u64 v; is >> v;)
                    choices.push_back(v);
            else if(key == "range")
                is >> seed >> r_first >> r_last >> r_stride;
        }
        for(u64 i = 0; i < subs().size(); ++i)
            if(name == subs()[i].name) {
                Slot* slot = map_slots(1);
                const Outcome o = r_stride ? run_range(i, r_first, r_last, r_stride, slot, 2)
                                           : run_child(i, choices, slot, true, 2);
                std::cout << (o == Outcome::pass ? "PASS " : "FAIL ") << name << ": " << slot->msg
                          << std::endl;
                return o == Outcome::pass ? 0 : 1;
            }
        std::cerr << "no such sub-test: " << name << std::endl;
        return 2;
    }

    //! Returns 0 (held), 1 (violated; replay written), 2 (no answer)
    int run_all(const std::string& stats_path, const std::string& replay_path) {
        const double t0 = now();
        Slot* slots     = map_slots(jobs + 1);
        Slot* spare     = slots + jobs;
        std::ostringstream js;
        u64 total = 0, nontrivial_distinct = 0, unreproduced = 0;
        bool early = false;
        int rc     = 0;
        std::string failure;
        js << "{\"subs\":[";
        bool first_sub = true;
        for(u64 sub = 0; sub < subs().size() && rc == 0; ++sub) {
            const Sub& s = subs()[sub];
            if(!only.empty() && only != s.name)
                continue;
            u64 n = static_cast<u64>((thorough ? s.thorough : s.quick) * scale);
            if(n == 0)
                n = 1;
            const std::size_t hbytes = n * sizeof(u64);
            u64* hashes = static_cast<u64*>(mmap(nullptr, hbytes, PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            std::vector<pid_t> pids(jobs, 0);
            std::vector<bool> active(jobs, false);
            auto start = [&](unsigned w, u64 from) {
                slots[w].state = 0;
                slots[w].sub   = static_cast<u32>(sub);
                slots[w].first = from;
                slots[w].done  = 0;
                std::fflush(nullptr);
                const pid_t pid = fork();
                if(pid == 0) {
                    const std::string log = work + "/w" + std::to_string(w) + ".log";
                    const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                    dup2(fd, 2);
                    dup2(fd, 1);
                    std::map<std::string, u64> labels;
                    for(u64 i = from; i < n; i += jobs) {
                        if(now() - t0 > max_seconds)
                            _exit(3);
                        set_case_timer(case_seconds);
                        slots[w].index = i;
                        slots[w].state = 1;
                        Case c(Case::Mode::random, &slots[w]);
                        c.labels(&labels);
                        c.seed(case_seed(seed, sub, i), i);
                        if(!run_case(s, c, &slots[w])) {
                            slots[w].state = 2;
                            _exit(77);
                        }
                        hashes[i] = c.is_nontrivial() ? c.hash() : 0;
                        slots[w].done = slots[w].done + 1;
                        slots[w].state = 0;
                    }
                    std::ofstream f(work + "/w" + std::to_string(w) + ".labels");
                    for(auto& [k, v] : labels)
                        f << v << ' ' << k << '\n';
                    f.close();
                    _exit(0);
                }
                pids[w]   = pid;
                active[w] = pid > 0;
            };
            u64 executed = 0;
            for(unsigned w = 0; w < jobs; ++w)
                if(w < n)
                    start(w, w);
            unsigned retries = 0;
            while(std::any_of(active.begin(), active.end(), [](bool b) { return b; })) {
                int st;
                const pid_t pid = waitpid(-1, &st, 0);
                if(pid < 0)
                    break;
                const unsigned w
                  = static_cast<unsigned>(std::find(pids.begin(), pids.end(), pid) - pids.begin());
                if(w >= jobs)
                    continue;
                active[w] = false;
                executed += slots[w].done;
                if(WIFEXITED(st) && WEXITSTATUS(st) == 0)
                    continue;
                if(WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    early = true;
                    continue;
                }
                if(rc != 0)
                    continue;
                describe(st, &slots[w]);
                std::string msg = slots[w].msg;
                const u64 index = slots[w].index, from = slots[w].first;
                std::vector<u64> choices(slots[w].choices, slots[w].choices + slots[w].count);
                const bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                if(!killed && run_child(sub, choices, spare) == Outcome::fail) {
                    std::string m2 = spare->msg;
                    // the other workers would compete with the shrinking
                    for(unsigned k = 0; k < jobs; ++k)
                        if(active[k])
                            kill(pids[k], SIGSTOP);
                    auto best = shrink(sub, choices, spare, m2, thorough ? 60 : 25);
                    bool stable = true;
                    for(int k = 0; k < 3; ++k)
                        stable = run_child(sub, best, spare) == Outcome::fail && stable;
                    if(!stable) {
                        best = choices;
                        stable = true;
                        for(int k = 0; k < 3; ++k)
                            stable = run_child(sub, best, spare) == Outcome::fail && stable;
                        m2 = msg;
                    }
                    for(unsigned k = 0; k < jobs; ++k)
                        if(active[k])
                            kill(pids[k], SIGCONT);
                    if(stable) {
                        rc = 1;
                        failure = std::string(s.name) + ": " + m2;
                        write_replay(replay_path, sub, best, m2);
                    }
                }
                if(rc == 0 && !killed) {
                    // Depends on the cases that ran before in the same process
                    if(run_range(sub, from, index, jobs, spare) == Outcome::fail
                       && run_range(sub, from, index, jobs, spare) == Outcome::fail) {
                        rc = 1;
                        failure = std::string(s.name) + " (sequence of cases): " + msg;
                        std::ofstream f(replay_path);
                        f << "sub " << s.name << "\n# " << esc(msg) << "\nrange " << seed << ' '
                          << from << ' ' << index << ' ' << jobs << "\n";
                    }
                }
                if(rc == 0) {
                    ++unreproduced;
                    std::cerr << "not reproduced: " << s.name << " case " << index << ": " << msg
                              << std::endl;
                    if(++retries > 16) {
                        rc = 2;
                        failure = "too many failures that do not reproduce: " + msg;
                    }
                    else if(index + jobs < n)
                        start(w, index + jobs);
                }
                if(rc != 0)
                    for(unsigned k = 0; k < jobs; ++k)
                        if(active[k])
                            kill(pids[k], SIGKILL);
            }
            std::map<std::string, u64> labels;
            for(unsigned w = 0; w < jobs; ++w) {
                const std::string p = work + "/w" + std::to_string(w) + ".labels";
                std::ifstream f(p);
                u64 v;
                std::string k;
                while(f >> v && std::getline(f, k))
                    labels[k.substr(1)] += v;
                f.close();
                unlink(p.c_str());
                unlink((work + "/w" + std::to_string(w) + ".log").c_str());
            }
            std::unordered_set<u64> distinct;
            std::vector<u64> sample_idx;
            u64 nontrivial = 0;
            for(u64 i = 0; i < n; ++i)
                if(hashes[i]) {
                    ++nontrivial;
                    if(distinct.insert(hashes[i]).second && sample_idx.size() < 2
                       && i >= n / 3 * sample_idx.size())
                        sample_idx.push_back(i);
                }
            munmap(hashes, hbytes);
            total += executed;
            nontrivial_distinct += distinct.size();
            js << (first_sub ? "" : ",") << "\n{\"name\":\"" << s.name << "\",\"cases\":" << executed
               << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size()
               << ",\"labels\":{";
            first_sub = false;
            bool fl   = true;
            for(auto& [k, v] : labels) {
                js << (fl ? "" : ",") << "\"" << esc(k) << "\":" << v;
                fl = false;
            }
            js << "},\"samples\":[";
            fl = true;
            if(rc == 0)
                for(u64 i : sample_idx) {
                    js << (fl ? "" : ",") << "\"" << esc(sample(sub, i, spare)) << "\"";
                    fl = false;
                }
            js << "]}";
        }
        js << "],\n\"evaluations\":" << total << ",\"distinct_nontrivial\":" << nontrivial_distinct
           << ",\"unreproduced\":" << unreproduced << ",\"stopped_early\":" << (early ? "true" : "false")
           << ",\"max_rss_mb\":" << max_rss_mb() << ",\"seed\":" << seed << ",\"wall_s\":" << now() - t0 << ",\"rc\":" << rc
           << ",\"failure\":\"" << esc(failure) << "\"}\n";
        std::ofstream(stats_path) << js.str();
        if(rc)
            std::cout << (rc == 1 ? "FAIL " : "NO ANSWER ") << failure << std::endl;
        return rc;
    }

    static long max_rss_mb() {
        rusage r{};
        getrusage(RUSAGE_CHILDREN, &r);
        return r.ru_maxrss / 1024;
    }

    std::string sample(u64 sub, u64 index, Slot* slot) {
        const std::string path = work + "/sample.txt";
        std::fflush(nullptr);
        const pid_t pid = fork();
        if(pid == 0) {
            const int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            Case c(Case::Mode::random, slot);
            c.seed(case_seed(seed, sub, index), index);
            c.verbose = true;
            set_case_timer(case_seconds);
            run_case(subs()[sub], c, slot);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        std::ifstream f(path);
        std::ostringstream os;
        os << f.rdbuf();
        std::string r = os.str();
        unlink(path.c_str());
        if(r.size() > 700)
            r = r.substr(0, 700) + "...";
        return r.empty() ? "case " + std::to_string(index) : r;
    }
};

inline int main_(int argc, char** argv) {
    Runner r;
    std::string stats = "stats.json", replay_out = "replay.txt", replay_in;
    for(int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto val            = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed")
            r.seed = std::stoull(val());
        else if(a == "--tier")
            r.thorough = val() == "thorough";
        else if(a == "--scale")
            r.scale = std::stod(val());
        else if(a == "--jobs")
            r.jobs = static_cast<unsigned>(std::stoul(val()));
        else if(a == "--max-seconds")
            r.max_seconds = std::stod(val());
        else if(a == "--work")
            r.work = val();
        else if(a == "--only")
            r.only = val();
        else if(a == "--stats")
            stats = val();
        else if(a == "--replay-out")
            replay_out = val();
        else if(a == "--replay")
            replay_in = val();
        else if(a == "--bytes") {
            // turns an input of the fuzzer into a replay file
            std::ifstream f(val(), std::ios::binary);
            std::string d((std::istreambuf_iterator<char>(f)), {});
            if(d.empty())
                d.push_back(0);
            Slot* slot = Runner::map_slots(1);
            const u64 sub = static_cast<unsigned char>(d[0]) % subs().size();
            const pid_t pid = fork();
            if(pid == 0) {
                Case c(Case::Mode::bytes, slot);
                c.bytes(reinterpret_cast<const std::uint8_t*>(d.data()) + 1, d.size() - 1);
                set_case_timer(r.case_seconds);
                _exit(run_case(subs()[sub], c, slot) ? 0 : 77);
            }
            const bool failed = r.wait_child(pid, slot) == Runner::Outcome::fail;
            std::vector<u64> ch(slot->choices, slot->choices + slot->count);
            std::string msg = slot->msg;
            if(failed && r.run_child(sub, ch, slot) == Runner::Outcome::fail) {
                ch = r.shrink(sub, ch, slot, msg, 30);
                r.write_replay(replay_out, sub, ch, msg);
                std::cout << "FAIL " << subs()[sub].name << ": " << msg << std::endl;
                return 1;
            }
            return 0;
        }
        else if(a == "--list") {
            for(auto& s : subs())
                std::cout << s.name << ' ' << s.quick << ' ' << s.thorough << '\n';
            return 0;
        }
    }
    if(!replay_in.empty())
        return r.replay_file(replay_in);
    return r.run_all(stats, replay_out);
}
}  // namespace pbt

#if defined(PBT_FUZZ)
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    using namespace pbt;
    static Slot* slot = Runner::map_slots(1);
    if(size == 0 || subs().empty())
        return 0;
    Case c(Case::Mode::bytes, slot);
    c.bytes(data + 1, size - 1);
    if(!run_case(subs()[data[0] % subs().size()], c, slot)) {
        std::fprintf(stderr, "FAILED: %s\n", slot->msg);
        std::abort();
    }
    return 0;
}
#elif !defined(PBT_NO_MAIN)
int main(int argc, char** argv) {
    return pbt::main_(argc, argv);
}
#endif

using pbt::Case;
using pbt::fail;
using pbt::u64;

// X01: what one thread does with its objects, and with what it only reads, doesn't depend on the other threads.
// Generated programs of several threads, each run alone first and then all together; ThreadSanitizer looks for accesses
// that conflict even when nothing comes of them.
#include "pbt.hpp"
#include "k01_domains.hpp"
#include <atomic>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <string>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <xme/container/container.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/hal/platform.hpp>
#include <xme/hal/shared_library.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <xme/math/math.hpp>
#include <xme/math/matrices/transformation.hpp>
#include <xme/math/scalars/trigonometry.hpp>

using k::In;
using k::Trace;
using pbt::Case;
using pbt::u64;

static void put(Trace& t, const std::string& s) {
    t.put(s.size());
    for(char ch : s)
        t.put(ch);
}
static std::string word(In& in) { return std::string(static_cast<std::size_t>(in.next(40)), static_cast<char>('a' + in.next(26))); }

// What a thread does with objects of its own, besides the domains of K01 ------------------------------------------------

static Trace lists(In in) {
    Trace t;
    xme::LinkedList<std::string> a, b;
    do {
        switch(in.next(7)) {
        case 0: a.push_front(word(in)); break;
        case 1: a.insert_after(a.before_begin(), word(in)); break;
        case 2:
            if(!a.empty())
                a.pop_front();
            break;
        case 3: a.reverse(); break;
        case 4: b = a; break;
        case 5: a = std::move(b); b = xme::LinkedList<std::string>(); break;
        default:
            if(!a.empty())
                a.erase_after(a.begin(), a.end());
        }
        for(auto& s : a)
            put(t, s);
    } while(in.more());
    return t;
}
static Trace strings(In in) {
    Trace t;
    xme::Array<std::string> a, b;
    do {
        switch(in.next(7)) {
        case 0: a.push_back(word(in)); break;
        case 1: a.insert(a.begin() + in.next(static_cast<int>(a.size()) + 1), word(in)); break;
        case 2:
            if(!a.empty())
                a.erase(a.begin() + in.next(static_cast<int>(a.size())));
            break;
        case 3: xme::reverse(a); break;
        case 4: b = a; break;
        case 5: a.swap(b); break;
        default: a.insert(a.end(), b.begin(), b.end());
        }
        if(a.size() > 60)
            a.clear();
        for(auto& s : a)
            put(t, s);
        t.put(xme::find(a, std::string("aaa")) - a.begin());
    } while(in.more());
    return t;
}
struct Big {
    long pad[12]{};
    int n;
    int operator()(int x) { return n += x; }
};
static int twice(int x) { return 2 * x; }
static Trace delegates(In in) {
    Trace t;
    using D = xme::Delegate<int(int)>;
    D a, b;
    int sum = 0;
    do {
        switch(in.next(7)) {
        case 0: a = &twice; break;
        case 1: a = [n = in.next(9)](int x) mutable { return n += x; }; break;
        case 2: a = Big{{}, in.next(9)}; break;
        case 3: a = [s = word(in)](int x) { return x + static_cast<int>(s.size()); }; break;
        case 4: b = a; break;
        case 5: a.swap(b); break;
        default: a = std::move(b); b = D();
        }
        if(a)
            t.put(a(in.next(7)));
        {
            xme::ScopedDelegate end([&] { sum = sum * 3 + 1; });
            sum += in.next(4);
        }
        t.put(sum);
    } while(in.more());
    return t;
}
static Trace queues(In in) {
    Trace t;
    xme::SPSCQueue<std::string, xme::Capacity<4>> q;
    xme::SPSCQueue<int> d(8);
    int qn = 0, dn = 0;
    do {
        switch(in.next(4)) {
        case 0: {
            const bool done = q.emplace(word(in));
            qn += done;
            t.put(done);
            break;
        }
        case 1: {
            const bool done = d.emplace(in.next(50));
            dn += done;
            t.put(done);
            break;
        }
        case 2:
            if(qn > 0)
                --qn, q.consume([&](auto&& s) { put(t, s); });
            break;
        default:
            if(dn > 0)
                --dn, d.consume([&](auto&& n) { t.put(n); });
        }
    } while(in.more());
    return t;
}
static Trace aligned(In in) {
    Trace t;
    do {
        xme::AlignedData<std::string, 64> a;
        ::new(a.address()) std::string(word(in));
        put(t, *a.data());
        t.put(reinterpret_cast<std::uintptr_t>(a.address()) % 64);
        a.data()->~basic_string();
    } while(in.more());
    return t;
}
static Trace scalars(In in) {
    Trace t;
    namespace m = xme::math;
    do {
        const double x = in.next(1000) / 117. + .1;
        t.put(m::sin(x)), t.put(m::cos(x)), t.put(m::tan(x)), t.put(m::sec(x)), t.put(m::csc(x)), t.put(m::cot(x));
        t.put(m::arctan(x)), t.put(m::radians(x)), t.put(m::degrees(x));
        const auto p = in.next(2) ? m::perspective(x / 10, 1 + x, .1, 1 + x) : m::perspective_rh(x / 10, 1 + x, .1, 1 + x);
        for(int i = 0; i < 4; ++i)
            for(int j = 0; j < 4; ++j)
                t.put(p[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)]);
    } while(in.more());
    return t;
}
static Trace platform(In in) {
    Trace t;
    static const char* const names[] = {"XMEVF_ONE", "XMEVF_ON", "XMEVF_TWO", "XMEVF_NONE"};
    do {
        const std::string n = names[in.next(4)];
        const char* v       = xme::hal::get_environment_variable(std::string_view(n + "x").substr(0, n.size()));
        put(t, v ? v : "none");
        xme::hal::SharedLibrary l(in.next(3) ? "libm.so.6" : "libnone.so");
        t.put(l.is_open());
        if(auto f = l.proc_address<double (*)(double)>(in.next(2) ? "cbrt" : "floor"))
            t.put(f(27.5));
        xme::hal::SharedLibrary o(std::move(l));
        t.put(o.is_open());
    } while(in.more());
    return t;
}
static const struct Setup {
    Setup() {
        ::setenv("XMEVF_ONE", "1", 1);
        ::setenv("XMEVF_TWO", "a longer value of a variable", 1);
    }
} setup;

// What they only read --------------------------------------------------------------------------------------------------

struct Counted {
    int n;
    int operator()(int x, int y) const { return n + x * y; }
};
struct Shared {
    xme::Array<std::string> array;
    xme::LinkedList<std::string> list;
    xme::Heap<int> heap;
    xme::Tuple<int, std::string, double> tuple{1, "a string of the tuple that is long", 2.5};
    xme::Pair<std::string, int> pair{"first", 2};
    xme::Delegate<int(int)> small, big;
    decltype(xme::bind_front(&twice)) bound = xme::bind_front(&twice);
    decltype(xme::bind_back(Counted{}, 0)) back = xme::bind_back(Counted{5}, 3);
    xme::math::Matrix<float, 4, 4> matrix{2};
    xme::math::Vector<double, 3> vector{1};
    xme::math::Quaternion<float> quaternion{};
    xme::hal::SharedLibrary library{"libm.so.6"};
    explicit Shared(In in) {
        for(int i = in.next(20); i > 0; --i) {
            array.push_back(word(in));
            list.push_front(array.back());
            heap.push(in.next(100));
        }
        small = [n = in.next(9)](int x) { return n * x; };
        big   = [s = std::string(50, 'x'), k = std::vector<int>(4, 2)](int x) { return x + static_cast<int>(s.size() + k.size()); };
        for(std::size_t i = 0; i < 3; ++i)
            vector[i] = in.next(50);
        matrix[1][2] = static_cast<float>(in.next(50));
    }

    Trace read(In in) const {
        Trace t;
        do {
            switch(in.next(12)) {
            case 0:
                for(auto& s : array)
                    put(t, s);
                break;
            case 1:
                for(auto& s : list)
                    put(t, s);
                break;
            case 2:
                for(int i : heap)
                    t.put(i);
                if(!heap.empty())
                    t.put(heap.front());
                break;
            case 3: {
                const auto copy = array;
                t.put(copy.size());
                if(!copy.empty())
                    put(t, copy.back());
                break;
            }
            case 4: {
                const auto copy = tuple;
                put(t, xme::get<1>(copy));
                put(t, xme::get<0>(pair));
                t.put(copy == tuple), t.put(pair == xme::Pair<std::string, int>(pair)), t.put(copy < tuple);
                break;
            }
            case 5: t.put(small(in.next(9))), t.put(big(in.next(9))), t.put(bool(small)); break;
            case 6: {
                auto copy = big;
                t.put(copy(1)), t.put(bound(4)), t.put(back(in.next(9)));
                break;
            }
            case 7: {
                const xme::ArrayView<const std::string> v(array.data(), array.size());
                t.put(v.size());
                for(auto& s : v.subview(0, v.size() / 2))
                    put(t, s);
                break;
            }
            case 8: t.put((matrix * matrix)[1][2]), t.put(xme::math::determinant(matrix)), t.put((matrix + matrix)[0][0]); break;
            case 9: t.put((vector * 2.)[1]), t.put(vector == vector), t.put((vector + vector)[0]), t.put(quaternion.w); break;
            case 10: t.put(array.empty() ? -1 : xme::find(array, array.back()) - array.begin()); break;
            default: t.put(library.is_open()), t.put(library.proc_address<double (*)(double)>("cbrt")(8.));
            }
        } while(in.more());
        return t;
    }
};

// Programs ---------------------------------------------------------------------------------------------------------------

struct Domain {
    const char* name;
    Trace (*f)(In);
};
#define D(...) {#__VA_ARGS__, [](In in) { return k::__VA_ARGS__(in); }}
static const Domain domains[] = {
    D(array<int>), D(array<k::Own>), D(heap<int, std::less<>>), D(heap<k::Own, std::greater<>>), D(view), D(tuples), D(iterators), D(binding), D(bits),
    D(memory), D(quaternions), D(vectors<float, 3>), D(vectors<int, 4>), D(matrices<4, 4>), D(matrices<2, 3>), D(roots<double, 4>), D(transformations<float>),
    D(algorithms<int>), D(algorithms<char>), D(algorithms<k::Own>),
    {"lists", lists}, {"strings", strings}, {"delegates", delegates}, {"queues", queues}, {"aligned", aligned}, {"scalars", scalars}, {"platform", platform}};
constexpr std::size_t n_domains = sizeof(domains) / sizeof(domains[0]);

struct Part {
    std::size_t domain;  // n_domains: reads what is shared
    std::vector<int> numbers;
    Trace alone{};
    Trace together[2]{};
};
struct Program {
    std::vector<std::vector<Part>> threads;
    std::vector<int> shared;
    bool alone_first, built_elsewhere, destroyed_elsewhere;
};
static const char* name(const Part& p) { return p.domain == n_domains ? "shared" : domains[p.domain].name; }

static Program generate(Case& c, bool alike) {
    Program g;
    g.threads.resize(2 + c.draw(2));
    const std::size_t common = c.draw(n_domains + 1);
    std::size_t parts        = 0;
    for(std::size_t i = 0; i < g.threads.size(); ++i) {
        for(u64 j = 1 + c.draw(3); j > 0; --j, ++parts) {
            Part p;
            p.domain = alike ? common : c.chance(1, 4) ? n_domains : c.draw(n_domains);
            p.numbers.resize(1 + c.draw(c.chance(1, 3) ? 80 : 15));
            for(int& x : p.numbers)
                x = static_cast<int>(1 + c.draw(9999));
            LOG("thread " << i << ": " << name(p) << " (" << p.numbers.size() << " numbers)");
            g.threads[i].push_back(std::move(p));
        }
    }
    for(u64 n = c.draw(60); n > 0; --n)
        g.shared.push_back(static_cast<int>(1 + c.draw(9999)));
    g.alone_first         = c.draw(2);
    g.built_elsewhere     = c.draw(2);
    g.destroyed_elsewhere = c.draw(2);
    if(parts > 2)
        c.nontrivial();
    return g;
}

static Trace perform(const Part& p, const Shared& s) {
    const In in{p.numbers.data(), static_cast<int>(p.numbers.size())};
    return p.domain == n_domains ? s.read(in) : domains[p.domain].f(in);
}

//! What went wrong, if anything
static std::string execute(Program& g) {
    std::unique_ptr<Shared> shared;
    auto build = [&] { shared.reset(new Shared(In{g.shared.data(), static_cast<int>(g.shared.size())})); };
    if(g.built_elsewhere)
        std::thread(build).join();
    else
        build();
    auto alone = [&] {
        for(auto& t : g.threads)
            for(Part& p : t)
                p.alone = perform(p, *shared);
    };
    if(g.alone_first)
        alone();
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> running;
    for(auto& mine : g.threads)
        running.emplace_back([&] {
            // nothing in the end orders what the threads do after this
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < g.threads.size())
                std::this_thread::yield();
            for(int again = 0; again < 2; ++again)
                for(Part& p : mine)
                    p.together[again] = perform(p, *shared);
        });
    for(auto& x : running)
        x.join();
    if(!g.alone_first)
        alone();
    if(g.destroyed_elsewhere)
        std::thread([&] { shared.reset(); }).join();
    for(std::size_t i = 0; i < g.threads.size(); ++i)
        for(const Part& p : g.threads[i])
            for(const Trace& x : p.together)
                if(x.h != p.alone.h || x.len != p.alone.len)
                    return "thread " + std::to_string(i) + " observed something else in " + name(p) + " than when alone";
    return {};
}

static void run(Case& c, bool alike) {
    Program g               = generate(c, alike);
    const std::string wrong = execute(g);
    CHECK(wrong.empty(), wrong);
}
//! In a process that has done none of it before
static void fresh(Case& c, bool alike) {
    Program g     = generate(c, alike);
    g.alone_first = false;
    int fd[2];
    CHECK(pipe(fd) == 0, "no pipe");
    const pid_t pid = fork();
    CHECK(pid >= 0, "no process");
    if(pid == 0) {
        close(fd[0]);
        pbt::set_case_timer(20);
        const std::string wrong = execute(g);
        (void)!write(fd[1], wrong.data(), wrong.size());
        _exit(wrong.empty() ? 0 : 1);
    }
    close(fd[1]);
    std::string wrong;
    char buffer[200];
    for(ssize_t n; (n = read(fd[0], buffer, sizeof buffer)) > 0;)
        wrong.append(buffer, static_cast<std::size_t>(n));
    close(fd[0]);
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    CHECK(wrong.empty(), wrong);
    CHECK(status == 0, "the process ended with status " << status << " (conflicting accesses or a crash)");
}
SUB(different, 2000, 40000) { run(c, false); }
SUB(alike, 2000, 40000) { run(c, true); }
SUB(fresh_different, 300, 8000) { fresh(c, false); }
SUB(fresh_alike, 500, 8000) { fresh(c, true); }

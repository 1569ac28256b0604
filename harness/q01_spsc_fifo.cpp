// Q01: SPSCQueue against a bounded std::deque
#include "elements.hpp"
#include <deque>
#include <memory>
#include <vector>
#include <xme/container/spsc_queue.hpp>

using el::Elem;
using el::world;

template<typename T, typename Queue>
static int drive(Case& c, Queue& q, std::size_t N) {
    constexpr bool copyable = std::copy_constructible<T>;
    std::deque<int> m;
    int next = 1, effective = 0;
    std::size_t in = 0;
    auto counts = [&](const char* what) {
        const Queue& cq = q;
        CHECK(cq.read_available() == m.size(), what << ": read_available() is " << cq.read_available() << ", " << m.size() << " are waiting");
        CHECK(cq.write_available() == N - 1 - m.size(), what << ": write_available() is " << cq.write_available() << ", there is room for " << N - 1 - m.size());
    };
    counts("new queue");
    c.begin_loop({8, 30, 80, 200});
    const u64 bias = 2 + c.draw(5);
    while(c.more()) {
        ++effective;
        if(c.draw(8) < bias) {
            const int v     = next++ % 250;
            const bool room = m.size() < N - 1;
            bool ok;
            switch(c.draw(4)) {
            case 0: {
                T x = Elem<T>::make(v);
                ok = q.push(std::move(x));
                LOG("push(" << v << ") -> " << ok);
                if(!room)
                    CHECK(Elem<T>::read(x) == v, "a refused push changed the value it was offered");
                break;
            }
            case 1: {
                if constexpr(copyable) {
                    const T x = Elem<T>::make(v);
                    ok = q.push(x);
                    CHECK(Elem<T>::read(x) == v, "push changed the value it was given");
                }
                else
                    ok = q.push(Elem<T>::make(v));
                LOG("push(const " << v << "&) -> " << ok);
                break;
            }
            case 2: {
                T x = Elem<T>::make(v);
                ok = q.emplace(std::move(x));
                LOG("emplace(" << v << ") -> " << ok);
                if(!room)
                    CHECK(Elem<T>::read(x) == v, "a refused emplace changed the value it was offered");
                break;
            }
            default: {
                if constexpr(copyable) {
                    T x = Elem<T>::make(v);
                    ok = q.emplace(x);
                    CHECK(Elem<T>::read(x) == v, "emplace changed the value it was given");
                }
                else
                    ok = q.emplace(Elem<T>::make(v));
                LOG("emplace(" << v << "&) -> " << ok);
            }
            }
            CHECK(ok == room, "with " << m.size() << " of " << N - 1 << " waiting a value was " << (ok ? "accepted" : "refused"));
            if(ok) {
                m.push_back(v);
                ++in;
            }
            counts("push");
        }
        else if(!m.empty()) {
            const u64 how = c.draw(5);
            const int want = m.front();
            int got = -1, calls = 0;
            if(how == 0) {
                LOG("pop " << want);
                q.pop();
                got = want, calls = 1;
            }
            else if(how == 1)
                q.consume([&](T&& x) { ++calls; got = Elem<T>::read(x); });
            else if(how == 2)
                q.consume([&](const T& x) { ++calls; got = Elem<T>::read(x); });
            else if(how == 3)
                q.consume([&](T x) { ++calls; got = Elem<T>::read(x); });
            else {
                // the function uses the queue as well: what it was given still counts as waiting
                const u64 more = c.draw(4);
                q.consume([&](T&& x) {
                    ++calls;
                    got = Elem<T>::read(x);
                    counts("inside consume");
                    for(u64 i = 0; i < more; ++i) {
                        const int v     = next++ % 250;
                        const bool room = m.size() < N - 1;
                        const bool ok   = i % 2 ? q.emplace(Elem<T>::make(v)) : q.push(Elem<T>::make(v));
                        LOG("push(" << v << ") inside consume -> " << ok);
                        CHECK(ok == room, "inside consume, with " << m.size() << " of " << N - 1 << " waiting a value was " << (ok ? "accepted" : "refused"));
                        if(ok) {
                            m.push_back(v);
                            ++in;
                        }
                        counts("push inside consume");
                        CHECK(Elem<T>::read(x) == got, "a push inside consume changed the value being consumed");
                    }
                });
            }
            if(how)
                LOG("consume -> " << got);
            CHECK(calls == 1, "consume called the function " << calls << " times");
            CHECK(got == want, "consume handed over " << got << ", the oldest is " << want);
            m.pop_front();
            counts("pop");
        }
        world.check();
    }
    // everything still comes out in order
    while(!m.empty()) {
        int got = -1;
        q.consume([&](T&& x) { got = Elem<T>::read(x); });
        CHECK(got == m.front(), "consume handed over " << got << ", the oldest is " << m.front());
        m.pop_front();
        counts("consume");
    }
    if(N >= 2 && in > N && effective > 5)
        c.nontrivial();
    return static_cast<int>(in);
}

template<typename T>
static void dynamic_queue(Case& c) {
    world.reset();
    {
        const std::size_t N = std::size_t(1) << c.draw(7);
        LOG("dynamic queue of " << N);
        xme::SPSCQueue<T> q(N);
        drive<T>(c, q, N);
    }
    world.check();
}

template<typename T, std::size_t N>
static void fixed(Case& c) {
    LOG("static queue of " << N);
    auto q = std::make_unique<xme::SPSCQueue<T, xme::Capacity<N>>>();
    drive<T>(c, *q, N);
}
template<typename T>
static void static_queue(Case& c) {
    world.reset();
    switch(c.draw(6)) {
    case 0: fixed<T, 2>(c); break;
    case 1: fixed<T, 4>(c); break;
    case 2: fixed<T, 8>(c); break;
    case 3: fixed<T, 1>(c); break;
    case 4: fixed<T, 16>(c); break;
    default: fixed<T, 64>(c);
    }
    world.check();
}

using Tr = el::Tracked<el::copyable>;
using Mo = el::Tracked<el::move_only>;
SUB_T(dynamic_int, dynamic_queue<int>, 4000, 60000);
SUB_T(dynamic_string, dynamic_queue<std::string>, 2500, 40000);
SUB_T(dynamic_move_only, dynamic_queue<Mo>, 2500, 40000);
SUB_T(static_int, static_queue<int>, 4000, 60000);
SUB_T(static_big, static_queue<el::BigPod>, 2500, 40000);
SUB_T(static_tracked, static_queue<Tr>, 2500, 40000);

//! Queues of many elements, driven round more than once in runs
template<typename T, typename Queue>
static void runs(Case& c, Queue& q, std::size_t N) {
    u64 in = 0, out = 0;
    CHECK(q.read_available() == 0 && q.write_available() == N - 1);
    c.begin_loop({3, 6, 12});
    while(c.more()) {
        std::size_t k = c.chance(1, 3) ? N : long_length(c, N);
        if(c.chance(1, 2)) {
            LOG("push " << k);
            while(k--) {
                const bool room = in - out < N - 1;
                CHECK(q.push(static_cast<T>(in)) == room, "with " << in - out << " of " << N - 1 << " waiting a value was " << (room ? "refused" : "accepted"));
                if(!room)
                    break;
                ++in;
            }
        }
        else {
            LOG("consume " << k);
            while(k-- && out < in) {
                T got{};
                if(k % 2)
                    q.consume([&](T x) { got = x; });
                else
                    q.consume([&](T&& x) { got = x; });
                CHECK(got == static_cast<T>(out), "consume handed over " << +got << ", the oldest is " << +static_cast<T>(out));
                ++out;
            }
        }
        CHECK(q.read_available() == in - out, "read_available() is " << q.read_available() << ", " << in - out << " are waiting");
        CHECK(q.write_available() == N - 1 - (in - out), "write_available() is " << q.write_available());
    }
    if(N > 255 && in > N)
        c.nontrivial();
}
SUB(large_dynamic, 200, 3000) {
    const std::size_t N = std::size_t(1) << (5 + c.draw(13));
    LOG("dynamic queue of " << N);
    xme::SPSCQueue<int> q(N);
    runs<int>(c, q, N);
}
SUB(large_bytes, 200, 3000) {
    const std::size_t N = std::size_t(1) << (7 + c.draw(10));
    LOG("dynamic queue of " << N);
    xme::SPSCQueue<unsigned char> q(N);
    runs<unsigned char>(c, q, N);
}
SUB(large_static, 200, 3000) {
    auto one = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
        LOG("static queue of " << N);
        auto q = std::make_unique<xme::SPSCQueue<int, xme::Capacity<N>>>();
        runs<int>(c, *q, N);
    };
    switch(c.draw(4)) {
    case 0: one(std::integral_constant<std::size_t, 256>()); break;
    case 1: one(std::integral_constant<std::size_t, 512>()); break;
    case 2: one(std::integral_constant<std::size_t, 65536>()); break;
    default: one(std::integral_constant<std::size_t, 131072>());
    }
}

//! Capacities that don't fit 32 bits, in memory that is hardly touched
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
#include <sys/mman.h>
namespace {
struct LazyAlloc {
    using value_type      = unsigned char;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    unsigned char* allocate(std::size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED)
            throw std::bad_alloc();
        return static_cast<unsigned char*>(p);
    }
    void deallocate(unsigned char* p, std::size_t n) { munmap(p, n); }
    bool operator==(const LazyAlloc&) const { return true; }
};
}  // namespace
SUB(beyond_32_bits, 10, 100) {
    const std::size_t N = std::size_t(1) << (31 + c.draw(7));
    LOG("dynamic queue of " << N);
    xme::SPSCQueue<unsigned char, LazyAlloc> q(N);
    std::deque<unsigned char> m;
    c.begin_loop({20, 60});
    while(c.more()) {
        if(c.draw(2)) {
            const auto v = static_cast<unsigned char>(c.draw(256));
            CHECK(q.push(v), "a queue of " << N << " is full with " << m.size());
            m.push_back(v);
        }
        else if(!m.empty()) {
            unsigned char got{};
            q.consume([&](unsigned char x) { got = x; });
            CHECK(got == m.front(), "consume handed over " << +got);
            m.pop_front();
        }
        CHECK(q.read_available() == m.size(), "read_available() is " << q.read_available());
        CHECK(q.write_available() == N - 1 - m.size(), "write_available() is " << q.write_available());
    }
    c.nontrivial();
}
#endif

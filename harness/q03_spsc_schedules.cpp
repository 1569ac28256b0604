// Q03: SPSCQueue with a producer and a consumer under generated schedules.
//
// Without -fsanitize=thread: the two threads are coroutines that can be interrupted at every atomic operation and at
// every element access. std::atomic is replaced, in the queue's headers only, by an atomic that simulates the memory
// model: every location keeps its history of values, a load may return any value the thread hasn't been made to forget
// by what happened before it, and happens-before edges come only from acquire loads that read release stores
// (or fences). Vector clocks tell whether two accesses of an element are ordered.
// With -fsanitize=thread: two real threads, generated programs, and ThreadSanitizer as the oracle of races.
#include <array>
#include <atomic>
#include <bit>
#include <cassert>
#include <memory>
#include <thread>
#include <vector>
#include <ucontext.h>
#include <range/v3/all.hpp>
#include "pbt.hpp"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer) && !defined(__SANITIZE_THREAD__)
#define __SANITIZE_THREAD__
#endif
#endif

#if !defined(__SANITIZE_THREAD__)
namespace sim {
enum Tid { main_thread = 0, producer = 1, consumer = 2, threads = 3 };
constexpr int max_locs = 16;

struct View {
    u64 loc[max_locs] = {};  // the oldest message of each location that can still be read
    u64 clock[threads] = {}; // what happens before
    void join(const View& o, bool clocks = true) {
        for(int i = 0; i < max_locs; ++i)
            loc[i] = std::max(loc[i], o.loc[i]);
        if(clocks)
            for(int i = 0; i < threads; ++i)
                clock[i] = std::max(clock[i], o.clock[i]);
    }
};

struct Thread {
    View cur, acquire_pending, release_fence;
};

struct Access {
    u64 write[threads] = {}, read[threads] = {};
};

struct World {
    Case* c = nullptr;
    Thread t[threads];
    View sc;
    int locs    = 0;
    Tid self    = main_thread;
    bool active = false;  // the coroutines run
    u64 stale = 5;
    u64 switches = 3;
    u64 steps = 0, budget = 0;
    bool done[threads] = {};
    int swaps = 0, stale_loads = 0;
    std::string error;
    std::map<const void*, Access> cells;
    std::map<const void*, int> alive;  // 1: under construction, 2: usable, 3: under destruction
    ucontext_t ctx[threads];
} w;

inline void switch_to(Tid to) {
    const Tid from = w.self;
    w.self         = to;
    swapcontext(&w.ctx[from], &w.ctx[to]);
}

template<typename... A>
inline void err(const A&... a) {
    if(w.error.empty()) {
        std::ostringstream os;
        (os << ... << a);
        w.error = os.str();
    }
    if(w.active && w.self != main_thread)
        switch_to(main_thread);  // for good
}

//! Another thread may run here
inline void yield() {
    if(!w.active || w.self == main_thread)
        return;
    if(++w.steps > w.budget)
        err("an operation of the ", w.self == producer ? "producer" : "consumer", " doesn't end by itself: it waits");
    const Tid other = w.self == producer ? consumer : producer;
    if(w.done[other])
        return;
    if(w.c->draw(w.switches) == w.switches - 1) {
        ++w.swaps;
        const u64 steps = w.steps, budget = w.budget;
        switch_to(other);
        w.steps = steps, w.budget = budget;
    }
}

inline Thread& me() { return w.t[w.self]; }

inline void access(const void* p, bool write, const char* what) {
    yield();
    auto& a = w.cells[p];
    Thread& t = me();
    for(int o = 0; o < threads; ++o) {
        if(o == w.self)
            continue;
        if(a.write[o] > t.cur.clock[o] || (write && a.read[o] > t.cur.clock[o])) {
            err("data race: an element is ", what, " without that being ordered after the other thread's access");
            return;
        }
    }
    const u64 now = ++t.cur.clock[w.self];
    (write ? a.write : a.read)[w.self] = now;
}

inline bool acquires(std::memory_order m) {
    return m == std::memory_order_acquire || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst
           || m == std::memory_order_consume;
}
inline bool releases(std::memory_order m) {
    return m == std::memory_order_release || m == std::memory_order_acq_rel || m == std::memory_order_seq_cst;
}
}  // namespace sim

namespace std {
inline void vf_thread_fence(memory_order m) {
    using namespace sim;
    sim::yield();
    Thread& t = me();
    if(acquires(m))
        t.cur.join(t.acquire_pending);
    if(m == memory_order_seq_cst) {
        t.cur.join(w.sc, false);
        w.sc.join(t.cur, false);
    }
    if(releases(m))
        t.release_fence = t.cur;
}

template<typename T>
struct vf_atomic {
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    struct Message {
        T value;
        sim::View view;
    };
    mutable vector<Message> history;
    int id;

    vf_atomic() noexcept : vf_atomic(T()) {}
    vf_atomic(T v) noexcept {
        id = sim::w.locs++;
        if(id >= sim::max_locs)
            abort();
        history.push_back({v, sim::me().cur});
    }
    vf_atomic(const vf_atomic&) = delete;
    vf_atomic& operator=(const vf_atomic&) = delete;

    bool is_lock_free() const noexcept { return true; }

    T load(memory_order m = memory_order_seq_cst) const noexcept {
        using namespace sim;
        sim::yield();
        Thread& t = me();
        u64 oldest = t.cur.loc[id];
        if(m == memory_order_seq_cst)
            oldest = max(oldest, w.sc.loc[id]);
        const u64 newest = history.size() - 1;
        u64 i = newest;
        if(oldest < newest && w.c->draw(w.stale) == w.stale - 1) {
            i = newest - 1 - w.c->draw(newest - oldest);
            ++w.stale_loads;
        }
        t.cur.loc[id] = max(t.cur.loc[id], i);
        (acquires(m) ? t.cur : t.acquire_pending).join(history[i].view);
        return history[i].value;
    }
    operator T() const noexcept { return load(); }

    void store(T v, memory_order m = memory_order_seq_cst) noexcept {
        sim::yield();
        put(v, m, nullptr);
    }
    T operator=(T v) noexcept {
        store(v);
        return v;
    }

    template<typename F>
    T rmw(F f, memory_order m) noexcept {
        using namespace sim;
        sim::yield();
        Thread& t = me();
        const Message last = history.back();
        t.cur.loc[id] = history.size() - 1;
        (acquires(m) ? t.cur : t.acquire_pending).join(last.view);
        put(f(last.value), m, &last.view);
        return last.value;
    }
    T exchange(T v, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T) { return v; }, m);
    }
    T fetch_add(T d, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T x) { return static_cast<T>(x + d); }, m);
    }
    T fetch_sub(T d, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T x) { return static_cast<T>(x - d); }, m);
    }
    T fetch_and(T d, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T x) { return static_cast<T>(x & d); }, m);
    }
    T fetch_or(T d, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T x) { return static_cast<T>(x | d); }, m);
    }
    T fetch_xor(T d, memory_order m = memory_order_seq_cst) noexcept {
        return rmw([&](T x) { return static_cast<T>(x ^ d); }, m);
    }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T d) noexcept { return fetch_add(d) + d; }
    T operator-=(T d) noexcept { return fetch_sub(d) - d; }
    T operator&=(T d) noexcept { return fetch_and(d) & d; }

    bool compare_exchange_strong(T& expected, T v, memory_order ok, memory_order no) noexcept {
        if(history.back().value != expected) {
            // a failed exchange is a load of any other value
            const T x = load(no);
            if(x != expected) {
                expected = x;
                return false;
            }
            expected = history.back().value;
            return false;
        }
        rmw([&](T) { return v; }, ok);
        return true;
    }
    bool compare_exchange_strong(T& expected, T v, memory_order m = memory_order_seq_cst) noexcept {
        return compare_exchange_strong(expected, v, m, m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m);
    }
    bool compare_exchange_weak(T& expected, T v, memory_order ok, memory_order no) noexcept {
        return compare_exchange_strong(expected, v, ok, no);
    }
    bool compare_exchange_weak(T& expected, T v, memory_order m = memory_order_seq_cst) noexcept {
        return compare_exchange_strong(expected, v, m);
    }
    void wait(T old, memory_order m = memory_order_seq_cst) const noexcept {
        while(load(m) == old)
            ;
    }
    void notify_one() noexcept {}
    void notify_all() noexcept {}

private:
    void put(T v, memory_order m, const sim::View* sequence) noexcept {
        using namespace sim;
        Thread& t = me();
        t.cur.loc[id] = history.size();
        if(m == memory_order_seq_cst)
            w.sc.loc[id] = history.size();
        Message msg{v, releases(m) ? t.cur : t.release_fence};
        if(sequence)
            msg.view.join(*sequence);
        history.push_back(msg);
        ++t.cur.clock[w.self];
    }
};
using vf_atomic_size_t = vf_atomic<size_t>;
template<typename T>
inline T vf_load_explicit(const vf_atomic<T>* a, memory_order m) noexcept { return a->load(m); }
template<typename T>
inline void vf_store_explicit(vf_atomic<T>* a, T v, memory_order m) noexcept { a->store(v, m); }
}  // namespace std

#define atomic vf_atomic
#define atomic_size_t vf_atomic_size_t
#define atomic_thread_fence vf_thread_fence
#define atomic_load_explicit vf_load_explicit
#define atomic_store_explicit vf_store_explicit
#include <xme/container/spsc_queue.hpp>
#undef atomic
#undef atomic_size_t
#undef atomic_thread_fence
#undef atomic_load_explicit
#undef atomic_store_explicit

using namespace sim;

//! An element whose construction and destruction can be interrupted
struct Elem {
    Elem() { make(0); }
    explicit Elem(int x) { make(x); }
    Elem(Elem&& o) noexcept {
        const int x = o.get();
        o.write(-1, "moved from");
        make(x);
    }
    Elem(const Elem& o) noexcept { make(o.get()); }
    Elem& operator=(Elem&& o) noexcept {
        const int x = o.get();
        o.write(-1, "moved from");
        write(x, "assigned");
        return *this;
    }
    ~Elem() {
        access(this, true, "destroyed");
        if(w.alive[this] != 2)
            err("an element that isn't alive is destroyed");
        w.alive[this] = 3;
        yield();
        v = -2;
        w.alive[this] = 0;
        yield();
    }
    int get() const {
        access(this, false, "read");
        if(w.alive[this] != 2)
            err("an element is read that is ", w.alive[this] == 1 ? "not fully constructed" : "not alive");
        const int x = v;
        yield();
        if(v != x || w.alive[this] != 2)
            err("an element changed while it was read");
        return x;
    }

private:
    void make(int x) {
        access(this, true, "created");
        if(w.alive[this] != 0)
            err("an element is created over one that is alive");
        w.alive[this] = 1;
        v = -3;
        yield();
        v = x;
        w.alive[this] = 2;
        yield();
    }
    void write(int x, const char* what) {
        access(this, true, what);
        if(w.alive[this] != 2)
            err("an element is ", what, " that isn't alive");
        v = x;
    }
    int v;
};

struct History {
    std::size_t N;
    int offered = 0, accepted = 0, consumed = 0;
    int consuming = 0;  // a consumption has begun
    int known_consumed = 0, known_accepted = 0;  // what the counts have told the producer (the consumer)
};

static void body(unsigned tid);
static void (*programs[threads])(void*);
static void* args;

static void body(unsigned tid) {
    w.steps = 0, w.budget = ~u64(0);
    programs[tid](args);
    w.done[tid] = true;
    const Tid other = tid == producer ? consumer : producer;
    switch_to(w.done[other] ? main_thread : other);
    std::abort();
}

static void run(Case& c, Tid first) {
    constexpr std::size_t stack = 128 * 1024;
    static char* stacks = static_cast<char*>(std::malloc(2 * stack));
    for(Tid t : {producer, consumer}) {
        getcontext(&w.ctx[t]);
        w.ctx[t].uc_stack.ss_sp   = stacks + (t - 1) * stack;
        w.ctx[t].uc_stack.ss_size = stack;
        w.ctx[t].uc_link          = nullptr;
        makecontext(&w.ctx[t], reinterpret_cast<void (*)()>(body), 1, static_cast<unsigned>(t));
        w.t[t] = w.t[main_thread];
    }
    w.active = true;
    switch_to(first);
    w.active = false;
    if(!w.error.empty())
        fail(w.error);
    for(Tid t : {producer, consumer})
        w.t[main_thread].cur.join(w.t[t].cur);
}

//! An operation of the queue: it must end after few steps whatever the other thread does
template<typename F>
static auto op(F&& f) {
    w.steps  = 0;
    w.budget = 100;
    struct Done {
        ~Done() { w.budget = ~u64(0); }
    } d;
    return f();
}

template<typename Queue>
struct Programs {
    Queue& q;
    Case& c;
    History& h;
    u64 pushes, rounds;

    void push() {
        const int v = h.accepted + 1;
        Elem e(v);
        const bool ok = c.draw(3) == 0 ? op([&] { return q.emplace(v); }) : op([&] { return q.push(std::move(e)); });
        LOG("P: push " << v << " -> " << ok);
        const int waiting_at_most = h.accepted - h.known_consumed;
        if(!ok && waiting_at_most < static_cast<int>(h.N) - 1)
            err("a value was refused though at most ", waiting_at_most, " are waiting");
        if(ok && h.accepted - h.consumed - h.consuming >= static_cast<int>(h.N) - 1)
            err("a value was accepted by a full queue");
        h.accepted += ok;
    }

    static void producer_main(void* p) {
        auto& s = *static_cast<Programs*>(p);
        Case& c = s.c;
        for(u64 i = 0; i < s.pushes; ++i) {
            if(c.draw(3) == 2) {
                const auto room = op([&] { return s.q.write_available(); });
                LOG("P: write_available " << room);
                if(room >= s.h.N)
                    err("write_available() is ", room, " in a queue of ", s.h.N);
                const int seen = s.h.accepted + static_cast<int>(room) - (static_cast<int>(s.h.N) - 1);
                if(seen > s.h.consumed + s.h.consuming)
                    err("the producer saw room for ", room, ", there isn't that much");
                s.h.known_consumed = std::max(s.h.known_consumed, seen);
                for(std::size_t k = 0; k < room; ++k)
                    s.push();
            }
            else
                s.push();
        }
    }

    static void consumer_main(void* p) {
        auto& s = *static_cast<Programs*>(p);
        Case& c = s.c;
        for(u64 i = 0; i < s.rounds; ++i) {
            const auto n = op([&] { return s.q.read_available(); });
            LOG("C: read_available " << n);
            if(n >= s.h.N)
                err("read_available() is ", n, " in a queue of ", s.h.N);
            u64 take = n - c.draw(n + 1);
            if(static_cast<int>(n) + s.h.consumed < s.h.known_accepted)
                err("read_available() went back");
            s.h.known_accepted = std::max(s.h.known_accepted, static_cast<int>(n) + s.h.consumed);
            while(take--)
                s.consume_one(c.draw(4));
        }
    }

    void consume_one(u64 how) {
        const int want = h.consumed + 1;
        h.consuming    = 1;
        if(how == 3) {
            op([&] { q.pop(); });
            LOG("pop " << want);
        }
        else {
            int got = -9, calls = 0;
            if(how == 0)
                op([&] { q.consume([&](Elem&& e) { ++calls; got = e.get(); }); });
            else if(how == 1)
                op([&] { q.consume([&](Elem e) { ++calls; got = e.get(); }); });
            else
                op([&] { q.consume([&](const Elem& e) { ++calls; got = e.get(); }); });
            LOG("consume -> " << got);
            if(calls != 1)
                err("consume called the function ", calls, " times");
            if(got != want)
                err("the consumer received ", got, " instead of ", want);
        }
        ++h.consumed;
        h.consuming = 0;
    }
};

template<typename Queue, typename... A>
static void drive(Case& c, std::size_t N, const A&... a) {
    alarm(120);  // a case that blocks
    w             = World{};
    w.c           = &c;
    w.switches    = c.pick<u64>({4, 2, 12, 30});
    w.stale       = c.pick<u64>({4, 2, 1, 20});
    auto* q       = new Queue(a...);  // stays when the case fails
    History h{N};
    Programs<Queue> s{*q, c, h, 1 + c.draw(3 * N + 3), 1 + c.draw(2 * N + 2)};
    LOG("queue of " << N);
    // start anywhere in the buffer
    for(u64 i = c.draw(N + 1); i > 0; --i) {
        s.push();
        s.consume_one(0);
        h.known_consumed = h.known_accepted = h.consumed;
    }
    // and with any number of elements waiting
    for(u64 i = c.draw(N); i > 0; --i)
        s.push();
    h.known_accepted = h.accepted;
    if(!w.error.empty())
        fail(w.error);
    programs[producer] = Programs<Queue>::producer_main;
    programs[consumer] = Programs<Queue>::consumer_main;
    args               = &s;
    const int before   = h.consumed;
    run(c, c.draw(2) ? consumer : producer);
    const int after = h.consumed;
    // what is left
    const auto left = q->read_available();
    CHECK(static_cast<int>(left) == h.accepted - h.consumed, "after both ended read_available() is " << left << ", " << h.accepted - h.consumed << " are waiting");
    CHECK(q->write_available() == N - 1 - left, "after both ended write_available() is " << q->write_available() << " with " << left << " waiting");
    if(!c.chance(1, 4))
        while(h.consumed < h.accepted)
            s.consume_one(0);
    delete q;
    if(!w.error.empty())
        fail(w.error);
    for(auto& [p, st] : w.alive)
        CHECK(st == 0, "an element was never destroyed");
    alarm(0);
    if(w.swaps >= 3 && after > before)
        c.nontrivial();
    if(w.stale_loads)
        c.label("stale loads");
}

template<std::size_t N>
static void fixed(Case& c) {
    drive<xme::SPSCQueue<Elem, xme::Capacity<N>>>(c, N);
}
SUB(fixed_size, 60000, 1500000) {
    switch(c.draw(4)) {
    case 0: return fixed<2>(c);
    case 1: return fixed<4>(c);
    case 2: return fixed<8>(c);
    default: return fixed<16>(c);
    }
}
SUB(dynamic, 60000, 1500000) {
    const std::size_t N = c.pick<std::size_t>({2, 4, 8, 16});
    drive<xme::SPSCQueue<Elem>>(c, N, N);
}

#else
#include <xme/container/spsc_queue.hpp>

struct Elem {
    Elem() { make(0); }
    explicit Elem(int x) { make(x); }
    Elem(Elem&& o) noexcept { make(o.v), o.v = -1; }
    Elem(const Elem& o) noexcept { make(o.v); }
    ~Elem() { v = w = -2; }
    void make(int x) { v = w = x; }
    int v, w;
};

static void relax(u64 n) {
    for(volatile u64 i = 0; i < n; ++i)
        ;
}

template<typename Queue>
static void drive(Case& c, Queue& q, std::size_t N) {
    alarm(240);
    const int total     = static_cast<int>(1 + c.draw(1500));
    const u64 pace_p    = c.pick<u64>({0, 5, 60}), pace_c = c.pick<u64>({0, 5, 60});
    const u64 how       = c.draw(4);
    const bool checked  = c.draw(2);
    LOG("queue of " << N << ", " << total << " values, paces " << pace_p << " and " << pace_c << (checked ? ", counting the room" : ""));
    std::string p_error, c_error;
    std::thread producer([&] {
        for(int i = 1; i <= total;) {
            std::size_t room = checked ? q.write_available() : 1;
            if(room >= N && checked)
                p_error = "more room than the queue has";
            for(; room && i <= total; --room) {
                if(q.push(Elem(i)))
                    ++i;
                else {
                    if(checked)
                        p_error = "a value was refused though there was room";
                    break;
                }
            }
            relax(pace_p);
            if(room == 0)
                std::this_thread::yield();
        }
    });
    int next = 1;
    while(next <= total) {
        for(std::size_t n = q.read_available(); n; --n) {
            int a = 0, b = 0;
            if(how == 3 && next % 2) {
                q.pop();
                ++next;
                continue;
            }
            if(how == 1)
                q.consume([&](Elem e) { a = e.v, b = e.w; });
            else
                q.consume([&](const Elem& e) { a = e.v, b = e.w; });
            if((a != next || b != next) && c_error.empty())
                c_error = "the consumer received " + std::to_string(a) + " instead of " + std::to_string(next);
            ++next;
        }
        relax(pace_c);
        std::this_thread::yield();
    }
    producer.join();
    alarm(0);
    CHECK(p_error.empty(), p_error);
    CHECK(c_error.empty(), c_error);
    CHECK(q.read_available() == 0 && q.write_available() == N - 1, "the queue isn't empty at the end");
    if(total > static_cast<int>(N))
        c.nontrivial();
}

SUB(real_threads_dynamic, 40, 3000) {
    const std::size_t N = c.pick<std::size_t>({2, 4, 16, 64});
    xme::SPSCQueue<Elem> q(N);
    drive(c, q, N);
}
SUB(real_threads_fixed, 40, 3000) {
    if(c.draw(2)) {
        xme::SPSCQueue<Elem, xme::Capacity<8>> q;
        drive(c, q, 8);
    }
    else {
        xme::SPSCQueue<Elem, xme::Capacity<2>> q;
        drive(c, q, 2);
    }
}
#endif

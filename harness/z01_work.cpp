// Z01: how much work operations do: copies, moves, comparisons and calls of elements and allocations are counted and compared
// with what the operation may need. Steps that can't be counted are noticed by operations on large objects not coming to an end.
#include "pbt.hpp"
#include <bit>
#include <compare>
#include <cstdlib>
#include <forward_list>
#include <list>
#include <new>
#include <sstream>
#include <vector>
#include <xme/container/array_view.hpp>
#include <xme/container/container.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>

using pbt::Case;
using pbt::u64;

struct Work {
    u64 creations = 0;  // from something else than an element
    u64 copies    = 0;
    u64 moves     = 0;
    u64 ends      = 0;
    u64 compares  = 0;
    u64 calls     = 0;
    u64 allocs    = 0;
    u64 frees     = 0;
    bool operator==(const Work&) const = default;
};
static Work now_;
void* operator new(std::size_t n) {
    ++now_.allocs;
    if(void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept {
    now_.frees += p != nullptr;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { ::operator delete(p); }

struct W {
    int v = 0;
    W() noexcept { ++now_.creations; }
    W(int x) noexcept : v(x) { ++now_.creations; }
    W(const W& o) : v(o.v) { ++now_.copies; }
    W(W&& o) noexcept : v(o.v) { ++now_.moves, o.v = -1; }
    W& operator=(const W& o) { return ++now_.copies, v = o.v, *this; }
    W& operator=(W&& o) noexcept {
        ++now_.moves;
        if(this != &o)
            v = o.v, o.v = -1;
        return *this;
    }
    ~W() { ++now_.ends; }
    friend bool operator==(const W& a, const W& b) { return ++now_.compares, a.v == b.v; }
    friend std::strong_ordering operator<=>(const W& a, const W& b) { return ++now_.compares, a.v <=> b.v; }
};

template<typename F>
static Work measure(F&& f) {
    const Work before = now_;
    f();
    Work w;
    w.creations = now_.creations - before.creations;
    w.copies    = now_.copies - before.copies;
    w.moves     = now_.moves - before.moves;
    w.ends      = now_.ends - before.ends;
    w.compares  = now_.compares - before.compares;
    w.calls     = now_.calls - before.calls;
    w.allocs    = now_.allocs - before.allocs;
    w.frees     = now_.frees - before.frees;
    return w;
}
static std::string text(const Work& w) {
    std::ostringstream o;
    o << w.creations << " creations, " << w.copies << " copies, " << w.moves << " moves, " << w.ends << " destructions, " << w.compares << " comparisons, " << w.calls
      << " calls, " << w.allocs << " allocations, " << w.frees << " deallocations";
    return o.str();
}
//! Everything that isn't given may not happen at all; destructions follow from what was created
struct May {
    u64 copies = 0, moves = 0, compares = 0, calls = 0, allocs = 0, creations = 0;
    u64 made = ~u64(0);  // copies and moves together
};
#define WITHIN(work, may, what)                                                                                         \
    do {                                                                                                                \
        const Work w_ = (work);                                                                                         \
        const May m_  = (may);                                                                                          \
        LOG(what);                                                                                                      \
        CHECK(w_.copies <= m_.copies && w_.moves <= m_.moves && w_.compares <= m_.compares && w_.calls <= m_.calls      \
                && w_.allocs <= m_.allocs && w_.creations <= m_.creations && w_.copies + w_.moves <= m_.made,           \
              what << " did more than " << text({m_.creations, m_.copies, m_.moves, 0, m_.compares, m_.calls, m_.allocs, 0}) << ": " << text(w_)); \
    } while(0)
#define NOTHING(...) WITHIN(measure([&] { __VA_ARGS__; }), May{}, #__VA_ARGS__)

static u64 log2(u64 n) { return n ? static_cast<u64>(std::bit_width(n)) - 1 : 0; }

static std::vector<W> values(Case& c, u64 n, int bound = 1000) {
    std::vector<W> r;
    r.reserve(n);
    u64 x = 0;
    for(u64 i = 0; i < n; ++i) {
        x = i < 20 ? x + c.draw(static_cast<u64>(bound)) : x * 2862933555777941757ull + 3037000493ull;
        r.emplace_back(static_cast<int>((i < 20 ? x : x >> 33) % static_cast<u64>(bound)));
    }
    return r;
}
static u64 length(Case& c) { return c.chance(1, 10) ? 300 + c.draw(700) : c.chance(1, 3) ? c.draw(100) : c.draw(12); }

//! Can be read only once
struct Once {
    using value_type       = W;
    using difference_type  = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    const W* p             = nullptr;
    const W& operator*() const { return *p; }
    Once& operator++() { return ++p, *this; }
    void operator++(int) { ++p; }
    bool operator==(const Once& o) const { return p == o.p; }
};

SUB(array, 4200, 150000) {
    using A = xme::Array<W>;
    A a, b;
    int ops = 0;
    c.begin_loop({5, 15, 30});
    while(c.more()) {
        const u64 n = a.size(), cap = a.capacity();
        const bool full = n == cap;
        const u64 at    = c.draw(n + 1);
        ++ops;
        switch(c.draw(16)) {
        case 0: {
            const W x(5);
            WITHIN(measure([&] { a.push_back(x); }), (May{.copies = 2, .moves = full ? 2 * n + 2 : 2, .allocs = full}), "push_back of a value to " << n << " of " << cap);
            break;
        }
        case 1:
            WITHIN(measure([&] { a.emplace_back(7); }), (May{.moves = full ? 2 * n + 2 : 2, .allocs = full, .creations = 1}), "emplace_back to " << n << " of " << cap);
            break;
        case 2: {
            const W x(6);
            WITHIN(measure([&] { a.insert(a.begin() + static_cast<long>(at), x); }),
                   (May{.copies = 2, .moves = (full ? 2 * n : 2 * (n - at)) + 6, .allocs = full}), "insert at " << at << " of " << n << ", capacity " << cap);
            break;
        }
        case 3: {
            W x(6);
            WITHIN(measure([&] { a.insert(a.begin() + static_cast<long>(at), std::move(x)); }),
                   (May{.moves = (full ? 2 * n : 2 * (n - at)) + 6, .allocs = full}), "insert of a temporary at " << at << " of " << n << ", capacity " << cap);
            break;
        }
        case 4: {
            const auto v   = values(c, length(c));
            const u64 m    = v.size();
            const bool grow = n + m > cap;
            WITHIN(measure([&] { a.insert(a.begin() + static_cast<long>(at), v.begin(), v.end()); }),
                   (May{.copies = 2 * m, .moves = (grow ? 2 * n : 0) + 4 * (n - at + m) + 4, .allocs = grow}), "insert of " << m << " at " << at << " of " << n << ", capacity " << cap);
            break;
        }
        case 5: {
            const auto v = values(c, length(c));
            const u64 m  = v.size();
            WITHIN(measure([&] { a.insert(a.begin() + static_cast<long>(at), Once{v.data()}, Once{v.data() + m}); }),
                   (May{.copies = 2 * m, .moves = 4 * (n + m) + 4 * (n - at + m) + 4, .allocs = n + m > cap ? log2(n + m) + 2 : 0}), "insert of " << m << " read once at " << at << " of " << n);
            break;
        }
        case 6: {
            const auto v    = values(c, length(c));
            const u64 m     = v.size();
            const bool grow = n + m > cap;
            WITHIN(measure([&] { a.push_back(v); }), (May{.copies = m, .moves = grow ? 2 * n : 0, .allocs = grow}), "push_back of " << m << " to " << n << ", capacity " << cap);
            break;
        }
        case 7:
            if(at < n)
                WITHIN(measure([&] { a.erase(a.begin() + static_cast<long>(at)); }), (May{.moves = n - at}), "erase at " << at << " of " << n);
            break;
        case 8: {
            const u64 last = at + c.draw(n - at + 1);
            WITHIN(measure([&] { a.erase(a.begin() + static_cast<long>(at), a.begin() + static_cast<long>(last)); }), (May{.moves = n - last}),
                   "erase of " << at << " to " << last << " of " << n);
            break;
        }
        case 9:
            if(n)
                NOTHING(a.pop_back());
            break;
        case 10: {
            const u64 r = c.draw(2 * cap + 10);
            WITHIN(measure([&] { a.reserve(r); }), (May{.moves = r > cap ? 2 * n : 0, .allocs = r > cap}), "reserve(" << r << ") with " << n << " of " << cap);
            break;
        }
        case 11: {
            const u64 r = c.draw(2 * cap + 10);
            WITHIN(measure([&] { a.resize(r); }), (May{.moves = r != cap ? 2 * std::min(n, r) : 0, .allocs = r != cap}), "resize(" << r << ") with " << n << " of " << cap);
            break;
        }
        case 12: {
            if(c.chance(1, 2))
                WITHIN(measure([&] { A t(a); }), (May{.copies = n, .allocs = 1}), "copying " << n);
            else
                WITHIN(measure([&] { b = a; }), (May{.copies = n, .moves = 0, .allocs = 1}), "assigning " << n);
            break;
        }
        case 13: {
            NOTHING(A t(std::move(a)); a = std::move(t));
            NOTHING(a.swap(b); b.swap(a));
            if(c.chance(1, 3))
                NOTHING(a.swap(b));
            break;
        }
        case 14:
            if(c.chance(1, 3))
                NOTHING(a.clear());
            break;
        default: {
            const A& k = a;
            NOTHING((void)k.size(); (void)k.capacity(); (void)k.empty(); (void)k.begin(); (void)k.end(); (void)a.begin(); (void)k.data(); A t);
            if(n)
                NOTHING((void)k.front(); (void)k.back(); (void)a.front(); (void)k[at % n]; (void)a[at % n]);
        }
        }
        if(a.size() > 3000)
            a.clear();
    }
    if(ops > 3)
        c.nontrivial();
}
SUB(array_made, 1800, 60000) {
    const u64 n  = length(c);
    const auto v = values(c, n);
    using A      = xme::Array<W>;
    const W x(3);
    switch(c.draw(6)) {
    case 0: WITHIN(measure([&] { A a(n, x); }), (May{.copies = n, .allocs = 1}), n << " of a value"); break;
    case 1: WITHIN(measure([&] { A a(v); }), (May{.copies = n, .allocs = 1}), "a range of " << n); break;
    case 2: {
        const std::list<W> l(v.begin(), v.end());
        WITHIN(measure([&] { A a(l); }), (May{.copies = n, .allocs = 1}), "a list of " << n);
        break;
    }
    case 3: WITHIN(measure([&] { A a(n); }), (May{.allocs = 1}), "storage for " << n); break;
    case 4: {
        std::initializer_list<W> l{1, 2, 3, 4, 5};
        WITHIN(measure([&] { A a(l); }), (May{.copies = 5, .allocs = 1}), "a list of 5");
        A b(v.begin(), v.end());
        WITHIN(measure([&] { b = l; }), (May{.copies = 5, .allocs = 1}), "assigning a list of 5");
        break;
    }
    default: {
        A a;
        WITHIN(measure([&] {
                   for(u64 i = 0; i < n; ++i)
                       a.emplace_back(1);
               }),
               (May{.moves = 4 * n, .allocs = log2(n) + 2, .creations = n}), "appending " << n << " one by one");
    }
    }
    if(n > 1)
        c.nontrivial();
}

template<typename Cmp>
static void heap(Case& c) {
    using H = xme::Heap<W, xme::Array<W>, Cmp>;
    const u64 m  = length(c);
    const auto v = values(c, m, c.chance(1, 2) ? 5 : 1000);
    std::unique_ptr<H> h;
    const May made{.copies = m, .moves = m * (6 * log2(m + 1) + 8), .compares = m * (2 * log2(m + 1) + 3), .allocs = log2(m + 1) + 3};
    switch(c.draw(4)) {
    case 0: WITHIN(measure([&] { h.reset(new H(v)); }), made, "making a heap of " << m); break;
    case 1: WITHIN(measure([&] { h.reset(new H(v.begin(), v.end())); }), made, "making a heap of " << m << " by iterators"); break;
    case 2: WITHIN(measure([&] { h.reset(new H(Once{v.data()}, Once{v.data() + m})); }), made, "making a heap of " << m << " read once"); break;
    default: h.reset(new H);
    }
    u64 size   = h->size();
    int ops  = 0;
    c.begin_loop({10, 30, 60});
    while(c.more()) {
        ++ops;
        switch(c.draw(4)) {
        case 0:
        case 1: {
            const W x(static_cast<int>(c.draw(c.draw(2) ? 1000 : 5)));
            const u64 l  = log2(size + 1);
            const Work w = measure([&] {
                if(x.v % 2)
                    h->push(x);
                else
                    h->emplace(x);
            });
            const bool realloc = w.allocs > 0;
            WITHIN(w, (May{.copies = 2, .moves = (realloc ? 2 * size : 0) + 6 * l + 8, .compares = 2 * l + 3, .allocs = 1}), "push to " << size);
            ++size;
            break;
        }
        case 2:
            if(size) {
                const u64 l = log2(size);
                WITHIN(measure([&] { h->pop(); }), (May{.moves = 8 * l + 12, .compares = 3 * l + 4}), "pop from " << size);
                --size;
            }
            break;
        default: {
            const H& k = *h;
            NOTHING((void)k.size(); (void)k.empty(); (void)k.begin(); (void)k.end());
            if(size)
                NOTHING((void)k.front());
        }
        }
    }
    if(ops > 3)
        c.nontrivial();
}
SUB(heap_less, 2400, 80000) { heap<std::less<>>(c); }
struct More {
    bool operator()(const W& a, const W& b) const { return b < a; }
};
SUB(heap_more, 1800, 80000) { heap<More>(c); }

SUB(list, 3000, 100000) {
    using L = xme::LinkedList<W>;
    L a, b;
    u64 n = 0, bn = 0;
    int ops = 0;
    c.begin_loop({5, 15, 30});
    while(c.more()) {
        ++ops;
        const u64 k = c.draw(n + 1);
        auto pos    = a.before_begin();
        for(u64 i = 0; i < k; ++i)
            ++pos;
        switch(c.draw(10)) {
        case 0: {
            const W x(1);
            WITHIN(measure([&] { a.push_front(x); }), (May{.copies = 1, .allocs = 1}), "push_front");
            W y(2);
            WITHIN(measure([&] { a.push_front(std::move(y)); }), (May{.moves = 1, .allocs = 1}), "push_front of a temporary");
            n += 2;
            break;
        }
        case 1:
            WITHIN(measure([&] { a.emplace_after(pos, 3); }), (May{.allocs = 1, .creations = 1}), "emplace_after");
            ++n;
            break;
        case 2: {
            const auto v = values(c, length(c));
            WITHIN(measure([&] { a.insert_after(pos, v); }), (May{.copies = v.size(), .allocs = v.size()}), "insert_after of " << v.size());
            n += v.size();
            break;
        }
        case 3:
            if(n)
                { NOTHING(a.pop_front()); --n; }
            break;
        case 4: {
            if(n - k == 0)
                break;
            const u64 m = c.draw(n - k);
            auto last   = pos;
            for(u64 i = 0; i <= m; ++i)
                ++last;
            NOTHING(a.erase_after(pos, last));
            n -= m;
            break;
        }
        case 5: NOTHING(a.reverse()); break;
        case 6: {
            NOTHING(L t(std::move(a)); a = std::move(t));
            if(c.chance(1, 3)) {
                NOTHING(b = std::move(a));
                bn = n, n = 0;
                L t(b);
            }
            break;
        }
        case 7:
            WITHIN(measure([&] { L t(a); }), (May{.copies = n, .allocs = n}), "copying " << n);
            WITHIN(measure([&] { b = a; }), (May{.copies = n, .allocs = n}), "assigning " << n);
            bn = n;
            break;
        case 8:
            if(c.chance(1, 3))
                { NOTHING(a.clear()); n = 0; }
            break;
        default: {
            const L& x = a;
            NOTHING((void)x.begin(); (void)x.end(); (void)x.empty(); (void)a.before_begin(); L t);
            if(n)
                NOTHING((void)x.front(); (void)a.front());
        }
        }
        u64 count = 0;
        for(auto& x : a)
            count += &x != nullptr;
        CHECK(count == n, "the list has " << count << " elements instead of " << n);
        if(n > 2000)
            a.clear(), n = 0;
    }
    (void)bn;
    if(ops > 3)
        c.nontrivial();
}

template<typename Q>
static void queue(Case& c, Q& q) {
    u64 n   = 0;
    int ops = 0;
    c.begin_loop({10, 30, 60});
    while(c.more()) {
        ++ops;
        switch(c.draw(6)) {
        case 0: {
            const W x(1);
            bool done = false;
            WITHIN(measure([&] { done = q.push(x); }), (May{.copies = 1}), "push");
            n += done;
            break;
        }
        case 1: {
            W x(1);
            bool done = false;
            WITHIN(measure([&] { done = q.push(std::move(x)); }), (May{.moves = 1}), "push of a temporary");
            CHECK(done || x.v == 1, "a full queue took the value");
            n += done;
            break;
        }
        case 2: {
            bool done = false;
            WITHIN(measure([&] { done = q.emplace(4); }), (May{.creations = 1}), "emplace");
            n += done;
            break;
        }
        case 3:
            if(n)
                { NOTHING(q.pop()); --n; }
            break;
        case 4:
            if(n)
                { NOTHING(q.consume([](W&&) {})); --n; }
            break;
        default: NOTHING((void)q.read_available(); (void)q.write_available());
        }
    }
    if(ops > 3)
        c.nontrivial();
}
SUB(queues, 2400, 80000) {
    switch(c.draw(4)) {
    case 0: {
        xme::SPSCQueue<W> q(u64(1) << (1 + c.draw(6)));
        return queue(c, q);
    }
    case 1: {
        xme::SPSCQueue<W, xme::Capacity<2>> q;
        return queue(c, q);
    }
    case 2: {
        xme::SPSCQueue<W, xme::Capacity<8>> q;
        return queue(c, q);
    }
    default: {
        WITHIN(measure([&] { xme::SPSCQueue<W> q(64); }), May{.allocs = 1}, "making a queue");
        xme::SPSCQueue<W, xme::Capacity<64>> q;
        return queue(c, q);
    }
    }
}

SUB(find, 3600, 120000) {
    auto v         = values(c, length(c), c.chance(1, 2) ? 4 : 1000);
    const W needle = v.empty() || c.chance(1, 3) ? W(static_cast<int>(c.draw(1000))) : W(v[c.draw(v.size())].v);
    u64 at         = 0;
    while(at < v.size() && v[at].v != needle.v)
        ++at;
    const u64 most = at < v.size() ? at + 1 : v.size();
    long r         = -1;
    const May may{.compares = most};
    switch(c.draw(5)) {
    case 0: WITHIN(measure([&] { r = xme::find(v.begin(), v.end(), needle) - v.begin(); }), may, "find"); break;
    case 1: WITHIN(measure([&] { r = xme::find(v, needle) - v.begin(); }), may, "find in a range"); break;
    case 2: WITHIN(measure([&] { r = xme::find(Once{v.data()}, Once{v.data() + v.size()}, needle).p - v.data(); }), may, "find in what is read once"); break;
    case 3: {
        const xme::ArrayView<const W> view(v.data(), v.size());
        WITHIN(measure([&] { r = xme::find(view, needle) - view.begin(); }), may, "find in a view");
        break;
    }
    default: {
        const std::forward_list<W> l(v.begin(), v.end());
        WITHIN(measure([&] { r = std::distance(l.begin(), xme::find(l, needle)); }), may, "find in a list");
    }
    }
    CHECK(r == static_cast<long>(at), "found at " << r << " instead of " << at);
    if(v.size() > 1)
        c.nontrivial();
}
SUB(reverse, 1800, 60000) {
    auto v      = values(c, length(c));
    const u64 n = v.size();
    const May may{.moves = 3 * (n / 2)};
    switch(c.draw(4)) {
    case 0: WITHIN(measure([&] { xme::reverse(v); }), may, "reverse of " << n); break;
    case 1: WITHIN(measure([&] { xme::reverse(v.begin(), v.end()); }), may, "reverse of " << n); break;
    case 2: {
        std::list<W> l(v.begin(), v.end());
        WITHIN(measure([&] { xme::reverse(l); }), may, "reverse of a list of " << n);
        break;
    }
    default: {
        xme::Array<W> a(v);
        WITHIN(measure([&] { xme::reverse(a); }), may, "reverse of an Array of " << n);
    }
    }
    if(n > 1)
        c.nontrivial();
}

// Targets of Delegates ---------------------------------------------------------------------------------------------------

struct Target {
    W w;
    int operator()(const W& x) {
        ++now_.calls;
        return w.v + x.v;
    }
};
struct Little {
    int n;
    int operator()(const W& x) const {
        ++now_.calls;
        return n + x.v;
    }
};
//! As large as a pointer to a member
struct Pointing {
    const int* n;
    const W* w;
    int operator()(const W& x) const {
        ++now_.calls;
        return *n + w->v + x.v;
    }
};
static int function(const W& x) {
    ++now_.calls;
    return x.v;
}
SUB(delegates, 3000, 100000) {
    using D = xme::Delegate<int(const W&)>;
    D d[2];
    const W x(3);
    int ops = 0;
    c.begin_loop({5, 15, 30});
    while(c.more()) {
        ++ops;
        D& a = d[c.draw(2)];
        D& b = d[c.draw(2)];
        switch(c.draw(9)) {
        case 0: {
            const Target t{W(2)};
            WITHIN(measure([&] { a = t; }), (May{.copies = 1, .moves = 2, .allocs = 1}), "assigning a target");
            break;
        }
        case 1: {
            Target t{W(2)};
            WITHIN(measure([&] { a = std::move(t); }), (May{.moves = 3, .allocs = 1}), "assigning a temporary target");
            break;
        }
        case 2: {
            static const int four = 4;
            switch(c.draw(4)) {
            case 0: NOTHING(a = Little{4}); break;
            case 1: NOTHING((a = Pointing{&four, &x})); break;
            case 2: NOTHING((a = [n = &four](const W& v) { return ++now_.calls, *n + v.v; })); break;
            default: NOTHING((a = [](const W& v) { return ++now_.calls, v.v; }));
            }
            break;
        }
        case 3: NOTHING(a = &function); break;
        case 4:
            if(&a != &b)
                WITHIN(measure([&] { a = b; }), (May{.copies = 1, .allocs = 1}), "copying a Delegate");
            break;
        case 5:
            if(&a != &b)
                NOTHING(a = std::move(b));
            break;
        case 6: NOTHING(a.swap(b)); break;
        case 7: NOTHING(D t(std::move(a)); a.swap(t); (void)static_cast<bool>(a); D e); break;
        default:
            if(a)
                WITHIN(measure([&] { a(x); }), May{.calls = 1}, "a call");
        }
    }
    if(ops > 3)
        c.nontrivial();
}
SUB(bound, 1800, 60000) {
    const W x(1), y(2);
    W z(5);
    auto f = [](const W& a, const W& b, int n) {
        ++now_.calls;
        return a.v + b.v + n;
    };
    switch(c.draw(5)) {
    case 0: WITHIN(measure([&] { auto b = xme::bind_front(f, x, y); }), (May{.copies = 2, .moves = 4}), "bind_front"); break;
    case 1: WITHIN(measure([&] { auto b = xme::bind_back(f, std::move(z), 3); }), (May{.moves = 3}), "bind_back"); break;
    case 2: {
        auto b = xme::bind_front(f, x, y);
        WITHIN(measure([&] { b(4); }), May{.calls = 1}, "calling what bind_front gives");
        const auto& k = b;
        WITHIN(measure([&] { k(4); }), May{.calls = 1}, "calling what bind_front gives");
        break;
    }
    case 3: {
        auto b = xme::bind_back(f, y, 5);
        WITHIN(measure([&] { b(x); }), May{.calls = 1}, "calling what bind_back gives");
        break;
    }
    default: {
        auto b = xme::bind_front(f, x, y);
        WITHIN(measure([&] { auto t = std::move(b); }), May{.moves = 2}, "moving what bind_front gives");
    }
    }
    c.nontrivial();
}
SUB(tuples, 2400, 80000) {
    using T = xme::Tuple<W, int, W, W>;
    using P = xme::Pair<W, W>;
    const int n[6]{(int)c.draw(3), (int)c.draw(3), (int)c.draw(3), (int)c.draw(3), (int)c.draw(3), (int)c.draw(3)};
    T a{W(n[0]), 1, W(n[1]), W(n[2])}, b{W(n[3]), 1, W(n[4]), W(n[5])};
    P p{W(n[0]), W(n[1])}, q{W(n[3]), W(n[4])};
    u64 same = 0;
    while(same < 3 && n[same] == n[3 + same])
        ++same;
    const u64 most = std::min<u64>(same + 1, 3), most2 = std::min<u64>(same + 1, 2);
    switch(c.draw(6)) {
    case 0: NOTHING((void)xme::get<0>(a); (void)xme::get<3>(a); (void)xme::get<1>(p); (void)xme::get<2>(std::move(b)); (void)std::as_const(p)); break;
    case 1: WITHIN(measure([&] { T t(a); P s(p); }), May{.copies = 5}, "copying a Tuple and a Pair"); break;
    case 2: WITHIN(measure([&] { T t(std::move(a)); P s(std::move(p)); b = std::move(t); q = std::move(s); }), May{.moves = 10}, "moving a Tuple and a Pair"); break;
    case 3: WITHIN(measure([&] { std::ranges::swap(a, b); std::ranges::swap(p, q); }), May{.moves = 15}, "swapping Tuples and Pairs"); break;
    case 4:
        WITHIN(measure([&] { (void)(a == b); }), May{.compares = most}, "== of Tuples");
        WITHIN(measure([&] { (void)(p == q); }), May{.compares = most2}, "== of Pairs");
        break;
    default:
        WITHIN(measure([&] { (void)(a < b); }), May{.compares = 2 * most}, "< of Tuples");
        WITHIN(measure([&] { (void)(p < q); }), May{.compares = 2 * most2}, "< of Pairs");
    }
    c.nontrivial();
}

// Objects as elements: those whose moves don't throw say so, otherwise the containers of std copy them -----------------------

template<typename X, typename Make>
static void as_elements(Case& c, const char* name, Make make) {
    const u64 n = 1 + c.draw(20);
    std::vector<X> v;
    v.reserve(n);
    for(u64 i = 0; i < n; ++i)
        v.emplace_back(make(values(c, c.draw(5))));
    const X* const before = v.data();
    const May may{.moves = 40 * n, .allocs = 1};
    WITHIN(measure([&] { v.reserve(2 * n); }), may, "moving a vector of " << n << " " << name);
    CHECK(v.data() != before);
    xme::Array<X> a(n);
    for(auto& x : v)
        a.emplace_back(std::move(x));
    WITHIN(measure([&] { a.reserve(2 * n); }), may, "moving an Array of " << n << " " << name);
    if constexpr(std::swappable<X>)
        WITHIN(measure([&] { xme::reverse(a); }), (May{.moves = 60 * n}), "reversing an Array of " << n << " " << name);
    WITHIN(measure([&] { a.erase(a.begin()); }), (May{.moves = 40 * n}), "erasing from an Array of " << n << " " << name);
    c.nontrivial();
}
SUB(elements, 500, 5000) {
    auto f = [](const W& a, const W& b) { return a.v + b.v; };
    using Bound = decltype(xme::bind_front(f, W(1)));
    switch(c.draw(8)) {
    case 0: as_elements<xme::Array<W>>(c, "Arrays", [](const auto& v) { return xme::Array<W>(v); }); break;
    case 1: as_elements<xme::Heap<W>>(c, "Heaps", [](const auto& v) { return xme::Heap<W>(v); }); break;
    case 2: as_elements<xme::LinkedList<W>>(c, "LinkedLists", [](const auto& v) { return v; }); break;
    case 3: as_elements<xme::Delegate<int(const W&)>>(c, "Delegates", [](const auto& v) { return Target{W(static_cast<int>(v.size()))}; }); break;
    case 4: as_elements<xme::Tuple<W, int, W>>(c, "Tuples", [](const auto& v) { return xme::Tuple<W, int, W>{W(1), 2, W(3)}; }); break;
    case 5: as_elements<xme::Pair<W, xme::Array<W>>>(c, "Pairs", [](const auto& v) { return xme::Pair<W, xme::Array<W>>{W(1), xme::Array<W>(v)}; }); break;
    case 6: as_elements<xme::Tuple<xme::Array<W>, xme::Delegate<int(const W&)>>>(c, "Tuples of Arrays and Delegates", [](const auto& v) {
            return xme::Tuple<xme::Array<W>, xme::Delegate<int(const W&)>>{xme::Array<W>(v), xme::Delegate<int(const W&)>(Target{W(2)})};
        });
        break;
    default: {
        std::vector<Bound> v;
        const u64 n = 1 + c.draw(20);
        v.reserve(n);
        for(u64 i = 0; i < n; ++i)
            v.push_back(xme::bind_front(f, W(2)));
        WITHIN(measure([&] { v.reserve(2 * n); }), (May{.moves = 4 * n, .allocs = 1}), "moving a vector of " << n << " bound objects");
        c.nontrivial();
    }
    }
}

// Steps that can't be counted --------------------------------------------------------------------------------------------

SUB(large, 6, 24) {
    const u64 n = 200000 + c.draw(1000), times = 100000;
    switch(c.enumerate(6)) {
    case 0: {
        xme::LinkedList<int> l;
        auto last = l.before_begin();
        for(u64 i = 0; i < n; ++i)
            last = l.insert_after(last, static_cast<int>(i));
        for(u64 i = 0; i < times; ++i) {
            l.insert_after(last, 1);
            l.push_front(2);
            CHECK(!l.empty() && l.front() == 2);
            l.pop_front();
            l.erase_after(last);
        }
        break;
    }
    case 1: {
        xme::LinkedList<int> l, m;
        for(u64 i = 0; i < n; ++i)
            l.push_front(1);
        for(u64 i = 0; i < times; ++i) {
            xme::LinkedList<int> t(std::move(l));
            m = std::move(t);
            l = std::move(m);
        }
        CHECK(l.front() == 1);
        break;
    }
    case 2: {
        xme::Array<int> a(n, 3), b;
        u64 sum = 0;
        for(u64 i = 0; i < times; ++i) {
            xme::Array<int> t(std::move(a));
            b = std::move(t);
            a.swap(b);
            a.push_back(2);
            sum += a.size() + static_cast<u64>(a.back()) + a.capacity();
            a.pop_back();
            a.erase(a.end(), a.end());
            a.insert(a.end(), 4);
            a.erase(a.end() - 1);
        }
        CHECK(a.size() == n && sum > n);
        break;
    }
    case 3: {
        std::vector<int> v(n);
        for(int& x : v)
            x = static_cast<int>(c.bits() % 1000000);
        xme::Heap<int> h(v);
        for(u64 i = 0; i < times; ++i) {
            h.push(static_cast<int>(i * 7919 % 1000000));
            CHECK(h.front() >= 0 && !h.empty() && h.size() == n + 1);
            h.pop();
        }
        break;
    }
    case 4: {
        xme::SPSCQueue<int> q(u64(1) << 18);
        while(q.push(1)) {}
        for(u64 i = 0; i < times * 10; ++i) {
            q.pop();
            CHECK(q.write_available() == 1 && q.read_available() == (u64(1) << 18) - 2);
            q.push(2);
        }
        break;
    }
    default: {
        std::vector<int> v(n, 1);
        const xme::ArrayView<const int> view(v.data(), v.size());
        for(u64 i = 0; i < times; ++i) {
            auto s = view.subview(i, n - i);
            CHECK(s.size() == n - i && s.front() == 1 && !s.empty());
            CHECK(xme::find(s, 1) == s.begin());
        }
    }
    }
    c.nontrivial();
}

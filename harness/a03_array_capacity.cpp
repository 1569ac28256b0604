// A03: capacity promises
#include "array_history.hpp"

using T = el::Tracked<el::copyable>;
using A = el::TrackAlloc<T>;
using Arr = xme::Array<T, A>;


namespace {
struct Snapshot {
    std::size_t size, cap;
    const T* data;
    u64 allocs, frees, ops;
    std::vector<u64> serials;
    std::vector<int> values;
    explicit Snapshot(const Arr& a) :
      size(a.size()), cap(a.capacity()), data(a.data()), allocs(world.allocs), frees(world.frees),
      ops(world.ops()) {
        for(std::size_t i = 0; i < size; ++i) {
            serials.push_back(world.serial_of(a.data() + i));
            values.push_back(a[static_cast<std::ptrdiff_t>(i)].get());
        }
    }
};

//! The capacity sufficed for `added` more elements, put at `pos`
void in_place(const Arr& a, const Snapshot& s, std::size_t pos) {
    CHECK(world.allocs == s.allocs, "memory was obtained although the capacity was sufficient");
    CHECK(world.frees == s.frees, "memory was returned although the capacity was sufficient");
    CHECK(a.capacity() == s.cap, "the capacity changed from " << s.cap << " to " << a.capacity());
    CHECK(a.data() == s.data, "the elements were moved elsewhere");
    for(std::size_t i = 0; i < pos; ++i) {
        CHECK(world.serial_of(a.data() + i) == s.serials[i], "element " << i << " was replaced");
        CHECK(a[static_cast<std::ptrdiff_t>(i)].get() == s.values[i], "element " << i << " changed");
    }
}
void untouched(const Arr& a, const Snapshot& s, std::size_t n) {
    CHECK(a.data() == s.data);
    in_place(a, s, n);
}
}  // namespace

SUB(promises, 12000, 200000) {
    world.reset();
    Arr a, b;
    auto build = [&](Arr& x) {
        std::vector<T> v;
        const std::size_t n = c.draw(10);
        for(std::size_t i = 0; i < n; ++i)
            v.emplace_back(static_cast<int>(i));
        const u64 made = world.live.size();
        switch(c.draw(4)) {
        case 0: {
            const std::size_t k = c.draw(40);
            LOG("Array(" << k << ")");
            x = Arr(k);
            CHECK(x.capacity() >= k && x.size() == 0, "Array(" << k << ") has room for " << x.capacity());
            CHECK(world.live.size() <= made, "Array(n) created elements");
            break;
        }
        case 1: LOG("Array(range of " << n << ")"); x = Arr(v); break;
        case 2: LOG("Array(" << n << ", value)"); x = Arr(n, T(4)); break;
        default: LOG("default"); x = Arr();
        }
    };
    build(a);
    build(b);
    int done = 0;
    c.begin_loop({3, 10, 25, 50});
    while(c.more()) {
        const Snapshot s(a);
        const std::size_t room = s.cap - s.size;
        const auto it = [&](std::size_t i) { return Arr::const_iterator(a.begin() + static_cast<std::ptrdiff_t>(i)); };
        switch(c.draw(16)) {
        case 0: {
            const std::size_t n = c.draw(2) ? c.draw(s.cap + 1) : s.cap + c.draw(30);
            LOG("reserve(" << n << ") with capacity " << s.cap);
            a.reserve(n);
            CHECK(a.capacity() >= n && a.capacity() >= s.cap, "reserve(" << n << ") with capacity " << s.cap << " left " << a.capacity());
            CHECK(a.size() == s.size);
            if(n <= s.cap)
                untouched(a, s, s.size);
            for(std::size_t i = 0; i < s.size; ++i)
                CHECK(a[static_cast<std::ptrdiff_t>(i)].get() == s.values[i]);
            break;
        }
        case 1: {
            const std::size_t n = c.draw(2) ? c.draw(s.cap + 1) : s.cap + c.draw(20);
            LOG("resize(" << n << ") with capacity " << s.cap);
            a.resize(n);
            CHECK(a.capacity() == n, "resize(" << n << ") left a capacity of " << a.capacity());
            CHECK(a.size() == std::min(s.size, n), "resize(" << n << ") of " << s.size << " elements left " << a.size());
            for(std::size_t i = 0; i < a.size(); ++i)
                CHECK(a[static_cast<std::ptrdiff_t>(i)].get() == s.values[i]);
            break;
        }
        case 2:
            if(!c.chance(1, 3))
                break;
            LOG("clear()");
            a.clear();
            CHECK(a.size() == 0);
            in_place(a, s, 0);
            break;
        case 3:
            if(s.size) {
                LOG("pop_back()");
                a.pop_back();
                CHECK(a.size() == s.size - 1);
                in_place(a, s, s.size - 1);
            }
            break;
        case 4:
            if(s.size) {
                const std::size_t p = c.draw(s.size);
                LOG("erase(" << p << ")");
                a.erase(it(p));
                CHECK(a.size() == s.size - 1);
                in_place(a, s, p);
            }
            break;
        case 5: {
            const std::size_t p = c.draw(s.size + 1), q = p + c.draw(s.size - p + 1);
            LOG("erase(" << p << ", " << q << ")");
            a.erase(it(p), it(q));
            CHECK(a.size() == s.size - (q - p));
            in_place(a, s, p);
            break;
        }
        case 6:
        case 7:
            LOG("push_back with room for " << room);
            a.push_back(T(7));
            if(room)
                in_place(a, s, s.size);
            break;
        case 8:
            LOG("emplace_back with room for " << room);
            a.emplace_back(8);
            if(room)
                in_place(a, s, s.size);
            break;
        case 9:
        case 10: {
            const std::size_t p = c.draw(s.size + 1);
            LOG("insert(" << p << ") with room for " << room);
            const T x(9);
            a.insert(it(p), x);
            if(room)
                in_place(a, s, p);
            break;
        }
        case 11: {
            const std::size_t p = c.draw(s.size + 1);
            const std::size_t n = room && c.chance(2, 3) ? c.draw(room + 1) : c.draw(8);
            std::vector<T> v;
            for(std::size_t i = 0; i < n; ++i)
                v.emplace_back(static_cast<int>(100 + i));
            LOG("insert of " << n << " at " << p << " with room for " << room);
            a.insert(it(p), v.begin(), v.end());
            if(n <= room)
                in_place(a, s, p);
            break;
        }
        case 12: {
            const std::size_t n = room && c.chance(2, 3) ? c.draw(room + 1) : c.draw(8);
            std::list<T> v;
            for(std::size_t i = 0; i < n; ++i)
                v.emplace_back(static_cast<int>(100 + i));
            LOG("push_back of " << n << " with room for " << room);
            if(c.chance(1, 2))
                a.push_back(v);
            else
                a.push_back(v.begin(), v.end());
            if(n <= room)
                in_place(a, s, s.size);
            break;
        }
        case 13: {
            LOG("swap");
            const Snapshot t(b);
            const u64 ops = world.ops();
            a.swap(b);
            CHECK(world.ops() == ops, "swap touched the elements");
            CHECK(a.capacity() == t.cap && b.capacity() == s.cap, "swap did not exchange the capacities");
            untouched(a, t, t.size);
            untouched(b, s, s.size);
            break;
        }
        case 14: {
            LOG("move construction");
            const u64 ops = world.ops();
            Arr m(std::move(a));
            CHECK(world.ops() == ops, "moving touched the elements");
            CHECK(m.size() == s.size);
            untouched(m, s, s.size);
            a.clear();
            CHECK(a.capacity() >= a.size());
            if(c.chance(1, 2))
                a = std::move(m);
            else
                b.swap(m);
            break;
        }
        default: {
            LOG("move assignment");
            // the target's elements are destroyed, and nothing else happens
            const Snapshot t(b);
            const u64 ops = world.ops(), dead = world.dead;
            a = std::move(b);
            CHECK(world.ops() - ops == world.dead - dead, "move assignment touched the elements");
            CHECK(a.size() == t.size && a.capacity() == t.cap && a.data() == t.data, "the storage was not handed over");
            CHECK(world.allocs == t.allocs, "move assignment obtained memory");
            for(std::size_t i = 0; i < t.size; ++i)
                CHECK(world.serial_of(a.data() + i) == t.serials[i], "element " << i << " was replaced");
            b.clear();
        }
        }
        CHECK(a.size() <= a.capacity() && b.size() <= b.capacity());
        if(s.size > 1)
            ++done;
        if(s.size > 60)
            a.clear();
    }
    if(done >= 3)
        c.nontrivial();
}

//! Appending one by one is amortised
SUB(amortised, 60, 600) {
    world.reset();
    const std::size_t n = 1 + c.draw(5000);
    const u64 how       = c.draw(4);
    Arr a;
    if(how == 3)
        a.reserve(c.draw(20));
    LOG(n << " elements, way " << how);
    const u64 before = world.allocs, moves = world.ops();
    for(std::size_t i = 0; i < n; ++i) {
        if(how == 0)
            a.push_back(T(1));
        else if(how == 1)
            a.emplace_back(1);
        else if(how == 2)
            a.insert(a.end(), T(1));
        else {
            const T x(1);
            a.push_back(x);
        }
    }
    const double logn = std::log2(static_cast<double>(n) + 1);
    CHECK(static_cast<double>(world.allocs - before) <= 5 * logn + 8, n << " appends obtained memory " << world.allocs - before << " times");
    (void)moves;
    CHECK(a.size() == n);
    if(n > 30)
        c.nontrivial();
}

//! Positions and capacities that 32 bits don't count, in memory that is never touched but at a few places
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
#include <sys/mman.h>
namespace {
//! Stands for an element that is already there
struct Zero {
    operator unsigned char() const { return 0; }
};

template<typename U>
struct LazyAlloc {
    using value_type      = U;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    U* allocate(std::size_t n) {
        void* p = mmap(nullptr, n * sizeof(U) + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED)
            throw std::bad_alloc();
        return static_cast<U*>(p);
    }
    void deallocate(U* p, std::size_t n) { munmap(p, n * sizeof(U) + 1); }
    template<typename... Args>
    void construct(U* p, Args&&... args) {
        if constexpr(!(std::is_same_v<std::remove_cvref_t<Args>, Zero> && ...))
            ::new(static_cast<void*>(p)) U(std::forward<Args>(args)...);
    }
    void destroy(U*) {}
    bool operator==(const LazyAlloc&) const = default;
};

struct Zeros {
    using value_type        = Zero;
    using difference_type   = std::ptrdiff_t;
    using reference         = Zero;
    using pointer           = void;
    using iterator_category = std::random_access_iterator_tag;
    std::ptrdiff_t i        = 0;
    Zero operator*() const { return {}; }
    Zero operator[](std::ptrdiff_t) const { return {}; }
    Zeros& operator++() { return ++i, *this; }
    Zeros operator++(int) { return {i++}; }
    Zeros& operator--() { return --i, *this; }
    Zeros operator--(int) { return {i--}; }
    Zeros& operator+=(std::ptrdiff_t n) { return i += n, *this; }
    Zeros& operator-=(std::ptrdiff_t n) { return i -= n, *this; }
    friend Zeros operator+(Zeros a, std::ptrdiff_t n) { return {a.i + n}; }
    friend Zeros operator+(std::ptrdiff_t n, Zeros a) { return {a.i + n}; }
    friend Zeros operator-(Zeros a, std::ptrdiff_t n) { return {a.i - n}; }
    friend std::ptrdiff_t operator-(Zeros a, Zeros b) { return a.i - b.i; }
    auto operator<=>(const Zeros&) const = default;
};
}  // namespace

SUB(beyond_32_bits, 1, 4) {
    using Array         = xme::Array<unsigned char, LazyAlloc<unsigned char>>;
    const std::size_t n = (std::size_t(1) << 32) + c.draw(100), room = n + 40 + c.draw(std::size_t(1) << 33);
    LOG("beyond: " << n << " elements");
    {
        // grown by what is appended
        Array a;
        a.push_back(Zeros{0}, Zeros{static_cast<std::ptrdiff_t>(n)});
        CHECK(a.size() == n && a.capacity() >= n && &a.back() - a.data() == static_cast<std::ptrdiff_t>(n) - 1, "appending " << n << " made " << a.size());
        Array b(Zeros{0}, Zeros{static_cast<std::ptrdiff_t>(n)});
        CHECK(b.size() == n && b.capacity() >= n, "Array(first, last) of " << n << " made " << b.size());
        a.clear();
        CHECK(a.empty() && a.capacity() >= n, "clear() left " << a.size());
        a.resize(n + 1000);
        CHECK(a.empty() && a.capacity() == n + 1000, "resize(" << n + 1000 << ") made room for " << a.capacity());
        a.resize(n - (std::size_t(1) << 32) + 7);
        CHECK(a.capacity() == n - (std::size_t(1) << 32) + 7, "resize made room for " << a.capacity());
    }
    Array a;
    a.reserve(room);
    CHECK(a.capacity() >= room && a.capacity() < 2 * room && a.empty(), "reserve(" << room << ") made room for " << a.capacity());
    const std::size_t cap = a.capacity();
    const auto* const data = a.data();
    a.push_back(Zeros{0}, Zeros{static_cast<std::ptrdiff_t>(n)});
    CHECK(a.size() == n && a.capacity() == cap && a.data() == data, "appending " << n << " elements made " << a.size() << " of them");
    CHECK(a.end() - a.begin() == static_cast<std::ptrdiff_t>(n) && &a.back() == data + n - 1);
    // the last elements, everything before is 0
    const std::size_t base = n - 20;
    std::vector<int> m(20);
    for(std::size_t i = 0; i < 20; ++i)
        m[i] = a[static_cast<std::ptrdiff_t>(base + i)] = static_cast<unsigned char>(100 + i);
    auto verify = [&](const char* what) {
        CHECK(a.size() == base + m.size() && a.capacity() == cap && a.data() == data, what << ": size " << a.size());
        for(std::size_t i = 0; i < m.size(); ++i) {
            CHECK(a[static_cast<std::ptrdiff_t>(base + i)] == m[i], what << ": " << base + i);
            CHECK(a.begin()[static_cast<std::ptrdiff_t>(base + i)] == m[i], what << ": " << base + i);
            CHECK(*(a.end() - static_cast<std::ptrdiff_t>(m.size() - i)) == m[i], what << ": " << base + i);
        }
        for(std::size_t k : {std::size_t(0), base - 1, base - (std::size_t(1) << 32) + 3, std::size_t(1) << 31})
            if(k < base)
                CHECK(a[static_cast<std::ptrdiff_t>(k)] == 0, what << ": element " << k << " was written");
    };
    verify("writing");
    for(int i = 0; i < 12; ++i) {
        const std::size_t at = c.draw(m.size() + 1);
        const auto off       = static_cast<std::ptrdiff_t>(at);
        const auto p         = a.begin() + static_cast<std::ptrdiff_t>(base + at);
        const auto v         = static_cast<unsigned char>(c.draw(250));
        switch(c.draw(6)) {
        case 0: {
            LOG("insert at " << base + at);
            auto r = a.insert(p, v);
            m.insert(m.begin() + off, v);
            CHECK(r - a.begin() == static_cast<std::ptrdiff_t>(base + at));
            break;
        }
        case 1: {
            LOG("insert a range at " << base + at);
            std::vector<unsigned char> x{v, 1, 2};
            auto r = a.insert(p, x);
            m.insert(m.begin() + off, x.begin(), x.end());
            CHECK(r - a.begin() == static_cast<std::ptrdiff_t>(base + at));
            break;
        }
        case 2: {
            if(at == m.size())
                break;
            LOG("erase at " << base + at);
            auto r = a.erase(p);
            m.erase(m.begin() + off);
            CHECK(r - a.begin() == static_cast<std::ptrdiff_t>(base + at));
            break;
        }
        case 3: {
            const auto to = static_cast<std::ptrdiff_t>(at + c.draw(m.size() - at + 1));
            LOG("erase from " << base + at << ", " << to - off);
            auto r = a.erase(p, a.begin() + static_cast<std::ptrdiff_t>(base) + to);
            m.erase(m.begin() + off, m.begin() + to);
            CHECK(r - a.begin() == static_cast<std::ptrdiff_t>(base + at));
            break;
        }
        case 4: {
            LOG("push_back");
            a.push_back(v);
            m.push_back(v);
            break;
        }
        default: {
            if(m.empty())
                break;
            LOG("pop_back");
            a.pop_back();
            m.pop_back();
        }
        }
        verify("after it");
    }
    Array b(std::move(a));
    CHECK(b.data() == data && b.size() == base + m.size() && b.capacity() == cap, "moving");
    a = std::move(b);
    verify("moving back");
    // all but a few of the first
    const std::size_t size = a.size();
    a.erase(a.begin() + 3, a.end() - 2);
    CHECK(a.size() == 5 && a.capacity() == cap, "erasing all but 5 of " << size << " left " << a.size());
    c.nontrivial();
}
#endif

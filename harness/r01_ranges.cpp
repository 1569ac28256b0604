// R01: uninitialized_copy_a, uninitialized_fill_n_a, destroy_a, destroy_n_a, destroy_at_a with a ledger
#include "elements.hpp"
#include "iterators.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <span>
#include <vector>
#include <xme/ranges/uninitialized.hpp>

using el::world;
using its::ssize;
using Tr  = el::Tracked<el::copyable>;
using Pad = el::Tracked<el::copyable, 20>;

static constexpr std::size_t room = 48;

//! Records what goes through it; can't be copied
struct Note {
    std::vector<const void*> made, gone;
};
template<typename T>
struct Alloc {
    using value_type = T;
    Note note;
    Alloc() = default;
    Alloc(const Alloc&) = delete;
    T* allocate(std::size_t);
    void deallocate(T*, std::size_t);
    template<typename U, typename... A>
    void construct(U* p, A&&... a) {
        note.made.push_back(p);
        try {
            ::new(const_cast<void*>(static_cast<const volatile void*>(p))) U(std::forward<A>(a)...);
        }
        catch(...) {
            note.made.pop_back();
            throw;
        }
    }
    template<typename U>
    void destroy(U* p) {
        static_assert(!std::is_array_v<U>);
        note.gone.push_back(p);
        p->~U();
    }
};
//! Leaves it to allocator_traits
template<typename T>
struct Default {
    using value_type = T;
    Note note;
    Default() = default;
    Default(const Default&) = delete;
    T* allocate(std::size_t);
    void deallocate(T*, std::size_t);
};

//! Raw memory for elements
template<typename T>
struct Room {
    static constexpr std::size_t bytes = (room + 2) * sizeof(T);
    alignas(T) unsigned char raw[bytes];
    Room() { std::memset(raw, 0xA7, bytes); }
    T* at(std::size_t i) { return reinterpret_cast<T*>(raw) + 1 + i; }
    //! the bytes of [from, to) aren't looked at
    void untouched(std::size_t from, std::size_t to) {
        for(std::size_t i = 0; i < bytes; ++i)
            if(i / sizeof(T) < from + 1 || i / sizeof(T) >= to + 1)
                CHECK(raw[i] == 0xA7, "the byte " << static_cast<ssize>(i) - static_cast<ssize>(sizeof(T)) << " was written");
    }
};

//! Iterator over every second slot, so that addresses have to come from the iterator
template<typename T>
struct Stride {
    using value_type        = T;
    using difference_type   = ssize;
    using reference         = T&;
    using pointer           = T*;
    using iterator_category = std::forward_iterator_tag;
    T* p = nullptr;
    T& operator*() const { return *p; }
    Stride& operator++() {
        p += 2;
        return *this;
    }
    Stride operator++(int) {
        Stride r = *this;
        ++*this;
        return r;
    }
    friend bool operator==(const Stride&, const Stride&) = default;
};
template<typename T>
struct StrideEnd {
    T* p;
    friend bool operator==(const Stride<T>& i, const StrideEnd& e) { return i.p == e.p; }
};

template<typename A>
static constexpr bool notes = requires(A& a) { a.destroy(static_cast<Tr*>(nullptr)); };

template<typename A>
static void noted(const A& a, const std::vector<const void*>& made, const std::vector<const void*>& gone) {
    if constexpr(notes<A>) {
        CHECK(a.note.made == made, a.note.made.size() << " elements were created through the allocator, not " << made.size()
                                                      << ", or in another order");
        auto x = a.note.gone, y = gone;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        CHECK(x == y, x.size() << " elements were destroyed through the allocator, not " << y.size());
    }
}
static void alive(const std::vector<const void*>& who) {
    world.check();
    CHECK(world.live.size() == who.size(), world.live.size() << " elements are alive, not " << who.size());
    for(std::size_t i = 0; i < who.size(); ++i)
        CHECK(world.live.contains(who[i]), "element " << i << " isn't alive");
}

template<typename Seq, typename T, template<typename> class A, bool Strided>
static void copy(Case& c) {
    world.reset();
    const std::size_t n = c.draw(12), m = c.draw(12);
    using From = typename Seq::value_type;
    std::vector<int> v(n);
    for(int& i : v)
        i = static_cast<int>(c.draw(1000));
    Seq src;
    for(std::size_t i = n; i-- > 0;) {
        if constexpr(requires { src.push_front(From(1)); })
            src.push_front(From(v[i]));
        else
            src.insert(src.begin(), From(v[i]));
    }
    const std::vector<const void*> base = [] {
        std::vector<const void*> r;
        for(auto& [p, o] : world.live)
            r.push_back(p);
        return r;
    }();
    Room<T> mem;
    A<T> alloc;
    const std::size_t start = c.draw(4), step = Strided ? 2 : 1, k = std::min(n, m);
    const long fault = c.chance(1, 2) ? static_cast<long>(c.draw(k + 2)) : -1;
    const u64 form = c.draw(3);
    LOG("copy " << n << " into " << m << ", starting at " << start << (Strided ? ", every second" : "") << ", fault " << fault << ", form " << form);
    auto slot = [&](std::size_t i) { return mem.at(start + i * step); };
    world.fault = fault;
    bool threw = false;
    std::size_t in_pos = 99, out_pos = 99;
    auto in_at = [&](auto it) { return static_cast<std::size_t>(std::distance(src.begin(), it)); };
    try {
        if constexpr(Strided) {
            Stride<T> b{slot(0)};
            if(form == 0) {
                auto [i, o] = xme::ranges::uninitialized_copy_a(src.begin(), src.end(), b, Stride<T>{slot(m)}, alloc);
                in_pos = in_at(i);
                out_pos = static_cast<std::size_t>(o.p - slot(0)) / 2;
            }
            else {
                auto [i, o] = xme::ranges::uninitialized_copy_a(src.begin(), src.end(), b, StrideEnd<T>{slot(m)}, alloc);
                in_pos = in_at(i);
                out_pos = static_cast<std::size_t>(o.p - slot(0)) / 2;
            }
        }
        else if(form == 0) {
            auto [i, o] = xme::ranges::uninitialized_copy_a(src.begin(), src.end(), slot(0), slot(m), alloc);
            in_pos = in_at(i);
            out_pos = static_cast<std::size_t>(o - slot(0));
        }
        else if(form == 1) {
            std::span<T> out(slot(0), m);
            auto [i, o] = xme::ranges::uninitialized_copy_a(src, out, alloc);
            in_pos = in_at(i);
            out_pos = static_cast<std::size_t>(o - out.begin());
        }
        else {
            // up to a generated place in the source
            auto [i, o] = xme::ranges::uninitialized_copy_a(std::counted_iterator(src.begin(), static_cast<ssize>(n)), std::default_sentinel,
                                                            slot(0), std::unreachable_sentinel, alloc);
            in_pos = in_at(i.base());
            out_pos = static_cast<std::size_t>(o - slot(0));
        }
    }
    catch(const el::Boom&) {
        threw = true;
    }
    world.disarm();
    const std::size_t total = !Strided && form == 2 ? n : k;
    const bool expect_throw = fault >= 0 && static_cast<std::size_t>(fault) < total;
    CHECK(threw == expect_throw, (threw ? "threw" : "the exception didn't come out"));
    std::vector<const void*> made, now = base;
    for(std::size_t i = 0; i < (threw ? static_cast<std::size_t>(fault) : total); ++i)
        made.push_back(slot(i));
    if(!threw) {
        now.insert(now.end(), made.begin(), made.end());
        CHECK(in_pos == total && out_pos == total, "stopped at " << in_pos << " and " << out_pos << ", not " << total);
        for(std::size_t i = 0; i < total; ++i)
            CHECK(el::Elem<T>::read(*slot(i)) == v[i], "element " << i);
    }
    alive(now);
    noted(alloc, made, threw ? made : std::vector<const void*>{});
    // the source is as it was
    std::size_t j = 0;
    for(auto& x : src)
        CHECK(el::Elem<From>::read(x) == v[j++], "the source was changed");
    // nothing around is written
    const std::size_t touched = expect_throw ? static_cast<std::size_t>(fault) + 1 : total;
    mem.untouched(start, start + (touched ? (touched - 1) * step + 1 : 0));
    if(!threw)
        for(std::size_t i = 0; i < total; ++i)
            slot(i)->~T();
    world.check();
    if(total > 1)
        c.nontrivial();
    if(threw)
        c.label("failed");
}
SUB_T(copy_ints, (copy<std::vector<int>, Tr, Alloc, false>), 3000, 50000);
SUB_T(copy_tracked, (copy<std::vector<Tr>, Tr, Alloc, false>), 3000, 50000);
SUB_T(copy_list, (copy<std::list<Tr>, Tr, Default, false>), 2000, 50000);
SUB_T(copy_forward_list, (copy<std::forward_list<Pad>, Pad, Alloc, true>), 2000, 50000);
SUB_T(copy_strided, (copy<std::deque<Tr>, Tr, Alloc, true>), 2000, 50000);
SUB_T(copy_default, (copy<std::vector<Tr>, Tr, Default, true>), 2000, 50000);

template<typename T, template<typename> class A, bool Strided>
static void fill(Case& c) {
    world.reset();
    const std::size_t n = c.draw(14), start = c.draw(4), step = Strided ? 2 : 1;
    const int v = static_cast<int>(c.draw(1000));
    Room<T> mem;
    A<T> alloc;
    auto slot = [&](std::size_t i) { return mem.at(start + i * step); };
    const bool other = c.chance(1, 3);  // from a value of another type
    const long fault = c.chance(1, 2) ? static_cast<long>(c.draw(n + 2)) : -1;
    LOG("fill " << n << ", starting at " << start << (Strided ? ", every second" : "") << ", fault " << fault);
    std::size_t end = 99;
    bool threw = false;
    {
        const T value(v);
        world.fault = fault;
        try {
            auto finish = [&](auto e) {
                if constexpr(Strided)
                    end = static_cast<std::size_t>(e.p - slot(0)) / 2;
                else
                    end = static_cast<std::size_t>(e - slot(0));
            };
            if constexpr(Strided) {
                if(other)
                    finish(xme::ranges::uninitialized_fill_n_a(Stride<T>{slot(0)}, n, v, alloc));
                else
                    finish(xme::ranges::uninitialized_fill_n_a(Stride<T>{slot(0)}, n, value, alloc));
            }
            else if(other)
                finish(xme::ranges::uninitialized_fill_n_a(slot(0), n, v, alloc));
            else
                finish(xme::ranges::uninitialized_fill_n_a(slot(0), n, value, alloc));
        }
        catch(const el::Boom&) {
            threw = true;
        }
        world.disarm();
        CHECK(el::Elem<T>::read(value) == v, "the value was changed");
    }
    CHECK(threw == (fault >= 0 && static_cast<std::size_t>(fault) < n), (threw ? "threw" : "the exception didn't come out"));
    std::vector<const void*> made;
    for(std::size_t i = 0; i < (threw ? static_cast<std::size_t>(fault) : n); ++i)
        made.push_back(slot(i));
    if(!threw) {
        CHECK(end == n, "the end is " << end << ", not " << n);
        for(std::size_t i = 0; i < n; ++i)
            CHECK(el::Elem<T>::read(*slot(i)) == v, "element " << i);
    }
    alive(threw ? std::vector<const void*>{} : made);
    noted(alloc, made, threw ? made : std::vector<const void*>{});
    const std::size_t touched = threw ? static_cast<std::size_t>(fault) + 1 : n;
    mem.untouched(start, start + (touched ? (touched - 1) * step + 1 : 0));
    if(!threw)
        for(std::size_t i = 0; i < n; ++i)
            slot(i)->~T();
    world.check();
    if(n > 1)
        c.nontrivial();
    if(threw)
        c.label("failed");
}
SUB_T(fill_tracked, (fill<Tr, Alloc, false>), 3000, 50000);
SUB_T(fill_padded, (fill<Pad, Alloc, true>), 2000, 50000);
SUB_T(fill_default, (fill<Tr, Default, false>), 2000, 50000);

//! Knows what it is a copy of
struct Descendant {
    int v;
    const void* from = nullptr;
    bool from_constant = false;
    explicit Descendant(int n) : v(n) {}
    Descendant(const Descendant& o) : v(o.v), from(&o), from_constant(true) {}
    Descendant(Descendant& o) : v(o.v), from(&o) {}
    Descendant(Descendant&& o) : v(o.v), from(nullptr) { o.v = -1; }
    Descendant& operator=(const Descendant&) = delete;
};
template<template<typename> class A>
static void ancestors(Case& c) {
    const std::size_t n = c.draw(12), m = c.draw(12);
    A<Descendant> alloc;
    std::vector<int> values(n);
    alignas(Descendant) unsigned char source[12 * sizeof(Descendant)], target[12 * sizeof(Descendant)];
    auto* src = reinterpret_cast<Descendant*>(source);
    auto* dst = reinterpret_cast<Descendant*>(target);
    for(std::size_t i = 0; i < n; ++i)
        new(src + i) Descendant(values[i] = static_cast<int>(c.draw(100)));
    const u64 form = n ? c.draw(4) : c.draw(3);
    LOG("ancestors " << n << " into " << m << ", form " << form);
    if(form == 3) {
        const Descendant& value = src[c.draw(n)];
        Descendant* end = xme::ranges::uninitialized_fill_n_a(dst, m, value, alloc);
        CHECK(end == dst + m, "the end");
        for(std::size_t i = 0; i < m; ++i)
            CHECK(dst[i].from == &value && dst[i].v == value.v, "element " << i << " isn't a copy of the value, but of something else");
        if(m > 1)
            c.nontrivial();
    }
    else {
        const std::size_t k = std::min(n, m);
        const Descendant* constant = src;
        bool is_constant = form != 1;
        if(form == 0)
            xme::ranges::uninitialized_copy_a(constant, constant + n, dst, dst + m, alloc);
        else if(form == 1)
            xme::ranges::uninitialized_copy_a(src, src + n, dst, dst + m, alloc);
        else
            xme::ranges::uninitialized_copy_a(std::span<const Descendant>(src, n), std::span<Descendant>(dst, m), alloc);
        for(std::size_t i = 0; i < k; ++i)
            CHECK(dst[i].from == src + i && dst[i].v == values[i] && dst[i].from_constant == is_constant,
                  "element " << i << " isn't a copy of element " << i << " of the source, but of something else, or in another way");
        if(k > 1)
            c.nontrivial();
    }
    for(std::size_t i = 0; i < n; ++i)
        CHECK(src[i].v == values[i] && !src[i].from, "the source was changed");
}
SUB_T(ancestors_own, ancestors<Alloc>, 2000, 30000);
SUB_T(ancestors_default, ancestors<Default>, 2000, 30000);

//! Exactly the given elements, of those alive all around
template<typename T, template<typename> class A>
static void destroy(Case& c) {
    world.reset();
    A<T> alloc;
    Room<T> mem;
    const std::size_t total = 24;
    for(std::size_t i = 0; i < total; ++i)
        ::new(mem.at(i)) T(static_cast<int>(i));
    const u64 form = c.draw(10);
    std::size_t b = c.draw(total + 1), e = b + c.draw(total + 1 - b);
    std::vector<bool> gone(total);
    LOG("form " << form << ", " << b << " to " << e);
    auto first = mem.at(b), last = mem.at(e);
    switch(form) {
    case 0: xme::ranges::destroy_a(first, last, alloc); break;
    case 1: {
        std::span<T> s(first, last);
        xme::ranges::destroy_a(s, alloc);
        break;
    }
    case 2: xme::ranges::destroy_a(std::counted_iterator(first, last - first), std::default_sentinel, alloc); break;
    case 3: xme::ranges::destroy_n_a(first, last - first, alloc); break;
    case 4: {
        const std::size_t n = (total - b) / 2;
        xme::ranges::destroy_n_a(Stride<T>{first}, static_cast<ssize>(n), alloc);
        for(std::size_t i = 0; i < n; ++i)
            gone[b + 2 * i] = true;
        e = b;
        break;
    }
    case 5:
        if(b < total) {
            xme::ranges::destroy_at_a(first, alloc);
            e = b + 1;
        }
        else
            e = b;
        break;
    case 6:
        b = std::min(b, total - 6), e = b + 6;
        xme::ranges::destroy_at_a(reinterpret_cast<T(*)[6]>(mem.at(b)), alloc);
        break;
    case 7:
        b = std::min(b, total - 6), e = b + 6;
        xme::ranges::destroy_at_a(reinterpret_cast<T(*)[2][3]>(mem.at(b)), alloc);
        break;
    case 8: {
        const std::size_t n = (e - b) / 3;
        e = b + n * 3;
        if(c.draw(2))
            xme::ranges::destroy_n_a(reinterpret_cast<T(*)[3]>(first), static_cast<ssize>(n), alloc);
        else
            xme::ranges::destroy_a(reinterpret_cast<T(*)[3]>(first), reinterpret_cast<T(*)[3]>(first) + n, alloc);
        break;
    }
    default: {
        const std::size_t n = (total - b) / 2;
        xme::ranges::destroy_a(Stride<T>{first}, StrideEnd<T>{first + 2 * n}, alloc);
        for(std::size_t i = 0; i < n; ++i)
            gone[b + 2 * i] = true;
        e = b;
    }
    }
    for(std::size_t i = b; i < e; ++i)
        gone[i] = true;
    std::vector<const void*> left, dead;
    for(std::size_t i = 0; i < total; ++i)
        (gone[i] ? dead : left).push_back(mem.at(i));
    alive(left);
    noted(alloc, {}, dead);
    for(std::size_t i = 0; i < total; ++i)
        if(!gone[i]) {
            CHECK(el::Elem<T>::read(*mem.at(i)) == static_cast<int>(i), "element " << i << " was changed");
            mem.at(i)->~T();
        }
    world.check();
    if(dead.size() > 1)
        c.nontrivial();
}
SUB_T(destroy_tracked, (destroy<Tr, Alloc>), 5000, 60000);
SUB_T(destroy_padded, (destroy<Pad, Alloc>), 3000, 60000);
SUB_T(destroy_default, (destroy<Tr, Default>), 3000, 60000);

//! Counts that don't fit 32 bits; nothing is really created
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
namespace {
struct Nothing {
    using value_type        = char;
    using difference_type   = std::ptrdiff_t;
    using reference         = char&;
    using pointer           = char*;
    using iterator_category = std::forward_iterator_tag;
    static inline char place;
    u64 i = 0;
    char& operator*() const { return place; }
    Nothing& operator++() { return ++i, *this; }
    Nothing operator++(int) { return {i++}; }
    friend bool operator==(const Nothing& a, const Nothing& b) { return a.i == b.i; }
};
struct CountAlloc {
    using value_type      = char;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    u64 made = 0, gone = 0;
    char* allocate(std::size_t) { return nullptr; }
    void deallocate(char*, std::size_t) {}
    template<typename... Args>
    void construct(char*, Args&&...) { ++made; }
    void destroy(char*) { ++gone; }
    bool operator==(const CountAlloc&) const { return true; }
};
}  // namespace
SUB(beyond_32_bits, 2, 10) {
    const u64 n = (u64(1) << 32) + c.draw(1000);
    const u64 w = c.draw(4);
    LOG("beyond: " << n << ", helper " << w);
    CountAlloc alloc;
    switch(w) {
    case 0: {
        const auto r = xme::ranges::uninitialized_fill_n_a(Nothing{}, n, 'x', alloc);
        CHECK(r.i == n && alloc.made == n && alloc.gone == 0, "filled " << alloc.made << ", ended at " << r.i);
        break;
    }
    case 1: {
        xme::ranges::destroy_n_a(Nothing{}, static_cast<std::ptrdiff_t>(n), alloc);
        CHECK(alloc.gone == n && alloc.made == 0, "destroyed " << alloc.gone);
        break;
    }
    case 2: {
        const auto r = xme::ranges::uninitialized_copy_a(Nothing{}, Nothing{n}, Nothing{7}, Nothing{n + 100}, alloc);
        CHECK(r.first.i == n && r.second.i == n + 7 && alloc.made == n, "copied " << alloc.made << ", ended at " << r.first.i << " and " << r.second.i);
        break;
    }
    default:
        xme::ranges::destroy_a(Nothing{}, Nothing{n}, alloc);
        CHECK(alloc.gone == n && alloc.made == 0, "destroyed " << alloc.gone);
    }
    c.nontrivial();
}
#endif

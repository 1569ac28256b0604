// Iterators to adapt, and walks over adapted ones
#pragma once
#include "pbt.hpp"
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace its {
using ssize = std::ptrdiff_t;

//! What an iterator's positions are made of; goes wrong loudly outside of them
struct Bounds {
    static inline ssize size;
    static void deref(ssize i) {
        if(i < 0 || i >= size)
            bad("dereferenced", i);
    }
    static void move(ssize i) {
        if(i < 0 || i > size)
            bad("moved to", i);
    }
    [[noreturn]] static void bad(const char* what, ssize i) {
        std::fprintf(stderr, "an iterator was %s position %td of %td\n", what, i, size);
        std::abort();
    }
};

//! An iterator over an array that checks its bounds; Level 0: bidirectional, 1: random access,
//! 2: random access without <=>
template<typename T, bool Const, int Level>
class Checked {
    template<typename, bool, int>
    friend class Checked;
    using element = std::conditional_t<Const, const T, T>;
    element* m_base = nullptr;
    ssize m_i       = 0;

public:
    using value_type        = T;
    using difference_type   = ssize;
    using reference         = element&;
    using pointer           = element*;
    using iterator_category = std::conditional_t<Level == 0, std::bidirectional_iterator_tag, std::random_access_iterator_tag>;

    Checked() = default;
    Checked(element* base, ssize i) : m_base(base), m_i(i) {}
    template<bool C>
        requires(Const && !C)
    Checked(const Checked<T, C, Level>& o) : m_base(o.m_base), m_i(o.m_i) {}

    reference operator*() const { return Bounds::deref(m_i), m_base[m_i]; }
    pointer operator->() const { return Bounds::deref(m_i), m_base + m_i; }
    Checked& operator++() { return Bounds::move(++m_i), *this; }
    Checked operator++(int) {
        Checked r = *this;
        ++*this;
        return r;
    }
    Checked& operator--() { return Bounds::move(--m_i), *this; }
    Checked operator--(int) {
        Checked r = *this;
        --*this;
        return r;
    }
    Checked& operator+=(ssize n) requires(Level > 0) { return Bounds::move(m_i += n), *this; }
    Checked& operator-=(ssize n) requires(Level > 0) { return Bounds::move(m_i -= n), *this; }
    Checked operator+(ssize n) const requires(Level > 0) { return Checked(*this) += n; }
    Checked operator-(ssize n) const requires(Level > 0) { return Checked(*this) -= n; }
    friend Checked operator+(ssize n, const Checked& i) requires(Level > 0) { return i + n; }
    reference operator[](ssize n) const requires(Level > 0) { return *(*this + n); }
    template<bool C>
    ssize operator-(const Checked<T, C, Level>& o) const requires(Level > 0) { return m_i - o.m_i; }
    template<bool C>
    bool operator==(const Checked<T, C, Level>& o) const { return m_i == o.m_i; }
    template<bool C>
    std::strong_ordering operator<=>(const Checked<T, C, Level>& o) const requires(Level == 1) { return m_i <=> o.m_i; }
    template<bool C>
    bool operator<(const Checked<T, C, Level>& o) const requires(Level == 2) { return m_i < o.m_i; }
    template<bool C>
    bool operator>(const Checked<T, C, Level>& o) const requires(Level == 2) { return m_i > o.m_i; }
    template<bool C>
    bool operator<=(const Checked<T, C, Level>& o) const requires(Level == 2) { return m_i <= o.m_i; }
    template<bool C>
    bool operator>=(const Checked<T, C, Level>& o) const requires(Level == 2) { return m_i >= o.m_i; }
    ssize position() const { return m_i; }
};

// Sources: a generated sequence, iterators over it (mutable and not), and its values in order
struct Rec {
    int key = 0;
    int twice() const { return 2 * key; }
    friend bool operator==(const Rec&, const Rec&) = default;
    friend auto operator<=>(const Rec&, const Rec&) = default;
};
struct Wide {
    int key = 0;
    char pad[124]{};
    int twice() const { return 2 * key; }
    friend bool operator==(const Wide& a, const Wide& b) { return a.key == b.key; }
};

template<typename V>
inline int key_of(const V& v) {
    if constexpr(requires { v.key; })
        return v.key;
    else if constexpr(requires { v.second; })
        return v.second;
    else
        return static_cast<int>(v);
}

template<typename Seq>
struct Container {
    Seq seq;
    std::vector<int> keys;
    using iterator       = typename Seq::iterator;
    using const_iterator = typename Seq::const_iterator;
    explicit Container(const std::vector<int>& k) : keys(k) {
        for(int i : k) {
            if constexpr(requires { seq.emplace_hint(seq.end(), 1, i); })
                seq.emplace_hint(seq.end(), static_cast<int>(seq.size()), i);
            else {
                typename Seq::value_type v{};
                if constexpr(requires { v.key; })
                    v.key = i;
                else
                    v = static_cast<typename Seq::value_type>(i);
                if constexpr(requires { seq.push_front(v); }) {
                    // both ways, so that a deque's blocks are in any order in memory
                    seq.push_back(v);
                }
                else
                    seq.push_back(v);
            }
        }
        if constexpr(std::is_same_v<typename Seq::value_type, bool>)
            for(int& i : keys)
                i = i != 0;
    }
    iterator first() { return seq.begin(); }
    const_iterator cfirst() const { return seq.begin(); }
};
template<typename T>
struct Plain {
    std::vector<T> seq;
    std::vector<int> keys;
    using iterator       = T*;
    using const_iterator = const T*;
    explicit Plain(const std::vector<int>& k) : keys(k) {
        for(int i : k) {
            T v{};
            if constexpr(requires { v.key; })
                v.key = i;
            else
                v = static_cast<T>(i);
            seq.push_back(v);
        }
    }
    iterator first() { return seq.data(); }
    const_iterator cfirst() const { return seq.data(); }
};
template<typename T, int Level>
struct Bounded : Plain<T> {
    using iterator       = Checked<T, false, Level>;
    using const_iterator = Checked<T, true, Level>;
    explicit Bounded(const std::vector<int>& k) : Plain<T>(k) { Bounds::size = static_cast<ssize>(k.size()); }
    iterator first() { return {this->seq.data(), 0}; }
    const_iterator cfirst() const { return {this->seq.data(), 0}; }
};

inline std::vector<int> keys(pbt::Case& c) {
    std::vector<int> k(c.draw(3) ? c.draw(8) : c.draw(40));
    for(std::size_t i = 0; i < k.size(); ++i)
        k[i] = static_cast<int>(c.draw(6) ? i + 1 : c.draw(3));
    return k;
}

//! == and !=, and the order (1: with <=>, 2: without), of iterators at x and y
template<int Ordered, typename I, typename J>
void compare(const I& a, const J& b, ssize x, ssize y, const char* what) {
    CHECK((a == b) == (x == y), what << ": == at positions " << x << " and " << y);
    CHECK((a != b) == (x != y), what << ": != at positions " << x << " and " << y);
    if constexpr(Ordered) {
        CHECK((a < b) == (x < y), what << ": < at positions " << x << " and " << y);
        CHECK((a > b) == (x > y), what << ": > at positions " << x << " and " << y);
        CHECK((a <= b) == (x <= y), what << ": <= at positions " << x << " and " << y);
        CHECK((a >= b) == (x >= y), what << ": >= at positions " << x << " and " << y);
    }
    if constexpr(Ordered == 1) {
        CHECK(((a <=> b) < 0) == (x < y) && ((a <=> b) > 0) == (x > y), what << ": <=> at positions " << x << " and " << y);
    }
}
template<typename I, typename J>
void difference(const I& a, const J& b, ssize x, ssize y, const char* what) {
    CHECK((a - b) == x - y, what << ": difference of positions " << x << " and " << y << " is " << (a - b));
    CHECK((b - a) == y - x, what << ": difference of positions " << y << " and " << x << " is " << (b - a));
}

//! at(it, q): the adapted iterator it is at position q of n. mk(q): one that is.
//! elem(q): what the underlying sequence has at the adapted position q.
template<int Random, typename It, typename Mk, typename Elem, typename Extra>
void walk(pbt::Case& c, ssize n, Mk mk, Elem elem, Extra extra) {
    using Ref = decltype(*std::declval<const It&>());
    auto same = [&](auto&& got, ssize q, const char* what) {
        if constexpr(std::is_lvalue_reference_v<Ref>)
            CHECK(std::addressof(got) == std::addressof(elem(q)), what << " is another element than the one at " << q);
        CHECK(got == elem(q), what << " has another value than the one at " << q);
    };
    auto is = [&](const It& i, ssize q, const char* what) {
        const It want = mk(q);
        CHECK(i == want, what << " doesn't lead to position " << q);
        CHECK(!(i != want));
        if constexpr(Random)
            CHECK(i - want == 0, what << " leads " << (i - want) << " from position " << q);
        if(q < n)
            same(*i, q, what);
    };
    ssize p = static_cast<ssize>(c.draw(static_cast<u64>(n) + 1));
    It it   = mk(p);
    LOG(n << " elements, starting at " << p);
    is(it, p, "the iterator made");
    int moves = 0;
    c.begin_loop({4, 12, 30});
    while(c.more()) {
        const ssize to = static_cast<ssize>(c.draw(static_cast<u64>(n) + 1)), d = to - p;
        ++moves;
        switch(c.draw(Random ? 12 : 6)) {
        case 0:
            if(p < n) {
                LOG("++it");
                It& r = ++it;
                CHECK(&r == &it);
                is(it, ++p, "++it");
            }
            break;
        case 1:
            if(p < n) {
                LOG("it++");
                It old = it++;
                is(old, p, "it++");
                is(it, ++p, "it after it++");
            }
            break;
        case 2:
            if(p > 0) {
                LOG("--it");
                It& r = --it;
                CHECK(&r == &it);
                is(it, --p, "--it");
            }
            break;
        case 3:
            if(p > 0) {
                LOG("it--");
                It old = it--;
                is(old, p, "it--");
                is(it, --p, "it after it--");
            }
            break;
        case 4: {
            LOG("it = position " << to);
            It other = mk(to), copy = other;
            it = other;
            p  = to;
            is(it, p, "assigned");
            is(copy, to, "copied");
            It moved(std::move(copy));
            is(moved, to, "moved");
            break;
        }
        case 5:
            if(p < n) {
                LOG("->");
                if constexpr(!std::is_lvalue_reference_v<Ref>) {
                }
                else if constexpr(requires { it->key; }) {
                    CHECK(it->key == elem(p).key, "-> at " << p);
                    CHECK(it->twice() == elem(p).twice(), "-> at " << p);
                    CHECK(std::addressof(it->key) == std::addressof(elem(p).key), "-> at " << p);
                }
                else
                    CHECK(std::to_address(it.operator->()) == std::addressof(elem(p)), "-> at " << p);
            }
            break;
        default:
            if constexpr(Random)
                switch(c.draw(6)) {
                case 0: LOG("it + " << d); is(it + d, to, "it + d"); break;
                case 1: LOG(d << " + it"); is(d + it, to, "d + it"); break;
                case 2: LOG("it - " << -d); is(it - (-d), to, "it - d"); break;
                case 3: {
                    LOG("it += " << d);
                    It& r = (it += d);
                    CHECK(&r == &it);
                    p = to;
                    break;
                }
                case 4: {
                    LOG("it -= " << -d);
                    It& r = (it -= -d);
                    CHECK(&r == &it);
                    p = to;
                    break;
                }
                default:
                    if(to < n) {
                        LOG("it[" << d << "]");
                        same(it[d], to, "it[d]");
                    }
                }
        }
        is(it, p, "it");
        const It other = mk(to);
        compare<Random>(it, other, p, to, "iterators");
        compare<Random>(it, it, p, p, "iterator and itself");
        if constexpr(Random)
            difference(it, other, p, to, "iterators");
        extra(it, p, to);
    }
    if(moves >= 3 && n > 1)
        c.nontrivial();
}
}  // namespace its

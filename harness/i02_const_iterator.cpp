// I02: ConstIterator against the iterator it wraps
#include "elements.hpp"
#include "iterators.hpp"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <sstream>
#include <xme/container/array.hpp>
#include <xme/core/iterators/const_iterator.hpp>

using namespace its;
using xme::make_const_iterator;
using xme::make_const_sentinel;

//! A sentinel that is at a position of a Checked iterator
template<typename T, bool Const, int Level>
struct Stop {
    ssize at = 0;
    template<bool C>
    friend bool operator==(const Checked<T, C, Level>& i, const Stop& s) { return i.position() == s.at; }
    template<bool C>
    friend ssize operator-(const Checked<T, C, Level>& i, const Stop& s) requires(Level > 0) { return i.position() - s.at; }
    template<bool C>
    friend ssize operator-(const Stop& s, const Checked<T, C, Level>& i) requires(Level > 0) { return s.at - i.position(); }
};

template<typename Source>
struct StopOf {};
template<typename T, int Level>
struct StopOf<Bounded<T, Level>> {
    using type = Stop<T, false, Level>;
};

//! Nothing reached through C can be assigned to
template<typename C>
constexpr bool readonly() {
    using V = std::iter_value_t<C>;
    static_assert(!std::indirectly_writable<C, V>);
    static_assert(!std::is_assignable_v<decltype(*std::declval<const C&>()), const V&>
                  || (!std::is_reference_v<decltype(*std::declval<const C&>())>));
    if constexpr(std::is_lvalue_reference_v<decltype(*std::declval<C&>())>) {
        static_assert(std::is_const_v<std::remove_reference_t<decltype(*std::declval<C&>())>>);
        static_assert(std::is_const_v<std::remove_reference_t<decltype(*std::declval<C&>().operator->())>>);
    }
    if constexpr(std::random_access_iterator<C>)
        static_assert(std::is_same_v<decltype(std::declval<const C&>()[0]), decltype(*std::declval<const C&>())>);
    return true;
}

template<typename Source, int Ordered>
static void laws(Case& c) {
    Source src(keys(c));
    const auto n = static_cast<ssize>(src.keys.size());
    using B  = typename Source::iterator;
    using CB = typename Source::const_iterator;
    using K  = xme::ConstIterator<B>;
    constexpr bool random = std::random_access_iterator<B>;
    static_assert(random == (Ordered != 0));
    static_assert(std::bidirectional_iterator<K> && std::random_access_iterator<K> == random);
    static_assert(std::contiguous_iterator<K> == std::contiguous_iterator<B>);
    static_assert(std::is_same_v<std::iter_value_t<K>, std::iter_value_t<B>>);
    static_assert(std::is_same_v<std::iter_difference_t<K>, std::iter_difference_t<B>>);
    static_assert(readonly<K>());
    static_assert(xme::CConstantIterator<K>);

    std::vector<B> at;
    std::vector<CB> cat;
    for(B i = src.first();; ++i) {
        at.push_back(i);
        if(static_cast<ssize>(at.size()) > n)
            break;
    }
    for(CB i = std::as_const(src).cfirst();; ++i) {
        cat.push_back(i);
        if(static_cast<ssize>(cat.size()) > n)
            break;
    }
    auto mk   = [&](ssize q) { return K(at[static_cast<std::size_t>(q)]); };
    auto elem = [&](ssize q) -> decltype(auto) { return *at[static_cast<std::size_t>(q)]; };
    {
        ssize q = 0;
        for(K i = mk(0); i != mk(n); ++i, ++q) {
            CHECK(q < n, "more than " << n << " steps");
            CHECK(key_of(*i) == src.keys[static_cast<std::size_t>(q)], "step " << q << " sees " << key_of(*i));
        }
        CHECK(q == n);
        CHECK(std::distance(mk(0), mk(n)) == n);
    }

    auto mixed = [&](const K& it, ssize p, ssize to) {
        const B b  = at[static_cast<std::size_t>(to)];
        const B bp = at[static_cast<std::size_t>(p)];
        compare<0>(it, b, p, to, "with a plain one");
        compare<0>(b, it, to, p, "plain one with");
        compare<Ordered>(it, b, p, to, "with a plain one");
        if constexpr(Ordered == 1)
            compare<1>(b, it, to, p, "plain one with");
        if constexpr(random) {
            difference(it, b, p, to, "with a plain one");
            CHECK((b - it) == to - p && (it - b) == p - to);
        }
        // made and converted
        const K implicit = b;
        CHECK(implicit == mk(to), "converted from a plain one");
        K assigned;
        assigned = b;
        CHECK(assigned == implicit, "assigned from a plain one");
        auto made = xme::make_const_iterator(b);
        static_assert(std::is_same_v<decltype(made), K>);
        CHECK(made == b && made == mk(to));
        if(to < n)
            CHECK(*made == *b && key_of(*made) == src.keys[static_cast<std::size_t>(to)]);
        auto again = xme::make_const_iterator(made);
        static_assert(std::is_same_v<decltype(again), K>, "wrapped twice");
        CHECK(again == made);
        auto sent = xme::make_const_sentinel(b);
        static_assert(std::is_same_v<decltype(sent), K>);
        CHECK(sent == b && (it == sent) == (p == to) && (sent == it) == (p == to));
        // constant ones are left alone
        const CB cb = cat[static_cast<std::size_t>(to)];
        if constexpr(xme::CConstantIterator<CB>) {
            auto same = xme::make_const_iterator(cb);
            static_assert(std::is_same_v<decltype(same), CB>);
            CHECK(same == cb);
            auto same_sentinel = xme::make_const_sentinel(cb);
            static_assert(std::is_same_v<decltype(same_sentinel), CB>);
            CHECK(same_sentinel == cb);
        }
        // with the constant version of what is wrapped
        if constexpr(requires { typename xme::ConstIterator<CB>; }) {
            using KC       = xme::ConstIterator<CB>;
            const KC conv  = made;
            const KC conv2 = cb;
            CHECK(conv == conv2 && conv == cb && conv2 == mk(to), "converted");
            if(to < n && std::is_lvalue_reference_v<decltype(*conv)>)
                CHECK(key_of(*conv) == src.keys[static_cast<std::size_t>(to)]);
            compare<0>(it, conv, p, to, "with one of a constant iterator");
            compare<0>(it, cb, p, to, "with a constant iterator");
            if constexpr(random) {
                const KC kp(cat[static_cast<std::size_t>(p)]);
                CHECK(conv - kp == to - p && (kp < conv) == (p < to) && (kp > conv) == (p > to));
                if constexpr(Ordered == 1 && !std::is_same_v<Source, Container<xme::Array<Rec>>>)
                    compare<1>(it, cb, p, to, "with a constant iterator");
            }
        }
        // sentinels
        if constexpr(requires { typename StopOf<Source>::type; }) {
            using S = typename StopOf<Source>::type;
            const S s{to};
            static_assert(std::sentinel_for<S, K>);
            static_assert(std::sized_sentinel_for<S, K> == random);
            CHECK((it == s) == (p == to) && (s == it) == (p == to), "with a sentinel");
            CHECK((it != s) == (p != to) && (s != it) == (p != to), "with a sentinel");
            if constexpr(random) {
                CHECK(it - s == p - to, "sentinel " << to << " subtracted from " << p << " gives " << (it - s));
                CHECK(s - it == to - p, p << " subtracted from sentinel " << to << " gives " << (s - it));
            }
            auto ms = xme::make_const_sentinel(s);
            static_assert(std::is_same_v<decltype(ms), S>);
            CHECK(ms.at == to);
            CHECK((made == ms));
        }
        if(p < n) {
            if constexpr(std::contiguous_iterator<B>)
                CHECK(std::to_address(it) == std::to_address(bp), "to_address");
            if constexpr(std::is_lvalue_reference_v<decltype(*it)>)
                CHECK(std::to_address(it.operator->()) == std::addressof(*bp), "->");
        }
        (void)bp;
    };
    walk<Ordered, K>(c, n, mk, elem, mixed);

    // it sees what is written through the wrapped one
    if constexpr(std::is_lvalue_reference_v<std::iter_reference_t<B>>)
        if(n > 0) {
            const auto q = static_cast<ssize>(c.draw(static_cast<u64>(n)));
            K k = mk(q);
            auto old = *at[static_cast<std::size_t>(q)];
            auto w = *at[0];
            if constexpr(std::assignable_from<decltype(*at[0]), decltype(w)&>) {
                *at[static_cast<std::size_t>(q)] = w;
                CHECK(*k == w, "sees what is written");
                *at[static_cast<std::size_t>(q)] = old;
                CHECK(*k == old, "sees what is written");
            }
        }
}
SUB_T(pointer, (laws<Plain<int>, 1>), 3000, 60000);
SUB_T(pointer_to_record, (laws<Plain<Rec>, 1>), 2000, 40000);
SUB_T(checked_random, (laws<Bounded<Rec, 1>, 1>), 3000, 60000);
SUB_T(checked_unordered, (laws<Bounded<Rec, 2>, 2>), 2000, 40000);
SUB_T(checked_bidirectional, (laws<Bounded<Rec, 0>, 0>), 2000, 60000);
SUB_T(list, (laws<Container<std::list<Rec>>, 0>), 2000, 40000);
SUB_T(deque, (laws<Container<std::deque<Wide>>, 1>), 2000, 40000);
SUB_T(vector, (laws<Container<std::vector<short>>, 1>), 2000, 40000);
SUB_T(bits, (laws<Container<std::vector<bool>>, 1>), 2000, 40000);
SUB_T(map, (laws<Container<std::map<int, int>>, 0>), 1500, 40000);
SUB_T(array, (laws<Container<xme::Array<Rec>>, 1>), 1500, 40000);

//! Single-pass iterators: read each value once, in order
SUB(single_pass, 2000, 30000) {
    struct In {
        using value_type       = int;
        using difference_type  = ssize;
        using reference        = int&;
        using pointer          = int*;
        using iterator_category = std::input_iterator_tag;
        std::vector<int>* v = nullptr;
        mutable std::size_t* pos = nullptr;
        int& operator*() const { return v->at(*pos); }
        In& operator++() { ++*pos; return *this; }
        void operator++(int) { ++*pos; }
        bool operator==(std::default_sentinel_t) const { return *pos == v->size(); }
    };
    static_assert(std::input_iterator<In> && !std::forward_iterator<In>);
    std::vector<int> v(c.draw(20));
    for(int& i : v)
        i = static_cast<int>(c.draw(100));
    std::size_t pos = 0;
    using K = xme::ConstIterator<In>;
    static_assert(std::is_same_v<decltype(*std::declval<K>()), const int&>);
    K k = xme::make_const_iterator(In{&v, &pos});
    auto s = xme::make_const_sentinel(std::default_sentinel);
    static_assert(std::is_same_v<decltype(s), std::default_sentinel_t>);
    std::vector<int> got;
    for(; !(k == std::default_sentinel); ++k) {
        got.push_back(*k);
        CHECK(pos == got.size() - 1, "advanced by reading");
        CHECK(got.size() <= v.size());
    }
    CHECK(got == v);
    CHECK(std::default_sentinel == k && !(k != s));
    if(v.size() > 1)
        c.nontrivial();

    // an istream_iterator's values are constant already
    std::istringstream is("3 4 5");
    auto ii = xme::make_const_iterator(std::istream_iterator<int>(is));
    static_assert(std::is_same_v<decltype(ii), std::istream_iterator<int>>);
    CHECK(*ii == 3);
}

//! counted_iterator and its sentinel
SUB(counted, 2000, 30000) {
    Plain<Rec> src(keys(c));
    const auto n = static_cast<ssize>(src.keys.size());
    using B = std::counted_iterator<Rec*>;
    using K = xme::ConstIterator<B>;
    const ssize p = static_cast<ssize>(c.draw(static_cast<u64>(n) + 1)), m = n - p;
    K k = xme::make_const_iterator(B(src.first() + p, m));
    LOG(n << " elements, from " << p);
    CHECK((k == std::default_sentinel) == (m == 0) && (std::default_sentinel == k) == (m == 0));
    CHECK(k - std::default_sentinel == -m && std::default_sentinel - k == m);
    ssize i = p;
    for(; k != xme::make_const_sentinel(std::default_sentinel); ++k, ++i) {
        CHECK(i < n);
        CHECK(std::addressof(*k) == src.first() + i && k->key == src.keys[static_cast<std::size_t>(i)]);
        CHECK(std::default_sentinel - k == n - i);
    }
    CHECK(i == n);
    if(m > 1)
        c.nontrivial();
}

//! Values as references, move iterators, and ranges of ConstIterators in algorithms
SUB(others, 2000, 30000) {
    const int n = static_cast<int>(c.draw(20));
    auto r = std::views::iota(3, 3 + n);
    auto b = xme::make_const_iterator(r.begin());
    static_assert(std::is_same_v<decltype(b), decltype(r.begin())>);
    std::vector<int> v(static_cast<std::size_t>(n));
    for(int& i : v)
        i = static_cast<int>(c.draw(20));
    using M = std::move_iterator<int*>;
    using K = xme::ConstIterator<M>;
    static_assert(std::is_same_v<decltype(*std::declval<K>()), const int&&>);
    K kb(M(v.data())), ke(M(v.data() + n));
    CHECK(ke - kb == n);
    for(int i = 0; i < n; ++i)
        CHECK(kb[i] == v[static_cast<std::size_t>(i)] && *(kb + i) == v[static_cast<std::size_t>(i)]);
    xme::ConstIterator<std::vector<int>::iterator> f(v.begin()), l(v.end());
    CHECK(std::vector<int>(f, l) == v);
    CHECK(std::ranges::equal(std::ranges::subrange(f, l), v));
    const int key = static_cast<int>(c.draw(20));
    CHECK(std::find(f, l, key) == std::find(v.begin(), v.end(), key));
    CHECK(std::ranges::find(f, l, key) - f == std::find(v.begin(), v.end(), key) - v.begin());
    CHECK(std::ranges::lower_bound(f, l, key) - f == std::ranges::lower_bound(v, key) - v.begin());
    CHECK(std::accumulate(f, l, 0) == std::accumulate(v.begin(), v.end(), 0));
    CHECK(std::equal(std::reverse_iterator(l), std::reverse_iterator(f), v.rbegin(), v.rend()));
    if(n > 1)
        c.nontrivial();
}

//! What converts to an iterator, in one way when it may be taken from and in another when not
struct Token {
    int *left, *right;
    operator int*() const& { return left; }
    operator int*() && { return right; }
};
SUB(tokens, 500, 5000) {
    int a[8];
    for(int i = 0; i < 8; ++i)
        a[i] = i;
    const auto p = c.draw(8), q = c.draw(8);
    const Token t{a + p, a + q};
    using K = xme::ConstIterator<int*>;
    static_assert(std::is_convertible_v<Token, K> && std::is_convertible_v<const Token&, K>);
    const K k = t, r = Token(t);
    CHECK(*k == static_cast<int>(p) && *r == static_cast<int>(q), *k << " and " << *r << " instead of " << p << " and " << q);
    K w;
    w = t;
    CHECK(w == k);
    w = Token(t);
    CHECK(w == r && (k < r) == (p < q));
    if(p != q)
        c.nontrivial();
}

//! Positions far apart
SUB(long_distances, 1500, 20000) {
    static const std::vector<unsigned char> v(300000, 7);
    const auto n = static_cast<ssize>(v.size());
    const auto x = static_cast<ssize>(long_length(c, v.size())), y = static_cast<ssize>(long_length(c, v.size()));
    LOG("positions " << x << ", " << y);
    using K = xme::ConstIterator<std::vector<unsigned char>::iterator>;
    auto& w = const_cast<std::vector<unsigned char>&>(v);
    const K b(w.begin()), e(w.end());
    auto i = b + x, j = e - (n - y);
    CHECK(e - b == n && b - e == -n);
    CHECK(j - i == y - x && i - j == x - y, "distance is " << j - i << ", not " << y - x);
    CHECK((i < j) == (x < y) && (i > j) == (x > y) && (i <= j) == (x <= y) && (i >= j) == (x >= y), "order");
    CHECK((i == j) == (x == y), "equality");
    auto k = i;
    k += y - x;
    CHECK(k == j);
    k -= y - x;
    CHECK(k == i);
    if(y < n)
        CHECK(std::addressof(i[y - x]) == v.data() + y && std::addressof(*j) == v.data() + y);
    if(x > 255 || y > 255)
        c.nontrivial();
}

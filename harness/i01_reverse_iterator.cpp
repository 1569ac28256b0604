// I01: ReverseIterator against positions in the reversed sequence
#include "elements.hpp"
#include "iterators.hpp"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <set>
#include <xme/container/array.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

using namespace its;

template<typename Source>
static void laws(Case& c) {
    Source src(keys(c));
    const auto n = static_cast<ssize>(src.keys.size());
    using B  = typename Source::iterator;
    using CB = typename Source::const_iterator;
    using R  = xme::ReverseIterator<B>;
    using CR = xme::ReverseIterator<CB>;
    constexpr bool random = std::random_access_iterator<B>;
    static_assert(std::bidirectional_iterator<R> && std::bidirectional_iterator<CR>);
    static_assert(std::random_access_iterator<R> == random);
    static_assert(std::is_same_v<std::iter_value_t<R>, std::iter_value_t<B>>);
    static_assert(std::is_same_v<std::iter_reference_t<R>, std::iter_reference_t<B>>);
    static_assert(std::is_same_v<decltype(*std::declval<R>()), std::iter_reference_t<B>>);
    static_assert(!std::is_same_v<B, CB> || std::is_same_v<R, CR>);

    std::vector<B> at;  // the underlying positions
    std::vector<CB> cat;
    for(B i = src.first(); static_cast<ssize>(at.size()) <= n; ++i) {
        at.push_back(i);
        if(static_cast<ssize>(at.size()) > n)
            break;
    }
    for(CB i = std::as_const(src).cfirst(); static_cast<ssize>(cat.size()) <= n; ++i) {
        cat.push_back(i);
        if(static_cast<ssize>(cat.size()) > n)
            break;
    }
    auto idx = [n](ssize q) { return static_cast<std::size_t>(n - q); };

    // from end to beginning
    {
        ssize q = 0;
        for(R i(at[idx(0)]); i != R(at[idx(n)]); ++i, ++q) {
            CHECK(q < n, "more than " << n << " steps");
            CHECK(key_of(*i) == src.keys[idx(q) - 1], "step " << q << " sees " << key_of(*i));
        }
        CHECK(q == n, q << " steps for " << n << " elements");
        CHECK(std::distance(R(at[idx(0)]), R(at[idx(n)])) == n);
        CHECK(std::ranges::distance(CR(cat[idx(0)]), CR(cat[idx(n)])) == n);
    }
    const u64 how = c.draw(4);
    auto mkc = [&](ssize q) { return CR(cat[idx(q)]); };
    auto mk  = [&](ssize q) { return R(at[idx(q)]); };
    auto elem  = [&](ssize q) -> decltype(auto) { return *at[idx(q) - 1]; };
    auto celem = [&](ssize q) -> decltype(auto) { return *cat[idx(q) - 1]; };
    auto mixed = [&](const auto& it, ssize p, ssize to) {
        const R m  = mk(to);
        const CR k = mkc(to);
        compare<random>(it, m, p, to, "with a mutable one");
        compare<random>(it, k, p, to, "with a constant one");
        compare<random>(m, it, to, p, "mutable one with");
        compare<random>(k, it, to, p, "constant one with");
        const CR conv = m;
        compare<random>(conv, k, to, to, "converted");
        if(to < n && std::is_lvalue_reference_v<decltype(*conv)>)
            CHECK(key_of(*conv) == src.keys[idx(to) - 1]);
        CR assigned;
        assigned = m;
        CHECK(assigned == k && assigned == m, "assigned from a mutable one");
        if constexpr(random) {
            difference(CR(it), k, p, to, "converted");
            const ssize d = to - p;
            if constexpr(requires(B b) { d + b; }) {
                const auto back = (p - to) - it;
                static_assert(std::is_same_v<decltype(back), const std::remove_cvref_t<decltype(it)>>);
                CHECK(back == it - (p - to) && back == m, "subtracted from a number");
            }
            CHECK((d > 0) == (it < k) && (d > 0) == (it < m));
        }
        // twice
        using RR = xme::ReverseIterator<R>;
        const RR first(mk(n)), last(mk(0)), rr(mk(to));
        if(to > 0)
            CHECK(key_of(*rr) == src.keys[idx(to)], "reversed twice");
        compare<random>(rr, RR(mk(p)), n - to, n - p, "reversed twice");
        if constexpr(random) {
            CHECK(rr - first == n - to, "reversed twice");
            CHECK(first + (n - to) == rr);
            if(n)
                CHECK(key_of(first[n - 1]) == src.keys.back());
        }
    };
    if(how & 1) {
        LOG("constant");
        walk<random, CR>(c, n, mkc, celem, mixed);
    }
    else
        walk<random, R>(c, n, mk, elem, mixed);

    // writing through
    if constexpr(std::is_lvalue_reference_v<std::iter_reference_t<B>>)
        if(n > 0) {
            const auto q = static_cast<ssize>(c.draw(static_cast<u64>(n)));
            R i = mk(q);
            auto v = *i;
            if constexpr(std::assignable_from<decltype(*i), decltype(v)>) {
                auto w = *mk(n - 1);
                *i = w;
                CHECK(*at[idx(q) - 1] == w, "assigned through the iterator at " << q);
                *i = v;
            }
        }
}
SUB_T(pointer, laws<Plain<int>>, 3000, 60000);
SUB_T(checked_random, (laws<Bounded<Rec, 1>>), 4000, 60000);
SUB_T(checked_bidirectional, (laws<Bounded<Rec, 0>>), 3000, 60000);
SUB_T(checked_unordered, (laws<Bounded<Rec, 2>>), 2000, 40000);
SUB_T(pointer_to_record, laws<Plain<Rec>>, 2000, 40000);
SUB_T(list, laws<Container<std::list<Rec>>>, 3000, 40000);
SUB_T(deque, laws<Container<std::deque<Wide>>>, 3000, 40000);
SUB_T(vector, laws<Container<std::vector<short>>>, 2000, 40000);
SUB_T(bits, laws<Container<std::vector<bool>>>, 2000, 40000);
SUB_T(map, (laws<Container<std::map<int, int>>>), 2000, 40000);
SUB_T(array, laws<Container<xme::Array<Rec>>>, 2000, 40000);
SUB_T(string, laws<Container<std::string>>, 2000, 40000);

//! Over a deque grown at both ends, whose blocks are anywhere in memory
SUB(grown_deque, 2000, 40000) {
    std::deque<Wide> d;
    std::vector<int> keys;
    c.begin_loop({5, 20, 60});
    while(c.more()) {
        Wide w;
        w.key = static_cast<int>(d.size());
        if(c.draw(2)) {
            d.push_front(w);
            keys.insert(keys.begin(), w.key);
        }
        else {
            d.push_back(w);
            keys.push_back(w.key);
        }
    }
    using R  = xme::ReverseIterator<std::deque<Wide>::iterator>;
    using CR = xme::ReverseIterator<std::deque<Wide>::const_iterator>;
    const auto n = static_cast<ssize>(d.size());
    const R rb(d.end()), re(d.begin());
    LOG(n << " elements");
    CHECK(re - rb == n);
    const auto x = static_cast<ssize>(c.draw(static_cast<u64>(n) + 1)), y = static_cast<ssize>(c.draw(static_cast<u64>(n) + 1));
    LOG("positions " << x << ", " << y);
    const R a = rb + x;
    const CR b = rb + y;
    compare<true>(a, b, x, y, "mixed");
    compare<true>(b, a, y, x, "mixed");
    compare<true>(a, R(rb + y), x, y, "mutable");
    compare<true>(CR(a), b, x, y, "constant");
    if(x < n)
        CHECK(a->key == keys[static_cast<std::size_t>(n - 1 - x)]);
    if(n > 4)
        c.nontrivial();
}

//! Algorithms through reverse iterators
template<typename Seq>
static void algorithms(Case& c) {
    std::vector<int> v(c.draw(30));
    for(int& i : v)
        i = static_cast<int>(c.draw(10));
    Seq s(v.begin(), v.end());
    using R  = xme::ReverseIterator<typename Seq::iterator>;
    R b(s.end()), e(s.begin());
    std::vector<int> r(v.rbegin(), v.rend());
    const int key = static_cast<int>(c.draw(10));
    const u64 op = c.draw(7);
    LOG("algorithm " << op << ", " << v.size() << " elements");
    switch(op) {
    case 0: {
        CHECK(std::ranges::equal(std::ranges::subrange(b, e), r), "read backwards");
        break;
    }
    case 1: {
        auto f = std::find(b, e, key);
        CHECK(std::distance(b, f) == std::find(r.begin(), r.end(), key) - r.begin(), "find");
        break;
    }
    case 2:
        std::reverse(b, e);
        std::reverse(r.begin(), r.end());
        break;
    case 3: {
        auto m = std::next(b, static_cast<ssize>(c.draw(r.size() + 1)));
        const auto k = std::distance(b, m);
        std::rotate(b, m, e);
        std::rotate(r.begin(), r.begin() + k, r.end());
        break;
    }
    case 4: {
        auto p = std::stable_partition(b, e, [&](int i) { return i < key; });
        auto q = std::stable_partition(r.begin(), r.end(), [&](int i) { return i < key; });
        CHECK(std::distance(b, p) == q - r.begin());
        break;
    }
    case 5:
        if constexpr(std::random_access_iterator<R>) {
            std::sort(b, e);
            std::ranges::sort(r);
        }
        break;
    default:
        std::fill(b, e, key);
        std::fill(r.begin(), r.end(), key);
    }
    CHECK(std::equal(s.begin(), s.end(), r.rbegin(), r.rend()), "after algorithm " << op);
    if(v.size() > 1)
        c.nontrivial();
}
SUB_T(algorithms_list, algorithms<std::list<int>>, 2000, 30000);
SUB_T(algorithms_vector, algorithms<std::vector<int>>, 2000, 30000);
SUB_T(algorithms_deque, algorithms<std::deque<int>>, 2000, 30000);

//! Iterators whose references are values
SUB(values, 1500, 20000) {
    const int n = static_cast<int>(c.draw(20));
    auto r = std::views::iota(5, 5 + n);
    using R = xme::ReverseIterator<std::ranges::iterator_t<decltype(r)>>;
    R b(r.end()), e(r.begin());
    CHECK(e - b == n);
    int k = 5 + n;
    for(R i = b; i != e; ++i)
        CHECK(*i == --k);
    CHECK(k == 5);
    if(n) {
        const int j = static_cast<int>(c.draw(static_cast<u64>(n)));
        CHECK(b[j] == 5 + n - 1 - j && *(b + j) == b[j]);
        c.nontrivial();
    }
}

//! Positions far apart
SUB(long_distances, 1500, 20000) {
    static const std::vector<unsigned char> v(300000, 7);
    const auto n = static_cast<ssize>(v.size());
    const auto x = static_cast<ssize>(long_length(c, v.size())), y = static_cast<ssize>(long_length(c, v.size()));
    LOG("positions " << x << ", " << y);
    using R = xme::ReverseIterator<std::vector<unsigned char>::const_iterator>;
    const R b(v.end()), e(v.begin());
    auto i = b + x, j = e - (n - y);
    CHECK(e - b == n && b - e == -n);
    CHECK(j - i == y - x && i - j == x - y, "distance is " << j - i << ", not " << y - x);
    CHECK((i < j) == (x < y) && (i > j) == (x > y) && (i <= j) == (x <= y) && (i >= j) == (x >= y), "order");
    CHECK((i == j) == (x == y), "equality");
    auto k = i;
    k += y - x;
    CHECK(k == j);
    k -= y - x;
    CHECK(k == i);
    if(y < n)
        CHECK(std::addressof(i[y - x]) == v.data() + (n - 1 - y) && std::addressof(*j) == v.data() + (n - 1 - y));
    if(x > 255 || y > 255)
        c.nontrivial();
}

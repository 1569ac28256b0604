// A06: Array iterators are positions
#include "elements.hpp"
#include <algorithm>
#include <numeric>
#include <ranges>
#include <vector>
#include <range/v3/algorithm/find.hpp>
#include <range/v3/algorithm/stable_sort.hpp>
#include <xme/container/array.hpp>

using el::Elem;

template<typename I, typename J>
static void compare(const I& a, const J& b, std::ptrdiff_t x, std::ptrdiff_t y) {
    CHECK((a == b) == (x == y), "== at positions " << x << " and " << y);
    CHECK((a != b) == (x != y), "!= at positions " << x << " and " << y);
    CHECK((a < b) == (x < y), "< at positions " << x << " and " << y);
    CHECK((a > b) == (x > y), "> at positions " << x << " and " << y);
    CHECK((a <= b) == (x <= y), "<= at positions " << x << " and " << y);
    CHECK((a >= b) == (x >= y), ">= at positions " << x << " and " << y);
    CHECK(((a <=> b) < 0) == (x < y) && ((a <=> b) > 0) == (x > y), "<=> at positions " << x << " and " << y);
    CHECK((a - b) == x - y, "difference of positions " << x << " and " << y << " is " << (a - b));
}

template<typename It, typename T>
static void walk(Case& c, It begin, T* data, std::ptrdiff_t n) {
    It it            = begin;
    std::ptrdiff_t p = 0;
    c.begin_loop({4, 12, 30});
    auto is = [&](const It& i, std::ptrdiff_t q, const char* what) {
        CHECK(i - begin == q, what << " leads to position " << (i - begin) << ", not " << q);
        CHECK(std::to_address(i) == data + q, what << " leads elsewhere");
        if(q < n)
            CHECK(std::addressof(*i) == data + q, what << ": * is another element");
    };
    int moves = 0;
    while(c.more()) {
        const std::ptrdiff_t to = static_cast<std::ptrdiff_t>(c.draw(static_cast<u64>(n) + 1)), d = to - p;
        ++moves;
        switch(c.draw(10)) {
        case 0:
            if(p < n) {
                LOG("++it");
                It& r = ++it;
                CHECK(&r == &it);
                is(it, ++p, "++it");
            }
            break;
        case 1:
            if(p < n) {
                LOG("it++");
                It old = it++;
                is(old, p, "it++");
                is(it, ++p, "it++");
            }
            break;
        case 2:
            if(p > 0) {
                LOG("--it");
                It& r = --it;
                CHECK(&r == &it);
                is(it, --p, "--it");
            }
            break;
        case 3:
            if(p > 0) {
                LOG("it--");
                It old = it--;
                is(old, p, "it--");
                is(it, --p, "it--");
            }
            break;
        case 4: LOG("it + " << d); is(it + d, to, "it + d"); is(it, p, "it"); break;
        case 5: LOG(d << " + it"); is(d + it, to, "d + it"); is(it, p, "it"); break;
        case 6: LOG("it - " << -d); is(it - (-d), to, "it - d"); is(it, p, "it"); break;
        case 7: LOG("it += " << d); it += d; p = to; is(it, p, "it += d"); break;
        case 8: LOG("it -= " << -d); it -= -d; p = to; is(it, p, "it -= d"); break;
        default:
            if(to < n) {
                LOG("it[" << d << "]");
                CHECK(std::addressof(it[d]) == data + to, "it[" << d << "] from " << p << " is another element");
            }
        }
        const It other = begin + to;
        compare(it, other, p, to);
        compare(it, it, p, p);
        compare(begin, it, 0, p);
    }
    if(moves >= 3 && n > 1)
        c.nontrivial();
}

template<typename T>
static void laws(Case& c) {
    const std::size_t n = c.draw(14);
    xme::Array<T> a(n + c.draw(5));
    for(std::size_t i = 0; i < n; ++i)
        a.push_back(Elem<T>::make(static_cast<int>(i * 7 % 50)));
    const xme::Array<T>& ca = a;
    using It  = typename xme::Array<T>::iterator;
    using CIt = typename xme::Array<T>::const_iterator;
    static_assert(std::random_access_iterator<It> == std::random_access_iterator<CIt>);
    const auto sn = static_cast<std::ptrdiff_t>(n);
    LOG(n << " elements");
    for(std::ptrdiff_t i = 0; i <= sn; ++i) {
        It it = a.begin() + i;
        CIt ct = it;
        CHECK(ct - ca.begin() == i, "conversion changes position " << i << " to " << ct - ca.begin());
        CHECK(ct == ca.begin() + i);
        CIt assigned;
        assigned = it;
        CHECK(assigned == ct);
        if(i < sn)
            CHECK(std::addressof(*ct) == std::addressof(*it) && std::addressof(*it) == a.data() + i);
        CHECK(it == CIt(it) && CIt(it) <= ca.end());
    }
    CHECK(a.end() - a.begin() == sn && ca.end() - ca.begin() == sn);
    if(c.chance(1, 2))
        walk<It>(c, a.begin(), a.data(), sn);
    else
        walk<CIt>(c, ca.begin(), ca.data(), sn);
}
SUB_T(int_positions, laws<int>, 8000, 100000);
SUB_T(big_positions, laws<el::BigPod>, 5000, 60000);

struct Rec {
    int key, tag;
    friend bool operator==(const Rec&, const Rec&) = default;
};

//! Algorithms over the iterators give what they give over a plain array
SUB(algorithms, 8000, 100000) {
    std::vector<Rec> v(c.draw(25));
    for(std::size_t i = 0; i < v.size(); ++i)
        v[i] = {static_cast<int>(c.draw(12)), static_cast<int>(i)};
    xme::Array<Rec> a(v.begin(), v.end());
    const auto less = [](const Rec& x, const Rec& y) { return x.key < y.key; };
    const u64 op = c.draw(12);
    const auto k = static_cast<std::ptrdiff_t>(c.draw(v.size() + 1));
    const int key = static_cast<int>(c.draw(12));
    LOG("algorithm " << op << " over " << v.size() << " elements");
    switch(op) {
    case 0: std::stable_sort(v.begin(), v.end(), less); std::stable_sort(a.begin(), a.end(), less); break;
    case 1: std::ranges::stable_sort(v, less); ::ranges::stable_sort(a, less); break;
    case 2: std::rotate(v.begin(), v.begin() + k, v.end()); std::rotate(a.begin(), a.begin() + k, a.end()); break;
    case 3: std::reverse(v.begin(), v.end()); std::reverse(a.begin(), a.end()); break;
    case 4: {
        auto x = std::remove_if(v.begin(), v.end(), [&](const Rec& r) { return r.key == key; });
        auto y = std::remove_if(a.begin(), a.end(), [&](const Rec& r) { return r.key == key; });
        CHECK(x - v.begin() == y - a.begin());
        v.erase(x, v.end());
        a.erase(y, a.end());
        break;
    }
    case 5: {
        auto x = std::find_if(v.begin(), v.end(), [&](const Rec& r) { return r.key == key; });
        auto y = std::find_if(a.begin(), a.end(), [&](const Rec& r) { return r.key == key; });
        auto z = ::ranges::find(std::as_const(a), key, &Rec::key);
        CHECK(x - v.begin() == y - a.begin() && z - std::as_const(a).begin() == x - v.begin());
        break;
    }
    case 6: {
        std::stable_sort(v.begin(), v.end(), less);
        std::stable_sort(a.begin(), a.end(), less);
        auto x = std::lower_bound(v.begin(), v.end(), Rec{key, 0}, less);
        auto y = std::lower_bound(a.begin(), a.end(), Rec{key, 0}, less);
        CHECK(x - v.begin() == y - a.begin());
        break;
    }
    case 7: {
        std::vector<Rec> out(a.begin(), a.end());
        CHECK(out == v, "copying out");
        std::vector<Rec> back(::ranges::rbegin(a), ::ranges::rend(a));
        CHECK(std::equal(back.begin(), back.end(), v.rbegin(), v.rend()), "copying out backwards");
        break;
    }
    case 8: {
        unsigned s1 = std::accumulate(v.begin(), v.end(), 0u, [](unsigned s, const Rec& r) { return s * 3 + static_cast<unsigned>(r.key); });
        unsigned s2 = std::accumulate(a.begin(), a.end(), 0u, [](unsigned s, const Rec& r) { return s * 3 + static_cast<unsigned>(r.key); });
        CHECK(s1 == s2);
        break;
    }
    case 9: {
        std::sort(a.begin(), a.end(), [](const Rec& x, const Rec& y) { return std::pair(x.key, x.tag) < std::pair(y.key, y.tag); });
        std::sort(v.begin(), v.end(), [](const Rec& x, const Rec& y) { return std::pair(x.key, x.tag) < std::pair(y.key, y.tag); });
        break;
    }
    case 10: {
        std::copy(v.rbegin(), v.rend(), a.begin());
        std::vector<Rec> w(v.rbegin(), v.rend());
        v = w;
        break;
    }
    default: {
        std::partial_sort(a.begin(), a.begin() + k, a.end(), [](const Rec& x, const Rec& y) { return std::pair(x.key, x.tag) < std::pair(y.key, y.tag); });
        std::vector<Rec> w = v;
        std::sort(w.begin(), w.end(), [](const Rec& x, const Rec& y) { return std::pair(x.key, x.tag) < std::pair(y.key, y.tag); });
        CHECK(std::equal(w.begin(), w.begin() + k, a.begin()), "partial_sort");
        a = xme::Array<Rec>(v.begin(), v.end());
    }
    }
    CHECK(a.size() == v.size());
    for(std::size_t i = 0; i < v.size(); ++i)
        CHECK(a[static_cast<std::ptrdiff_t>(i)] == v[i], "element " << i << " differs after algorithm " << op);
    if(v.size() > 1)
        c.nontrivial();
}

//! Positions far apart
SUB(long_distances, 1500, 20000) {
    static xme::Array<unsigned char> a(std::size_t(300000), static_cast<unsigned char>(7));
    using It     = xme::Array<unsigned char>::iterator;
    using CIt    = xme::Array<unsigned char>::const_iterator;
    const auto n = static_cast<std::ptrdiff_t>(a.size());
    const auto& ca = a;
    const auto x = static_cast<std::ptrdiff_t>(long_length(c, a.size())), y = static_cast<std::ptrdiff_t>(long_length(c, a.size()));
    LOG("positions " << x << ", " << y);
    auto both = [&](auto b, auto e, const char* what) {
        CHECK(e - b == n && b - e == -n, what << ": distance of the ends is " << e - b);
        auto i = b + x, j = e - (n - y);
        CHECK(j - i == y - x && i - j == x - y, what << ": distance is " << j - i << ", not " << y - x);
        CHECK(i - b == x && e - i == n - x, what);
        CHECK((i < j) == (x < y) && (i > j) == (x > y) && (i <= j) == (x <= y) && (i >= j) == (x >= y), what << ": order");
        CHECK((i == j) == (x == y) && (i != j) == (x != y), what << ": equality");
        auto k = i;
        k += y - x;
        CHECK(k == j, what << ": +=");
        k -= y - x;
        CHECK(k == i, what << ": -=");
        if(y < n)
            CHECK(std::addressof(i[y - x]) == a.data() + y, what << ": []");
    };
    both(a.begin(), a.end(), "iterators");
    both(ca.begin(), ca.end(), "const_iterators");
    static_assert(std::is_same_v<decltype(a.begin()), It> && std::is_same_v<decltype(ca.begin()), CIt>);
    if(x > 255 || y > 255)
        c.nontrivial();
}

// A05: ArrayView shows exactly the viewed elements
#include "elements.hpp"
#include <array>
#include <iterator>
#include <span>
#include <string>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>

using el::Elem;
using el::world;
constexpr std::size_t dyn = static_cast<std::size_t>(-1);

struct Odd {
    unsigned char b[5];
    friend bool operator==(const Odd&, const Odd&) = default;
};
namespace el {
template<>
struct Elem<Odd> {
    static Odd make(int v) { return Odd{{static_cast<unsigned char>(v), 1, 2, 3, static_cast<unsigned char>(~v)}}; }
    static int read(const Odd& o) { return o == make(o.b[0]) ? o.b[0] : -1; }
};
}  // namespace el

//! v must show exactly the n elements at p
template<typename T, std::size_t N>
static void shows(xme::ArrayView<T, N> v, std::type_identity_t<T>* p, std::size_t n, const char* how, bool deep = true, bool walk = true) {
    const xme::ArrayView<T, N>& cv = v;
    if constexpr(N != dyn)
        CHECK(n == N, how);
    CHECK(v.size() == n, how << ": size is " << v.size() << ", not " << n);
    CHECK(cv.size() == n, how);
    CHECK(v.size_bytes() == n * sizeof(T), how << ": size_bytes is " << v.size_bytes() << ", not " << n * sizeof(T));
    CHECK(v.empty() == (n == 0) && cv.empty() == (n == 0), how);
    CHECK(v.data() == p, how << ": data is elsewhere");
    CHECK(cv.data() == p, how << ": data is elsewhere");
    CHECK(v.begin() == p && v.end() == p + n, how << ": iterators");
    CHECK(cv.begin() == p && cv.end() == p + n, how << ": const iterators");
    if(!walk)
        return;
    std::size_t i = 0;
    for(auto& x : v) {
        CHECK(i < n && std::addressof(x) == p + i, how << ": element " << i);
        ++i;
    }
    CHECK(i == n, how);
    i = 0;
    for(const auto& x : cv) {
        CHECK(i < n && std::addressof(x) == p + i, how << ": element " << i);
        ++i;
    }
    CHECK(i == n, how);
    if(!deep)
        return;
    i = n;
    using R = typename xme::ArrayView<T, N>::reverse_iterator;
    for(auto it = R(v.end()); it != R(v.begin()); ++it) {
        CHECK(i > 0 && std::addressof(*it) == p + (i - 1), how << ": backwards, element " << i - 1);
        --i;
    }
    CHECK(i == 0, how);
    i = n;
    for(auto it = ::ranges::rbegin(cv); it != ::ranges::rend(cv); ++it) {
        CHECK(i > 0 && std::addressof(*it) == p + (i - 1), how << ": backwards, element " << i - 1);
        --i;
    }
    CHECK(i == 0, how);
    for(i = 0; i < n; ++i) {
        CHECK(std::addressof(v[static_cast<std::ptrdiff_t>(i)]) == p + i, how << ": index " << i);
        CHECK(std::addressof(cv[static_cast<std::ptrdiff_t>(i)]) == p + i, how << ": index " << i);
    }
    if(n) {
        CHECK(std::addressof(v.front()) == p && std::addressof(cv.front()) == p, how << ": front");
        CHECK(std::addressof(v.back()) == p + (n - 1) && std::addressof(cv.back()) == p + (n - 1), how << ": back");
    }
    auto copy = v;
    CHECK(copy.data() == p && copy.size() == n, how << ": copy");
    if constexpr(N == dyn) {
        xme::ArrayView<T, N> assigned;
        CHECK(assigned.empty() && assigned.size() == 0);
        assigned = cv;
        CHECK(assigned.data() == p && assigned.size() == n, how << ": assignment");
    }
}

template<typename V>
using static_extent_t = V;

template<typename T, std::size_t N>
static void bytes(xme::ArrayView<T, N> v, const void* p, std::size_t n, const char* how) {
    auto b = xme::as_bytes(v);
    static_assert(std::is_same_v<decltype(b), xme::ArrayView<const std::byte, N == dyn ? dyn : N * sizeof(T)>>);
    shows(b, static_cast<const std::byte*>(p), n * sizeof(T), how, false);
    if constexpr(!std::is_const_v<T>) {
        auto w = xme::as_writable_bytes(v);
        static_assert(std::is_same_v<decltype(w), xme::ArrayView<std::byte, N == dyn ? dyn : N * sizeof(T)>>);
        shows(w, static_cast<std::byte*>(const_cast<void*>(p)), n * sizeof(T), how, false);
    }
}

//! Dynamic sub-views of a view, and sub-views of those
template<typename T, std::size_t N>
static void cut(Case& c, const xme::ArrayView<T, N> v, T* p, std::size_t n) {
    const std::size_t o = c.draw(n + 1), k = c.draw(n - o + 1), f = c.draw(n + 1), l = c.draw(n + 1);
    LOG("subview(" << o << ", " << k << "), first(" << f << "), last(" << l << ") of " << n);
    shows<T, dyn>(v.subview(o, k), p + o, k, "subview(offset, count)");
    shows<T, dyn>(v.first(f), p, f, "first(count)");
    shows<T, dyn>(v.last(l), p + (n - l), l, "last(count)");
    const std::size_t o2 = c.draw(k + 1), k2 = c.draw(k - o2 + 1);
    shows<T, dyn>(v.subview(o, k).subview(o2, k2), p + o + o2, k2, "subview of a subview");
    shows<T, dyn>(v.last(l).first(l / 2), p + (n - l), l / 2, "first of last");
    bytes(v.subview(o, k), p + o, k, "bytes of a subview");
}

template<typename T, std::size_t N, std::size_t O, std::size_t Len>
static void cut_static_one(const xme::ArrayView<T, Len> v, T* p) {
    []<std::size_t... K>(std::index_sequence<K...>, const auto v, T* p) {
        (shows<T, K>(v.template subview<O, K>(), p + O, K, "subview<offset, count>", false), ...);
    }(std::make_index_sequence<N - O + 1>{}, v, p);
}

//! Every static sub-view of a view of N elements (Len: its extent)
template<typename T, std::size_t N, std::size_t Len>
static void cut_static(const xme::ArrayView<T, Len> v, T* p) {
    []<std::size_t... O>(std::index_sequence<O...>, const auto v, T* p) {
        (cut_static_one<T, N, O, Len>(v, p), ...);
        (shows<T, O>(v.template first<O>(), p, O, "first<count>", false), ...);
        (shows<T, O>(v.template last<O>(), p + (N - O), O, "last<count>", false), ...);
    }(std::make_index_sequence<N + 1>{}, v, p);
}

template<typename T>
static void fill(T* p, std::size_t n, int base) {
    for(std::size_t i = 0; i < n; ++i)
        p[i] = Elem<T>::make(base + static_cast<int>(i));
}

//! Writing through one way and reading through another
template<typename T, std::size_t N>
static void writes(Case& c, xme::ArrayView<T, N> v, T* p, std::size_t n) {
    if(n == 0)
        return;
    std::vector<T> model(p, p + n);
    for(int k = 0; k < 3; ++k) {
        const std::size_t i = c.draw(n);
        const T x = Elem<T>::make(static_cast<int>(c.draw(100)));
        LOG("writes element " << i);
        switch(c.draw(5)) {
        case 0: v[static_cast<std::ptrdiff_t>(i)] = x; break;
        case 1: *(v.begin() + i) = x; break;
        case 2: v.data()[i] = x; break;
        case 3: {
            auto w = xme::as_writable_bytes(v);
            const auto* src = reinterpret_cast<const std::byte*>(&x);
            for(std::size_t b = 0; b < sizeof(T); ++b)
                w[static_cast<std::ptrdiff_t>(i * sizeof(T) + b)] = src[b];
            break;
        }
        default: v.subview(i, n - i).front() = x;
        }
        model[i] = x;
    }
    for(std::size_t i = 0; i < n; ++i)
        CHECK(p[i] == model[i], "element " << i << " was written wrongly");
}

template<typename T>
static void dynamic_views(Case& c) {
    const std::size_t n = c.draw(20);
    std::vector<T> vec(n + 4);
    fill(vec.data(), vec.size(), 1);
    const std::size_t off = c.draw(5);
    T* p = vec.data() + off;
    const std::size_t m = n + 4 - off - c.draw(n + 4 - off + 1);
    LOG("vector of " << vec.size() << ", " << m << " elements from " << off);
    using V = xme::ArrayView<T>;
    using CV = xme::ArrayView<const T>;
    shows<T, dyn>(V(p, m), p, m, "view of a pointer and a size");
    shows<T, dyn>(V(p, p + m), p, m, "view of two pointers");
    shows<T, dyn>(V(vec.begin() + off, m), p, m, "view of an iterator and a size");
    shows<T, dyn>(V(vec.begin() + off, vec.begin() + off + m), p, m, "view of two iterators");
    shows<const T, dyn>(CV(vec.cbegin() + off, m), p, m, "const view of an iterator and a size");
    shows<const T, dyn>(CV(vec.cbegin() + off, vec.cbegin() + off + m), p, m, "const view of two iterators");
    shows<T, dyn>(V(std::counted_iterator(p, static_cast<std::ptrdiff_t>(m)), std::default_sentinel), p, m, "view of a counted iterator");
    shows<T, dyn>(V(vec), vec.data(), vec.size(), "view of a range");
    shows<const T, dyn>(CV(std::as_const(vec)), vec.data(), vec.size(), "const view of a range");
    shows<const T, dyn>(CV(vec), vec.data(), vec.size(), "const view of a mutable range");
    shows<T, dyn>(V(std::span<T>(p, m)), p, m, "view of a span");
    {
        auto d1 = xme::ArrayView(vec.begin() + off, vec.begin() + off + m);
        static_assert(std::is_same_v<decltype(d1), V>);
        shows<T, dyn>(d1, p, m, "deduced view of two iterators");
        auto d2 = xme::ArrayView(std::as_const(vec));
        static_assert(std::is_same_v<decltype(d2), CV>);
        shows<const T, dyn>(d2, vec.data(), vec.size(), "deduced view of a const range");
        auto d3 = xme::ArrayView(p, m);
        static_assert(std::is_same_v<decltype(d3), V>);
        shows<T, dyn>(d3, p, m, "deduced view of a pointer and a size");
    }
    {
        xme::Array<T> a(vec.begin(), vec.end());
        shows<T, dyn>(V(a), a.data(), a.size(), "view of an Array");
        shows<const T, dyn>(CV(std::as_const(a)), a.data(), a.size(), "const view of an Array");
    }
    cut<T, dyn>(c, V(p, m), p, m);
    cut<const T, dyn>(c, CV(p, m), p, m);
    bytes(V(p, m), p, m, "bytes");
    bytes(CV(p, m), p, m, "bytes of const");
    writes<T, dyn>(c, V(p, m), p, m);
    if(m >= 2)
        c.nontrivial();
}
SUB_T(dynamic_int, dynamic_views<int>, 4000, 60000);
SUB_T(dynamic_byte, dynamic_views<unsigned char>, 3000, 40000);
SUB_T(dynamic_odd, dynamic_views<Odd>, 3000, 40000);

template<typename T, std::size_t N>
static void static_views(Case& c) {
    T carr[N];
    std::array<T, N> sarr;
    std::vector<T> vec(N);
    fill(carr, N, 1);
    fill(sarr.data(), N, 2);
    fill(vec.data(), N, 3);
    LOG("extent " << N);
    using V = xme::ArrayView<T, N>;
    using D = xme::ArrayView<T>;
    shows<T, N>(V(carr), carr, N, "view of a C array");
    shows<T, dyn>(D(carr), carr, N, "dynamic view of a C array");
    shows<T, N>(V(sarr), sarr.data(), N, "view of a std::array");
    shows<T, dyn>(D(sarr), sarr.data(), N, "dynamic view of a std::array");
    shows<const T, N>(xme::ArrayView<const T, N>(std::as_const(sarr)), sarr.data(), N, "view of a const std::array");
    shows<const T, dyn>(xme::ArrayView<const T>(std::as_const(sarr)), sarr.data(), N, "dynamic view of a const std::array");
    shows<T, N>(V(vec.data(), N), vec.data(), N, "static view of a pointer and a size");
    shows<T, N>(V(vec.begin(), vec.end()), vec.data(), N, "static view of two iterators");
    shows<T, N>(V(vec), vec.data(), N, "static view of a range");
    auto d1 = xme::ArrayView(carr);
    auto d2 = xme::ArrayView(sarr);
    auto d3 = xme::ArrayView(std::as_const(sarr));
    static_assert(std::is_same_v<decltype(d1), V> && std::is_same_v<decltype(d2), V>
                  && std::is_same_v<decltype(d3), xme::ArrayView<const T, N>>);
    shows<T, N>(d1, carr, N, "deduced view of a C array");
    shows<T, N>(d2, sarr.data(), N, "deduced view of a std::array");
    shows<const T, N>(d3, sarr.data(), N, "deduced view of a const std::array");
    cut<T, N>(c, V(carr), carr, N);
    if constexpr(N <= 5) {
        cut_static<T, N, N>(V(carr), carr);
        cut_static<T, N, dyn>(D(sarr), sarr.data());
    }
    else {
        shows<T, 3>(V(carr).template subview<N - 3, 3>(), carr + N - 3, 3, "subview<offset, count>");
        shows<T, N>(D(carr).template subview<0, N>(), carr, N, "subview<0, size>");
        shows<T, 1>(V(carr).template last<1>(), carr + N - 1, 1, "last<1>");
        shows<T, N - 1>(V(carr).template first<N - 1>(), carr, N - 1, "first<size - 1>");
    }
    bytes(V(carr), carr, N, "bytes of a static view");
    bytes(D(carr), carr, N, "bytes");
    writes<T, N>(c, V(sarr), sarr.data(), N);
    if(N >= 2)
        c.nontrivial();
}

SUB(static_extents, 6000, 60000) {
    switch(c.draw(7)) {
    case 0: static_views<int, 1>(c); break;
    case 1: static_views<int, 2>(c); break;
    case 2: static_views<unsigned char, 5>(c); break;
    case 3: static_views<Odd, 4>(c); break;
    case 4: static_views<double, 8>(c); break;
    case 5: static_views<int, 17>(c); break;
    default: {
        xme::ArrayView<int> none;
        xme::ArrayView<int, 0> zero;
        CHECK(none.empty() && none.size() == 0 && none.size_bytes() == 0 && none.begin() == none.end());
        CHECK(zero.empty() && zero.size() == 0 && zero.size_bytes() == 0 && zero.begin() == zero.end());
    }
    }
}

//! Views of elements that mind being copied
SUB(no_copies, 2000, 20000) {
    world.reset();
    using T = el::Tracked<el::copyable>;
    {
        std::vector<T> vec;
        const std::size_t n = c.draw(9);
        for(std::size_t i = 0; i < n; ++i)
            vec.emplace_back(static_cast<int>(i));
        xme::Array<T> arr(vec.begin(), vec.end());
        const u64 ops = world.ops();
        LOG(n << " elements");
        xme::ArrayView<T> v(vec);
        auto w = v;
        w      = xme::ArrayView<T>(arr);
        auto f = w.first(n / 2);
        auto l = w.last(n / 2);
        auto s = v.subview(n / 2, n - n / 2);
        std::swap(f, l);
        auto b = xme::as_bytes(s);
        for(auto& x : v)
            (void)x;
        CHECK(world.ops() == ops, "viewing elements copied or moved them");
        CHECK(w.data() == arr.data() && v.data() == vec.data() && s.data() == vec.data() + n / 2);
        CHECK(f.data() == arr.data() + (n - n / 2) && l.data() == arr.data());
        CHECK(b.size() == s.size() * sizeof(T));
        if(n > 1)
            c.nontrivial();
    }
    world.check_empty();
}

//! Views of long sequences: the same guarantees where lengths, offsets and byte counts don't fit into 8, 16 bits
template<typename T, std::size_t N>
static void long_one(Case& c, xme::ArrayView<T, N> v, T* p, std::size_t n) {
    auto ends = [](auto w, auto* q, std::size_t k, const char* how) {
        CHECK(w.size() == k, how << ": size is " << w.size() << ", not " << k);
        CHECK(w.size_bytes() == k * sizeof(*q), how << ": size_bytes is " << w.size_bytes());
        CHECK(w.empty() == (k == 0), how);
        CHECK(w.data() == q, how << ": data is elsewhere");
        CHECK(w.begin() == q && w.end() == q + k, how << ": iterators");
        CHECK(static_cast<std::size_t>(w.end() - w.begin()) == k, how << ": iterators");
        if(k) {
            CHECK(std::addressof(w.front()) == q && std::addressof(w.back()) == q + (k - 1), how << ": front or back");
            CHECK(std::addressof(w[static_cast<std::ptrdiff_t>(k - 1)]) == q + (k - 1), how << ": last index");
            CHECK(std::addressof(w[static_cast<std::ptrdiff_t>(k / 2)]) == q + k / 2, how << ": middle index");
        }
    };
    const std::size_t o = long_length(c, n), k = long_length(c, n - o), f = long_length(c, n), l = long_length(c, n);
    const std::size_t o2 = long_length(c, k), k2 = long_length(c, k - o2);
    LOG("subview(" << o << ", " << k << "), first(" << f << "), last(" << l << ") of " << n);
    ends(v, p, n, "view");
    ends(v.subview(o, k), p + o, k, "subview(offset, count)");
    ends(v.first(f), p, f, "first(count)");
    ends(v.last(l), p + (n - l), l, "last(count)");
    ends(v.subview(o, k).subview(o2, k2), p + o + o2, k2, "subview of a subview");
    ends(v.last(l).first(l / 2), p + (n - l), l / 2, "first of last");
    ends(xme::as_bytes(v), reinterpret_cast<const std::byte*>(p), n * sizeof(T), "bytes");
    ends(xme::as_writable_bytes(v), reinterpret_cast<std::byte*>(p), n * sizeof(T), "writable bytes");
    ends(xme::as_bytes(v.subview(o, k)), reinterpret_cast<const std::byte*>(p + o), k * sizeof(T), "bytes of a subview");
    ends(xme::as_writable_bytes(v.last(l)), reinterpret_cast<std::byte*>(p + (n - l)), l * sizeof(T), "bytes of last");
    auto statics = [&]<std::size_t K>(std::integral_constant<std::size_t, K>) {
        if constexpr(K <= N) {
            if(n < K)
                return;
            ends(v.template first<K>(), p, K, "first<count>");
            ends(v.template last<K>(), p + (n - K), K, "last<count>");
            ends(v.template subview<0, K>(), p, K, "subview<0, count>");
            ends(xme::as_bytes(v.template last<K>()), reinterpret_cast<const std::byte*>(p + (n - K)), K * sizeof(T),
                 "bytes of last<count>");
            if constexpr(K > 0 && N != dyn)
                ends(v.template subview<N - K, K>(), p + (n - K), K, "subview<offset, count>");
            if constexpr(K >= 200)
                if(n >= K)
                    ends(v.template subview<K - 100, 90>(), p + (K - 100), 90, "subview<offset, count>");
        }
    };
    statics(std::integral_constant<std::size_t, 0>());
    statics(std::integral_constant<std::size_t, 1>());
    statics(std::integral_constant<std::size_t, 7>());
    statics(std::integral_constant<std::size_t, 256>());
    statics(std::integral_constant<std::size_t, 300>());
    statics(std::integral_constant<std::size_t, 65536>());
    statics(std::integral_constant<std::size_t, 70001>());
    if(n > 255)
        c.nontrivial();
}

template<typename T>
static void long_views(Case& c) {
    static std::vector<T> store(140000);
    const std::size_t off = c.draw(1000), n = long_length(c, store.size() - off);
    T* p                  = store.data() + off;
    switch(c.draw(6)) {
    case 0: long_one<T, dyn>(c, xme::ArrayView<T>(p, p + n), p, n); break;
    case 1: long_one<T, 300>(c, xme::ArrayView<T, 300>(p, 300), p, 300); break;
    case 2: long_one<T, 256>(c, xme::ArrayView<T, 256>(store.begin() + off, store.begin() + off + 256), p, 256); break;
    case 3: long_one<T, 70001>(c, xme::ArrayView<T, 70001>(p, 70001), p, 70001); break;
    case 4: long_one<T, dyn>(c, xme::ArrayView<T>(store), store.data(), store.size()); break;
    default: long_one<T, dyn>(c, xme::ArrayView<T>(p, n), p, n);
    }
}
SUB_T(long_byte, long_views<unsigned char>, 1500, 20000);
SUB_T(long_int, long_views<int>, 1500, 20000);
SUB_T(long_odd, long_views<Odd>, 1500, 20000);

//! Walking every element of a long view, forwards and backwards
SUB(long_walk, 60, 600) {
    static std::vector<int> store(140000);
    const std::size_t n = long_length(c, store.size());
    LOG(n << " elements");
    xme::ArrayView<int> v(store.data(), n);
    shows<int, dyn>(v, store.data(), n, "long view");
    bytes(v, store.data(), n, "bytes of a long view");
    if(n > 255)
        c.nontrivial();
}

//! Views of more elements than 32 bits count, over addresses that are reserved but never touched
#include <sys/mman.h>
static unsigned char* reserved() {
    static void* p = mmap(nullptr, std::size_t(1) << 37, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : static_cast<unsigned char*>(p);
}
template<typename T>
static void huge_views(Case& c) {
    if(!reserved())
        return;
    T* const base = reinterpret_cast<T*>(reserved());
    const std::size_t most = (std::size_t(1) << 37) / sizeof(T);
    auto size = [&](std::size_t limit) {
        // around the powers of two, or anywhere
        const std::size_t n = c.draw(4) ? (std::size_t(1) << c.range(0, 37)) + static_cast<std::size_t>(c.draw(7)) : static_cast<std::size_t>(c.bits() & ((u64(1) << 37) - 1));
        return n > 3 && n - 3 <= limit ? n - 3 : limit;
    };
    const std::size_t n = size(most);
    LOG("huge: " << n << " elements of " << sizeof(T));
    if(n > (std::size_t(1) << 31))
        c.nontrivial();
    xme::ArrayView<T> v(base, n);
    shows<T, dyn>(v, base, n, "pointer and size", false, false);
    shows<T, dyn>(xme::ArrayView<T>(base, base + n), base, n, "two pointers", false, false);
    const std::size_t offset = size(n), count = size(n - offset), k = size(n);
    LOG("offset " << offset << ", count " << count << ", " << k);
    shows<T, dyn>(v.subview(offset, count), base + offset, count, "subview", false, false);
    shows<T, dyn>(v.first(k), base, k, "first", false, false);
    shows<T, dyn>(v.last(k), base + (n - k), k, "last", false, false);
    CHECK(v.last(k).subview(0, k).data() == base + (n - k), "the subview of the last");
    if(n)
        CHECK(&v[n - 1] == base + (n - 1) && &v.back() == base + (n - 1), "the last element is elsewhere");
    auto bytes = xme::as_bytes(v);
    CHECK(bytes.size() == n * sizeof(T) && static_cast<const void*>(bytes.data()) == base, "as_bytes shows " << bytes.size());
    auto writable = xme::as_writable_bytes(v.subview(offset, count));
    CHECK(writable.size() == count * sizeof(T) && static_cast<const void*>(writable.data()) == base + offset, "as_writable_bytes shows " << writable.size());
    if constexpr(sizeof(T) == 1) {
        constexpr std::size_t big = (std::size_t(5) << 32) + 3;
        xme::ArrayView<T, big> s(base + 1, big);
        shows<T, big>(s, base + 1, big, "static", false, false);
        constexpr std::size_t off = (std::size_t(1) << 32) + 1, cnt = (std::size_t(3) << 32) + 2;
        shows<T, cnt>(s.template subview<off, cnt>(), base + 1 + off, cnt, "static subview", false, false);
        shows<T, cnt>(s.template last<cnt>(), base + 1 + (big - cnt), cnt, "static last", false, false);
        shows<T, cnt>(s.template first<cnt>(), base + 1, cnt, "static first", false, false);
    }
}
SUB_T(huge_byte, huge_views<unsigned char>, 1500, 20000);
SUB_T(huge_odd, huge_views<Odd>, 1500, 20000);
SUB_T(huge_double, huge_views<double>, 1500, 20000);

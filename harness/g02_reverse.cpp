// G02: reverse against the definition, and its surroundings
#include "elements.hpp"
#include "iterators.hpp"
#include "placement.hpp"
#include <array>
#include <deque>
#include <list>
#include <ranges>
#include <span>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/core/algorithm/reverse.hpp>

using its::ssize;

enum class E8 : signed char {};
struct One {
    char c;
};
//! One byte, but not to be copied byte by byte
struct Counted {
    unsigned char c;
    static inline long moves;
    Counted(unsigned char x = 0) : c(x) {}
    Counted(Counted&& o) noexcept : c(o.c) { ++moves; }
    Counted& operator=(Counted&& o) noexcept {
        c = o.c;
        ++moves;
        return *this;
    }
};
struct Three {
    unsigned char v[3];
};
struct Odd {
    short a[5];
};
struct End {
    const void* at;
    template<typename T>
    friend bool operator==(T* p, End e) { return p == e.at; }
};

template<typename T>
static void fill(T* p, u64 k) {
    if constexpr(std::is_same_v<T, bool>)
        ::new(p) bool((k * 0x9e3779b97f4a7c15ull >> 40) & 1);
    else if constexpr(!std::is_trivially_copyable_v<T>)
        ::new(p) T(static_cast<unsigned char>(k * 7));
    else {
        unsigned char b[sizeof(T)];
        for(std::size_t i = 0; i < sizeof(T); ++i)
            b[i] = static_cast<unsigned char>((k * 0x9e3779b97f4a7c15ull + i * 0x632be59bd9b4e019ull) >> 37);
        std::memcpy(static_cast<void*>(p), b, sizeof(T));
    }
}

template<typename T>
static void contiguous(Case& c) {
    const std::size_t n = place::length<T>(c);
    place::Spot<T> spot(c, n);
    T* const p = spot.data;
    const u64 salt = c.draw(1000);
    unsigned char* const raw = reinterpret_cast<unsigned char*>(p);
    std::memset(raw - spot.before * sizeof(T), 0xC3, spot.before * sizeof(T));
    std::memset(raw + n * sizeof(T), 0xC3, spot.after * sizeof(T));
    for(std::size_t i = 0; i < n; ++i)
        fill(p + i, salt + i);
    std::vector<unsigned char> was(raw, raw + n * sizeof(T));
    LOG(n << " elements of " << sizeof(T) << " bytes " << spot.name << ", " << reinterpret_cast<std::uintptr_t>(p) % 64
          << " after a multiple of 64");
    const u64 form = c.draw(6);
    auto run = [&] {
        switch(form) {
        case 0: CHECK(xme::reverse(p, p + n) == p + n, "the end"); break;
        case 1: {
            std::span<T> s(p, n);
            CHECK(xme::reverse(s) == s.end(), "the end");
            break;
        }
        case 2: CHECK(xme::reverse(p, End{p + n}) == p + n, "the end"); break;
        case 3: {
            xme::ArrayView<T> v(p, n);
            CHECK(xme::reverse(v) == v.end(), "the end");
            break;
        }
        case 4: {
            std::counted_iterator<T*> i(p, static_cast<ssize>(n));
            auto e = xme::reverse(i, std::default_sentinel);
            CHECK(e.base() == p + n, "the end");
            break;
        }
        default: {
            ::ranges::subrange<T*> s(p, p + n);
            CHECK(xme::reverse(s) == p + n, "the end");
        }
        }
    };
    auto around = [&] {
        for(std::size_t i = 1; i <= spot.before * sizeof(T); ++i)
            CHECK(raw[-static_cast<ssize>(i)] == 0xC3, "the byte " << i << " before the range was written (" << n << " elements)");
        for(std::size_t i = 0; i < spot.after * sizeof(T); ++i)
            CHECK(raw[n * sizeof(T) + i] == 0xC3, "the byte " << i << " after the range was written (" << n << " elements)");
    };
    run();
    for(std::size_t i = 0; i < n; ++i)
        for(std::size_t b = 0; b < sizeof(T); ++b)
            CHECK(raw[i * sizeof(T) + b] == was[(n - 1 - i) * sizeof(T) + b],
                  "element " << i << " of " << n << " is not the one that was at " << (n - 1 - i));
    around();
    run();
    CHECK(n == 0 || std::memcmp(raw, was.data(), was.size()) == 0, "reversed twice, " << n << " elements");
    around();
    if(n * sizeof(T) > 32)
        c.nontrivial();
}
SUB_T(chars, contiguous<char>, 8000, 150000);
SUB_T(unsigned_chars, contiguous<unsigned char>, 6000, 150000);
SUB_T(bytes, contiguous<std::byte>, 3000, 60000);
SUB_T(bools, contiguous<bool>, 3000, 60000);
SUB_T(char8s, contiguous<char8_t>, 3000, 60000);
SUB_T(enums, contiguous<E8>, 3000, 60000);
SUB_T(one, contiguous<One>, 3000, 60000);
SUB_T(counted, contiguous<Counted>, 3000, 60000);
SUB_T(shorts, contiguous<short>, 4000, 60000);
SUB_T(three, contiguous<Three>, 2000, 60000);
SUB_T(ints, contiguous<int>, 4000, 60000);
SUB_T(longs, contiguous<long>, 3000, 60000);
SUB_T(doubles, contiguous<double>, 2000, 60000);
SUB_T(pointers, contiguous<void*>, 2000, 60000);
SUB_T(int128s, contiguous<__int128>, 2000, 60000);
SUB_T(odd, contiguous<Odd>, 2000, 60000);

//! Long ranges, and parts of them
SUB(far, 400, 10000) {
    const std::size_t n = c.draw(20000);
    std::vector<signed char> v(n);
    for(std::size_t i = 0; i < n; ++i)
        v[i] = static_cast<signed char>((i * 0x9e3779b97f4a7c15ull) >> 50);
    const auto a = static_cast<ssize>(c.draw(n + 1));
    const auto b = a + static_cast<ssize>(c.draw(n + 1 - static_cast<std::size_t>(a)));
    auto want = v;
    std::reverse(want.begin() + a, want.begin() + b);
    LOG("from " << a << " to " << b << " of " << n);
    CHECK(xme::reverse(v.begin() + a, v.begin() + b) == v.begin() + b);
    CHECK(v == want, "from " << a << " to " << b << " of " << n);
    if(b - a > 64)
        c.nontrivial();
}

//! Longer ones, whose lengths don't fit into 16 bits
template<typename T>
static void farther(Case& c) {
    static std::vector<T> v(300000), want;
    u64 salt = c.draw(1000);
    for(auto& x : v)
        x = static_cast<T>((salt += 0x9e3779b97f4a7c15ull) >> 50);
    const std::size_t b = c.draw(100), n = long_length(c, v.size() - b);
    want = v;
    LOG(n << " elements from " << b);
    const auto f = v.begin() + static_cast<ssize>(b), l = f + static_cast<ssize>(n);
    std::reverse(want.begin() + static_cast<ssize>(b), want.begin() + static_cast<ssize>(b + n));
    CHECK(xme::reverse(f, l) == l);
    CHECK(v == want, n << " elements from " << b);
    if(n > 255)
        c.nontrivial();
}
SUB_T(farther_bytes, farther<unsigned char>, 100, 3000);
SUB_T(farther_ints, farther<int>, 100, 3000);
SUB_T(farther_odd, farther<__int128>, 60, 2000);

template<typename Seq>
static void container(Case& c) {
    using T = typename Seq::value_type;
    Seq s{};
    std::vector<int> v(c.draw(c.draw(4) ? 20 : 120));
    for(std::size_t i = 0; i < v.size(); ++i) {
        v[i] = static_cast<int>(c.draw(100));
        if constexpr(std::is_same_v<T, bool>)
            s.push_back(v[i] & 1);
        else if constexpr(std::is_same_v<T, std::unique_ptr<int>>)
            s.push_back(std::make_unique<int>(v[i]));
        else if constexpr(std::is_same_v<T, char>)
            s.push_back(static_cast<char>(v[i]));
        else
            s.push_back(el::Elem<T>::make(v[i]));
    }
    auto check = [&](const char* what) {
        CHECK(static_cast<std::size_t>(std::distance(s.begin(), s.end())) == v.size());
        std::size_t i = 0;
        for(auto&& x : s) {
            const int want = v[i];
            if constexpr(std::is_same_v<T, bool>)
                CHECK(x == (want & 1), what << " at " << i);
            else if constexpr(std::is_same_v<T, std::unique_ptr<int>>)
                CHECK(*x == want, what << " at " << i);
            else if constexpr(std::is_same_v<T, char>)
                CHECK(x == static_cast<char>(want), what << " at " << i);
            else
                CHECK(el::Elem<T>::read(x) == want, what << " at " << i);
            ++i;
        }
    };
    LOG(v.size() << " elements");
    CHECK(xme::reverse(s) == s.end(), "the end");
    std::reverse(v.begin(), v.end());
    check("reversed");
    const auto a = static_cast<ssize>(c.draw(v.size() + 1));
    const auto b = a + static_cast<ssize>(c.draw(v.size() + 1 - static_cast<std::size_t>(a)));
    LOG("from " << a << " to " << b);
    auto f = std::next(s.begin(), a), l = std::next(s.begin(), b);
    CHECK(xme::reverse(f, l) == l);
    std::reverse(v.begin() + a, v.begin() + b);
    check("a part reversed");
    el::world.check();
    if(v.size() > 2)
        c.nontrivial();
}
SUB_T(list_of_int, container<std::list<int>>, 1500, 30000);
SUB_T(list_of_char, container<std::list<char>>, 1500, 30000);
SUB_T(deque_of_char, container<std::deque<char>>, 1500, 30000);
SUB_T(vector_of_char, container<std::vector<char>>, 1500, 30000);
SUB_T(string, container<std::string>, 1500, 30000);
SUB_T(vector_of_string, container<std::vector<std::string>>, 1500, 30000);
SUB_T(vector_of_unique, container<std::vector<std::unique_ptr<int>>>, 1500, 30000);
SUB_T(vector_of_tracked, container<std::vector<el::Tracked<el::move_only>>>, 1500, 30000);
SUB_T(array_of_int, container<xme::Array<int>>, 1500, 30000);
SUB_T(array_of_char, container<xme::Array<char>>, 1500, 30000);
SUB_T(array_of_big, container<xme::Array<el::BigPod>>, 1000, 30000);

SUB(kinds, 2000, 30000) {
    std::array<char, 67> a;
    for(char& x : a)
        x = static_cast<char>(c.draw(120));
    auto w = a;
    std::reverse(w.begin(), w.end());
    CHECK(xme::reverse(a) == a.end() && a == w, "std::array");
    char raw[41];
    std::memcpy(raw, a.data(), 41);
    CHECK(xme::reverse(raw) == raw + 41 && std::equal(raw, raw + 41, std::reverse_iterator(a.data() + 41)), "an array");
    // through a reverse iterator
    w = a;
    xme::reverse(std::reverse_iterator(a.data() + 67), std::reverse_iterator(a.data()));
    std::reverse(w.begin(), w.end());
    CHECK(a == w, "in reverse");
    std::vector<int> v(c.draw(40));
    for(int& i : v)
        i = static_cast<int>(c.draw(50));
    auto u = v;
    its::Bounds::size = static_cast<ssize>(v.size());
    using Chk = its::Checked<int, false, 0>;
    auto e = xme::reverse(Chk(v.data(), 0), Chk(v.data(), its::Bounds::size));
    std::reverse(u.begin(), u.end());
    CHECK(u == v && e.position() == its::Bounds::size, "bidirectional");
    // temporaries
    CHECK(xme::reverse(std::span<int>(v)) - std::span<int>(v).begin() == static_cast<ssize>(v.size()), "a temporary");
    std::reverse(u.begin(), u.end());
    CHECK(u == v, "a temporary");
    const auto from = static_cast<ssize>(c.draw(v.size() + 1));
    CHECK(xme::reverse(std::ranges::subrange(v.begin() + from, v.end())) == v.end(), "a temporary");
    std::reverse(u.begin() + from, u.end());
    CHECK(u == v, "a temporary");
    // some of the elements
    auto odd = [](int i) { return i % 2 != 0; };
    xme::reverse(v | std::views::filter(odd));
    std::ranges::reverse(u | std::views::filter(odd));
    CHECK(u == v, "a view of some elements");
    if(v.size() > 1)
        c.nontrivial();
}

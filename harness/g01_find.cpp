// G01: find against a loop over the elements
#include "elements.hpp"
#include "iterators.hpp"
#include "placement.hpp"
#include <array>
#include <bit>
#include <deque>
#include <execution>
#include <forward_list>
#include <list>
#include <optional>
#include <set>
#include <ranges>
#include <span>
#include <string_view>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/core/algorithm/find.hpp>

using its::ssize;

enum class E8 : unsigned char {};
enum class E16 : short {};
enum class E32 : unsigned {};
enum E64 : unsigned long { e64 };
//! An enumeration that says which values are equal: those that differ by the lowest bit
enum class Own : unsigned char {};
constexpr bool operator==(Own a, Own b) { return (static_cast<int>(a) | 1) == (static_cast<int>(b) | 1); }
//! Part of the value only
template<typename T>
struct Part {
    T v;
    friend bool operator==(const Part& a, const Part& b) { return (a.v | T(1)) == (b.v | T(1)); }
};
template<typename T>
struct Whole {
    T v;
    friend bool operator==(const Whole&, const Whole&) = default;
};
struct Three {
    unsigned char v[3];
    friend bool operator==(const Three&, const Three&) = default;
};
struct Fat {
    long v;
    char name[20];
    friend bool operator==(const Fat& a, const Fat& b) { return a.v == b.v; }
};
struct Derived : Whole<int> {
    friend bool operator==(const Derived& a, const Derived& b) { return a.v == b.v; }
};

//! A generated value; few different ones, that share bytes
template<typename T>
static T value(Case& c, unsigned alphabet) {
    static constexpr unsigned char bytes[] = {0, 1, 0xff, 0x80, 0x7f, 'a'};
    if constexpr(std::is_same_v<T, bool>)
        return c.draw(2) != 0;
    else if constexpr(std::is_floating_point_v<T>) {
        static constexpr T some[] = {T(0), T(1), -T(0), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(),
                                     std::numeric_limits<T>::denorm_min()};
        return some[c.draw(alphabet)];
    }
    else if constexpr(std::is_same_v<T, std::string>)
        return std::string(c.draw(2) ? 1 : 20, static_cast<char>('a' + c.draw(alphabet)));
    else {
        unsigned char b[sizeof(T)];
        const u64 kind = c.draw(3);
        const unsigned char same = bytes[c.draw(alphabet)];
        const std::size_t odd = static_cast<std::size_t>(c.draw(sizeof(T)));
        const unsigned char other = bytes[c.draw(alphabet)];
        for(std::size_t i = 0; i < sizeof(T); ++i)
            b[i] = kind == 0 ? same : i == odd ? other : kind == 1 ? same : static_cast<unsigned char>(0);
        T t;
        std::memcpy(&t, b, sizeof(T));
        return t;
    }
}

template<typename F>
static auto policy(u64 which, F f) {
    switch(which) {
    case 0: return f.template operator()<std::execution::unsequenced_policy>();
    case 1: return f.template operator()<std::execution::sequenced_policy>();
    case 2: return f.template operator()<std::execution::parallel_policy>();
    default: return f.template operator()<std::execution::parallel_unsequenced_policy>();
    }
}
struct End {
    const void* at;
    template<typename T>
    friend bool operator==(T* p, End e) { return p == e.at; }
};

template<typename T>
static void contiguous(Case& c) {
    const std::size_t n = place::length<T>(c);
    place::Spot<T> spot(c, n);
    T* const p = spot.data;
    const unsigned alphabet = 1 + static_cast<unsigned>(c.draw(6));
    const T needle = value<T>(c, alphabet);
    std::optional<T> base;  // everywhere but in a few places
    if(c.draw(4))
        base = value<T>(c, alphabet);
    // the surroundings are full of what is looked for
    for(std::size_t i = 1; i <= spot.before; ++i)
        std::memcpy(static_cast<void*>(p - i), &needle, sizeof(T));
    for(std::size_t i = 0; i < spot.after; ++i)
        std::memcpy(static_cast<void*>(p + n + i), &needle, sizeof(T));
    for(std::size_t i = 0; i < n; ++i) {
        const T v = base && c.draw(16) ? *base : value<T>(c, alphabet);
        std::memcpy(static_cast<void*>(p + i), &v, sizeof(T));
    }
    if(n && c.draw(3)) {
        const u64 at = c.draw(n);
        std::memcpy(static_cast<void*>(p + at), &needle, sizeof(T));
    }
    const bool inside = n && c.chance(1, 6);  // looks for an element by reference
    const T& wanted = inside ? p[c.draw(n)] : needle;
    std::size_t want = 0;
    while(want < n && !(p[want] == wanted))
        ++want;
    std::vector<unsigned char> before(reinterpret_cast<unsigned char*>(p), reinterpret_cast<unsigned char*>(p + n));
    LOG(n << " elements of " << sizeof(T) << " bytes " << spot.name << ", " << reinterpret_cast<std::uintptr_t>(p) % 64
          << " after a multiple of 64; the first equal is " << want);
    const u64 which = c.draw(3) ? 0 : 1 + c.draw(3);
    const u64 form = which ? 0 : c.draw(6);
    const ssize got = policy(which, [&]<typename P>() -> ssize {
        if constexpr(!std::is_same_v<P, std::execution::unsequenced_policy>)
            return xme::find<P>(p, p + n, wanted) - p;
        else
        switch(form) {
        case 0: {
            T* r = xme::find<P>(p, p + n, wanted);
            return r - p;
        }
        case 1: {
            const T* r = xme::find<P>(static_cast<const T*>(p), static_cast<const T*>(p) + n, wanted);
            return r - p;
        }
        case 2: return xme::find<P>(std::span<T>(p, n), wanted) - std::span<T>(p, n).begin();
        case 3: return xme::find<P>(p, End{p + n}, wanted) - p;
        case 4: {
            xme::ArrayView<T> v(p, n);
            return xme::find<P>(v, wanted) - v.begin();
        }
        default: {
            ::ranges::subrange<const T*> s(p, p + n);
            return xme::find<P>(s, wanted) - p;
        }
        }
    });
    CHECK(got == static_cast<ssize>(want), "found " << got << " of " << n << ", the first equal element is " << want << " (form "
                                                    << form << ", policy " << which << ", " << sizeof(T) << " bytes " << spot.name << ")");
    if(form == 0 && which == 0)
        CHECK(xme::find(p, p + n, wanted) == p + want, "without a policy");
    CHECK(n == 0 || std::memcmp(before.data(), p, n * sizeof(T)) == 0, "the range was changed");
    if(n * sizeof(T) >= 16 && want > 0)
        c.nontrivial();
    c.label(want == n ? "absent" : "present");
}
SUB_T(signed_chars, contiguous<signed char>, 6000, 100000);
SUB_T(chars, contiguous<char>, 6000, 100000);
SUB_T(bools, contiguous<bool>, 3000, 50000);
SUB_T(bytes, contiguous<std::byte>, 3000, 50000);
SUB_T(enum8, contiguous<E8>, 3000, 50000);
SUB_T(own_equality, contiguous<Own>, 3000, 50000);
SUB_T(part8, contiguous<Part<unsigned char>>, 3000, 50000);
SUB_T(shorts, contiguous<short>, 6000, 100000);
SUB_T(char16s, contiguous<char16_t>, 3000, 50000);
SUB_T(enum16, contiguous<E16>, 3000, 50000);
SUB_T(part16, contiguous<Part<unsigned short>>, 2000, 50000);
SUB_T(three, contiguous<Three>, 3000, 50000);
SUB_T(ints, contiguous<int>, 6000, 100000);
SUB_T(unsigneds, contiguous<unsigned>, 3000, 50000);
SUB_T(floats, contiguous<float>, 4000, 50000);
SUB_T(enum32, contiguous<E32>, 3000, 50000);
SUB_T(whole32, contiguous<Whole<unsigned>>, 2000, 50000);
SUB_T(part32, contiguous<Part<unsigned>>, 3000, 50000);
SUB_T(derived32, contiguous<Derived>, 2000, 50000);
SUB_T(longs, contiguous<long>, 6000, 100000);
SUB_T(unsigned_longs, contiguous<unsigned long long>, 3000, 50000);
SUB_T(doubles, contiguous<double>, 4000, 50000);
SUB_T(enum64, contiguous<E64>, 3000, 50000);
SUB_T(pointers, contiguous<int*>, 3000, 50000);
SUB_T(const_void_pointers, contiguous<const void*>, 2000, 50000);
SUB_T(part64, contiguous<Part<unsigned long>>, 3000, 50000);
SUB_T(long_doubles, contiguous<long double>, 2000, 50000);
SUB_T(int128s, contiguous<Whole<__int128>>, 2000, 50000);
SUB_T(fats, contiguous<Fat>, 2000, 50000);

//! Long ranges, looked through to a generated place
template<typename T>
static void far(Case& c) {
    const std::size_t n = 200 + c.draw(20000);
    static std::vector<T> v;
    v.assign(n, T(0));
    const std::size_t at = c.draw(n + 1), second = c.draw(n + 1);
    if(at < n)
        v[at] = T(1);
    if(second < n)
        v[second] = T(1);
    const std::size_t from = c.draw(std::min<std::size_t>(n, 70));
    const std::size_t want = std::min(at < from ? n : at, second < from ? n : second);
    LOG(n << " elements from " << from << ", at " << at << " and " << second);
    auto r = xme::find(v.begin() + static_cast<ssize>(from), v.end(), T(1));
    CHECK(r - v.begin() == static_cast<ssize>(std::min(want, n)), "found " << (r - v.begin()) << ", not " << want);
    c.nontrivial();
}
SUB_T(far8, far<unsigned char>, 300, 10000);
SUB_T(far16, far<unsigned short>, 300, 10000);
SUB_T(far32, far<int>, 300, 10000);
SUB_T(far64, far<long>, 300, 10000);

//! The first element equal, far from the beginning
SUB(farther, 300, 6000) {
    static std::vector<unsigned char> v;
    v.assign(300000, 0);
    const std::size_t b = c.draw(100), n = v.size() - b - c.draw(100);
    const std::size_t at = long_length(c, n);
    const std::size_t after = at + long_length(c, n - at);
    LOG("from " << b << " to " << b + n << ", at " << at << " and " << after);
    if(at < n)
        v[b + at] = 9;
    if(after < n)
        v[b + after] = 9;
    const auto f = v.begin() + static_cast<ssize>(b), l = f + static_cast<ssize>(n);
    CHECK(xme::find(f, l, static_cast<unsigned char>(9)) - f == static_cast<ssize>(at));
    CHECK(xme::find(f, f + static_cast<ssize>(at), static_cast<unsigned char>(9)) - f == static_cast<ssize>(at));
    std::list<short> s(std::min<std::size_t>(at, 70000), 0);
    s.push_back(4);
    CHECK(xme::find(s, short(4)) == std::prev(s.end()));
    c.nontrivial();
}

//! Positions that 32 bits don't count, in memory that is all zero and never written but at one place
#if !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
#include <sys/mman.h>
template<typename T>
static void beyond_32_bits(Case& c) {
    constexpr std::size_t bytes = (std::size_t(1) << 32) + (std::size_t(1) << 22);
    const std::size_t b = c.draw(5000), n = bytes / sizeof(T) - b - c.draw(5000);
    const std::size_t at = (std::size_t(1) << (c.draw(2) ? 31 : 32)) / sizeof(T) + c.draw(100000);
    const bool there = c.draw(3) != 0;
    void* const p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED)
        return;
    madvise(p, bytes, MADV_HUGEPAGE);
    T* const f = static_cast<T*>(p) + b;
    LOG("beyond: " << n << " elements of " << sizeof(T) << ", at " << (there ? at : n));
    // what is mapped for reading stays one page of zeros, however large
    if(there)
        f[at] = T(7);
    const ssize r = xme::find(f, f + n, T(7)) - f;
    munmap(p, bytes);
    CHECK(r == static_cast<ssize>(there ? at : n), "found at " << r);
    c.nontrivial();
}
SUB_T(beyond_bytes, beyond_32_bits<unsigned char>, 1, 4);
SUB_T(beyond_shorts, beyond_32_bits<unsigned short>, 1, 4);
#endif

//! Other containers
template<typename Seq>
static void container(Case& c) {
    using T = typename Seq::value_type;
    const unsigned alphabet = 1 + static_cast<unsigned>(c.draw(6));
    std::vector<T> v(c.draw(70));
    for(std::size_t i = 0; i < v.size(); ++i)
        v[i] = value<T>(c, alphabet);
    const T needle = value<T>(c, alphabet);
    Seq s(v.begin(), v.end());
    ssize want = 0;
    for(auto i = s.begin(); i != s.end() && !(*i == needle); ++i)
        ++want;
    const u64 which = c.draw(4);
    LOG(v.size() << " elements, the first equal is " << want << ", policy " << which);
    policy(which, [&]<typename P>() {
        auto r = xme::find<P>(s, needle);
        static_assert(std::is_same_v<decltype(r), typename Seq::iterator>);
        CHECK(r == std::next(s.begin(), want), "in a range");
        if constexpr(requires { s.cbegin(); }) {
            auto k = xme::find<P>(std::as_const(s), needle);
            CHECK(k == std::next(s.cbegin(), want), "in a constant range");
        }
        CHECK(xme::find<P>(s.begin(), s.end(), needle) == r, "between iterators");
        const ssize from = static_cast<ssize>(c.draw(static_cast<u64>(want) + 1));
        CHECK(xme::find<P>(std::next(s.begin(), from), s.end(), needle) == r, "starting at " << from);
        CHECK(xme::find<P>(s.begin(), r, needle) == r, "in the part before");
        return 0;
    });
    if(v.size() > 1 && want > 0)
        c.nontrivial();
}
SUB_T(vector_of_int, container<std::vector<int>>, 2000, 30000);
SUB_T(vector_of_bool, container<std::vector<bool>>, 1500, 30000);
SUB_T(vector_of_string, container<std::vector<std::string>>, 1500, 30000);
SUB_T(string, container<std::string>, 2000, 30000);
SUB_T(wide_string, container<std::u32string>, 1000, 30000);
SUB_T(list_of_char, container<std::list<char>>, 1000, 30000);
SUB_T(forward_list_of_long, container<std::forward_list<long>>, 1000, 30000);
SUB_T(deque_of_short, container<std::deque<short>>, 1000, 30000);
SUB_T(array_of_int, container<xme::Array<int>>, 1500, 30000);
SUB_T(array_of_string, container<xme::Array<std::string>>, 1000, 30000);

//! Ranges of other kinds
SUB(kinds, 3000, 40000) {
    std::vector<int> v(c.draw(60));
    for(int& i : v)
        i = static_cast<int>(c.draw(12));
    const int needle = static_cast<int>(c.draw(12));
    const ssize want = std::find(v.begin(), v.end(), needle) - v.begin();
    LOG(v.size() << " elements, the first equal is " << want);
    // read once
    std::size_t pos = 0;
    auto r = xme::find(el::SinglePass<int>{&v, &pos}, std::default_sentinel, needle);
    CHECK(pos == static_cast<std::size_t>(want), "a single pass range was read up to " << pos << ", not " << want);
    CHECK((r == std::default_sentinel) == (want == static_cast<ssize>(v.size())));
    el::world.check();
    // counted, checked bounds, in reverse
    auto counted = xme::find(std::counted_iterator(v.begin(), static_cast<ssize>(v.size())), std::default_sentinel, needle);
    CHECK(counted.base() - v.begin() == want, "counted");
    its::Bounds::size = static_cast<ssize>(v.size());
    using Chk = its::Checked<int, false, 1>;
    auto k = xme::find(Chk(v.data(), 0), Chk(v.data(), its::Bounds::size), needle);
    CHECK(k.position() == want, "checked");
    auto rev = xme::find(v.rbegin(), v.rend(), needle);
    CHECK(rev == std::find(v.rbegin(), v.rend(), needle), "in reverse");
    std::array<char, 33> a{};
    for(char& ch : a)
        ch = static_cast<char>(c.draw(20));
    CHECK(xme::find(a, static_cast<char>(needle)) == std::find(a.begin(), a.end(), static_cast<char>(needle)), "std::array");
    int raw[37];
    for(int& i : raw)
        i = static_cast<int>(c.draw(20));
    CHECK(xme::find(raw, needle) == std::find(raw, raw + 37, needle), "an array");
    const std::string s(reinterpret_cast<const char*>(a.data()), 33);
    std::string_view sv(s);
    sv.remove_prefix(c.draw(10));
    sv.remove_suffix(c.draw(10));
    // temporaries
    CHECK(xme::find(std::span<int>(v), needle) - std::span<int>(v).begin() == want, "a temporary");
    CHECK(xme::find(std::span<const int>(v.data(), v.size()), needle) - std::span<const int>(v).begin() == want, "a temporary");
    CHECK(xme::find(std::ranges::subrange(v.begin(), v.end()), needle) - v.begin() == want, "a temporary");
    CHECK(*xme::find(std::views::iota(0, 40), needle) == needle, "a temporary");
    CHECK(static_cast<std::size_t>(xme::find(std::string_view(sv), static_cast<char>(needle)) - sv.begin())
            == std::min(sv.find(static_cast<char>(needle)), sv.size()), "a temporary string view");
    CHECK(static_cast<std::size_t>(xme::find(sv, static_cast<char>(needle)) - sv.begin())
            == std::min(sv.find(static_cast<char>(needle)), sv.size()), "a string view");
    if(v.size() > 1)
        c.nontrivial();
}

// B01: has_single_bit, to_unsigned and forward_like against their definitions
#include "elements.hpp"
#include <memory>
#include <string>
#include <type_traits>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>

enum class E8 : signed char {};
enum class E64 : long {};
enum Old : int { old_a = -1, old_b = 1 };

template<typename T>
static std::string text(T v) {
    using U = unsigned __int128;
    U u = static_cast<U>(v);
    std::string s;
    for(std::size_t i = 0; i < sizeof(T) * 2; ++i) {
        s.insert(s.begin(), "0123456789abcdef"[static_cast<unsigned>(u & 15)]);
        u >>= 4;
    }
    return "0x" + s;
}

//! Counts the bits one by one
template<typename T>
static void single(T n) {
    int bits = 0;
    for(unsigned i = 0; i < sizeof(T) * 8; ++i)
        bits += (static_cast<unsigned __int128>(n) >> i & 1) != 0;
    CHECK(static_cast<bool>(xme::has_single_bit(n)) == (bits == 1), "has_single_bit(" << text(n) << ") of " << sizeof(T) << " bytes, with " << bits << " bits");
}

//! Values with few bits, with few zeros, near powers of two, and any
template<typename T>
static T word(Case& c) {
    using U = unsigned __int128;
    const u64 w = sizeof(T) * 8;
    U v = 0;
    switch(c.draw(5)) {
    case 0: v = U(1) << c.draw(w); break;
    case 1:
        for(u64 k = c.draw(4); k > 0; --k)
            v |= U(1) << c.draw(w);
        break;
    case 2: v = (U(1) << c.draw(w)) + c.draw(5) - 2; break;
    case 3:
        v = ~U(0);
        for(u64 k = c.draw(4); k > 0; --k)
            v &= ~(U(1) << c.draw(w));
        break;
    default: v = (U(c.bits()) << 64) | c.bits();
    }
    return static_cast<T>(v);
}

template<typename T>
static void single_bit(Case& c) {
    static_assert(xme::has_single_bit(T(1)) && !xme::has_single_bit(T(0)));
    const T n = word<T>(c);
    LOG(text(n));
    single(n);
    if(n != 0)
        c.nontrivial();
}
SUB_T(single_bit_uchar, single_bit<unsigned char>, 2000, 20000);
SUB_T(single_bit_ushort, single_bit<unsigned short>, 4000, 50000);
SUB_T(single_bit_uint, single_bit<unsigned>, 10000, 300000);
SUB_T(single_bit_ulong, single_bit<unsigned long>, 10000, 300000);
SUB_T(single_bit_ulonglong, single_bit<unsigned long long>, 10000, 300000);
SUB_T(single_bit_char8, single_bit<char8_t>, 2000, 20000);
SUB_T(single_bit_char16, single_bit<char16_t>, 2000, 50000);
SUB_T(single_bit_char32, single_bit<char32_t>, 5000, 100000);

//! 128 bits, where it is an unsigned type (with the extensions of GNU)
template<typename T>
static void single_bit_wide(Case& c) {
    if constexpr(std::is_unsigned_v<T>)
        single_bit<T>(c);
    else {
        LOG("no type: " << c.bits());
        c.nontrivial();
    }
}
SUB_T(single_bit_int128, single_bit_wide<unsigned __int128>, 10000, 100000);

//! Every value of the small types
SUB(single_bit_all, 3, 3) {
    for(unsigned i = 0; i < 256; ++i)
        single(static_cast<unsigned char>(i));
    for(unsigned i = 0; i < 65536; ++i)
        single(static_cast<unsigned short>(i));
    for(unsigned i = 0; i < 65536; ++i) {
        single(i << 16);
        single(i << 8);
        single(static_cast<u64>(i) << 48);
        single(static_cast<u64>(i) << 32 | 0);
    }
    for(unsigned i = 0; i < 64; ++i)
        for(unsigned j = 0; j < 64; ++j)
            single(u64(1) << i | u64(1) << j);
    CHECK(xme::has_single_bit(true) && !xme::has_single_bit(false));
    (void)c;
    c.nontrivial();
}

template<typename T>
static void to_unsigned(Case& c) {
    const T n = word<T>(c);
    LOG(text(n));
    const auto u = xme::to_unsigned(n);
    using R = std::remove_const_t<decltype(u)>;
    CHECK((std::is_same_v<R, unsigned __int128> || std::is_unsigned_v<R>), "the type isn't unsigned");
    CHECK(sizeof(u) == sizeof(n), "of " << sizeof(n) << " bytes became " << sizeof(u));
    CHECK(std::memcmp(&u, &n, sizeof(n)) == 0, text(n) << " became " << text(u));
    if constexpr(!std::is_same_v<T, __int128> && !std::is_same_v<T, unsigned __int128>)
    {
        CHECK((std::is_same_v<R, std::make_unsigned_t<T>>), "the type is another one");
        static_assert(xme::to_unsigned(T(1)) == 1);
    }
    if(static_cast<__int128>(n) < 0)
        c.label("negative");
    c.nontrivial();
}
SUB_T(unsigned_char, to_unsigned<char>, 2000, 20000);
SUB_T(unsigned_schar, to_unsigned<signed char>, 2000, 20000);
SUB_T(unsigned_uchar, to_unsigned<unsigned char>, 1000, 20000);
SUB_T(unsigned_short, to_unsigned<short>, 2000, 20000);
SUB_T(unsigned_ushort, to_unsigned<unsigned short>, 1000, 20000);
SUB_T(unsigned_int, to_unsigned<int>, 4000, 100000);
SUB_T(unsigned_uint, to_unsigned<unsigned>, 2000, 50000);
SUB_T(unsigned_long, to_unsigned<long>, 4000, 100000);
SUB_T(unsigned_ulong, to_unsigned<unsigned long>, 2000, 50000);
SUB_T(unsigned_longlong, to_unsigned<long long>, 3000, 100000);
SUB_T(unsigned_wchar, to_unsigned<wchar_t>, 1000, 20000);
SUB_T(unsigned_char16, to_unsigned<char16_t>, 1000, 20000);
SUB_T(unsigned_int128, to_unsigned<__int128>, 4000, 100000);
SUB_T(unsigned_uint128, to_unsigned<unsigned __int128>, 2000, 50000);
SUB_T(unsigned_enum8, to_unsigned<E8>, 1000, 20000);
SUB_T(unsigned_enum64, to_unsigned<E64>, 1000, 20000);
SUB_T(unsigned_enum, to_unsigned<Old>, 1000, 20000);

// forward_like
template<typename Like, typename X>
static void like(X&& x, const char* what) {
    using Plain = std::remove_reference_t<X>;
    using Const = std::conditional_t<std::is_const_v<std::remove_reference_t<Like>>, const Plain, Plain>;
    using Want  = std::conditional_t<std::is_lvalue_reference_v<Like>, Const&, Const&&>;
    using Got   = decltype(xme::forward_like<Like>(std::forward<X>(x)));
    CHECK((std::is_same_v<Got, Want>), what << ": another type or value category");
    Got r = xme::forward_like<Like>(std::forward<X>(x));
    CHECK(static_cast<const volatile void*>(std::addressof(const_cast<const Plain&>(static_cast<const Plain&>(r)))) == static_cast<const volatile void*>(std::addressof(x)),
          what << ": another object");
    CHECK(noexcept(xme::forward_like<Like>(std::forward<X>(x))), what << ": may throw");
}
template<typename Like, typename T>
static void likes(T& x, const char* what) {
    like<Like>(x, what);
    like<Like>(std::as_const(x), what);
    like<Like>(std::move(x), what);
    like<Like>(std::move(std::as_const(x)), what);
}
template<typename T>
static void forward_like(Case& c) {
    const int v = static_cast<int>(c.draw(50));
    T x = el::Elem<T>::make(v);
    struct L {};
    const u64 which = c.draw(11);
    LOG("like " << which);
    switch(which) {
    case 0: likes<int>(x, "int"); break;
    case 1: likes<int&>(x, "int&"); break;
    case 2: likes<int&&>(x, "int&&"); break;
    case 3: likes<const int>(x, "const int"); break;
    case 4: likes<const int&>(x, "const int&"); break;
    case 5: likes<const int&&>(x, "const int&&"); break;
    case 6: likes<L>(x, "L"); break;
    case 7: likes<const L&>(x, "const L&"); break;
    case 8: likes<const L&&>(x, "const L&&"); break;
    case 9: likes<T&>(x, "T&"); break;
    default: likes<volatile L&>(x, "volatile L&"); break;
    }
    CHECK(el::Elem<T>::read(x) == v, "forwarding changed the value");
    if constexpr(std::is_copy_constructible_v<T>) {
        T copied(xme::forward_like<const L&>(x));
        CHECK(el::Elem<T>::read(x) == v && el::Elem<T>::read(copied) == v, "copied from");
        T copied2(xme::forward_like<const L>(x));
        CHECK(el::Elem<T>::read(x) == v && el::Elem<T>::read(copied2) == v, "copied from a constant rvalue");
    }
    T moved(xme::forward_like<L>(x));
    CHECK(el::Elem<T>::read(moved) == v, "moved from");
    c.nontrivial();
}
SUB_T(forward_like_int, forward_like<int>, 1000, 10000);
SUB_T(forward_like_string, forward_like<std::string>, 1000, 10000);
SUB_T(forward_like_tracked, forward_like<el::Tracked<el::move_only>>, 1000, 10000);

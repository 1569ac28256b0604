"""C01: concepts and type traits, on generated types."""
import os
PRELUDE = r"""
#include <array>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <ranges>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <xme/core/concepts/concepts.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/container/container.hpp>
#include <xme/container/container_policy.hpp>
using namespace xme;
struct Empty {};
struct Ints { int a, b; };
struct ToInt { operator int() const; };
struct FromInt { FromInt(int); };
class Private { int x; public: virtual ~Private(); };
struct Derived : ToInt {};
struct MoveOnly { MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); };
struct NoMove { NoMove(); NoMove(const NoMove&) = delete; };
template<typename T> struct Box { T value; };
template<typename T> struct DerivedList : std::initializer_list<T> {};
struct FinalS final {};
struct Incomplete;
union Un { int i; float f; };
enum Plain { plain_a };
enum PlainChar : char { plain_c };
enum PlainU : unsigned long long { plain_u };
enum PlainBool : bool { plain_b };
enum class Scoped { a };
enum struct ScopedStruct { a };
enum class ScopedChar : unsigned char { a };
enum class ScopedLong : long { a };
enum class ScopedBool : bool { a };
enum class Opaque : short;
struct Holder { enum Inside { inside }; enum class InsideClass { a }; };

// user defined tuple-likes, complete or lacking something
namespace user {
template<std::size_t N> struct Good { int v[N ? N : 1]; };
template<std::size_t I, std::size_t N> int& get(Good<N>& g) { return g.v[I]; }
template<std::size_t I, std::size_t N> const int& get(const Good<N>& g) { return g.v[I]; }
template<std::size_t N> struct ByValue {};
template<std::size_t I, std::size_t N> int get(const ByValue<N>&) { return 0; }
template<std::size_t N> struct NoGet {};
template<std::size_t N> struct WrongGet {};
template<std::size_t I, std::size_t N> std::string get(const WrongGet<N>&) { return {}; }
template<std::size_t N> struct HalfGet {};
template<std::size_t I, std::size_t N> requires (I == 0) int get(const HalfGet<N>&) { return 0; }
template<std::size_t N> struct NoElement {};
template<std::size_t I, std::size_t N> int get(const NoElement<N>&) { return 0; }
struct NoSize {};
template<std::size_t I> int get(const NoSize&) { return 0; }
struct OddSize {};
template<std::size_t I> int get(const OddSize&) { return 0; }
}
template<std::size_t N> struct std::tuple_size<user::Good<N>> : std::integral_constant<std::size_t, N> {};
template<std::size_t I, std::size_t N> struct std::tuple_element<I, user::Good<N>> { using type = int; };
template<std::size_t N> struct std::tuple_size<user::ByValue<N>> : std::integral_constant<std::size_t, N> {};
template<std::size_t I, std::size_t N> struct std::tuple_element<I, user::ByValue<N>> { using type = int; };
template<std::size_t N> struct std::tuple_size<user::NoGet<N>> : std::integral_constant<std::size_t, N> {};
template<std::size_t I, std::size_t N> struct std::tuple_element<I, user::NoGet<N>> { using type = int; };
template<std::size_t N> struct std::tuple_size<user::WrongGet<N>> : std::integral_constant<std::size_t, N> {};
template<std::size_t I, std::size_t N> struct std::tuple_element<I, user::WrongGet<N>> { using type = int; };
template<std::size_t N> struct std::tuple_size<user::HalfGet<N>> : std::integral_constant<std::size_t, N> {};
template<std::size_t I, std::size_t N> struct std::tuple_element<I, user::HalfGet<N>> { using type = int; };
template<std::size_t N> struct std::tuple_size<user::NoElement<N>> : std::integral_constant<std::size_t, N> {};
template<> struct std::tuple_size<user::OddSize> { static constexpr int value = 2; };
template<std::size_t I> struct std::tuple_element<I, user::OddSize> { using type = int; };

// allocators, complete or lacking something
template<bool> struct with_value {}; template<> struct with_value<true> { using value_type = int; };
template<bool> struct with_size {}; template<> struct with_size<true> { using size_type = std::size_t; };
template<bool> struct with_difference {}; template<> struct with_difference<true> { using difference_type = std::ptrdiff_t; };
template<int> struct with_allocate {};
template<> struct with_allocate<1> { int* allocate(std::size_t); };
template<> struct with_allocate<2> { void* allocate(std::size_t); };
template<> struct with_allocate<3> { const int* allocate(std::size_t); };
template<> struct with_allocate<4> { int* allocate(Empty); };
template<> struct with_allocate<5> { int* allocate(std::size_t, int = 3); };
template<int> struct with_deallocate {};
template<> struct with_deallocate<1> { void deallocate(int*, std::size_t); };
template<> struct with_deallocate<2> { void deallocate(int*); };
template<> struct with_deallocate<3> { void deallocate(float*, std::size_t); };
template<> struct with_deallocate<4> { void deallocate(void*, std::size_t); };
template<bool V, bool S, bool D, int A, int F>
struct Partial : with_value<V>, with_size<S>, with_difference<D>, with_allocate<A>, with_deallocate<F> {};

// which of several constrained overloads is chosen
template<typename T> constexpr int chosen() { return 0; }
template<CArithmetic T> constexpr int chosen() { return 1; }
template<CFloatingPoint T> constexpr int chosen() { return 2; }
template<CIntegral T> constexpr int chosen() { return 3; }
template<CSignedIntegral T> constexpr int chosen() { return 4; }
template<CUnsignedIntegral T> constexpr int chosen() { return 5; }
template<typename T> constexpr int tuple_kind() { return 0; }
template<CTupleLike T> constexpr int tuple_kind() { return 1; }
template<CPairLike T> constexpr int tuple_kind() { return 2; }
"""
SIGNED = ["signed char", "char", "short", "int", "long", "long long", "wchar_t", "std::int8_t", "std::int64_t", "std::ptrdiff_t"]
UNSIGNED = ["unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long", "bool", "char8_t",
            "char16_t", "char32_t", "std::size_t", "std::uint16_t"]
FLOATING = ["float", "double", "long double"]
SCOPED = ["Scoped", "ScopedStruct", "ScopedChar", "ScopedLong", "ScopedBool", "Opaque", "Holder::InsideClass", "std::byte"]
UNSCOPED = ["Plain", "PlainChar", "PlainU", "PlainBool", "Holder::Inside"]
CLASSES = ["Empty", "Ints", "ToInt", "FromInt", "Private", "Derived", "FinalS", "Un", "std::string", "MoveOnly", "NoMove",
           "std::vector<int>", "Box<int>", "Box<float>", "std::allocator<int>", "std::integral_constant<int, 3>", "std::true_type",
           "DerivedList<int>", "std::unique_ptr<int>", "xme::Array<int>"]
OTHER = ["std::nullptr_t", "int Ints::*", "int (Private::*)(int)", "void (Empty::*)() const"]
# the same type by different names
SAME = {"std::int8_t": "signed char", "std::int64_t": "long", "std::ptrdiff_t": "long", "std::size_t": "unsigned long",
        "std::uint16_t": "unsigned short"}


class Ty:
    """text; key: identity; cat: category of an object type without its cv qualifiers"""
    def __init__(self, text, key, cat, c=False, v=False, ref="", inner=None):
        self.text, self.base, self.cat, self.c, self.v, self.ref, self.inner = text, key, cat, c, v, ref, inner

    def key(self):
        return (self.base, self.c, self.v, self.ref)

    def plain(self):
        return (self.base, False, False, "")


def base(rng):
    k = rng.random()
    if k < .28:
        t = rng.choice(SIGNED)
        return Ty(t, SAME.get(t, t), "signed")
    if k < .5:
        t = rng.choice(UNSIGNED)
        return Ty(t, SAME.get(t, t), "unsigned")
    if k < .6:
        t = rng.choice(FLOATING)
        return Ty(t, t, "float")
    if k < .7:
        t = rng.choice(SCOPED)
        return Ty(t, t, "scoped")
    if k < .78:
        t = rng.choice(UNSCOPED)
        return Ty(t, t, "unscoped")
    if k < .9:
        t = rng.choice(CLASSES)
        return Ty(t, t, "class")
    if k < .95:
        t = rng.choice(OTHER)
        return Ty("std::type_identity_t<%s>" % t, t, "other")
    i = cv(rng, base(rng))
    return Ty("std::initializer_list<%s>" % i.text, ("list", i.key()), "list")


def cv(rng, t, p=.25):
    if not t.ref and t.cat != "function":
        if rng.random() < p:
            t = Ty("std::add_const_t<%s>" % t.text, t.base, t.cat, True, t.v)
        if rng.random() < p / 2:
            t = Ty("std::add_volatile_t<%s>" % t.text, t.base, t.cat, t.c, True)
    return t


def any_type(rng, depth=0):
    t = cv(rng, base(rng))
    while rng.random() < .3:
        k = rng.random()
        if k < .35:
            t = Ty("std::add_pointer_t<%s>" % t.text, ("ptr", t.base, t.c, t.v), "pointer")
            t = cv(rng, t)
        elif k < .6:
            t = Ty("std::add_lvalue_reference_t<%s>" % t.text, t.base, t.cat, t.c, t.v, "&")
        elif k < .8:
            t = Ty("std::add_rvalue_reference_t<%s>" % t.text, t.base, t.cat, t.c, t.v, t.ref or "&&")
        elif not t.ref and t.cat != "array" and not (t.c or t.v):
            n = rng.randrange(1, 4)
            t = Ty("std::type_identity_t<%s>[%d]" % (t.text, n), ("arr", n, t.key()), "array")
            t.text = "std::type_identity_t<%s>" % t.text
        elif not t.ref and t.cat != "array" and not (t.c or t.v):
            t = Ty("std::type_identity_t<%s()>" % t.text, ("fun", t.key()), "function")
    return t


def B(x):
    return "true" if x else "false"


def arithmetic(rng):
    t = any_type(rng)
    s, u, f = (not t.ref and t.cat == c for c in ("signed", "unsigned", "float"))
    return [("CFloatingPoint<%s> == %s" % (t.text, B(f))), "CIntegral<%s> == %s" % (t.text, B(s or u)),
            "CSignedIntegral<%s> == %s" % (t.text, B(s)), "CUnsignedIntegral<%s> == %s" % (t.text, B(u)),
            "CArithmetic<%s> == %s" % (t.text, B(s or u or f)),
            "chosen<%s>() == %d" % (t.text, 4 if s else 5 if u else 2 if f else 0)]


def traits(rng):
    t = any_type(rng)
    r = ["is_scoped_enum<%s> == %s" % (t.text, B(not t.ref and t.cat == "scoped"))]
    if not (t.cat == "list" and not t.ref and (t.c or t.v)):
        r.append("is_initializer_list<%s> == %s" % (t.text, B(not t.ref and t.cat == "list")))
    return r


def different(rng):
    t, u = any_type(rng), any_type(rng)
    k = rng.randrange(4)
    if k == 0:  # the same base, qualified differently
        u = cv(rng, Ty(t.text if not (t.ref or t.c or t.v) else "std::remove_cvref_t<%s>" % t.text, t.base, t.cat), .5)
    elif k == 1:
        u = Ty("std::type_identity_t<%s>" % t.text, t.base, t.cat, t.c, t.v, t.ref)
    self_ = Ty("std::remove_cvref_t<%s>" % u.text, u.base, u.cat)
    r = ["CDifferentFrom<%s, %s> == %s" % (t.text, u.text, B(t.key() != u.key())),
         "CDifferentFrom<%s, %s> == %s" % (u.text, t.text, B(t.key() != u.key())),
         "CDifferentFromSelf<%s, %s> == %s" % (t.text, self_.text, B(t.base != u.base))]
    return r


VALUES = ["int", "char", "double", "std::string", "Ints", "Scoped", "MoveOnly", "int*", "std::pair<int, float>", "xme::Tuple<int, char>",
          "Empty", "unsigned long", "std::vector<int>", "std::unique_ptr<int>"]


def iterators(rng):
    v = rng.choice(VALUES)
    table = []
    ptr_const = v + " const"
    table.append((v + "*", False, ptr_const + "&"))
    table.append((v + " const*", True, ptr_const + "&"))
    for cont in ("std::vector<%s>", "std::deque<%s>", "std::list<%s>", "std::forward_list<%s>", "std::array<%s, 3>", "xme::Array<%s>", "xme::LinkedList<%s>"):
        if "LinkedList" in cont and v == "MoveOnly":
            continue
        cont = cont % v
        table.append(("%s::iterator" % cont, False, ptr_const + "&"))
        table.append(("%s::const_iterator" % cont, True, ptr_const + "&"))
    if v in ("int", "char", "double", "std::string", "int*", "unsigned long"):
        table.append(("std::set<%s>::iterator" % v, True, ptr_const + "&"))
        table.append(("std::istream_iterator<%s>" % v, True, ptr_const + "&"))
    table += [("std::vector<bool>::iterator", False, "bool"), ("std::vector<bool>::const_iterator", True, "bool"),
              ("std::ranges::iterator_t<std::ranges::iota_view<int, int>>", True, "int"),
              ("std::istreambuf_iterator<char>", True, "char"),
              ("std::move_iterator<%s*>" % v, False, ptr_const + "&&"),
              ("std::string::iterator", False, "const char&"), ("std::string::const_iterator", True, "const char&"),
              ("std::map<int, char>::iterator", False, "const std::pair<const int, char>&"),
              ("std::map<int, char>::const_iterator", True, "const std::pair<const int, char>&")]
    r = []
    it, const, ref = rng.choice(table)
    r.append("CConstantIterator<%s> == %s" % (it, B(const)))
    r.append("std::is_same_v<iter_const_reference_t<%s>, %s>" % (it, ref))
    k = rng.randrange(4)
    bidirectional = not any(x in it for x in ("forward_list", "LinkedList", "istream", "iota"))
    if k == 0 and bidirectional and "move_iterator" not in it:
        r.append("CConstantIterator<xme::ReverseIterator<%s>> == %s" % (it, B(const)))
        r.append("std::is_same_v<iter_const_reference_t<xme::ReverseIterator<%s>>, %s>" % (it, ref))
    elif k == 1 and not const:
        r.append("CConstantIterator<xme::ConstIterator<%s>>" % it)
        r.append("std::is_same_v<std::iter_reference_t<xme::ConstIterator<%s>>, %s>" % (it, ref))
    elif k == 2:
        r.append("!CConstantIterator<%s&>" % it)
        r.append("!CConstantIterator<%s const>" % it)
    else:
        t = any_type(rng)
        if t.cat not in ("pointer", "other"):
            r.append("!CConstantIterator<%s>" % t.text)
    return r


ELEMENTS = ["int", "char", "double", "std::string", "Ints", "MoveOnly", "int*", "int&", "const int&", "std::string&", "int&&", "const char",
            "Empty", "std::pair<int, int>", "xme::Tuple<int, int>", "Scoped", "const std::string&", "NoMove&", "std::unique_ptr<int>"]


def tuples(rng):
    n = rng.choice([0, 1, 2, 2, 2, 3, 4, rng.randrange(5, 20)])
    e = [rng.choice(ELEMENTS) for _ in range(n)]
    k = rng.randrange(11)
    like, size = True, n
    if k == 10:
        t, size = "std::ranges::subrange<%s>" % rng.choice(["int*", "const int*", "std::list<int>::iterator"]), 2
    elif k == 0:
        t = "std::tuple<%s>" % ", ".join(e)
    elif k == 1:
        t = "xme::Tuple<%s>" % ", ".join(e) if n else "std::tuple<>"
    elif k in (2, 3):
        x, y = rng.choice(ELEMENTS), rng.choice(ELEMENTS)
        t, size = ("std::pair<%s, %s>" if k == 2 else "xme::Pair<%s, %s>") % (x, y), 2
    elif k == 4:
        x = rng.choice([q for q in ELEMENTS if "&" not in q])
        t = "std::array<%s, %d>" % (x, n)
    elif k == 5:
        t = "user::%s<%d>" % (rng.choice(["Good", "ByValue"]), n)
    elif k == 6:
        n = max(n, 1)
        w = rng.choice(["NoGet", "WrongGet", "HalfGet", "NoElement"])
        if w == "HalfGet":
            n = max(n, 2)
        t, like, size = "user::%s<%d>" % (w, n), False, n
    elif k == 7:
        t, like = rng.choice(["user::NoSize", "user::OddSize"]), False
    else:
        ty = any_type(rng)
        while ty.cat == "function":
            ty = any_type(rng)
        t, like = "std::remove_cvref_t<%s>" % ty.text, False
    q = rng.choice(["%s", "%s", "std::add_const_t<%s>", "std::add_lvalue_reference_t<%s>", "std::add_rvalue_reference_t<%s>",
                    "std::add_lvalue_reference_t<std::add_const_t<%s>>", "std::add_rvalue_reference_t<std::add_const_t<%s>>"])
    t = q % t
    return ["CTupleLike<%s> == %s" % (t, B(like)), "CPairLike<%s> == %s" % (t, B(like and size == 2)),
            "tuple_kind<%s>() == %d" % (t, 2 if like and size == 2 else 1 if like else 0)]


def allocators(rng):
    if rng.random() < .3:
        v = rng.choice(VALUES)
        return ["CAllocator<std::allocator<%s>>" % v]
    if rng.random() < .2:
        t = any_type(rng)
        return ["!CAllocator<%s>" % t.text] if t.base != "std::allocator<int>" else []
    # most of them lack one thing or nothing
    m = [True, True, True, rng.choice([1, 1, 5]), rng.choice([1, 1, 4])]
    if rng.random() < .7:
        i = rng.randrange(5)
        m[i] = False if i < 3 else rng.choice([0, 2, 3, 4]) if i == 3 else rng.choice([0, 2, 3])
    ok = all(m[:3]) and m[3] in (1, 5) and m[4] in (1, 4)
    return ["CAllocator<Partial<%s, %s, %s, %d, %d>> == %s" % (B(m[0]), B(m[1]), B(m[2]), m[3], m[4], B(ok))]


class Concepts:
    name = "facts"

    def generate(self, rng, n):
        cases = []
        for i in range(n):
            atoms = []
            while len(atoms) < 260:
                g = rng.choice([arithmetic, arithmetic, traits, traits, different, different, iterators, iterators, tuples, tuples, tuples, allocators])
                atoms += g(rng)
            cases.append({"cxx": "clang++" if i % 3 == 2 else "g++", "atoms": atoms})
        return cases

    def run(self, case, d, t):
        src = os.path.join(d, "a.cpp")
        with open(src, "w") as f:
            f.write(PRELUDE + "".join("static_assert(%s);\n" % a for a in case["atoms"]))
        return t.compile([case["cxx"], "-std=c++20", "-w", "-fsyntax-only", "-I" + t.include, src])

    def size(self, case):
        return len(case["atoms"])

    def parts(self, case):
        return case["atoms"]

    def nontrivial(self, part):
        return True

    def show(self, case):
        return case["cxx"] + ": " + "; ".join(case["atoms"][:12])


COUNTS = {"quick": 16, "thorough": 250}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Concepts(), COUNTS, work, seed, tier, M, body)

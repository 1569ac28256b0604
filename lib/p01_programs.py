"""P01: programs of several translation units that include generated selections of headers in generated orders."""
import os, re

HEADERS = """container/aligned_data container/array container/array_view container/concepts container/container container/container_policy
container/heap container/icontainer container/linked_list container/pair container/spsc_queue container/tuple
core/algorithm/find core/algorithm/reverse core/bit/has_single_bit core/concepts/arithmetic core/concepts/concepts core/concepts/constant_iterator
core/concepts/different_from core/functional/bind core/functional/delegate core/functional/scoped_delegate core/iterators/const_iterator
core/iterators/iterator_traits core/iterators/reverse_iterator core/type_traits/is_initializer_list core/type_traits/is_scoped_enum
core/utility/forward_like core/utility/to_unsigned hal/architecture_detection hal/compiler_detection hal/platform hal/platform_macros
hal/shared_library hal/simd_detection hal/std_detection math/constants math/glsl_mapping math/math math/matrices/functions
math/matrices/matrix4x4 math/matrices/perspective math/matrices/transformation math/matrix math/quaternion math/scalars/functions
math/scalars/trigonometry math/vector math/vectors/functions math/vectors/geometry math/vectors/vector2 math/vectors/vector3
math/vectors/vector4 ranges/destroy ranges/uninitialized setup""".split()

# name: (headers that provide it, type given from unit to unit or None, how to fill an x of it, condition that holds for x, another condition)
FACTS = {
    "array": (["container/array", "container/container", "container/heap"], "xme::Array<int>",
              "for(int i = 0; i < 20; ++i) x.push_back(i * i); x.insert(x.begin() + 3, 7); x.erase(x.begin()); x.reserve(50);",
              "x.size() == 20 && x[2] == 7 && x.back() == 361 && x.capacity() >= 50",
              "xme::Array<int>(x.begin() + 1, x.begin() + 4).size() == 3 && xme::Array<int>(x).size() == 20"),
    "array_of_arrays": (["container/array", "container/container"], "xme::Array<xme::Array<int>>",
                        "x.emplace_back(3, 4); x.emplace_back(2, 2); x.resize(5); x.emplace_back(); x[2].push_back(8);",
                        "x.size() == 3 && x[0].size() == 3 && x[1][1] == 2 && x[2][0] == 8 && x.capacity() == 5", "true"),
    "array_view": (["container/array_view", "container/container"], "xme::ArrayView<const int, 4>", "",
                   "sizeof(x) == sizeof(int*)", "[] { int a[4] = {1, 2, 3, 4}; xme::ArrayView<int> v(a); return v.subview(1, 2).back() == 3 && v.first(2).size() == 2; }()",
                   "const int given[4] = {5, 6, 7, 8};", "given"),
    "heap": (["container/heap"], "xme::Heap<int>", "for(int i = 0; i < 9; ++i) x.push(i * 5 % 9); x.pop();", "x.size() == 8 && x.front() == 7", "true"),
    "linked_list": (["container/linked_list", "container/container"], "xme::LinkedList<int>",
                    "x.push_front(3); x.push_front(2); x.insert_after(x.begin(), 9);", "*x.begin() == 2 && *std::next(x.begin()) == 9", "[&] { int s = 0; for(int v : x) s = s * 10 + v; return s == 293; }()"),
    "pair": (["container/pair", "container/container", "ranges/uninitialized"], "xme::Pair<int, long>", "x = xme::make_pair(4, 5l);",
             "x.first == 4 && x.second == 5 && xme::get<1>(x) == 5", "x == xme::Pair<int, long>(4, 5) && x < xme::make_pair(4, 6l) && std::tuple_size_v<xme::Pair<int, long>> == 2"),
    "tuple": (["container/tuple", "container/container", "core/functional/bind"], "xme::Tuple<int, char, double>", "x = xme::make_tuple(4, 'c', 2.5);",
              "xme::get<0>(x) == 4 && xme::get<1>(x) == 'c' && xme::get<2>(x) == 2.5",
              "xme::apply([](int a, char b, double c) { return a + b + c == 4 + 'c' + 2.5; }, x) && std::tuple_size_v<decltype(xme::tuple_cat(x, x))> == 6"),
    "queue": (["container/spsc_queue"], None, "", "true",
              "[] { xme::SPSCQueue<int, xme::Capacity<4>> q; int v = 0; for(int i = 0; q.push(i); ++i) ++v; q.pop(); int sum = 0; q.consume([&](int i) { sum += i; }); return v > 2 && sum >= 1; }()"),
    "aligned": (["container/aligned_data", "container/container"], "xme::AlignedData<long>", "", "sizeof(x) == sizeof(long) && alignof(decltype(x)) == alignof(long)", "true"),
    "policy": (["container/container_policy", "container/spsc_queue"], None, "", "true", "xme::Capacity<7>::capacity == 7"),
    "container_concepts": (["container/concepts", "container/container", "container/pair", "container/tuple"], None, "", "true",
                           "xme::CTupleLike<std::pair<int, char>> && xme::CPairLike<std::tuple<int, int>> && !xme::CPairLike<std::tuple<int>> && xme::CAllocator<std::allocator<int>>"),
    "find": (["core/algorithm/find"], None, "", "true",
             "[] { int a[70]; for(int i = 0; i < 70; ++i) a[i] = i; return xme::find(a, a + 70, 66) == a + 66 && xme::find(a, a + 70, 99) == a + 70 && *xme::find(a, 5) == 5; }()"),
    "reverse": (["core/algorithm/reverse"], None, "", "true",
                "[] { short a[70]; for(int i = 0; i < 70; ++i) a[i] = i; xme::reverse(a); bool ok = true; for(int i = 0; i < 70; ++i) ok = ok && a[i] == 69 - i; return ok; }()"),
    "bit": (["core/bit/has_single_bit"], None, "", "true", "xme::has_single_bit(64u) && !xme::has_single_bit(65u) && !xme::has_single_bit(0ull)"),
    "arithmetic": (["core/concepts/arithmetic", "core/concepts/concepts", "math/constants", "math/vector", "math/matrices/perspective"], None, "", "true",
                   "xme::CArithmetic<int> && !xme::CArithmetic<int*> && xme::CSignedIntegral<long> && xme::CFloatingPoint<double>"),
    "different": (["core/concepts/different_from", "core/concepts/concepts", "core/functional/delegate", "core/iterators/const_iterator"], None, "", "true",
                  "xme::CDifferentFrom<int, int&> && !xme::CDifferentFromSelf<const int&, int>"),
    "constant_iterator": (["core/concepts/constant_iterator", "core/iterators/const_iterator"], None, "", "true",
                          "xme::CConstantIterator<const int*> && !xme::CConstantIterator<int*>"),
    "iterator_traits": (["core/iterators/iterator_traits", "core/concepts/constant_iterator"], None, "", "true",
                        "std::is_same_v<xme::iter_const_reference_t<int*>, const int&>"),
    "const_iterator": (["core/iterators/const_iterator"], "xme::ConstIterator<int*>", "static int here[3] = {1, 2, 3}; x = xme::ConstIterator<int*>(here + 1);", "*x == 2 && x[1] == 3",
                       "*(x - 1) == 1 && std::is_same_v<decltype(*x), const int&>"),
    "reverse_iterator": (["core/iterators/reverse_iterator", "container/array", "container/array_view"], "xme::ReverseIterator<int*>",
                         "static int here[3] = {1, 2, 3}; x = xme::ReverseIterator<int*>(here + 3);", "*x == 3 && x[2] == 1", "*(x + 1) == 2 && x < x + 1"),
    "bind": (["core/functional/bind"], None, "", "true",
             "xme::bind_front([](int a, int b) { return a - b; }, 9)(4) == 5 && xme::bind_back([](int a, int b) { return a - b; }, 9)(4) == -5"),
    "delegate": (["core/functional/delegate"], "xme::Delegate<int(int)>", "x = [k = 5](int a) { return a * k; };", "x(3) == 15", "xme::Delegate<int(int)>(x)(2) == 10"),
    "delegate_big": (["core/functional/delegate"], "xme::Delegate<long(long)>", "x = [k = std::array<long, 20>{1, 2, 3}](long a) { return a + k[2]; };", "x(3) == 6", "true"),
    "scoped": (["core/functional/scoped_delegate"], None, "", "true", "[] { int n = 0; { xme::ScopedDelegate s([&] { n = 7; }); } return n == 7; }()"),
    "initializer_list": (["core/type_traits/is_initializer_list"], None, "", "true", "xme::is_initializer_list<std::initializer_list<int>> && !xme::is_initializer_list<int>"),
    "scoped_enum": (["core/type_traits/is_scoped_enum"], None, "", "true", "[] { enum class E {}; enum F {}; return xme::is_scoped_enum<E> && !xme::is_scoped_enum<F>; }()"),
    "forward_like": (["core/utility/forward_like", "core/functional/bind", "container/pair"], None, "", "true",
                     "[] { int i = 3; return std::is_same_v<decltype(xme::forward_like<const char&>(i)), const int&> && std::is_same_v<decltype(xme::forward_like<char>(i)), int&&>; }()"),
    "to_unsigned": (["core/utility/to_unsigned"], None, "", "true", "xme::to_unsigned(-1) == 4294967295u && std::is_same_v<decltype(xme::to_unsigned(short(1))), unsigned short>"),
    "environment": (["hal/platform"], None, "", "true",
                    "[] { xme::hal::set_environment_variable(\"XME_PROGRAM\", \"value\"); return std::string_view(xme::hal::get_environment_variable(\"XME_PROGRAM\")) == \"value\"; }()"),
    "library": (["hal/shared_library"], None, "", "true", "[] { xme::hal::SharedLibrary a, b; bool ok = !a.is_open(); a.open(\"libm.so.6\"); ok = ok && a.is_open(); b = std::move(a); return ok && b.proc_address<double (*)(double)>(\"cos\")(0) == 1 && !b.proc_address<void*>(\"no such\"); }()"),
    "simd": (["hal/simd_detection", "core/algorithm/find", "core/algorithm/reverse"], None, "", "true",
             "static_cast<unsigned long>(xme::hal::ESimd::sse2 | xme::hal::ESimd::avx) == (static_cast<unsigned long>(xme::hal::ESimd::sse2) | static_cast<unsigned long>(xme::hal::ESimd::avx)) && (xme::hal::supported_simd & xme::hal::ESimd::sse2) == xme::hal::ESimd::sse2"),
    "constants": (["math/constants", "math/math", "math/scalars/trigonometry"], None, "", "true", "xme::math::pi_v<double> == 3.141592653589793 && xme::math::e_v<float> == 2.7182817f"),
    "lerp_sign": (["math/math", "math/vector"], None, "", "true", "xme::math::sign(-3) == -1 && xme::math::lerp(xme::math::Vector<float, 5>(0), xme::math::Vector<float, 5>(4), .25f)[3] == 1"),
    "trigonometry": (["math/scalars/trigonometry", "math/math"], None, "", "true", "xme::math::radians(180.) == xme::math::pi_v<double> && xme::math::sec(0.) == 1"),
    "quaternion": (["math/quaternion", "math/math"], "xme::math::Quaternion<double>", "x = xme::math::Quaternion<double>(1, 2, 3, 4) * xme::math::Quaternion<double>(0, 1, 0, 0);",
                   "x.w == -2 && x.x == 1 && x.y == 4 && x.z == -3", "x + x == xme::math::Quaternion<double>(-4, 2, 8, -6) && x[3] == -3"),
    "perspective": (["math/matrix", "math/math", "math/glsl_mapping"], "xme::math::Matrix<double, 4, 4>", "x = xme::math::ortho_rh(-1., 1., -2., 2., 1., 3.);", "x[0][0] == 1 && x[1][1] == .5 && x[3][2] == -2", "true"),
    "glsl": (["math/glsl_mapping", "math/math"], "xme::math::vec4", "x = xme::math::mix(xme::math::vec4(1), xme::math::vec4(3), .5f);", "x[0] == 2 && x.w == 2", "sizeof(xme::math::dmat4x2) >= 64"),
    "setup": (["setup", "math/vector", "core/utility/to_unsigned"], None, "", "true", "[] { XME_CONSTEXPR int k = 5; return k == 5; }()"),
    "array_ranges": (["ranges/uninitialized", "container/array"], None, "", "true",
                     "[] { std::allocator<int> al; int* p = al.allocate(4); int src[2] = {4, 5}; auto [i, o] = xme::ranges::uninitialized_copy_a(src, src + 2, p, p + 4, al); "
                     "bool ok = i == src + 2 && o == p + 2 && p[1] == 5; xme::ranges::destroy_a(p, o, al); al.deallocate(p, 4); return ok; }()"),
    "destroy": (["ranges/destroy", "ranges/uninitialized"], None, "", "true",
                "[] { std::allocator<std::string> al; std::string* p = al.allocate(2); new (p) std::string(99, 'a'); new (p + 1) std::string(98, 'b'); xme::ranges::destroy_n_a(p, 2, al); al.deallocate(p, 2); return true; }()"),
}
for t in ("int", "float", "double"):
    for n in (2, 3, 4, 7):
        FACTS["vector_%s_%d" % (t, n)] = (["math/vector", "math/math", "math/matrix", "math/glsl_mapping", "math/matrices/functions"], "xme::math::Vector<%s, %d>" % (t, n),
                                          "x = xme::math::Vector<{0}, {1}>(2) * {0}(3); x[1] += 4;".format(t, n), "x[0] == 6 && x[1] == 10 && x[%d] == %d" % (n - 1, 10 if n == 2 else 6),
                                          "xme::math::dot(x, x) == %d && x == x && !(x < x) && (x - x)[0] == 0 && (-x)[1] == -10" % (36 * (n - 1) + 100))
for c, r in ((2, 2), (3, 3), (4, 4), (2, 4), (3, 5)):
    FACTS["matrix_%d_%d" % (c, r)] = (["math/matrix", "math/math", "math/glsl_mapping"], "xme::math::Matrix<float, %d, %d>" % (c, r),
                                      "x = xme::math::Matrix<float, {0}, {1}>(2); x[0][1] = 5; x[{2}][{3}] = 7;".format(c, r, c - 1, r - 1), "x[0][0] == 2 && x[0][1] == 5 && x[%d][%d] == 7" % (c - 1, r - 1),
                                      "xme::math::transpose(x)[1][0] == 5 && (x + x)[0][1] == 10 && (x * xme::math::Vector<float, %d>(1))[1] >= 5 && x == x" % c)

NAMES = re.findall(r"(?m)^CONSTANT\((\w+),", open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "constants.inc")).read())
# variables: (headers that provide them, names); each is one object, which all units share
OBJECTS = {
    "the_constants": (["math/constants", "math/math", "math/scalars/trigonometry"], ["xme::math::" + n for n in NAMES] +
                      ["xme::math::%s_v<%s>" % (n, t) for n in NAMES for t in ("float", "double", "long double")]),
    "the_simd_sets": (["hal/simd_detection", "core/algorithm/find", "core/algorithm/reverse"], ["xme::hal::supported_simd", "xme::hal::enabled_simd"]),
    "the_destroyers": (["ranges/destroy", "ranges/uninitialized", "container/array"], ["xme::ranges::destroy_a", "xme::ranges::destroy_n_a", "xme::ranges::destroy_at_a"]),
    "the_creators": (["ranges/uninitialized", "container/array"], ["xme::ranges::uninitialized_copy_a", "xme::ranges::uninitialized_fill_n_a"]),
    "the_sizes": (["math/vector", "math/math"], ["xme::math::Vector<%s, %d>::size" % (t, n) for t in ("int", "float") for n in (2, 3, 4, 6)]),
    "the_shapes": (["math/matrix", "math/math"], ["xme::math::Matrix<float, %d, %d>::%s" % (c, r, n) for c in (2, 4) for r in (3, 4) for n in ("rows", "columns")]),
    "the_traits": (["core/type_traits/is_initializer_list"], ["xme::is_initializer_list<%s>" % t for t in ("int", "std::initializer_list<int>")]),
    "the_other_traits": (["core/type_traits/is_scoped_enum"], ["xme::is_scoped_enum<int>"]),
    "the_capacities": (["container/container_policy", "container/spsc_queue"], ["xme::Capacity<7>::capacity"]),
}
FACTS |= {n: (hs, "objects", "", "", "") for n, (hs, _) in OBJECTS.items()}

STD = "#include <memory>\n#include <string>\n#include <string_view>\n#include <iterator>\n#include <array>\n#include <vector>\n#include <cstdio>\n#include <type_traits>\n#include <new>\n"
OWN = re.compile(r"^(XME_|DLLEXPORT$|DLLIMPORT$)")
FLAGS = [["-std=c++20"], ["-std=c++20", "-O2"], ["-std=c++23"], ["-std=gnu++20", "-DNDEBUG"], ["-std=c++20", "-mavx2", "-DXME_SIMD_ENABLE_AVX2"],
         ["-std=c++20", "-O1", "-DXME_SIMD_ENABLE_SSE2"]]


class Programs:
    name = "programs"
    may_be_empty = True
    before = ""
    FACTS = FACTS

    def include(self, h):
        return "#include <xme/%s.hpp>\n" % h if h != "<std>" else STD

    def provides(self, f, h):
        return h in self.FACTS[f][0]

    def prepare(self, case, d, t):
        """What the units need: more flags for their compilation, and what is linked with them"""
        return [], [], None

    def generate(self, rng, n):
        cases = []
        for i in range(n):
            cxx = "clang++" if i % 4 == 3 else "g++"
            flags = rng.choice(FLAGS)
            if i == 0:  # everything, in order, twice
                cases.append({"cxx": "g++", "flags": FLAGS[0], "atoms": [["h", u, h] for u in (0, 1) for h in HEADERS] + [["f", u, f] for u in (0, 1) for f in FACTS]})
                continue
            atoms = []
            units = rng.choice([1, 2, 2, 3])
            for u in range(units):
                hs = rng.sample(HEADERS, rng.choice([0, 0, 1, 2, 4, 8, 20, len(HEADERS)]))
                fs = rng.sample(sorted(FACTS), rng.choice([1, 2, 6, 12]))
                if u and rng.random() < .8:  # facts shared with another unit
                    old = [a[2] for a in atoms if a[0] == "f"]
                    fs = sorted(set(fs) | set(rng.sample(old, rng.randrange(len(old) + 1))))
                for f in fs:
                    hs.insert(rng.randrange(len(hs) + 1), rng.choice(FACTS[f][0]))
                if rng.random() < .3:
                    hs.insert(rng.randrange(len(hs) + 1), "<std>")
                atoms += [["h", u, h] for h in hs] + [["f", u, f] for f in fs]
            cases.append({"cxx": cxx, "flags": flags, "atoms": atoms})
        return cases

    def run(self, case, d, t):
        units = sorted({a[1] for a in case["atoms"]})
        sources, facts = [], {}
        for u in units:
            hs = [a[2] for a in case["atoms"] if a[:2] == ["h", u]]
            fs = [a[2] for a in case["atoms"] if a[:2] == ["f", u]]
            fs = [f for f in dict.fromkeys(fs) if any(self.provides(f, h) for h in hs)]
            p = self.before + "".join(self.include(h) for h in hs)
            p += "int after_the_headers_%d;\n" % u + ("" if self.before else STD)
            for f in fs:
                _, ty, fill, cond, cond2, *more = self.FACTS[f]
                facts.setdefault(f, []).append(u)
                nm = "%s_%d" % (f, u)
                if ty == "objects":
                    p += "const volatile void* const* objects_%s() {\n    static const volatile void* const all[] = {%s};\n    return all;\n}\n" % (
                        nm, ", ".join("__builtin_addressof(%s)" % o for o in OBJECTS[f][1]))
                elif ty:
                    p += "void* make_%s() {%s %s x%s; %s return new (::operator new(sizeof(x))) %s(static_cast<%s&&>(x)); }\n" % (
                        nm, "static " + more[0] if more else "", ty, "(%s)" % more[1] if more else "{}" if "Vector" not in ty and "Matrix" not in ty and "Quat" not in ty and "vec" not in ty else "(0)" if "Quat" not in ty else "(0, 0, 0, 0)", fill, ty, ty)
                    p += "bool check_%s(void* v) { %s& x = *static_cast<%s*>(v); return (%s) && (%s); }\n" % (nm, ty, ty, cond, cond2)
                    p += "template<typename T> static void destroy_it(T& x) { x.~T(); }\n" if "destroy_it" not in p else ""
                    p += "void drop_%s(void* v) { destroy_it(*static_cast<%s*>(v)); ::operator delete(v); }\n" % (nm, ty)
                    p += "extern const unsigned long size_%s = sizeof(%s) * 1000 + alignof(%s);\n" % (nm, ty, ty)
                    p += "extern const char* const name_%s = typeid(%s).name();\n" % (nm, ty)
                else:
                    p += "bool check_%s(void*) { return %s; }\n" % (nm, cond2)
            if "typeid" in p:
                p = "#include <typeinfo>\n" + p
            src = os.path.join(d, "u%d.cpp" % u)
            open(src, "w").write(p)
            sources.append(src)
        m = "#include <cstdio>\n#include <cstring>\n"
        body = ""
        for f, us in facts.items():
            ty = self.FACTS[f][1]
            if ty == "objects":
                for u in us:
                    m += "const volatile void* const* objects_%s_%d();\n" % (f, u)
                names = OBJECTS[f][1]
                m += "static const char* const names_%s[] = {%s};\n" % (f, ", ".join('"%s"' % n for n in names))
                for u in us[1:]:
                    body += ('    for(int i = 0; i < {3}; ++i) if(objects_{0}_{1}()[i] != objects_{0}_{2}()[i]) '
                             'std::printf("%s isn\'t the same object in the units {1} and {2}\\n", names_{0}[i]), bad = 1;\n').format(f, us[0], u, len(names))
                continue
            for u in us:
                m += "bool check_%s_%d(void*);\n" % (f, u)
                if ty:
                    m += "void* make_{0}();\nvoid drop_{0}(void*);\nextern const unsigned long size_{0};\nextern const char* const name_{0};\n".format("%s_%d" % (f, u))
            for i, u in enumerate(us):
                v = us[(i + 1) % len(us)]
                if ty:
                    body += '    if(size_{0}_{1} != size_{0}_{2} || std::strcmp(name_{0}_{1}, name_{0}_{2})) std::puts("{0}: the units {1} and {2} have different types"), bad = 1;\n'.format(f, u, v)
                    body += '    {{ void* x = make_{0}_{1}(); if(!check_{0}_{2}(x)) std::puts("{0} of unit {1} is wrong in unit {2}"), bad = 1; drop_{0}_{2}(x); }}\n'.format(f, u, v)
                else:
                    body += '    if(!check_{0}_{1}(nullptr)) std::puts("{0} is wrong in unit {1}"), bad = 1;\n'.format(f, u)
        src = os.path.join(d, "main.cpp")
        open(src, "w").write(m + "int main() {\n    int bad = 0;\n%s    return bad;\n}\n" % body)
        exe = os.path.join(d, "a")
        more, objects, bad = self.prepare(case, d, t)
        if bad:
            return bad
        cmd = [case["cxx"]] + case["flags"] + ["-w", "-I" + t.include] + more
        objects = list(objects)
        for s in sources + [src]:
            bad = t.compile(cmd + ["-c", s, "-o", s + ".o"])
            if bad:
                return bad
            objects.append(s + ".o")
        bad = t.compile([case["cxx"]] + objects + ["-o", exe, "-ltbb", "-ldl"]) or t.execute(exe)
        if bad:
            return bad
        return self.leftovers(cmd, sources[-1], t) if sources else None

    def leftovers(self, cmd, src, t):
        """Macros that headers of the library define and that are still defined after them"""
        rc, out = t.M.sh(cmd + ["-E", "-dD", src], 120)
        if rc != 0:
            raise t.M.NoAnswer("the preprocessor did not finish: " + out[-500:])
        file, live = "", {}
        for l in out.splitlines():
            if l.startswith("# ") and '"' in l:
                file = l.split('"')[1]
            elif l.startswith("#define "):
                name = re.split(r"[ (]", l[8:], maxsplit=1)[0]
                live[name] = os.path.abspath(file)
            elif l.startswith("#undef "):
                live.pop(l[7:].strip(), None)
            elif l.startswith("int after_the_headers"):
                break
        repo = os.path.abspath(t.M.REPO)
        left = sorted(n for n, f in live.items() if f.startswith(repo + "/") and not OWN.match(n))
        return "macros left behind by the headers: " + ", ".join(left) if left else None

    def nontrivial(self, case):
        return len([a for a in case["atoms"] if a[0] == "f"]) >= 2

    def show(self, case):
        return "%s %s: " % (case["cxx"], " ".join(case["flags"])) + ", ".join("%s%d:%s" % tuple(a) for a in case["atoms"])


COUNTS = {"quick": 45, "thorough": 900}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Programs(), COUNTS, work, seed, tier, M, body)

"""P02: programs of several translation units that import generated selections of the modules, mixed with units that include headers."""
import os, threading
import p01_programs as P01
from p01_programs import STD

SOURCES = {"xme.container": "container/container.cppm", "xme.functional": "core/functional/functional.cppm", "xme.iterators": "core/iterators/iterators.cppm",
           "xme.utility": "core/utility/utility.cppm", "xme.math": "math/math.cppm", "xme": "xme.cppm"}

# facts of P01 that only use what a module exports: the module
SHARED = {"array": "container", "array_of_arrays": "container", "array_view": "container", "linked_list": "container", "pair": "container", "tuple": "container",
          "aligned": "container", "container_concepts": "container", "bind": "functional", "delegate": "functional", "delegate_big": "functional",
          "forward_like": "utility", "quaternion": "math"}
# more of them: (module, headers that provide the same, type, how to fill an x, condition, another condition)
FACTS = {f: (["import xme." + m, "import xme"] + P01.FACTS[f][0],) + tuple(P01.FACTS[f][1:]) for f, m in SHARED.items()}


def fact(name, module, headers, ty, fill, cond, cond2):
    FACTS[name] = (["import xme." + module, "import xme"] + headers, ty, fill, cond, cond2)


C = ["container/container"]
fact("bytes", "container", C, None, "", "true",
     "[] { unsigned a[2] = {1, 2}; xme::ArrayView<unsigned, 2> v(a); auto b = xme::as_bytes(v); auto w = xme::as_writable_bytes(v); w[4] = std::byte(9); return b.size() == 8 && w.size() == 8 && a[1] == 9; }()")
fact("tie", "container", C, None, "", "true", "[] { int a = 1; char b = 2; xme::tie(a, b) = xme::make_tuple(5, 'c'); return a == 5 && b == 'c'; }()")
fact("forward_as_tuple", "container", C, None, "", "true", "[] { std::string s(50, 'a'); auto t = xme::forward_as_tuple(std::move(s), 4); std::string n = xme::get<0>(std::move(t)); return n.size() == 50 && s.empty(); }()")
fact("tuple_cat", "container", C, "xme::Tuple<int, std::string, long>", "x = xme::tuple_cat(xme::Tuple<int>{4}, xme::Tuple<std::string, long>{std::string(\"abc\"), 7});",
     "xme::get<1>(x) == \"abc\" && xme::get<2>(x) == 7", "xme::apply([](int a, const std::string& b, long c) { return a + int(b.size()) + c == 14; }, x)")
fact("bindings", "container", C, None, "", "true",
     "[] { auto [a, b, c] = xme::make_tuple(1, 'c', 2.5); auto p = xme::make_pair(4, 5); auto& [d, e] = p; d = 9; return a == 1 && b == 'c' && c == 2.5 && p.first == 9 && e == 5; }()")
fact("swap", "container", C, None, "", "true", "[] { auto p = xme::make_pair(1, 2), q = xme::make_pair(3, 4); xme::swap(p, q); auto t = xme::make_tuple(1), u = xme::make_tuple(2); xme::swap(t, u); return p.first == 3 && q.second == 2 && xme::get<0>(t) == 2; }()")
fact("tuple_traits", "container", C, None, "", "true", "std::tuple_size_v<xme::Tuple<int, char, long>> == 3 && std::is_same_v<std::tuple_element_t<1, xme::Pair<int, char>>, char> && std::is_same_v<std::tuple_element_t<2, xme::Tuple<int, char, long>>, long>")
fact("comparisons", "container", C, None, "", "true", "xme::make_pair(1, 2) < xme::make_pair(1, 3) && xme::make_tuple(1, 2) == xme::make_tuple(1, 2) && (xme::make_tuple(2, 1) <=> xme::make_tuple(1, 2)) > 0")
fact("strings", "container", C, "xme::Array<std::string>", "x.push_back(std::string(40, 'a')); x.emplace_back(3, 'b'); x.insert(x.begin(), std::string(\"c\"));",
     "x.size() == 3 && x[0] == \"c\" && x[1].size() == 40 && x.back() == \"bbb\"", "std::ranges::find(x, std::string(\"bbb\")) == x.end() - 1")
fact("list_of_strings", "container", C, "xme::LinkedList<std::string>", "x.push_front(std::string(40, 'a')); x.emplace_front(3, 'b'); x.reverse();", "x.begin()->size() == 40", "std::ranges::distance(x) == 2")
fact("view_of_array", "container", C, None, "", "true", "[] { std::vector<int> v{1, 2, 3, 4}; xme::ArrayView<const int> w(v); int s = 0; for(int i : w.last<2>()) s += i; return s == 7; }()")
F = ["core/functional/bind", "core/functional/delegate"]
fact("delegate_function", "functional", F[1:], "xme::Delegate<int(std::string)>", "struct S { static int f(std::string s) { return s.size(); } }; x = &S::f;", "x(std::string(30, 'a')) == 30", "[&] { xme::Delegate<int(std::string)> y; y.swap(x); bool r = !x && y; y.swap(x); return r && x; }()")
fact("bind_state", "functional", F[:1], None, "", "true", "[] { auto b = xme::bind_front([n = 0](int k) mutable { return n += k; }, 5); b(); auto c = b; b(); return b() == 15 && c() == 10; }()")
# (clang 18 crashes on most uses of a ReverseIterator<int*> after an import)
fact("reversed", "iterators", ["core/iterators/reverse_iterator"], None, "", "true", "[] { std::vector<int> v{1, 2, 3}; using R = xme::ReverseIterator<std::vector<int>::iterator>; return std::vector<int>(R(v.end()), R(v.begin())) == std::vector<int>{3, 2, 1} && R(v.begin()) - R(v.end()) == 3; }()")
fact("like", "utility", ["core/utility/forward_like"], None, "", "true", "[] { std::string s(40, 'a'); std::string t = xme::forward_like<int>(s); return s.empty() && std::is_same_v<decltype(xme::forward_like<const int&>(t)), const std::string&>; }()")
M = ["math/math", "math/glsl_mapping"]
fact("constants", "math", ["math/constants"] + M[:1], None, "", "true", "double(xme::math::pi) == 3.141592653589793 && double(xme::math::e) == 2.718281828459045 && double(xme::math::sqrt_two) == 1.4142135623730951 && double(xme::math::phi) == 1.618033988749895 && double(xme::math::ln_two) == 0.6931471805599453 && double(xme::math::ln_ten) == 2.302585092994046 && double(xme::math::sqrt_three) == 1.7320508075688772")
fact("trigonometry", "math", ["math/scalars/trigonometry"] + M[:1], None, "", "true", "xme::math::radians(180.) == double(xme::math::pi) && xme::math::degrees(0.) == 0 && xme::math::sec(0.) == 1 && xme::math::sin(0.) == 0 && xme::math::cos(0.) == 1 && xme::math::tan(0.) == 0 && xme::math::arcsin(0.) == 0 && xme::math::arccos(1.) == 0 && xme::math::arctan(0.) == 0 && xme::math::csc(1.) > 1.188 && xme::math::csc(1.) < 1.189 && xme::math::cot(1.) > .642 && xme::math::cot(1.) < .6421")
fact("projection", "math", M, "xme::math::dmat4", "x = xme::math::perspective_rh(1., 2., 1., 3.);", "x[2][3] == -1 && x[3][3] == 0 && x[0][0] * 2 == x[1][1]", "x == xme::math::perspective_rh(1., 2., 1., 3.)")
for n in (2, 3, 4):
    for k, t in (("", "float"), ("d", "double"), ("i", "int"), ("u", "unsigned")):
        fact("%svec%d" % (k, n), "math", ["math/glsl_mapping"], "xme::math::%svec%d" % (k, n), "x = xme::math::%svec%d(2); x[1] += 4; x *= %s(3);" % (k, n, t),
             "x[0] == 6 && x.y == 18", "std::is_same_v<decltype(x), xme::math::Vector<%s, %d>&> && (x + x)[0] == 12 && x == x && (x - x)[1] == 0" % (t, n))
    fact("bvec%d" % n, "math", ["math/glsl_mapping"], "xme::math::bvec%d" % n, "x = xme::math::bvec%d(false); x[1] = true;" % n, "!x[0] && x.y", "sizeof(x) == %d" % n)
    for k, t in (("", "float"), ("d", "double")):
        fact("%smat%d" % (k, n), "math", ["math/glsl_mapping"], "xme::math::%smat%d" % (k, n), "x = xme::math::%smat%d(2); x[0][1] = 5;" % (k, n),
             "x[0][0] == 2 && x[0][1] == 5 && x[1][0] == 0", "std::is_same_v<decltype(x), xme::math::Matrix<%s, %d, %d>&> && (x + x)[0][1] == 10 && (x * xme::math::Vector<%s, %d>(1))[1] == 7 && (x * x)[0][0] == 4" % (t, n, n, t, n))

HEADERS = sorted({h for f in FACTS.values() for h in f[0] if not h.startswith("import")})
FLAGS = [["-std=c++20"], ["-std=c++20", "-O2", "-DNDEBUG", "-mavx2", "-DXME_SIMD_ENABLE_AVX2"], ["-std=c++23"]]


class Modules(P01.Programs):
    before = "#include <typeinfo>\n" + STD
    FACTS = FACTS

    def __init__(self):
        self.built, self.lock = {}, threading.Lock()

    def include(self, h):
        return h + ";\n" if h.startswith("import") else super().include(h)

    def generate(self, rng, n):
        cases = [{"cxx": "clang++", "flags": FLAGS[0], "atoms": [["h", 0, "import xme"]] + [["f", 0, f] for f in FACTS]}]
        names = ["import " + m for m in SOURCES]
        for i in range(1, n):
            atoms = []
            for u in range(rng.choice([1, 2, 2, 3])):
                fs = rng.sample(sorted(FACTS), rng.choice([1, 2, 6, 12]))
                old = [a[2] for a in atoms if a[0] == "f"]
                fs = sorted(set(fs) | set(rng.sample(old, rng.randrange(len(old) + 1))))
                how = rng.choice(["import", "import", "include", "both"])
                mods = set(rng.sample(names, rng.choice([0, 0, 1, 3]))) if how != "include" else set()
                hs = rng.sample(HEADERS, rng.choice([0, 0, 1, 3])) if how != "import" else []
                for f in fs:
                    if how == "include" or (how == "both" and rng.random() < .4):
                        hs.append(rng.choice([h for h in FACTS[f][0] if not h.startswith("import")]))
                    else:
                        mods.add(rng.choice(FACTS[f][0][:2]))
                mods = rng.sample(sorted(mods), len(mods))
                rng.shuffle(hs)
                # what is included comes before what is imported
                atoms += [["h", u, h] for h in hs + mods + rng.sample(mods, len(mods) and rng.randrange(2))] + [["f", u, f] for f in fs]
            cases.append({"cxx": "clang++", "flags": rng.choice(FLAGS), "atoms": atoms})
        return cases

    def prepare(self, case, d, t):
        """The modules compiled with the flags of the case"""
        key = " ".join(case["flags"])
        with self.lock:
            if key not in self.built:
                self.built[key] = self.build(case["flags"], os.path.join(t.work, "modules%d" % len(self.built)), t)
        return self.built[key]

    def build(self, flags, d, t):
        os.mkdir(d)
        cmd = ["clang++"] + flags + ["-w", "-I" + t.include, "-fprebuilt-module-path=" + d]
        objects = []
        for m, src in SOURCES.items():
            pcm, obj = os.path.join(d, m + ".pcm"), os.path.join(d, m + ".o")
            bad = t.compile(cmd + ["--precompile", os.path.join(t.M.REPO, "modules", src), "-o", pcm]) or t.compile(cmd + ["-c", pcm, "-o", obj])
            if bad:
                return [], [], "the module %s: %s" % (m, bad)
            objects.append(obj)
        return ["-fprebuilt-module-path=" + d], objects, None

    def leftovers(self, cmd, src, t):
        return None


COUNTS = {"quick": 40, "thorough": 600}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Modules(), COUNTS, work, seed, tier, M, body)

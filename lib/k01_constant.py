"""K01: the same generated history in a constant expression and at run time."""
import os
DOMAINS = ["array<int>", "array<int>", "array<Own>", "array<Own>", "heap<int, std::less<>>", "heap<Own, std::greater<>>",
           "heap<Own, std::less<>>", "view", "view", "tuples", "tuples", "iterators", "iterators", "binding", "bits", "memory", "memory",
           "quaternions"]
DOMAINS += ["vectors<%s, %d>" % (t, n) for t in ("int", "float", "double") for n in (2, 3, 4, 6)]
DOMAINS += ["matrices<%d, %d>" % s for s in ((2, 2), (3, 3), (4, 4), (2, 3), (4, 2), (5, 5))]
DOMAINS += ["roots<%s, %d>" % (t, n) for t in ("float", "double") for n in (2, 3, 4, 5)]
DOMAINS += ["transformations<float>", "transformations<double>"]
DOMAINS += ["algorithms<%s>" % t for t in ("int", "signed char", "unsigned short", "long", "float", "double", "char", "Own")]
BUILDS = [("g++", ["-O0"]), ("clang++", ["-O1"]), ("g++", ["-O2", "-mavx2", "-DXME_SIMD_ENABLE_AVX2"]), ("g++", ["-O3", "-DNDEBUG"]),
          ("clang++", ["-O0", "-mavx2", "-DXME_SIMD_ENABLE_AVX2"]), ("g++", ["-O1", "-mssse3", "-DXME_SIMD_ENABLE_SSSE3"]),
          ("g++", ["-O1", "-DXME_SIMD_ENABLE_SSE2"]), ("g++", ["-O0", "-std=c++23"]), ("clang++", ["-O2", "-msse4.2", "-DXME_SIMD_ENABLE_SSE42"])]
MAIN = """
template<typename F>
[[gnu::noinline]] k::Trace at_run_time(F f, const int* p, int n) {
    const int* volatile q = p;
    volatile int m = n;
    return f(k::In{q, m});
}
static int bad = 0;
static void compare(const char* what, k::Trace c, k::Trace r) {
    if(c.h == r.h && c.len == r.len)
        return;
    std::printf("%s: %d observations in a constant expression, %d at run time; %016llx, %016llx\\n", what, c.len, r.len, c.h, r.h);
    bad = 1;
}
"""


class Constant:
    name = "histories"

    def generate(self, rng, n):
        cases = []
        for i in range(n):
            cxx, flags = BUILDS[i % len(BUILDS)]
            atoms = []
            for _ in range(34):
                d = rng.choice(DOMAINS)
                ln = rng.choice([3, 8, 20, 40, 90])
                atoms.append([d, [rng.randrange(1, 10000) for _ in range(rng.randrange(1, ln + 1) + (72 if "algo" in d else 0))]])
            cases.append({"cxx": cxx, "flags": flags, "atoms": atoms})
        return cases

    def run(self, case, d, t):
        p = '#include <cstdio>\n#include "k01_domains.hpp"\n' + MAIN
        body = ""
        for i, (dom, nums) in enumerate(case["atoms"]):
            dom = dom.replace("Own", "k::Own")
            p += "constexpr int in%d[] = {%s};\n" % (i, ", ".join(map(str, nums + [0])))
            p += "constexpr k::Trace t%d = k::%s(k::In{in%d, %d});\n" % (i, dom, i, len(nums))
            body += '    compare("%s (history %d)", t%d, at_run_time([](k::In in) { return k::%s(in); }, in%d, %d));\n' % (dom, i, i, dom, i, len(nums))
        p += "int main() {\n%s    return bad;\n}\n" % body
        src, exe = os.path.join(d, "a.cpp"), os.path.join(d, "a")
        with open(src, "w") as f:
            f.write(p)
        limits = (["-fconstexpr-steps=100000000", "-fconstexpr-depth=4000"] if case["cxx"] == "clang++" else
                  ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=50000000", "-fconstexpr-depth=4000"])
        return t.compile([case["cxx"], "-std=c++20", "-w", "-ffp-contract=off"] + case["flags"] + limits +
                         ["-I" + t.include, "-I" + os.path.join(t.M.HERE, "harness"), src, "-o", exe, "-ltbb"]) or t.execute(exe)

    def simpler(self, case):
        for i, (dom, nums) in enumerate(case["atoms"]):
            def put(x):
                return dict(case, atoms=case["atoms"][:i] + [[dom, x]] + case["atoms"][i + 1:])
            block = len(nums) // 2
            while block >= 1:
                for j in range(0, len(nums), block):
                    if j + block >= len(nums) or block < 8:
                        yield put(nums[:j] + nums[j + block:])
                block //= 2

    def size(self, case):
        return len(case["atoms"])

    def parts(self, case):
        return case["atoms"]

    def nontrivial(self, part):
        return len(part[1]) >= 4

    def show(self, case):
        return "%s %s: " % (case["cxx"], " ".join(case["flags"])) + "; ".join(
            "%s(%s)" % (a, " ".join(map(str, b))) for a, b in case["atoms"][:3])

    def labels(self, done):
        r = {}
        for c in done:
            for a, _ in c["atoms"]:
                r[a] = r.get(a, 0) + 1
        return r


COUNTS = {"quick": 18, "thorough": 400}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Constant(), COUNTS, work, seed, tier, M, body)

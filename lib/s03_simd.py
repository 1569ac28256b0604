"""S03: SIMD feature flags in generated build configurations."""
import os
SETS = ["MMX", "SSE", "SSE2", "SSE3", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512F"]
ENUM = [s.lower() for s in SETS]
TARGET = ["__MMX__", "__SSE__", "__SSE2__", "__SSE3__", "__SSSE3__", "__SSE4_1__", "__SSE4_2__", "__AVX__",
          "__AVX2__", "__AVX512F__"]
FLAG = ["mmx", "sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f"]
ARCH = ["x86-64", "x86-64-v2", "x86-64-v3", "x86-64-v4", "core2", "haswell", "nehalem", "sandybridge"]


class Simd:
    name = "configurations"
    may_be_empty = True

    def generate(self, rng, n):
        cases = []
        # every set enabled on its own, every -m flag on its own, then subsets
        for i in range(len(SETS)):
            cases.append({"cxx": "g++", "atoms": [["enable", SETS[i], "-D"]]})
            cases.append({"cxx": "clang++", "atoms": [["enable", SETS[i], "#define"]]})
            cases.append({"cxx": "g++", "atoms": [["flag", "-m" + FLAG[i]]]})
            cases.append({"cxx": "g++" if i % 2 == 0 else "clang++", "atoms": [["flag", "-mno-" + FLAG[i]]]})
        while len(cases) < n:
            atoms = []
            style = rng.choice(["sparse", "dense", "none"])
            for s in SETS:
                if rng.random() < {"sparse": .15, "dense": .5, "none": 0}[style]:
                    atoms.append(["enable", s, rng.choice(["-D", "-D1", "-Dempty", "#define", "#define1"])])
            if rng.random() < .25:
                atoms.append(["flag", "-march=" + rng.choice(ARCH)])
            for f in FLAG:
                if rng.random() < .12:
                    atoms.append(["flag", "-m" + f])
                elif rng.random() < .04:
                    atoms.append(["flag", "-mno-" + f])
            rng.shuffle(atoms)
            cases.append({"cxx": rng.choice(["g++", "clang++"]), "atoms": atoms})
        cases.append({"cxx": "g++", "atoms": [["pairs", 0]]})
        return cases

    def run(self, case, d, t):
        if case["atoms"] == [["pairs", 0]]:
            return self.pairs(d, t)
        cmd, defs = [case["cxx"], "-std=c++20"], ""
        for a in case["atoms"]:
            if a[0] == "flag":
                cmd.append(a[1])
        rc, out = t.M.sh(cmd + ["-dM", "-E", "-x", "c++", "/dev/null"], 60)
        if rc != 0:
            return None  # a combination the compiler refuses
        targets = {l.split()[1] for l in out.splitlines() if l.startswith("#define")}
        has = [m in targets for m in TARGET]
        on = [False] * len(SETS)
        for a in case["atoms"]:
            if a[0] == "enable":
                for i in range(SETS.index(a[1]) + 1):
                    on[i] = True
                name = "XME_SIMD_ENABLE_" + a[1]
                if a[2] == "#define":
                    defs += "#define %s\n" % name
                elif a[2] == "#define1":
                    defs += "#define %s 1\n" % name
                else:
                    cmd.append("-D" + name + {"-D": "", "-D1": "=1", "-Dempty": "="}[a[2]])
        p = defs + "#include <xme/hal/simd_detection.hpp>\n#include <xme/hal/simd_detection.hpp>\nusing xme::hal::ESimd;\n"
        p += "constexpr unsigned long long u(ESimd e) { return static_cast<unsigned long long>(e); }\n"
        for i, s in enumerate(SETS):
            for kind, want in (("USE", on[i]), ("HAS", has[i])):
                p += "#if XME_SIMD_%s_%s %s\n#    error XME_SIMD_%s_%s is wrong in #if\n#endif\n" % (
                    kind, s, "" if not want else "- 1", kind, s)
                p += "static_assert(static_cast<bool>(XME_SIMD_%s_%s) == %s);\n" % (kind, s, str(want).lower())
            p += "static_assert(u(ESimd::%s) == XME_SIMD_%s && u(ESimd::%s) != 0 && (u(ESimd::%s) & (u(ESimd::%s) - 1)) == 0);\n" % (
                ENUM[i], s, ENUM[i], ENUM[i], ENUM[i])
            for kind, want in (("enabled", on[i]), ("supported", has[i])):
                p += "static_assert(((u(xme::hal::%s_simd) & u(ESimd::%s)) != 0) == %s, \"%s_simd: %s\");\n" % (
                    kind, ENUM[i], str(want).lower(), kind, ENUM[i])
                p += "static_assert(((xme::hal::%s_simd & ESimd::%s) == ESimd::%s) == %s);\n" % (
                    kind, ENUM[i], ENUM[i], str(want).lower())
        for kind, want in (("enabled", on), ("supported", has)):
            p += "static_assert(u(xme::hal::%s_simd) == (0%s), \"%s_simd names other sets\");\n" % (
                kind, "".join(" | u(ESimd::%s)" % e for e, w in zip(ENUM, want) if w), kind)
            p += "static_assert(u(xme::hal::%s_simd) == (XME_%s_SIMD));\n" % (kind, kind.upper())
            some = [e for e, w in zip(ENUM, want) if w]
            if some:
                p += "static_assert(xme::hal::%s_simd == (%s));\n" % (kind, " | ".join("ESimd::" + e for e in some))
        p += "static_assert(u(%s) == %s);\n" % (" | ".join("ESimd::" + e for e in ENUM), "u(%s)" % ") + u(".join("ESimd::" + e for e in ENUM))
        src = os.path.join(d, "a.cpp")
        open(src, "w").write(p)
        return t.compile(cmd + ["-pedantic-errors", "-fsyntax-only", "-I" + t.include, src])

    def pairs(self, d, t):
        p = """#include <xme/hal/simd_detection.hpp>
#include <cstdio>
#include <set>
using xme::hal::ESimd;
constexpr ESimd all[] = {%s};
static ESimd set(unsigned m) { ESimd r{}; for(int i = 0; i < 10; ++i) if(m >> i & 1) r = r | all[i]; return r; }
static unsigned names(ESimd e) { unsigned m = 0; for(int i = 0; i < 10; ++i) if((e & all[i]) == all[i]) m |= 1u << i; return m; }
int main() {
    for(unsigned a = 0; a < 1024; ++a) {
        if(names(set(a)) != a) return std::printf("the set %%x reads as %%x\\n", a, names(set(a))), 1;
        for(unsigned b = 0; b < 1024; ++b) {
            if(names(set(a) | set(b)) != (a | b) || (set(a) | set(b)) != set(a | b)) return std::printf("%%x | %%x\\n", a, b), 1;
            if(names(set(a) & set(b)) != (a & b) || (set(a) & set(b)) != set(a & b)) return std::printf("%%x & %%x\\n", a, b), 1;
        }
    }
}
""" % ", ".join("ESimd::" + e for e in ENUM)
        src = os.path.join(d, "p.cpp")
        open(src, "w").write(p)
        return t.compile(["g++", "-std=c++20", "-O1", "-w", "-I" + t.include, src, "-o", os.path.join(d, "p")]) or t.execute(os.path.join(d, "p"))

    def size(self, case):
        return 1 << 20 if case["atoms"] == [["pairs", 0]] else 1

    def nontrivial(self, case):
        return len(case["atoms"]) > 1 or case["atoms"] == [["pairs", 0]]

    def show(self, case):
        return case["cxx"] + " " + " ".join(a[1] if a[0] == "flag" else "all pairs of sets" if a[0] == "pairs" else
                                            "%s XME_SIMD_ENABLE_%s" % (a[2], a[1]) for a in case["atoms"])


COUNTS = {"quick": 400, "thorough": 6000}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Simd(), COUNTS, work, seed, tier, M, body)

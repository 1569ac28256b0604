"""S04: the macros that name platform, architecture, compiler, standard library and language version."""
import os
# target: (platform, architecture)
TARGETS = {
    "x86_64-linux-gnu": ("LINUX", "X86"), "i686-linux-gnu": ("LINUX", "X86"), "i386-linux-gnu": ("LINUX", "X86"),
    "x86_64-linux-musl": ("LINUX", "X86"), "x86_64-linux-gnux32": ("LINUX", "X86"), "i586-linux-gnu": ("LINUX", "X86"),
    "x86_64-linux-android": ("LINUX", "X86"), "armv7a-linux-androideabi": ("LINUX", "ARM"),
    "arm-linux-gnueabihf": ("LINUX", "ARM"), "armv7-linux-gnueabi": ("LINUX", "ARM"), "thumbv7-linux-gnueabi": ("LINUX", "ARM"),
    "armeb-linux-gnueabi": ("LINUX", "ARM"), "powerpc64le-linux-gnu": ("LINUX", None), "riscv64-linux-gnu": ("LINUX", None),
    "mips64-linux-gnu": ("LINUX", None), "s390x-linux-gnu": ("LINUX", None),
    "x86_64-pc-windows-msvc": ("WINDOWS", "X86"), "i686-pc-windows-msvc": ("WINDOWS", "X86"),
    "x86_64-pc-windows-gnu": ("WINDOWS", "X86"), "i686-pc-windows-gnu": ("WINDOWS", "X86"),
    "thumbv7-pc-windows-msvc": ("WINDOWS", "ARM"),
    "x86_64-apple-macos11": ("APPLE", "X86"), "i386-apple-macos10.13": ("APPLE", "X86"), "armv7-apple-ios9": ("APPLE", "ARM"),
    "x86_64-unknown-freebsd": (None, "X86"), "i386-unknown-openbsd": (None, "X86"), "armv7-unknown-freebsd": (None, "ARM"),
    "riscv64-unknown-elf": (None, None), "wasm32-unknown-unknown": (None, None),
}
NATIVE = "x86_64-linux-gnu"
STDS = ["c++20", "gnu++20", "c++23", "gnu++23", "c++26", "gnu++26"]
HEADERS = ["hal/platform_macros.hpp", "hal/architecture_detection.hpp", "hal/compiler_detection.hpp", "setup.hpp"]


class Detection:
    name = "targets"

    def generate(self, rng, n):
        cases = [{"cxx": "clang++", "target": t, "std": "c++20", "atoms": list(HEADERS)} for t in TARGETS]
        cases += [{"cxx": c, "target": None, "std": s, "atoms": list(HEADERS)} for c in ("g++", "clang++") for s in STDS if not (c == "g++" and "26" in s)]
        while len(cases) < n:
            atoms = HEADERS + rng.sample(HEADERS, rng.randrange(3))
            rng.shuffle(atoms)
            cxx = rng.choice(["g++", "clang++", "clang++", "clang++"])
            cases.append({"cxx": cxx, "target": rng.choice(sorted(TARGETS)) if cxx == "clang++" else rng.choice([None, "-m32", "-mx32"]),
                          "std": rng.choice(STDS[:4] if cxx == "g++" else STDS), "atoms": atoms[:rng.randrange(1, len(atoms) + 1)]})
        for cxx in ("g++", "clang++"):
            for s in STDS[:4]:
                cases.append({"cxx": cxx, "target": None, "std": s, "atoms": ["hal/std_detection.hpp"], "use": True})
        return cases

    def run(self, case, d, t):
        cmd = [case["cxx"], "-std=" + case["std"]]
        tgt = case["target"]
        if tgt:
            cmd.append(tgt if tgt.startswith("-") else "--target=" + tgt)
        platform, arch = TARGETS.get(tgt or NATIVE, ("LINUX", "X86"))
        if case.get("use"):
            return self.use(case, cmd, d, t)
        src = os.path.join(d, "a.cpp")
        p = "".join('#include <xme/%s>\n' % h for h in case["atoms"])
        checks = []
        if "hal/platform_macros.hpp" in case["atoms"]:
            for m in ("WINDOWS", "APPLE", "LINUX"):
                checks.append(("XME_PLATFORM_" + m, "bool", platform == m))
            if platform in ("WINDOWS", "LINUX"):
                checks.append(("DLLEXPORT", "text", "__declspec(dllexport)" if platform == "WINDOWS" else '__attribute__((visibility("default")))'))
                checks.append(("DLLIMPORT", "text", "__declspec(dllimport)" if platform == "WINDOWS" else '__attribute__((visibility("default")))'))
        if "hal/architecture_detection.hpp" in case["atoms"]:
            for m in ("X86", "ARM"):
                checks.append(("XME_ARCH_" + m, "bool", arch == m))
        if "hal/compiler_detection.hpp" in case["atoms"]:
            checks.append(("XME_COMPILER_CLANG", "defined", case["cxx"] == "clang++"))
            checks.append(("XME_COMPILER_GCC", "defined", case["cxx"] == "g++"))
        if "setup.hpp" in case["atoms"]:
            checks.append(("XME_CONSTEXPR", "text", "constexpr"))
            rc, out = t.M.sh(cmd + ["-dM", "-E", "-x", "c++", "/dev/null"], 60)
            if rc != 0:
                return None  # no such target
            full = any(l.startswith("#define __cpp_constexpr ") and int(l.split()[2].rstrip("L")) >= 202002 for l in out.splitlines())
            version = [int(l.split()[2].rstrip("L")) for l in out.splitlines() if l.startswith("#define __cplusplus ")][0]
            checks.append(("XME_CPP23", "defined", version >= 202302))
            checks.append(("XME_CPP20", "defined", 202002 <= version < 202302))
            checks.append(("XME_CONSTEXPR20", "text", "constexpr" if full else ""))
            checks.append(("XME_INLINE", "defined", True))
        for name, kind, want in checks:
            if kind == "bool":
                p += "#if %s(%s)\n#error %s is %s\n#endif\n" % ("!" if want else "", name, name, "false" if want else "true")
            elif kind == "defined":
                p += "#if %sdefined(%s)\n#error %s is %sdefined\n#endif\n" % ("!" if want else "", name, name, "not " if want else "")
        texts = [c for c in checks if c[1] == "text"]
        p += "".join("TEXT_%s: %s\n" % (name, name) for name, _, _ in texts)
        open(src, "w").write(p)
        rc, out = t.M.sh(cmd + ["-E", "-P", "-I" + t.include, src], 60)
        if rc is None:
            raise t.M.NoAnswer("the preprocessor did not finish")
        if rc != 0:
            if "error: XME_" in out or "#error" in out:
                return out[:2000]
            if "unknown target" in out or "unrecognized" in out or "unsupported" in out or "invalid value" in out:
                return None
            t.control(case["cxx"])
            return out[:2000]
        for name, _, want in texts:
            got = [l for l in out.splitlines() if l.startswith("TEXT_" + name + ":")]
            if got:
                got[0] = got[0].replace("__attribute__((dll", "__declspec(dll").replace("port))", "port)")
            if not got or got[0].split(":", 1)[1].replace(" ", "") != want.replace(" ", ""):
                return "%s is %s, not %s" % (name, got, want)
        return None

    def use(self, case, cmd, d, t):
        """The macros in a real program"""
        src = os.path.join(d, "b.cpp")
        open(src, "w").write("""#include <vector>
#include <cstdio>
#include <xme/hal/std_detection.hpp>
#include <xme/hal/platform_macros.hpp>
#include <xme/setup.hpp>
#if !defined(XME_LIBSTD_GCC) || defined(XME_LIBSTD_CLANG)
#    error XME_LIBSTD_ is wrong
#endif
DLLEXPORT int exported() { return 3; }
struct S {
    XME_INLINE constexpr auto twice(int x) const { return 2 * x; }
    XME_CONSTEXPR20 bool operator==(const S&) const = default;
};
template<typename T> XME_INLINE constexpr T thrice(T x) { return 3 * x; }
XME_CONSTEXPR int k = S{}.twice(4);
static_assert(k == 8 && thrice(5) == 15 && S{} == S{});
int main() { return exported() == 3 && S{}.twice(exported()) == 6 ? 0 : 1; }
""")
        return t.compile(cmd + ["-w", "-O0", "-I" + t.include, src, "-o", os.path.join(d, "b")]) or t.execute(os.path.join(d, "b"))

    def nontrivial(self, case):
        return True

    def show(self, case):
        return "%s -std=%s %s: %s" % (case["cxx"], case["std"], case["target"] or "native", ", ".join(case["atoms"]))


COUNTS = {"quick": 300, "thorough": 3000}


def run(pid, work, seed, tier, M, body):
    import programs
    return programs.drive(pid, Detection(), COUNTS, work, seed, tier, M, body)

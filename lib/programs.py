"""Properties whose generated cases are whole programs or builds: generation, compilation, shrinking.

A kind of case is an object with
  generate(rng, n)   -> n cases: JSON values; "atoms" is the list that shrinking removes from
  run(case, d, tools)-> None, or the text of the failure (d: an empty directory)
  nontrivial(case), show(case)
  simpler(case)      -> (optional) further simplifications of a case
"""
import concurrent.futures as cf, itertools, json, os, random, shutil, threading, time


class Tools:
    def __init__(self, M, work):
        self.M, self.work, self.n, self.controls, self.lock = M, work, 0, {}, threading.Lock()
        self.include = os.path.join(M.REPO, "include")

    def compile(self, cmd, timeout=240):
        """None, or the diagnostics. A toolchain that does not work is no answer."""
        for _ in range(3):
            rc, out = self.M.sh(cmd, timeout)
            if rc == 0:
                return None
            if rc is not None and "error:" in out and "Killed" not in out and "internal compiler error" not in out \
                    and "clang frontend command failed" not in out:
                self.control(cmd[0])
                return "\n".join(l for l in out.splitlines() if "error" in l or "undefined reference" in l
                                 or "multiple definition" in l or "note:" in l)[:3000] or out[:3000]
            time.sleep(1)
        raise self.M.NoAnswer("the compiler did not finish: " + out[-1500:])

    def control(self, cxx):
        """Does the compiler work at all?"""
        with self.lock:  # cases run in several threads
            if cxx in self.controls:
                return
            src = os.path.join(self.work, "control.cpp")
            with open(src, "w") as f:
                f.write("#include <range/v3/all.hpp>\n#include <cstdio>\nint main() {std::puts(\"\");}\n")
            rc, out = self.M.sh([cxx, "-std=c++20", "-w", src, "-o", src + "." + os.path.basename(cxx)], 240)
            if rc != 0:
                raise self.M.NoAnswer("the toolchain does not work: " + out[-1500:])
            self.controls[cxx] = True

    def execute(self, exe, timeout=60):
        rc, out = self.M.sh([exe], timeout)
        if rc == 0:
            return None
        return "the program ended with status %s:\n%s" % (rc, out[:3000])


def drive(pid, kind, counts, work, seed, tier, M, body):
    tools = Tools(M, work)
    serial = itertools.count(1)

    def run(case):
        d = os.path.join(work, "c%d" % next(serial))
        os.mkdir(d)
        try:
            return kind.run(case, d, tools)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    if body is not None:
        line = body.splitlines()[0]
        msg = run(json.loads(line[len("case "):]))
        print(msg or "holds")
        return 1 if msg else 0

    rng = random.Random("%s-%d" % (pid, seed))
    cases = kind.generate(rng, counts[tier if tier in counts else "quick"])
    failed, t0, limit = None, time.time(), 400 if tier == "quick" else 3000
    done = []
    with cf.ThreadPoolExecutor(min(8, os.cpu_count() or 8)) as ex:
        def one(case):
            nonlocal failed
            if failed or time.time() - t0 > limit:
                return
            msg = run(case)
            if msg and not failed:
                failed = (case, msg)
            done.append(case)
        for f in [ex.submit(one, c) for c in cases]:
            f.result()
    if failed:
        case, msg = shrink(kind, run, *failed, time.time() + 90)
        raise M.Broken("generated", "case %s\n%s\n" % (json.dumps(case), "\n".join("# " + l for l in (
            kind.show(case) + "\n" + msg).splitlines()[:150])))
    size = getattr(kind, "size", lambda c: 1)
    nt, seen = 0, set()
    for c in done:
        for k in getattr(kind, "parts", lambda c: [c])(c):
            key = json.dumps(k, sort_keys=True)
            if key not in seen and kind.nontrivial(k):
                nt += 1
            seen.add(key)
    return [{"config": "generated", "evaluations": sum(size(c) for c in done), "distinct_nontrivial": nt,
             "builds": len(done),
             "subs": [{"name": kind.name, "cases": sum(size(c) for c in done), "nontrivial": nt,
                       "distinct_nontrivial": nt, "labels": getattr(kind, "labels", lambda d: {})(done),
                       "samples": [kind.show(c)[:1500] for c in done[:3]]}]}]


def shrink(kind, run, case, msg, until):
    """Removes atoms while the case still fails, then tries the simplifications of the kind"""
    def attempt(c):
        try:
            return run(c)
        except Exception:
            return None
    block = len(case["atoms"]) // 2
    while block >= 1 and time.time() < until:
        i, shrunk = 0, False
        while i < len(case["atoms"]) and time.time() < until:
            c = dict(case, atoms=case["atoms"][:i] + case["atoms"][i + block:])
            m = attempt(c) if c["atoms"] or getattr(kind, "may_be_empty", False) else None
            if m:
                case, msg, shrunk = c, m, True
            else:
                i += block
        if block == 1 and not shrunk:
            break
        block = max(1, block // 2)
    again = hasattr(kind, "simpler")
    while again and time.time() < until:
        again = False
        for c in kind.simpler(case):
            if time.time() > until:
                break
            m = attempt(c)
            if m:
                case, msg, again = c, m, True
                break
    return case, msg

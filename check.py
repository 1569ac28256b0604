#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py ID [--tier quick|thorough] [--replay FILE]

Compiles the property's harness (harness/*.cpp) against the headers of /repo in several
configurations, runs its generated cases, and writes evidence/ID.json.
Exit 0: held. Exit 1: a `VIOLATION property=ID replay=PATH` line was printed. Exit 2: no answer.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks_table import CHECKS, CONFIGS, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=78:symbolize=0:detect_stack_use_after_return=1:"
                        "max_malloc_fill_size=65536:malloc_fill_byte=205:max_allocation_size_mb=4096",
           TSAN_OPTIONS="halt_on_error=1:symbolize=0",
           UBSAN_OPTIONS="symbolize=0:print_stacktrace=0",
           LC_ALL="C")
CPU = open("/proc/cpuinfo").read()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout, env=ENV, cwd=None):
    """Returns (status, output); status None when the time ran out."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True, errors="replace", text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def compile_cmd(chk, cfg, src, out):
    c = CONFIGS[cfg]
    return ([c["cxx"], "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"),
             "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "harness")]
            + c["flags"] + chk.get("flags", []) + [os.path.join(HERE, "harness", src), "-o", out]
            + c.get("ldflags", []) + chk.get("ldflags", []))


class NoAnswer(Exception):
    pass


class Broken(Exception):
    """The property does not hold: replay text"""
    def __init__(self, cfg, text):
        super().__init__(text)
        self.cfg, self.text = cfg, text


def build(chk, cfg, work):
    exe = os.path.join(work, "h-" + cfg)
    cmd = compile_cmd(chk, cfg, chk["src"], exe)
    for attempt in range(3):
        rc, out = sh(cmd, 600)
        if rc == 0:
            return exe
        if rc is not None and " error: " in out and "Killed" not in out:
            break
        time.sleep(2)
    else:
        raise NoAnswer("the compiler did not finish: " + out[-2000:])
    # Is it the code under test that no longer compiles, or the toolchain?
    ctl = os.path.join(work, "ctl-%s.cpp" % cfg)
    with open(ctl, "w") as f:
        f.write("#include <pbt.hpp>\nSUB(a,1,1){}\n")
    c = CONFIGS[cfg]
    rc2, out2 = sh([c["cxx"], "-std=c++20", "-w", "-I" + os.path.join(HERE, "lib")] + c["flags"]
                   + [ctl, "-o", exe + "-ctl"] + c.get("ldflags", []), 300)
    if rc2 != 0:
        raise NoAnswer("the toolchain does not work: " + out2[-2000:])
    errs = "\n".join(l for l in out.splitlines() if "error:" in l)[:4000]
    raise Broken(cfg, "compile\n# the public interface used by the harness no longer compiles\n"
                 + "\n".join("# " + l for l in (" ".join(cmd) + "\n" + errs).splitlines()) + "\n")


def run_config(pid, chk, cfg, work, seed, tier, jobs):
    need = CONFIGS[cfg].get("cpu")
    if need and need not in CPU.split():
        return {"config": cfg, "skipped": "the CPU has no " + need, "evaluations": 0,
                "distinct_nontrivial": 0, "subs": []}
    exe = build(chk, cfg, work)
    if CONFIGS[cfg].get("probe") and sh([exe, "--list"], 60)[0] != 0:
        return {"config": cfg, "skipped": "the sanitizer does not run here", "evaluations": 0,
                "distinct_nontrivial": 0, "subs": []}
    w = os.path.join(work, "w-" + cfg)
    os.mkdir(w)
    stats, rep = os.path.join(w, "stats.json"), os.path.join(w, "replay.txt")
    # every configuration explores cases of its own
    cseed = seed * 1000 + sorted(CONFIGS).index(cfg)
    scale = CONFIGS[cfg].get("scale", 1.0) * chk.get("scale", {}).get(cfg, 1.0)
    limit = 240 if tier == "quick" else 3000
    rc, out = sh([exe, "--seed", str(cseed), "--tier", tier, "--scale", str(scale), "--jobs", str(jobs),
                  "--max-seconds", str(limit), "--work", w, "--stats", stats, "--replay-out", rep],
                 limit + 300)
    if rc == 1 and os.path.exists(rep):
        rrc, rout = sh([exe, "--replay", rep], 120, dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")))
        with open(rep) as f:
            text = f.read()
        text += "".join("# " + l + "\n" for l in rout.splitlines()[:120])
        raise Broken(cfg, text)
    if rc != 0:
        raise NoAnswer("%s: status %s: %s" % (cfg, rc, out[-2000:]))
    s = json.load(open(stats))
    s["config"] = cfg
    return s


def run_fuzz(pid, chk, work, seed, jobs, seconds):
    """Coverage guided search (thorough tier): libFuzzer supplies the choices."""
    exe = os.path.join(work, "fuzz")
    cmd = compile_cmd(chk, "fuzz", chk["src"], exe)
    rc, out = sh(cmd, 600)
    if rc != 0:
        return {"config": "fuzz", "skipped": "does not build with clang: " + out[-300:], "evaluations": 0,
                "distinct_nontrivial": 0, "subs": []}
    total, procs = 0, []
    for j in range(jobs):
        d = os.path.join(work, "fz%d" % j)
        os.mkdir(d)
        procs.append((d, subprocess.Popen(
            [exe, "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=6000",
             "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/", d],
            stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "w"), env=ENV)))
    covs = []
    for d, p in procs:
        p.wait()
        txt = open(os.path.join(d, "log"), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", txt)
        total += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", txt)
        covs.append(int(m[-1]) if m else 0)
        for f in sorted(os.listdir(d)):
            if f.startswith(("crash-", "timeout-")):
                rep = os.path.join(d, "replay.txt")
                sexe = build(chk, chk["configs"][0], work)
                rc, out = sh([sexe, "--bytes", os.path.join(d, f), "--replay-out", rep], 200)
                if rc == 1:
                    raise Broken(chk["configs"][0], open(rep).read())
                raise NoAnswer("a fuzzer failure did not reproduce outside it: " + txt[-1500:])
    return {"config": "fuzz", "evaluations": total, "distinct_nontrivial": 0, "subs": [],
            "labels": {"edges covered": max(covs)}}


def load_findings():
    path = os.path.join(HERE, "known_findings.jsonl")
    r = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                r.append(json.loads(l))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--configs")
    a = ap.parse_args()
    pid, chk = a.id, CHECKS[a.id]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="xmevf-%s-" % pid)
    try:
        if "prepare" in chk:
            try:
                chk = dict(chk, flags=chk.get("flags", []) + chk["prepare"](work, sh))
            except Exception as e:
                log("NO ANSWER:", e)
                return 2
        if a.replay:
            return replay(pid, chk, a.replay, work)
        return explore(pid, chk, a, work, t0)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(pid, chk, path, work):
    lines = open(path).read().splitlines()
    cfg = lines[0].split()[1]
    body = "\n".join(lines[1:]) + "\n"
    if "run" in chk:
        return chk["run"](pid, work, 0, "quick", sys.modules[__name__], body)
    try:
        exe = build(chk, cfg, work)
    except Broken as b:
        print(b.text)
        return 1
    if body.startswith("compile"):
        print("compiles")
        return 0
    rep = os.path.join(work, "r.txt")
    with open(rep, "w") as f:
        f.write(body)
    rc, out = sh([exe, "--replay", rep], 300)
    print(out)
    return 1 if rc == 1 else 0 if rc == 0 else 2


def explore(pid, chk, a, work, t0):
    configs = a.configs.split(",") if a.configs else list(dict.fromkeys(
        chk["configs"] + (chk.get("thorough_configs", ["clang"]) if a.tier == "thorough" else [])))
    results, broken, noans = [], None, None
    if "run" in chk:
        try:
            results = chk["run"](pid, work, a.seed, a.tier, sys.modules[__name__], None)
        except Broken as b:
            broken = b
        except NoAnswer as e:
            noans = e
    else:
        ncpu = os.cpu_count() or 8
        par = min(len(configs), 8 if a.tier == "quick" else 2)
        jobs = max(2, ncpu // min(par, 2))
        with cf.ThreadPoolExecutor(par) as ex:
            futs = {ex.submit(run_config, pid, chk, c, work, a.seed, a.tier, jobs): c for c in configs}
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except Broken as b:
                    broken = broken or b
                except NoAnswer as e:
                    noans = noans or e
        if a.tier == "thorough" and not broken and not noans and chk.get("fuzz", True):
            try:
                results.append(run_fuzz(pid, chk, work, a.seed, ncpu, chk.get("fuzz_seconds", 240)))
            except Broken as b:
                broken = b
            except NoAnswer as e:
                noans = e
    results.sort(key=lambda r: r["config"])
    known = []
    if broken:
        for k in load_findings():
            if k["property"] == pid and k["match"] in broken.text:
                known.append(k)
    samples, per = [], {}
    for r in results:
        per[r["config"]] = {k: v for k, v in r.items() if k not in ("subs", "config", "failure", "rc")}
        per[r["config"]]["sub_tests"] = {
            s["name"]: {k: s[k] for k in ("cases", "nontrivial", "distinct_nontrivial", "labels")} for s in r["subs"]}
        for s in r["subs"]:
            for x in s["samples"][:1 if len(r["subs"]) > 3 else 2]:
                if len(samples) < 12:
                    samples.append("[%s/%s] %s" % (r["config"], s["name"], x))
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": chk.get("level", "exploration"),
          "coverage": {"evaluations": sum(r["evaluations"] for r in results),
                       "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
                       "rule": chk["rule"] + (" Distinct: different cases." if "run" in chk else
                               " Distinct: different choice sequences; counted per configuration, "
                               "each of which generates cases from a seed of its own."),
                       "samples": samples or ["(the run ended at the first failure)"],
                       "configurations": per},
          "assumptions": chk.get("assumptions", []) + ASSUMPTIONS,
          "violations": 1 if broken and not known else 0,
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if broken:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-seed%d.txt" % (pid, broken.cfg, a.seed))
        with open(path, "w") as f:
            f.write("config %s\n%s" % (broken.cfg, broken.text))
        log(broken.text[:6000])
        if known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[0]["what"]), flush=True)
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if noans:
        log("NO ANSWER:", noans)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" %
          (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from the current tree of the repository, runs it in shards under
sanitizers, merges what the monitors observed, writes evidence/<ID>.json and gives the verdict.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--repo DIR] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide (error)
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from config import PROPS  # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 8))
INC = lambda repo: ["-I" + ROOT + "/shim", "-I" + ROOT + "/harness", "-I" + repo + "/include"]
COMMON = ["-std=c++23", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w", "-pthread", "-DMON_ROOT=\"" + ROOT + "\""]
UB = "undefined,float-cast-overflow,bounds"
FLAGS = {
    # name: (compiler, flags, run wrapper)
    "clang-asan": ("clang++", ["-O0", "-gline-tables-only", "-fsanitize=address," + UB, "-fno-sanitize=object-size,function,vptr",
                               "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope", "-fsanitize-address-use-after-return=always",
                               "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"], []),
    "gcc-asan": ("g++-13", ["-O1", "-g1", "-fsanitize=address," + UB, "-fno-sanitize=object-size,vptr", "-fno-sanitize-recover=all",
                            "-D_GLIBCXX_SANITIZE_VECTOR=1"], []),
    "real-asan": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=address," + UB, "-fno-sanitize=object-size,function,vptr", "-fno-sanitize-recover=all",
                              "-fsanitize-address-use-after-scope", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DMON_REAL", "-I" + ROOT + "/shim-asio"], []),
    "clang-tsan": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=thread", "-DMON_TSAN"], []),
    "gcc-tsan": ("g++-13", ["-O1", "-g1", "-fsanitize=thread", "-DMON_TSAN"], []),
    "gcc-valgrind": ("g++-13", ["-O1", "-g1"], ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no",
                                                "--leak-check=no", "--fair-sched=yes"]),
    "clang-fuzz": ("clang++", ["-O1", "-gline-tables-only", "-fsanitize=fuzzer,address," + UB, "-fno-sanitize=object-size,function,vptr",
                               "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-DMON_FUZZ"], []),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks={leaks}:detect_stack_use_after_return=1:max_malloc_fill_size=1048576:"
                    "detect_container_overflow=1:handle_abort=1:allocator_may_return_null=0:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=78",
}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(prop, cfg, flavour, repo, bdir):
    compiler, flags, _ = FLAGS[flavour]
    exe = os.path.join(bdir, flavour)
    srcs = [os.path.join(ROOT, "harness", "real.cpp" if flavour == "real-asan" else cfg["src"])]
    base = COMMON + ["-DREAL_" + prop, "-DMON_INCLUDE=\"" + repo + "/include\""] + INC(repo) + cfg.get("flags", [])
    def run(cc, fl):
        def do(cmd):
            return subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        objects = []
        for src, entry in cfg.get("programs", []):  # whole programs: linked in under another name, starting no command
            o = exe + "." + entry + ".o"
            with open(o + ".hpp", "w") as f:  # keeps the names which ASan gives apart
                f.write("extern int own_%s;\nint own_%s = 0;\n" % (entry, entry))
            r = do([cc] + fl + base + ["-include", o + ".hpp", "-c", os.path.join(repo, src), "-o", o])
            if r.returncode:
                return r
            strong = [w[2] for w in (l.split() for l in do(["nm", o]).stdout.splitlines()) if len(w) == 3 and w[1] in "TDBR" and w[2] != "main"]
            r = do(["objcopy", "--redefine-sym", "main=" + entry, "--redefine-sym", "system=demoSystem"] + ["--localize-symbol=" + x for x in strong] + [o])
            if r.returncode:
                return r
            objects.append(o)
        return do([cc] + fl + base + srcs + objects + ["-o", exe])
    r = run(compiler, flags)
    if r.returncode and flavour == "clang-asan":
        log("clang++ cannot compile this tree, using g++-13:", r.stderr[:600])
        r = run("g++-13", FLAGS["gcc-asan"][1])
    if r.returncode:
        raise Inconclusive("the harness does not compile against this tree:\n" + r.stderr[:3000])
    return exe


def env_for(cfg, extra=None):
    e = dict(os.environ)
    for k, v in ENV.items():
        e[k] = v.replace("{leaks}", "1" if cfg.get("leaks") else "0")
    for s in ("/usr/bin/llvm-symbolizer-18", "/usr/bin/llvm-symbolizer"):
        if os.path.exists(s):
            e["ASAN_SYMBOLIZER_PATH"] = s
            e["UBSAN_OPTIONS"] += ":external_symbolizer_path=" + s
            e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + s
            break
    e["TMPDIR"] = os.path.join(ROOT, "build")
    e.update(extra or {})
    return e


def crash_key(err):
    """what the sanitizer (or the runtime) reported, without addresses and line numbers"""
    for pat in (r"SUMMARY: (\w+Sanitizer): ([\w-]+)", r"runtime error: (.*)"):
        m = re.search(pat, err)
        if m:
            break
    if re.search(r"runtime error: ", err):
        t = re.search(r"runtime error: (.*)", err).group(1)
        return "undefined-behaviour " + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|\bnan\b|\binf\b", "N", t)[:80]
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+)", err)
    if m:
        return "sanitizer " + m.group(1) + " " + m.group(2)
    m = re.search(r"terminate called (.*)", err)
    if m:
        return "terminate " + m.group(1)[:80]
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param)[^\n]*", err)
    if m:
        return "memcheck " + m.group(1)
    return "crash"


def frame(err):
    """first frame inside the repository"""
    m = re.search(r"#\d+ .*?/include/((?:http|weblink|system|tooling|networking|utils|details)/[\w+.]+|WebFront\.hpp|JsFunction\.hpp)", err)
    return m.group(1) if m else ""


def run_shard(exe, wrapper, cfg, out, args, timeout, limit_mb=None):
    cmd = wrapper + [exe, "--out", out] + args
    errf = out + ".err"
    t0 = time.time()
    try:
        with open(errf, "w") as ef:
            r = subprocess.run(cmd, stdout=ef, stderr=ef, timeout=timeout, env=env_for(cfg), cwd=os.path.dirname(out))
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    with open(errf, errors="replace") as f:
        err = f.read()[:200000]
    cur = ""
    try:
        with open(out + ".cur", "rb") as f:
            cur = f.read(200).split(b"\0")[0].decode(errors="replace")
    except OSError:
        pass
    viol, summary = [], None
    try:
        with open(out) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "violation" in d:
                    viol.append(d)
                elif d.get("done"):
                    summary = d
    except OSError:
        pass
    hashes = set()
    try:
        with open(out + ".hashes", "rb") as f:
            b = f.read()
        hashes = {b[i:i + 8] for i in range(0, len(b), 8)}
    except OSError:
        pass
    return dict(rc=rc, err=err, cur=cur, viol=viol, summary=summary, hashes=hashes, secs=time.time() - t0)


def judge(res, cfg):
    """violations of one shard, including the ones that ended the process"""
    v = [dict(key=d["violation"], case="%s:%d" % (d["section"], d["index"]), detail=d["detail"]) for d in res["viol"]]
    rc = res["rc"]
    if rc == 0 and res["summary"]:
        return v
    if rc == 70 or "HARNESS-ERROR" in res["err"]:
        raise Inconclusive("harness error: " + res["err"][-1500:])
    if rc == "timeout":
        return v + [dict(key="hang", case=res["cur"], detail="wall clock limit", hang=True)]
    if rc == -27:  # SIGPROF: processor time limit of one case
        return v + [dict(key="hang", case=res["cur"], detail="one case used up its processor time", hang=True)]
    if rc in (-9, 137):
        raise Inconclusive("the harness was killed (memory?) in case " + res["cur"])
    if rc == 78 or "LeakSanitizer" in res["err"]:
        return v + [dict(key="leak " + frame(res["err"]), case=res["cur"] or "whole run", detail=res["err"][:3000])]
    if not res["cur"] and not res["summary"]:
        raise Inconclusive("the harness did not run: rc=%s %s" % (rc, res["err"][-1500:]))
    key = crash_key(res["err"])
    f = frame(res["err"])
    if f:
        key += " in " + f
    if rc == 77 or (isinstance(rc, int) and rc < 0) or rc in (99, 134, 139):
        return v + [dict(key=key, case=res["cur"], detail=res["err"][:3500])]
    raise Inconclusive("unexpected exit %s: %s" % (rc, res["err"][-1500:]))


class Run:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.counters = {}
        self.required = {}
        self.samples = []
        self.rule = ""
        self.violations = []
        self.notes = {}
        self.parts = []

    def add(self, res):
        s = res["summary"]
        if s:
            self.evaluations += s["evaluations"]
            for k, n in s["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + n
            self.required.update(s["required"])
            self.samples += s["samples"]
            self.rule = s["rule"]
        self.hashes |= res["hashes"]


def run_flavour(run, prop, cfg, flavour, repo, bdir, tier, seed, scale=1.0, shards=None, timeout=None):
    exe = build(prop, cfg, flavour, repo, bdir)
    wrapper = FLAGS[flavour][2]
    n = shards or min(JOBS, cfg.get("shards", JOBS))
    timeout = timeout or (400 if tier == "quick" else 3000)
    args0 = ["--seed", str(seed), "--tier", tier, "--scale", str(scale)]

    def one(k, tmo=timeout):
        return run_shard(exe, wrapper, cfg, os.path.join(bdir, "%s.%d.out" % (flavour, k)), args0 + ["--shard", "%d/%d" % (k, n)], tmo)

    with cf.ThreadPoolExecutor(n) as ex:
        results = list(ex.map(one, range(n)))
    def fresh(vs):
        return [v for v in vs if not v.get("hang") and not any(matches(k, v) for k in known_for(prop))]

    def judged(k, res):
        vs = judge(res, cfg)
        hang = [v for v in vs if v.get("hang")]
        if hang and (fresh(vs) or run.violations and fresh(run.violations) or any(v.get("hang") for v in run.violations)):
            vs = [v for v in vs if not v.get("hang")]  # something is certain already
        elif hang:
            case = hang[0]["case"]
            log("possible hang in", case, "- running it again alone")
            again = run_shard(exe, wrapper, cfg, os.path.join(bdir, "again.out"), args0 + ["--only", case], 240) if case else res
            if not any(v.get("hang") for v in judge(again, cfg)):  # a loaded machine: run the whole shard again
                res = one(k, timeout * 2)
                vs = judge(res, cfg)
                if any(v.get("hang") for v in vs):
                    raise Inconclusive("a shard did not finish in time")
        return res, vs

    # first the shards that came to an end, then those with violations, last those which may hang
    for k in sorted(range(n), key=lambda k: 0 if results[k]["rc"] == 0 else 1 if results[k]["viol"] else 2):
        res, vs = judged(k, results[k])
        run.add(res)
        for v in vs:
            v.update(flavour=flavour, tier=tier, seed=seed, scale=scale)
            run.violations.append(v)
    run.parts.append(dict(build=flavour, tier=tier, seed=seed, scale=scale, shards=n, slowest_s=round(max(r["secs"] for r in results), 1)))


def run_real(run, prop, cfg, repo, bdir, tier, seed):
    """the stage over real sockets: what it observes counts, what keeps it from running does not"""
    try:
        exe = build(prop, cfg, "real-asan", repo, bdir)
    except (Inconclusive, subprocess.TimeoutExpired) as e:
        log("stage over real sockets not built:", str(e)[:1500])
        run.notes["real_sockets"] = "not built"
        return
    n = 4
    args = ["--seed", str(seed), "--tier", tier]
    with cf.ThreadPoolExecutor(n) as ex:
        results = list(ex.map(lambda k: run_shard(exe, [], cfg, os.path.join(bdir, "real.%d.out" % k), args + ["--shard", "%d/%d" % (k, n)], 200 if tier == "quick" else 1500), range(n)))
    rule = run.rule
    for res in results:
        try:
            vs = judge(res, cfg)
        except Inconclusive as e:
            log("stage over real sockets:", str(e)[:1500])
            run.notes["real_sockets"] = "a part did not finish"
            continue
        run.add(res)
        for v in vs:
            if v.get("hang"):
                run.notes["real_sockets"] = "a part did not finish in time"
                continue
            v.update(flavour="real-asan", tier=tier, seed=seed, scale=1)
            run.violations.append(v)
    run.rule = rule + "; the same application over loopback sockets on Boost.Asio's reactor, clients in threads of their own"
    run.parts.append(dict(build="real-asan", tier=tier, seed=seed, shards=n, slowest_s=round(max(r["secs"] for r in results), 1)))


def fuzz(run, prop, cfg, repo, bdir, seed, runs):
    exe = build(prop, cfg, "clang-fuzz", repo, bdir)
    def one(k):
        d = os.path.join(bdir, "fuzz%d" % k)
        os.makedirs(d, exist_ok=True)
        cmd = [exe, d, "-seed=%d" % (seed * 100 + k), "-runs=%d" % runs, "-max_len=4096", "-len_control=20", "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=%s/artifact-" % bdir,
               "-print_final_stats=1", "-max_total_time=%d" % cfg.get("fuzz_s", 420)]
        err = os.path.join(bdir, "fuzz%d.err" % k)
        try:
            with open(err, "w") as ef:
                rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=env_for(cfg), cwd=bdir, timeout=1500).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        return rc, open(err, errors="replace").read()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, range(JOBS)))
    total, cov = 0, 0
    for rc, err in results:
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        total += int(m.group(1)) if m else 0
        covs = re.findall(r"cov: (\d+)", err)
        cov = max([cov] + [int(c) for c in covs])
        if rc == 0:
            continue
        if "ALARM: working on the last Unit" in err or "libFuzzer: timeout" in err or "out-of-memory" in err or rc == "timeout":
            run.notes["fuzz_inconclusive"] = run.notes.get("fuzz_inconclusive", 0) + 1
            continue
        m = re.search(r"MON-VIOLATION (.*)", err)
        key = m.group(1).split(" ")[0] if m else crash_key(err)
        art = re.search(r"Test unit written to (\S+)", err)
        tail = err[max(0, len(err) - 6000):]
        run.violations.append(dict(key=key, case="fuzz", detail=(m.group(1) if m else "") + tail[:3500], artifact=art.group(1) if art else "", flavour="clang-fuzz",
                                   tier="thorough", seed=seed, scale=1))
    run.evaluations += total
    run.notes["fuzz_executions"] = total
    run.notes["fuzz_edges_covered"] = cov
    run.parts.append(dict(build="clang-fuzz", executions=total))


def known_for(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def matches(k, v):
    return re.fullmatch(k["key"], v["key"]) is not None and re.search(k.get("detail", ""), v["detail"]) is not None


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:  # nothing to build ahead: every check builds from the current tree
        missing = [t for t in ("clang++", "g++-13", "node", "valgrind") if not shutil.which(t)]
        log("tools missing: %s" % missing if missing else "tools present")
        return 1 if missing else 0
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 2
    prop = a[0]
    cfg = PROPS[prop]
    opt = lambda n, d=None: a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.path.abspath(opt("--repo", os.environ.get("WEBFRONT_REPO", "/repo")))
    bdir = os.path.join(ROOT, "build", prop + "-" + tier + ("-%d" % os.getpid() if "--private" in a else ""))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    if "--replay" in a:
        rp = json.load(open(opt("--replay")))
        exe = build(prop, cfg, rp["flavour"], repo, bdir)
        if rp["case"] == "fuzz":
            art = os.path.join(ROOT, rp["artifact"])
            return subprocess.run([exe, art], env=env_for(cfg)).returncode
        return subprocess.run(FLAGS[rp["flavour"]][2] + [exe, "--seed", str(rp["seed"]), "--tier", rp["tier"], "--only", rp["case"]], env=env_for(cfg)).returncode
    for d in glob.glob(os.path.join(ROOT, "build", "scratch-*")):  # left by harnesses that were ended
        if time.time() - os.path.getmtime(d) > 7200:
            shutil.rmtree(d, ignore_errors=True)
    t0 = time.time()
    run = Run()
    try:
        main_flavour = cfg.get("flavour", "clang-asan")
        run_flavour(run, prop, cfg, main_flavour, repo, bdir, tier, seed)
        fresh = lambda: [v for v in run.violations if not any(matches(k, v) for k in known_for(prop))]
        if cfg.get("real") and not fresh():
            run_real(run, prop, cfg, repo, bdir, tier, seed)
        if tier == "thorough" and not fresh():
            if cfg.get("flavour") is None:
                run_flavour(run, prop, cfg, "gcc-asan", repo, bdir, "quick", seed + 1000)
                if cfg.get("valgrind", True):
                    run_flavour(run, prop, cfg, "gcc-valgrind", repo, bdir, "quick", seed + 2000, scale=cfg.get("valgrind_scale", 0.05))
                if cfg.get("fuzz", True):
                    fuzz(run, prop, cfg, repo, bdir, seed, cfg.get("fuzz_runs", 2_000_000))
            else:
                run_flavour(run, prop, cfg, cfg.get("second_flavour", "gcc-tsan"), repo, bdir, "quick", seed + 1000)
    except Inconclusive as e:
        log("INCONCLUSIVE property=%s: %s" % (prop, e))
        if not run.violations:
            return 2
    except subprocess.TimeoutExpired as e:
        log("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2
    known = known_for(prop)
    new, seen_known = [], {}
    for v in run.violations:
        k = next((k for k in known if matches(k, v)), None)
        if k:
            seen_known.setdefault(k["what"], v)
        else:
            new.append(v)
    if not new:
        for name, least in run.required.items():
            if run.counters.get(name, 0) < least:
                log("INCONCLUSIVE property=%s: only %d %s observed, %d needed" % (prop, run.counters.get(name, 0), name, least))
                return 2
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=cfg["level"],
        coverage=dict(evaluations=run.evaluations, distinct_nontrivial=len(run.hashes), rule=run.rule, samples=run.samples[:8] or ["none"],
                      observed=run.counters, runs=run.parts, **run.notes),
        assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for k in known:
        if k["what"] not in seen_known:
            log("note: known finding not seen in this run:", k["what"])
    if new:
        rdir = os.path.join(ROOT, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in new:
            if v["key"] in done:
                continue
            done.add(v["key"])
            name = "%s-%s.json" % (prop, hashlib.sha1(v["key"].encode()).hexdigest()[:10])
            if v.get("artifact") and os.path.exists(v["artifact"]):
                dst = os.path.join(rdir, name + ".input")
                shutil.copy(v["artifact"], dst)
                v["artifact"] = os.path.relpath(dst, ROOT)
            with open(os.path.join(rdir, name), "w") as f:
                json.dump(dict(property=prop, **v), f, indent=1)
            log("-- %s [%s %s] %s" % (v["key"], v["flavour"], v["case"], v["detail"][:int(os.environ.get("VERIF_DETAIL", "700"))]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join("build", "replay", name)))
        return 1
    if "--keep" not in a:
        shutil.rmtree(bdir, ignore_errors=True)
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, run.evaluations, len(run.hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)

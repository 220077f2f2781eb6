#!/usr/bin/env python3
"""Development aid, used by no check: turns bug descriptions into /verif/seeded/<id>/ and tries them.

seed.py make FILE...   each FILE defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo
                       (C++ text), optional net=True (the demo uses the simulated network), flags (compiler flags)
seed.py try ID...      in a scratch copy: applies, builds, stable tests, demo with and without, the check of the property
"""
import concurrent.futures as cf, difflib, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = ROOT + "/seeded"
DEMO = """#!/bin/bash
# exit 0: the behaviour shown is right on this tree
here=$(dirname "$(readlink -f "$0")")
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
%(cxx)s -std=c++23 -w %(flags)s -DSCRATCH="\\"$out\\"" -I"$here/shim" -I"$here" -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" -pthread || exit 3
cd "$out" && timeout 120 ./demo > "$out/log" 2>&1
rc=$?
grep -a DEMO "$out/log" | head -5
[ $rc -eq 0 ] || { tail -c 1500 "$out/log" | tr -d '\\000'; echo "exit $rc"; }
exit $rc
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(files):
    base = sh("git -C /repo log --format=%H | tail -1").stdout.strip()
    for f in files:
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            d = f"{SEEDED}/{s['id']}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            by = {}
            for file, old, new in s["edits"]:
                by.setdefault(file, []).append((old, new))
            patch, original = "", False
            for file, edits in by.items():
                a = open("/repo/" + file).read()
                b = a
                for old, new in edits:
                    if b.count(old) != 1:
                        sys.exit(f"{s['id']}: {b.count(old)} times in {file}: {old!r}")
                    b = b.replace(old, new)
                la, lb = a.splitlines(True), b.splitlines(True)
                for x in (la, lb):
                    if x and not x[-1].endswith("\n"):
                        x[-1] += "\n\\ No newline at end of file\n"
                patch += f"diff --git a/{file} b/{file}\n" + "".join(difflib.unified_diff(la, lb, "a/" + file, "b/" + file))
                blame = sh(f"git -C /repo blame -s -l {file}").stdout.splitlines()
                for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, la, lb, autojunk=False).get_opcodes():
                    if tag in ("replace", "delete"):
                        original |= any(blame[i].lstrip("^")[:38] == base[:38] for i in range(i1, i2))
            if not original:
                print(f"{s['id']}: WARNING changes no original line")
            open(d + "/patch.diff", "w").write(patch)
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
            open(d + "/demo.sh", "w").write(DEMO % {"cxx": s.get("cxx", "clang++"), "flags": s.get("flags", "-O0 -g1 -fsanitize=address,undefined -fno-sanitize=object-size,function,vptr -fno-sanitize-recover=all")})
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            shutil.copy(ROOT + "/tools/demo.hpp", d + "/demo.hpp")
            if s.get("net"):
                os.makedirs(d + "/shim/experimental")
                shutil.copy(ROOT + "/shim/experimental/net", d + "/shim/experimental/net")


def trial(sid, checks=True):
    d = f"{SEEDED}/{sid}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    res = []
    try:
        repo = w + "/repo"
        sh(f"mkdir {repo} && git -C /repo archive HEAD | tar x -C {repo}")
        r = sh(["bash", d + "/demo.sh"], cwd=repo)
        if r.returncode:
            res.append("DEMO FAILS ON CLEAN TREE: " + r.stdout[-600:])
        r = sh(["git", "apply", "-v", d + "/patch.diff"], cwd=repo)
        if r.returncode:
            return sid, ["PATCH: " + r.stdout]
        sh(f"cp -r /opt/vp {w}/vp && sed -i 's#/repo#{repo}#g; s#/opt/vp#{w}/vp#g' {w}/vp/*.sh {w}/vp/cmake/CMakeLists.txt")
        r = sh(f"bash {w}/vp/test.sh {w}/o.json")
        o = json.load(open(w + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"]
        miss = set(base) - set(o["passed"])
        if miss:
            res.append(f"TESTS: {len(miss)} stable tests fail: {sorted(miss)[:3]} {r.stdout[-800:] if not o['passed'] else ''}")
        r = sh(["bash", d + "/demo.sh"], cwd=repo)
        res.append(f"demo {'NOT FAILING' if r.returncode == 0 else 'COMPILE ERROR ' + r.stdout[-1500:] if r.returncode == 3 else 'ok'}: {r.stdout.strip()[:160]!r}")
        if checks:
            for p in [meta["property"]]:
                r = sh([sys.executable, ROOT + "/check.py", p, "--repo", repo, "--private"], cwd=ROOT)
                lines = [l for l in r.stdout.splitlines() if l.startswith(("--", "VIOL", "INC", "OK"))]
                res.append(f"check {p}: {'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {lines[0][:230] if lines else r.stdout[-300:]}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return sid, res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(2) as ex:
            for sid, res in ex.map(trial, ids):
                print(f"== {sid}", *res, sep="\n   ", flush=True)

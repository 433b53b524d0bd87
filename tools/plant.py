"""Maintainer's tool (no check uses it): try a planted bug in a scratch copy of /repo and store it.

A plant file is python: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO = "python source".
usage: plant.py FILE...            confirm and store under seeded/<ID>, then say whether the check catches it
       plant.py --recheck [ID...]  re-run the checks against stored plants
"""
import json, os, re, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]

def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", **(env or {}))
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr

def copy(tag):
    d = "/tmp/plant_%s_%d" % (tag, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s" % d)
    return d

def tests(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rc, out = sh("%s -m pytest -q -p no:cacheprovider tests -rA" % PY, cwd=d, env=dict(PYTHONPATH=d))
    ok = {m.replace("/", ".").replace(".py::", ".", 1) for m in re.findall(r"^PASSED (\S+)", out, re.M)}
    return sorted(s for s in stable if s not in ok), out

def demo(folder, d):
    t = "/tmp/demo_%d" % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(folder, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, out = sh("bash %s/demo.sh" % t, cwd=d, t=300)
    shutil.rmtree(t)
    return rc, out

def original_lines(d):
    rc, diff = sh("git diff -U0", cwd=d)
    f, bad, n = None, [], 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, k = int(m.group(1)), int(m.group(2) or 1)
            for ln in range(a, a + k):
                n += 1
                _, b = sh("git blame -l -s -L %d,%d HEAD -- %s" % (ln, ln, f), cwd=d)
                if not b.lstrip("^").startswith(BASE[:30]):
                    bad.append((f, ln))
    return n, bad

def check(prop, d):
    rc, out = sh("./check %s" % prop, cwd=V, env=dict(VERIF_REPO=d, VERIF_EVIDENCE="/tmp/plant_ev_%d" % os.getpid(), VERIF_SEED="1", VERIF_TIER="quick"))
    shutil.rmtree("/tmp/plant_ev_%d" % os.getpid(), ignore_errors=True)
    return rc, out

def store(path):
    ns = {}
    exec(open(path).read(), ns)
    i = ns["ID"]
    d = copy(i)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches in %s of:\n%s" % (i, s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        out = os.path.join("/tmp/plant_out_%d" % os.getpid(), i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.py", "w").write(ns["DEMO"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD" exec %s "$here/demo.py"\n' % PY)
        _, diff = sh("git diff", cwd=d)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        n, bad = original_lines(d)
        assert n and not bad, "%s: not original lines: %d %s" % (i, n, bad)
        failing, o = tests(d)
        assert not failing, "%s: tests fail %s" % (i, failing)
        rc1, o1 = demo(out, d)
        clean = copy(i + "_clean")
        rc0, o0 = demo(out, clean)
        shutil.rmtree(clean)
        assert rc0 == 0, "%s: demo fails on clean tree: %s" % (i, o0[-1500:])
        assert rc1 != 0, "%s: demo passes with the patch" % i
        dst = os.path.join(V, "seeded", i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        rc, o = check(ns["PROPERTY"], d)
        print("%-28s %s stored; %s: %s" % (i, ns["PROPERTY"], {0: "MISSED", 1: "caught"}.get(rc, "ERROR %s" % rc), o.strip().splitlines()[0][:200] if rc else o.strip()[:100]))
    except AssertionError as e:
        print("REJECTED", e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/plant_out_%d" % os.getpid(), ignore_errors=True)

def recheck(ids):
    from concurrent.futures import ThreadPoolExecutor
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        i = os.path.basename(os.path.dirname(m))
        if ids and i not in ids:
            continue
        prop = json.load(open(m))["property"]
        d = copy(i)
        rc, o = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=d)
        if rc:
            print("%-28s does not apply: %s" % (i, o[:200]))
        else:
            rc, o = check(prop, d)
            print("%-28s %s %s" % (i, prop, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %s %s" % (rc, o[-300:]))), flush=True)
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        for p in sys.argv[1:]:
            store(p)

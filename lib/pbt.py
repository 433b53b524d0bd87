"""Runner shared by all checks.

A check module (checks/cNN.py) defines
  ID, RULE, PARTS = [Part(...)], optionally REGRESS = [(part name, case), ...] and
  KNOWN = {key: function} for the findings listed in known_findings.json.
Each part has a hypothesis strategy producing a plain JSON-able case, and a function
run(case, ctx) that raises Violation when the property fails on that case.
"""
import collections, hashlib, importlib, json, os, shutil, signal, sys, time, traceback
import multiprocessing as mp

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st
try:
    import hypothesis.internal.conjecture.engine as _eng
    _eng.MAX_SHRINKING_SECONDS = 60
    # more independent cases rather than small variations of previous ones
    _eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
except Exception:
    pass

import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK = 2.5      # quick runs: multiple of the number of cases stated per part
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
UNUSABLE = (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError,
            ArithmeticError, np.linalg.LinAlgError, NotImplementedError, RuntimeError)


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, cond=True):
        """Mark the case as non-trivial."""
        if cond:
            self.nontrivial = True


class Part:
    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=4, case_s=120):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 15
        self.shards, self.case_s = shards, case_s


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _through_czone(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(boot.CZ):
            return True
        tb = tb.tb_next
    return False


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_case(part, case, ctx):
    """Run one case; the only exceptions that leave are Violation, HarnessError and hypothesis' own."""
    np.random.seed(12345)  # unseeded draws of the code under test become a function of the case
    try:
        with np.errstate(all="ignore"):
            part.run(case, ctx)
    except Violation:
        raise
    except (MemoryError, OSError, ImportError, KeyboardInterrupt) as e:
        if isinstance(e, OSError) and _through_czone(e.__traceback__):
            raise Violation("unexpected %s: %s" % (type(e).__name__, e)) from e
        raise HarnessError(traceback.format_exc())
    except UNUSABLE as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        what = "unexpected" if _through_czone(e.__traceback__) else "unusable result:"
        raise Violation("%s %s at %s:%s: %s" % (what, type(e).__name__,
                        os.path.basename(where.filename), where.lineno, e)) from e
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        if isinstance(e, HarnessError) or type(e).__module__.startswith("hypothesis") or not _through_czone(e.__traceback__):
            raise
        raise Violation("unexpected %s at %s:%s: %s" % (type(e).__name__, os.path.basename(where.filename), where.lineno, e)) from e


def _alarm(signum, frame):
    raise CaseTimeout()


def shard(mod_name, pi, si, nshards, n, seed, budget_s, out):
    """Run one shard of one part in a child process and write its result as JSON."""
    t0 = time.time()
    mod = importlib.import_module(mod_name)
    part = mod.PARTS[pi]
    res = dict(part=part.name, evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0, violation=None, error=None)
    labels, seen, last = collections.Counter(), set(), {}
    signal.signal(signal.SIGALRM, _alarm)

    def body(case):
        if time.time() - t0 > budget_s and not last:
            res["skipped"] += 1
            return
        res["evaluations"] += 1
        ctx = Ctx()
        signal.setitimer(signal.ITIMER_REAL, part.case_s)
        try:
            run_case(part, case, ctx)
        except Violation as e:
            last["v"] = (case, str(e))
            raise
        except CaseTimeout:
            # cases normally take well below a second: not finishing is a failure of the code under test
            last["v"] = (case, "a case of part %s did not finish within %s s" % (part.name, part.case_s))
            raise HarnessError("a case of part %s took more than %s s: %s" % (part.name, part.case_s, json.dumps(case)[:2000]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        labels.update(ctx.labels)
        if ctx.nontrivial:
            js = json.dumps(case, sort_keys=True)
            seen.add(hashlib.sha256(js.encode()).hexdigest()[:16])
            if len(res["samples"]) < 40:
                res["samples"].append(case if len(js) < 3000 else js[:3000] + "...")

    test = hypothesis.seed(derive(seed, mod.ID, part.name, si))(
        settings(max_examples=max(1, n), database=None, deadline=None, derandomize=False,
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                 phases=[Phase.generate] + ([Phase.shrink] if os.environ.get("VERIF_SHRINK", "1") != "0" else []))(given(part.strategy)(body)))
    try:
        if si == 0:
            for name, case in getattr(mod, "REGRESS", []):
                if name == part.name:
                    body(case)
        test()
    except Violation:
        res["violation"] = dict(case=last["v"][0], message=last["v"][1])
    except BaseException as e:
        if "v" in last:  # e.g. a flaky failure: report the concrete case seen to fail
            res["violation"] = dict(case=last["v"][0], message=last["v"][1] + " [%s]" % type(e).__name__)
        else:
            res["error"] = traceback.format_exc()
    res["nontrivial"] = sorted(seen)
    res["labels"] = dict(labels)
    res["wall"] = time.time() - t0
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=float)
    os.replace(tmp, out)


def known_for(pid):
    p = os.path.join(ROOT, "known_findings.json")
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid] if os.path.exists(p) else []


def write_replay(pid, part, v):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (pid, part))
    json.dump(dict(property=pid, part=part, case=v["case"], message=v["message"]), open(path, "w"), indent=1, default=float)
    return path


def main(argv):
    if argv and argv[0] == "--selftest":
        import czone, scipy  # noqa
        print("ok: hypothesis", hypothesis.__version__, "czone from", boot.CZ)
        return 0
    pid = argv[0]
    mod_name = pid.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module(mod_name)
    scale = 1.0
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            r = json.load(open(argv[i + 1]))
            part = [p for p in mod.PARTS if p.name == r["part"]][0]
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, part.case_s)
            try:
                run_case(part, r["case"], Ctx())
            except (Violation, CaseTimeout) as e:
                print("replayed:", e if str(e) else "did not finish within %s s" % part.case_s)
                print("VIOLATION property=%s replay=%s" % (pid, argv[i + 1]))
                return 1
            print("replay passes")
            return 0
        elif argv[i] == "--scale":
            scale = float(argv[i + 1])
        elif argv[i] == "--part":
            only = argv[i + 1]
        i += 2

    t0 = time.time()
    workdir = os.path.join(EVID, ".work_%s_%d" % (pid, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    budget = float(os.environ.get("VERIF_BUDGET", "200" if tier == "quick" else "6000"))
    jobs = []
    for pi, part in enumerate(mod.PARTS):
        if only and part.name != only:
            continue
        n = max(1, int((QUICK * part.quick if tier == "quick" else part.thorough) * scale))
        ns = max(1, min(part.shards if tier == "quick" else 8, n))
        for si in range(ns):
            jobs.append((pi, si, ns, n // ns + (1 if si < n % ns else 0)))
    ncpu = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    ctxm = mp.get_context("fork")
    results, running, queue = [], [], list(jobs)
    bad = False
    while queue or running:
        while queue and len(running) < ncpu and not bad:
            pi, si, ns, n = queue.pop(0)
            out = os.path.join(workdir, "%d_%d.json" % (pi, si))
            p = ctxm.Process(target=shard, args=(mod_name, pi, si, ns, n, seed, budget, out))
            p.start()
            running.append((p, out, pi, si))
        if bad and not running:
            break
        time.sleep(0.02)
        for r in list(running):
            p, out, pi, si = r
            if not p.is_alive():
                p.join()
                running.remove(r)
                if os.path.exists(out):
                    results.append(((pi, si), json.load(open(out))))
                else:
                    results.append(((pi, si), dict(part=mod.PARTS[pi].name, evaluations=0, nontrivial=[], labels={}, samples=[],
                                                   skipped=0, violation=None, error="worker died (exit code %s)" % p.exitcode)))
                if results[-1][1]["violation"]:
                    bad = True
        if bad:
            # let other shards of the same kind stop: the first violation found is enough
            for p, out, pi, si in running:
                p.terminate()
            for p, out, pi, si in running:
                p.join()
            running = []
            break
    shutil.rmtree(workdir, ignore_errors=True)
    results.sort(key=lambda r: r[0])

    evals = sum(r["evaluations"] for _, r in results)
    distinct, labels, per_part, samples = set(), collections.Counter(), {}, []
    for (pi, si), r in results:
        distinct.update((r["part"], h) for h in r["nontrivial"])
        labels.update({r["part"] + ":" + k: v for k, v in r["labels"].items()})
        q = per_part.setdefault(r["part"], dict(evaluations=0, nontrivial=0, skipped_by_time_budget=0))
        q["evaluations"] += r["evaluations"]
        q["nontrivial"] += len(r["nontrivial"])
        q["skipped_by_time_budget"] += r["skipped"]
        if si == 0:
            # late samples: hypothesis starts with the simplest cases
            samples.extend(dict(part=r["part"], case=c) for c in r["samples"][-2:])
    violations = [r for _, r in results if r["violation"]]
    errors = [r for _, r in results if r["error"]]

    known_lines = []
    code = 0
    replay = None
    for k in known_for(pid):
        fn = getattr(mod, "KNOWN", {}).get(k["key"])
        if fn is not None:
            np.random.seed(12345)
            if fn():
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for l in known_lines:
        print(l)
    if violations:
        v = violations[0]
        replay = write_replay(pid, v["part"], v["violation"])
        print("part %s: %s" % (v["part"], v["violation"]["message"]))
        print("case: %s" % json.dumps(v["violation"]["case"], default=float)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif errors:
        for e in errors[:2]:
            sys.stderr.write("harness error in part %s:\n%s\n" % (e["part"], e["error"]))
        code = 2
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples[:12],
                            parts=per_part, labels=dict(sorted(labels.items()))),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 3), violations=len(violations))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=float)
    print("%s: %d cases, %d distinct non-trivial, %.1f s%s" % (pid, evals, len(distinct), time.time() - t0,
          "" if code == 0 else " -> exit %d" % code))
    return code

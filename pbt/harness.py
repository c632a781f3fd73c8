"""Runner for the generated-input checks.

A property is a module checks/cNN.py exposing SUBS, a list of Sub objects.  A Sub couples a
Hypothesis strategy producing a JSON value (the case) with a test function test(case, rec) that
raises Violation when the code under test breaks the property on that case.

Outcomes:  0 held;  1 with a VIOLATION line;  2 harness error (never a VIOLATION line).
"""
import collections
import hashlib
import io
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 20.0          # CPU seconds one case may take (normal cases take milliseconds)
QUICK_WALL_LIMIT = 600.0       # seconds after which a quick run explores nothing more (normal runs take a tenth)
SHRINK_CPU_LIMIT = 120.0       # CPU seconds spent looking for a smaller failing case


class Violation(Exception):
    """The code under test broke the property on this case."""


class Hang(BaseException):
    """A case used more than CASE_CPU_LIMIT seconds of CPU."""


class StopSearch(BaseException):
    """Stop Hypothesis at once, a recorded violation is to be reported."""


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class sut(object):
    """Context manager: exceptions escaping from the code under test are violations."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, (Exception, SystemExit)) and not issubclass(et, Violation):
            frames = traceback.extract_tb(tb)
            where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(frames[-3:]))
            raise Violation("%s raised %s: %s (%s)" % (self.what, et.__name__, ev, where)) from None
        return False


class Rec(object):
    """What a case exercised; filled in by the test function."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = set()

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, flag=True):
        if flag:
            self.labels.add(name)


class Sub(object):
    def __init__(self, name, strategy, test, quick, thorough=None, rule="", shards=None):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule
        self.shards = shards


def _alarm(signum, frame):
    raise Hang()


def normal(case):
    return json.loads(json.dumps(case))


def in_sut(e):
    """Whether an exception, other than a Violation, was raised by a line of the code under test."""
    frames = traceback.extract_tb(e.__traceback__)
    root = os.path.abspath(os.environ.get("VP_REPO", "/repo")) + os.sep
    return not isinstance(e, Violation) and bool(frames) and os.path.abspath(frames[-1].filename).startswith(root)


def run_case(sub, case, rec):
    """Run one case under the CPU guard, with stray prints captured."""
    signal.signal(signal.SIGVTALRM, _alarm)
    out = sys.stdout
    sys.stdout = io.StringIO()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        sub.test(case, rec)
    except Hang:
        raise Violation("did not terminate within %g s of CPU time" % CASE_CPU_LIMIT) from None
    except subprocess.TimeoutExpired as e:
        raise Violation("%s did not terminate within %g s" % (e.cmd, e.timeout)) from None
    except Exception as e:
        if isinstance(e, (Violation, MemoryError, OSError, RecursionError)) and not in_sut(e):
            raise
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
        if in_sut(e):
            raise Violation("raised %s: %s (%s)" % (type(e).__name__, e, where)) from None
        # what the code under test returned or left behind is not even of the form the oracle can look at (a missing
        # attribute, None for a number, a list that is too short): on the unchanged tree this does not happen
        raise Violation("the result cannot be checked, %s: %s (%s)" % (type(e).__name__, e, where)) from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.stdout = out


def _worker(args):
    modname, subname, seed, n, deadline = args
    import importlib
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    sub = [s for s in importlib.import_module(modname).SUBS if s.name == subname][0]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    res = {"sub": subname, "evaluations": 0, "nontrivial": set(), "labels": collections.Counter(),
           "samples": [], "failure": None, "error": None, "n": n}
    state = {"first_fail_cpu": None, "best": None}

    def body(case):
        if deadline and time.time() > deadline:
            res["cut"] = True
            raise StopSearch()
        case = normal(case)
        rec = Rec()
        searching = state["best"] is None
        try:
            run_case(sub, case, rec)
        except Violation as e:
            size = len(json.dumps(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(e))
            if state["first_fail_cpu"] is None:
                state["first_fail_cpu"] = time.process_time()
            if "did not terminate" in str(e) or time.process_time() - state["first_fail_cpu"] > SHRINK_CPU_LIMIT:
                raise StopSearch()
            raise
        except (Exception, SystemExit) as e:
            # an error of the harness itself, never a verdict about the code under test
            res["error"] = "harness error in %s/%s: %s\ncase: %s" % (
                modname, subname, traceback.format_exc(), json.dumps(case)[:4000])
            raise StopSearch()
        if searching:
            res["evaluations"] += 1
            for l in rec.labels:
                res["labels"][l] += 1
            if rec.is_nontrivial:
                h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()
                if h not in res["nontrivial"]:
                    res["nontrivial"].add(h)
                    if len(res["samples"]) < 2 and len(res["nontrivial"]) % 7 == 3:
                        res["samples"].append(case)

    runner = hypothesis.given(sub.strategy)(body)
    runner = settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example, HealthCheck.filter_too_much],
                      report_multiple_bugs=False, print_blob=False)(runner)
    runner = hypothesis.seed(seed)(runner)
    err = io.StringIO()
    old = sys.stderr
    sys.stderr = err
    try:
        runner()
    except StopSearch:
        pass
    except BaseException:  # includes Violation re-raised by Hypothesis, Flaky, ...
        if state["best"] is None and res["error"] is None:
            res["error"] = "hypothesis error in %s/%s:\n%s" % (modname, subname, traceback.format_exc())
    finally:
        sys.stderr = old
    if state["best"] is not None and res["error"] is None:
        res["failure"] = {"case": state["best"][1], "message": state["best"][2]}
    return res


def _seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), "big")


def write_replay(pid, subname, case, message, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "sub": subname, "case": case, "message": message, "seed": seed}
    h = hashlib.blake2b(json.dumps([subname, case], sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (pid, subname, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def _replay_one(q, modname, subname, case):
    import importlib
    rec = Rec()
    try:
        sub = [s for s in importlib.import_module(modname).SUBS if s.name == subname][0]
        run_case(sub, case, rec)
        q.put(("ok", ""))
    except Violation as e:
        q.put(("violation", str(e)))
    except BaseException:
        q.put(("error", traceback.format_exc()))


def replay(modname, subname, case):
    """Run one case in a fresh process; ('ok'|'violation'|'error', text)."""
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    p = ctx.Process(target=_replay_one, args=(q, modname, subname, case))
    p.start()
    out = q.get()
    p.join()
    return out


def known_entries(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e["property"] == pid:
                        res.append(e)
    return res


def regressions(pid):
    d = os.path.join(VERIF, "regress", pid)
    res = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                with open(os.path.join(d, n)) as f:
                    res.append((n, json.load(f)))
    return res


def main(pid, argv):
    import importlib
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    scale = float(os.environ.get("VP_SCALE", "1"))
    replay_file = None
    i = 0
    while i < len(argv):
        if argv[i] == "--thorough":
            tier = "thorough"
        elif argv[i] == "--quick":
            tier = "quick"
        elif argv[i] == "--replay":
            i += 1
            replay_file = argv[i]
        elif argv[i] == "--sub":
            i += 1
            only = argv[i]
        else:
            print("unknown argument %s" % argv[i])
            return 2
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    modname = "checks.%s" % pid.lower()
    try:
        mod = importlib.import_module(modname)
    except BaseException:
        traceback.print_exc()
        return import_failure(pid)
    subs = {s.name: s for s in mod.SUBS}

    if replay_file:
        with open(replay_file) as f:
            body = json.load(f)
        kind, text = replay(modname, body["sub"], body["case"])
        if kind == "violation":
            print(text)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(replay_file)))
            return 1
        if kind == "error":
            print(text)
            return 2
        print("replay of %s: property holds" % replay_file)
        return 0

    failures = []
    errors = []
    # 1. saved inputs: minimal reproductions of repaired defects
    n_reg = 0
    for name, body in regressions(pid):
        if body["sub"] not in subs or (only and body["sub"] != only):
            continue
        n_reg += 1
        kind, text = replay(modname, body["sub"], body["case"])
        if kind == "violation":
            failures.append((body["sub"], body["case"], "saved input %s: %s" % (name, text)))
        elif kind == "error":
            errors.append("saved input %s: %s" % (name, text))
    # 2. known findings (still present: say so; a fixed entry suppresses nothing)
    for e in known_entries(pid):
        if e.get("status") != "known":
            continue
        kind, text = replay(modname, e["sub"], e["case"])
        if kind == "violation":
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        elif kind == "error":
            errors.append("known finding %s: %s" % (e["what"], text))
    # 3. generated search
    scratch = os.environ["VP_SCRATCH"] = tempfile.mkdtemp(prefix="vp-pbt-")
    cores = max(1, min(int(os.environ.get("VP_CORES", "8")), os.cpu_count() or 1))
    tasks = []
    deadline = t0 + QUICK_WALL_LIMIT if tier == "quick" else 0
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = s.shards or (8 if tier == "quick" else 32)
        shards = max(1, min(shards, total))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            if n:
                tasks.append((modname, s.name, _seed(seed, pid, s.name, k), n, deadline))
    tasks.sort(key=lambda t: t[2])
    results = []
    if not errors:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(cores, maxtasksperchild=1)
        try:
            for r in pool.imap_unordered(_worker, tasks):
                results.append(r)
                if r["error"]:
                    errors.append(r["error"])
                    break
                if r["failure"]:
                    failures.append((r["sub"], r["failure"]["case"], r["failure"]["message"]))
                    break
        finally:
            pool.terminate()
            pool.join()
    shutil.rmtree(scratch, True)

    # evidence
    evaluations = sum(r["evaluations"] for r in results) + n_reg
    nontriv = set()
    per_sub = {}
    samples = []
    for s in mod.SUBS:
        rs = [r for r in results if r["sub"] == s.name]
        if not rs:
            continue
        nt = set().union(*[r["nontrivial"] for r in rs])
        nontriv |= {(s.name, h) for h in nt}
        labels = collections.Counter()
        for r in rs:
            labels.update(r["labels"])
        per_sub[s.name] = {"evaluations": sum(r["evaluations"] for r in rs), "distinct_nontrivial": len(nt),
                           "labels": dict(sorted(labels.items())), "rule": s.rule}
        sm = [x for r in rs for x in r["samples"]]
        sm.sort(key=lambda c: len(json.dumps(c)))
        for c in sm[:1] + sm[len(sm) // 2:len(sm) // 2 + 1]:
            text = json.dumps(c)
            samples.append({"sub": s.name, "case": c if len(text) < 3000 else text[:3000] + "..."})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(nontriv),
                       "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS),
                       "samples": samples, "saved_inputs_replayed": n_reg, "per_sub": per_sub},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "cut_short": any(r.get("cut") for r in results), "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
            json.dump(ev, f, indent=1)

    if failures:
        for subname, case, message in failures:
            path = write_replay(pid, subname, case, message, seed)
            print("%s/%s: %s" % (pid, subname, message))
            print("case: %s" % json.dumps(case)[:2000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, tier, seed, evaluations, len(nontriv), time.time() - t0))
    if os.environ.get("VP_LABELS"):
        for k, v in per_sub.items():
            print("  %s: %d evals, %d nontrivial, %s" % (k, v["evaluations"], v["distinct_nontrivial"], v["labels"]))
    return 0


def import_failure(pid):
    """The check module could not be imported.  When that is because the package under test itself does not
    import, C29 (nothing crashes) reports it; for the other properties it is an error of the check."""
    return 2

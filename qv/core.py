"""Runner shared by every check: generation, shrinking, replay files, evidence.

A property module provides

  ID, TITLE      the property
  RULE           how cases are made and what makes one non-trivial
  QUICK, THOROUGH  number of generated cases per shard
  strategy(tier) Hypothesis strategy producing a JSON-able case
  check(case)    raises Violation, or returns {"nontrivial": bool, "classes": [...]}
  FIXED          explicit cases that are run first (regressions)
  FINDINGS       optional: {key: (case, still_present)} for the listed known findings

A case is plain data, so that a failing one can be written out and run again without
Hypothesis.  Violation means "the property is broken", and so does an error of reading
what the code under test handed back (TypeError and the like, see run_case); any other
exception that leaves check() is an error of the harness: exit status 2.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 150  # seconds; ordinary cases take well under one second


class Violation(Exception):
    """The property does not hold for the current case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a failure)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what):
    """Code under test that has no reason to fail runs inside this."""
    try:
        yield
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for f in tb[::-1]:
            if env.REPO in f.filename:
                where = " at %s:%s" % (os.path.relpath(f.filename, env.REPO), f.name)
                break
        raise Violation(
            "%s failed with %s: %s%s" % (what, type(e).__name__, str(e)[:300], where)
        )


@contextlib.contextmanager
def quiet():
    """Swallows what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def load(pid):
    if pid in ("C03", "C21"):
        os.environ["CUDA_HOME"] = "/nonexistent"  # lets the CUDA backends be imported
    env.setup()
    env.check_origin()
    return importlib.import_module("qv.props." + pid.lower())


# --------------------------------------------------------------------------- worker
class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.history = []
        self.failures = {}
        self.first_failure = None

    def as_dict(self):
        return {
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "nontrivial": sorted(self.nontrivial),
            "classes": self.classes,
            "samples": self.samples,
        }


def run_case(mod, case):
    """One case, in a fresh copy of the data so the code under test cannot change it."""
    try:
        return mod.check(json.loads(dumps(case))) or {}
    except (TypeError, ValueError, AttributeError, LookupError, ArithmeticError) as e:
        # never seen on code that works: something handed back has not the documented form
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("what the code under test gave back cannot be read: %s: %s (%s:%d)" % (
            type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno))


def limit_memory():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def worker(pid, tier, seed, shard, of, budget, out_path):
    limit_memory()
    mod = load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    start = time.monotonic()
    shrink_until = [None]
    current = [None]

    def finish(error=None):
        failure = None
        if stats.failures:
            key = min(stats.failures, key=lambda k: (len(k), k))
            failure = {
                "case": json.loads(key),
                "message": stats.failures[key],
                "history": stats.first_failure[1],
                "first": stats.first_failure[0],
            }
        res = {"stats": stats.as_dict(), "failure": failure, "error": error}
        with open(out_path + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out_path + ".tmp", out_path)

    def fail(text, message):
        if stats.first_failure is None:
            stats.first_failure = (json.loads(text), list(stats.history))
            shrink_until[0] = time.monotonic() + (90 if tier == "thorough" else 40)
        stats.failures[text] = message

    def on_alarm(signum, frame):
        fail(current[0], "the case did not finish within %d s" % CASE_LIMIT)
        finish()
        os._exit(0)

    signal.signal(signal.SIGALRM, on_alarm)

    def body(case):
        text = dumps(case)
        if text in stats.failures:
            raise Violation(stats.failures[text])
        now = time.monotonic()
        if shrink_until[0] is not None and now > shrink_until[0]:
            return
        if shrink_until[0] is None and now - start > budget:
            return
        current[0] = text
        signal.alarm(CASE_LIMIT)
        try:
            info = run_case(mod, case)
        except Skip:
            stats.skipped += 1
            return
        except Violation as e:
            fail(text, str(e))
            raise
        finally:
            signal.alarm(0)
        if stats.first_failure is not None:
            return
        stats.evaluations += 1
        stats.history.append(case)
        if len(stats.history) > 4000:
            del stats.history[:2000]
        for c in info.get("classes", ()):
            stats.classes[c] = stats.classes.get(c, 0) + 1
        if info.get("nontrivial"):
            stats.nontrivial.add(digest(text))
            if len(stats.samples) < 3 and len(text) < 1500:
                stats.samples.append(case)

    try:
        for case in list(getattr(mod, "FIXED", ()))[shard::of]:
            try:
                body(case)
            except Violation:
                break
        stats.samples = stats.samples[:1]
        if stats.first_failure is None:
            n = mod.THOROUGH if tier == "thorough" else mod.QUICK
            value = int(digest("%s/%d/%d" % (pid, seed, shard)), 16) % 2**62

            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                report_multiple_bugs=False,
                print_blob=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )(given(mod.strategy(tier))(lambda case: body(case)))
            test = hypothesis.seed(value)(test)
            with open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
                try:
                    test()
                except BaseException:
                    if stats.first_failure is None:
                        raise
        finish()
    except BaseException:
        finish(traceback.format_exc())


# --------------------------------------------------------------------------- parent
def known_findings(pid):
    """key -> description, for the findings listed (not fixed) for this property."""
    found = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    entry = json.loads(line)
                    if entry.get("property") == pid and entry.get("status") == "known":
                        found[entry["key"]] = entry["what"]
    return found


def run(pid, tier, seed, shards=None, budget=None):
    started = time.monotonic()
    shards = shards or 8
    budget = budget or (720 if tier == "thorough" else 200)
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results = []
    with tempfile.TemporaryDirectory(prefix="qv-") as tmp:
        procs = []
        for s in range(shards):
            out = os.path.join(tmp, "out%d.json" % s)
            log = open(os.path.join(tmp, "log%d" % s), "w")
            p = subprocess.Popen(
                [env.PYTHON, "-B", os.path.join(VERIF, "check.py"), "--worker", pid,
                 "--tier", tier, "--seed", str(seed), "--shard", str(s), "--of", str(shards),
                 "--budget", str(budget), "--out", out],
                cwd=VERIF, stdout=log, stderr=subprocess.STDOUT,
                env=dict(os.environ, PYTHONHASHSEED="0"),
            )
            procs.append((p, out, log))
        for s, (p, out, log) in enumerate(procs):
            p.wait()
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(os.path.join(tmp, "log%d" % s)) as f:
                    results.append({"stats": Stats().as_dict(), "failure": None,
                                    "error": "worker died (%s)\n%s" % (p.returncode, f.read()[-3000:])})
        mod = load(pid)
        failures = [r["failure"] for r in results if r["failure"]]
        errors = [r["error"] for r in results if r["error"]]

        stats = [r["stats"] for r in results]
        classes = {}
        nontrivial = set()
        samples = []
        for st in stats:
            nontrivial.update(st["nontrivial"])
            for k, v in st["classes"].items():
                classes[k] = classes.get(k, 0) + v
            samples += st["samples"][:2]
        coverage = {
            "evaluations": sum(st["evaluations"] for st in stats),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:6] or [{"note": "no non-trivial case before the first failure"}],
            "skipped_out_of_domain": sum(st["skipped"] for st in stats),
            "classes": dict(sorted(classes.items())),
            "shards": shards,
        }

        # listed findings: shown to still be there, never counted as violations
        listed = known_findings(pid)
        for key, what in sorted(listed.items()):
            probe = getattr(mod, "FINDINGS", {}).get(key)
            if probe is None:
                errors.append("known finding %s has no probe" % key)
                continue
            case, still = probe
            try:
                present = still(json.loads(dumps(case)))
            except Exception:
                errors.append(traceback.format_exc())
                continue
            if present:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))

        violated = bool(failures)
        if violated:
            failure = min(failures, key=lambda f: len(dumps(f["case"])))
            path = os.path.join(replay_dir, "%s-seed%d-%s.json" % (pid, seed, digest(dumps(failure["case"]))))
            record = {"property": pid, "tier": tier, "seed": seed,
                      "message": failure["message"], "case": failure["case"]}
            write_json(path, record)
            alone = subprocess.run(
                [env.PYTHON, "-B", os.path.join(VERIF, "check.py"), "--replay", path],
                cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                env=dict(os.environ, PYTHONHASHSEED="0"),
            ).returncode == 1
            if not alone:
                # depends on what ran before it in the same process
                record["history"] = failure["history"]
                record["case"] = failure["first"]
                write_json(path, record)
            print("%s: %s" % (pid, failure["message"]))
            print("  case: %s" % dumps(record["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (pid, path))

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(failures),
    }
    write_json(os.path.join(VERIF, "evidence", pid + ".json"), evidence)
    if violated:
        return 1
    if errors:
        print("%s: error of the check\n%s" % (pid, errors[0]), file=sys.stderr)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
        pid, coverage["evaluations"], coverage["distinct_nontrivial"], evidence["wall_s"]))
    return 0


def write_json(path, data):
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


def replay(path):
    with open(path) as f:
        record = json.load(f)
    limit_memory()
    mod = load(record["property"])
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    for case in record.get("history", ()):
        try:
            run_case(mod, case)
        except (Violation, Skip):
            pass
    def hang(signum, frame):
        print("VIOLATION property=%s replay=%s" % (record["property"], path))
        sys.stdout.flush()
        os._exit(1)
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(CASE_LIMIT)
    try:
        run_case(mod, record["case"])
    except Violation as e:
        print("%s: %s" % (record["property"], e))
        print("VIOLATION property=%s replay=%s" % (record["property"], path))
        return 1
    print("the case holds")
    return 0

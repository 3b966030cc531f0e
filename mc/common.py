"""Running a check: task fan-out over forked workers, violations, known findings, evidence."""
import importlib, json, multiprocessing, os, resource, signal, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYMT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
FIRST = bool(os.environ.get("VERIF_FIRST"))      # stop at the first violation (for trying many bugs)
QUICK = TIER == "quick"
TASK_LIMIT_S = 400 if QUICK else 6 * 3600   # a task that does not come back has hung in the code under test
MAX_VIOL_PER_TASK = 3
MEM_LIMIT = 3500 << 20                       # per worker; tasks on the unchanged tree stay under a tenth of it


def bootstrap():
    """Import pymt from the repository's working tree, from source, and nowhere else."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pymt
    assert os.path.abspath(pymt.__file__).startswith(SRC + os.sep), pymt.__file__


class Violation(Exception):
    """One failing execution. `script` is a stand-alone Python program (list of lines) that replays it."""

    def __init__(self, what, script=None, key=None):
        super().__init__(what)
        self.what, self.script, self.key = what, script, key


class TaskTimeout(BaseException):
    pass


class Stats(dict):
    """Counters measured while exploring."""

    def add(self, name, n=1):
        self[name] = self.get(name, 0) + n


class Ctx:
    """What a task function gets: counters, samples and a place to report violations."""

    def __init__(self):
        self.stats = Stats()
        self.samples = []
        self.violations = []
        self.outcomes = {}
        self.stop = False
        self._limited = {}

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, text, limit=2):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:600])

    def report(self, what, script=None, key=None):
        """Record a violation; keyed ones (known-finding candidates) are recorded once per key."""
        if key is not None:
            if self._limited.get(key):
                return
            self._limited[key] = 1
            self.violations.append((what, script, key))
            return
        self.violations.append((what, script, key))
        if sum(1 for v in self.violations if v[2] is None) >= MAX_VIOL_PER_TASK:
            raise StopExploring()

    def expect(self, cond, what, script=None, key=None):
        if not cond:
            self.report(what() if callable(what) else what, script() if callable(script) else script, key)
        return cond


class StopExploring(Exception):
    pass


def _alarm(signum, frame):
    raise TaskTimeout()


def _run_task(arg):
    index, modname, fname, params = arg
    ctx = Ctx()
    err = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    signal.alarm(TASK_LIMIT_S)
    try:
        bootstrap()
        fn = getattr(importlib.import_module(modname), fname)
        fn(ctx, **params)
    except StopExploring:
        pass
    except TaskTimeout:
        ctx.violations.append(("an operation did not come back within %d s" % TASK_LIMIT_S, None, None))
    except Violation as v:
        ctx.violations.append((v.what, v.script, v.key))
    except MemoryError:
        ctx.violations.append(("an operation used more than %d MB: %s" % (MEM_LIMIT >> 20, traceback.format_exc()[-1500:]), None, None))
    except RecursionError:
        ctx.violations.append(("unbounded recursion: " + traceback.format_exc()[-1500:], None, None))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()[-3000:]
        if any(f.filename.startswith(SRC) for f in tb):
            # an operation that has to succeed raised inside the code under test
            ctx.violations.append(("unexpected %s: %s\n%s" % (type(e).__name__, e, text), None, None))
        elif isinstance(e, (AttributeError, TypeError, ValueError, LookupError, AssertionError)):
            # on the unchanged tree no check raises: an answer of the code under test is not of the kind it has to be
            ctx.violations.append(("an answer of the wrong kind: %s: %s\n%s" % (type(e).__name__, e, text), None, None))
        else:
            err = text
    finally:
        signal.alarm(0)
    return dict(index=index, task=[modname, fname, params], stats=dict(ctx.stats), samples=ctx.samples,
                violations=ctx.violations, outcomes=ctx.outcomes, err=err, wall=time.time() - t0)


def load_known():
    """Lines `known: property=<id> key=<key> <what fails>` of KNOWN_FINDINGS.txt."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            parts = line[len("known: "):].split(None, 2)
            prop = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            known[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return known


def write_replay(prop, index, what, script):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    body = ["# Replays one violation of %s against the code in %s (PYMT_REPO overrides)." % (prop, REPO)]
    body += ["# " + l for l in what.splitlines()]
    body += ["import os, sys", "sys.path.insert(0, os.path.join(os.environ.get('PYMT_REPO', '/repo'), 'src'))"]
    if script:
        body += list(script)
    else:
        body += ["# this case has no short script: run the exploring task that contains it",
                 "import subprocess",
                 "sys.exit(subprocess.call(['bash', %r, %r, '--task', %r], env=dict(os.environ, VERIF_TIER=%r, VERIF_SEED=%r)))" % (
                     os.path.join(VERIF, "run.sh"), prop, str(index), TIER, str(SEED))]
    text = "\n".join(body) + "\n"
    name = hashlib.sha1(text.encode()).hexdigest()[:12] + ".py"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def run_check(prop, modname, fn_tasks, level, rule, assumptions, only_task=None):
    """Run all tasks of a check, print the verdict, write evidence, return the exit code."""
    t0 = time.time()
    bootstrap()
    tasks = [(i, modname, f, p) for i, (f, p) in enumerate(fn_tasks)]
    if only_task is not None:
        tasks = [tasks[only_task]]
    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), max(1, len(tasks)))
    results = []
    mp = multiprocessing.get_context("fork")
    with mp.Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_run_task, tasks, chunksize=1):
            results.append(r)
            if QUICK and any("did not come back" in v[0] for v in r["violations"]):
                pool.terminate()       # others would hang as well
                break
            if FIRST and any(v[2] is None for v in r["violations"]):
                pool.terminate()
                break
    results.sort(key=lambda r: r["index"])
    known = load_known()
    stats, samples, outcomes, viols, seen_known, errs = Stats(), [], {}, [], {}, []
    for r in results:
        for k, v in r["stats"].items():
            stats.add(k, v)
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 8:
                samples.append(s)
        if r["err"]:
            errs.append((r["task"], r["err"]))
        for what, script, key in r["violations"]:
            if key is not None and (prop, key) in known:
                seen_known[key] = what
            else:
                viols.append((r["index"], what, script))
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)] or key))
    for index, what, script in viols[:5]:
        path = write_replay(prop, index, what, script)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + "\n  ".join(what.splitlines()[:12]))
    if len(viols) > 5:
        print("  ... and %d more" % (len(viols) - 5))
    for task, e in errs[:3]:
        sys.stderr.write("ERROR in task %r:\n%s\n" % (task, e))
    cov = dict(stats)
    cov["rule"] = rule
    cov["samples"] = samples or ["none"]
    cov["outcomes"] = outcomes
    cov["tasks"] = len(tasks)
    cov["bounded_exhaustive"] = True
    cov.setdefault("states", 0)
    if level == "model_checking":
        cov.setdefault("transitions", cov.get("evaluations", 0))
        cov.setdefault("traces_validated_against_impl", cov.get("evaluations", cov["transitions"]))
    else:
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", cov["evaluations"])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    print("%s %s: %d tasks, %s, %.1f s, %d violations, %d known findings" % (
        prop, TIER, len(tasks), ", ".join("%s=%d" % kv for kv in sorted(stats.items())), time.time() - t0,
        len(viols), len(seen_known)))
    if os.environ.get("VERIF_TIMING"):
        for r in slow:
            print("   slow %.1fs %s" % (r["wall"], str(r["task"])[:150]))
    if viols:
        return 1
    if errs:
        return 2
    return 0

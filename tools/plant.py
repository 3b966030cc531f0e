"""Planted bugs: tools/plant.py make SPEC.py [id...]   writes /verif/seeded/<id> after confirming each bug in a scratch copy
                  tools/plant.py check [id...]        runs the check of each bug's property against a scratch copy with the bug

A spec is a Python file with BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]. Not used by any check."""
import concurrent.futures, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "df17a50"
SCRATCH = "/tmp/plant"
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % PY
HEAD = 'import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\n'


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, timeout=timeout, capture_output=True, text=True, env={**os.environ, **(env or {})})


def scratch(name):
    d = os.path.join(SCRATCH, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(SCRATCH, exist_ok=True)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def original_lines():
    """(file, line) pairs of the original repository, ignoring white space changes."""
    return {}


def make(bug):
    d = scratch("make-" + bug["id"])
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(d, "src/pymt", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return "edit of %s matches %d times: %r" % (f, s.count(old), old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=d, capture_output=True).stdout
        if not diff:
            return "no change"
        # removed lines must be original ones
        base = {}
        orig = 0
        for line in diff.decode().split("\n"):
            if line.startswith("--- a/"):
                f = line[6:].rstrip("\r")
                if f not in base:
                    base[f] = set(x.strip() for x in sh(["git", "show", BASE + ":" + f], cwd=REPO).stdout.split("\n"))
                cur = base[f]
            elif line.startswith("-") and line[1:].strip():
                if line[1:].strip() not in cur:
                    return "changes a line of a fix: " + line
                orig += 1
        out = os.path.join(VERIF, "seeded", bug["id"])
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + bug["demo"].strip("\n") + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        msg = []
        if not orig:
            msg.append("changes no original line")
        r = sh(["git", "apply", "--check", os.path.join(out, "patch.diff")], cwd=REPO)
        if r.returncode:
            msg.append("does not apply: " + r.stderr)
        r = sh([os.path.join(out, "demo.sh")], cwd=REPO)
        if r.returncode:
            msg.append("demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:])
        r = sh([os.path.join(out, "demo.sh")], cwd=d)
        if r.returncode == 0:
            msg.append("demo passes with the bug")
        r = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "src/pymt/tests"], cwd=d, env={"PYTHONPATH": os.path.join(d, "src"), "PYTHONDONTWRITEBYTECODE": "1"})
        if r.returncode:
            msg.append("tests fail: " + r.stdout[-900:])
        if msg:
            shutil.rmtree(out)
        return "; ".join(msg) or None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bug_id, props=None):
    out = os.path.join(VERIF, "seeded", bug_id)
    d = scratch("check-" + bug_id)
    try:
        r = sh(["git", "apply", os.path.join(out, "patch.diff")], cwd=d)
        assert r.returncode == 0, r.stderr
        res = []
        for prop in props or [json.load(open(os.path.join(out, "meta.json")))["property"]]:
            t0 = time.time()
            r = sh(["bash", os.path.join(VERIF, "run.sh"), prop], env={"PYMT_REPO": d})
            res.append((prop, r.returncode, any(l.startswith("VIOLATION property=%s " % prop) for l in r.stdout.split("\n")), round(time.time() - t0), [l for l in r.stdout.split("\n") if "VIOLATION" in l or "ERROR" in l][:1]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for b, r in zip(bugs, ex.map(make, bugs)):
                print(b["id"], r or "ok", flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for i in ids:
            for prop, rc, viol, t, line in check(i):
                print(i, prop, "CAUGHT" if rc == 1 and viol else "MISSED rc=%d" % rc, "%ds" % t, (line or [""])[0][:160], flush=True)

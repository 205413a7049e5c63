"""tools/plant.py SPEC.py [--force]   plants one or several bugs.

SPEC.py defines SEEDS: list of dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo=<python text>, checks=[..]).
For each: scratch copy, edit, tests, demo on clean and patched tree, patch.diff/demo.sh/demo.py/meta.json
under seeded/<id>, then the checks against the scratch copy (QTRL_REPO).  Prints one line per seed.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def mine(r, diff):
    """Removed lines that are not of the original repository."""
    root = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=r, text=True).split()[0]
    out, f = [], None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and int(m.group(2) or 1):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            b = subprocess.check_output(["git", "blame", "-l", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", f], cwd=r, text=True)
            out += [x[42:] for x in b.splitlines() if not x.lstrip("^").startswith(root[:38])]
    return out


def plant(s):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(d, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src/qutip_qtrl", f)
            t = open(p).read()
            assert t.count(old) == 1, "%s: %d matches of %r in %s" % (s["id"], t.count(old), old, f)
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh(["git", "diff", "-U0"], r)
        for w in mine(r, diff):
            print("NOTE %s removes a line of a fix: %s" % (s["id"], w))
        out = os.path.join(V, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        rc, diff = sh(["git", "diff"], r)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd = the repository\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
            'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc0, o0 = sh([os.path.join(out, "demo.sh")], "/repo", timeout=300)
        rc1, o1 = sh([os.path.join(out, "demo.sh")], r, timeout=300)
        rct, ot = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], r, dict(PYTHONPATH=os.path.join(r, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
        tests = ot.strip().splitlines()[-1]
        ok = rc0 == 0 and rc1 != 0 and "122 passed" in tests and "failed" not in tests
        res = {}
        for c in [] if "--nocheck" in sys.argv else s.get("checks") or [s["prop"]]:
            rcc, oc = sh([PY, "check.py", c, "--tier", "quick"], V, dict(QTRL_REPO=r), timeout=900)
            vio = [l for l in oc.splitlines() if l.startswith("  [")]
            res[c] = "CAUGHT " + "; ".join(v.strip() for v in vio[:3]) if rcc == 1 and "VIOLATION property=%s" % c in oc else "missed rc=%d" % rcc
        print("%s %s demo clean=%d patched=%d tests=%s checks=%s" % ("OK " if ok else "BAD", s["id"], rc0, rc1, tests, res), flush=True)
        if not ok:
            print("  clean:", o0[-600:], "\n  patched:", o1[-600:])
            if rct:
                print("\n".join(l for l in ot.splitlines() if l.startswith("FAILED"))[:800])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        ids = [a for a in sys.argv[2:] if not a.startswith("--")]
        if ids and s["id"] not in ids:
            continue
        try:
            plant(s)
        except AssertionError as e:
            print("EDIT", e)

"""seed.py SPEC.py : builds and validates planted bugs.  SPEC defines SEEDS = [(id, prop, file, [(old, new), ...], needs, breaks, demo source)]."""
import json, os, re, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)"\ntrap \'rm -rf "$t"\' EXIT\nR="$PWD"\ncd "$t" && PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$R/src" %s "$d/demo.py"\n' % PY


def sh(c, cwd, t=300):
    return subprocess.run(c, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)


def main(spec, only):
    for sid, prop, fn, reps, needs, breaks, demo in runpy.run_path(spec)["SEEDS"]:
        if only and sid not in only:
            continue
        if os.path.exists(W):
            shutil.rmtree("/tmp/seedwork")
        sh(["git", "clone", "-q", "/repo", W], "/tmp")
        files = [(fn, reps)] if isinstance(fn, str) else [(f, r) for f, r in zip(fn, reps)]
        ok = True
        for f, rs in files:
            p = os.path.join(W, f)
            b = open(p, "rb").read()
            for old, new in rs:
                o, n = old.encode(), new.encode()
                if o not in b:
                    o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
                elif b"\r\n" in b and b"\n" not in o:
                    n = n.replace(b"\n", b"\r\n")
                if b.count(o) != 1:
                    print(sid, "pattern count", b.count(o), old)
                    ok = False
                b = b.replace(o, n)
            open(p, "wb").write(b)
        if not ok:
            continue
        for f, _ in files:
            base = sh(["git", "blame", "-s", "HEAD", "--", f], "/repo").stdout.split("\n")
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], W).stdout, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                for k in range(a, a + n):
                    if not base[k - 1].startswith("^"):
                        print(sid, "touches a line of ours:", base[k - 1].strip())
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=W, capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh([os.path.join(d, "demo.sh")], W)
        t = None
        if not os.environ.get("NOTEST"):
            e = dict(ENV, PYTHONPATH=os.path.join(W, "src"), PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1")
            t = subprocess.run([PY, "-m", "pytest", "-q", "tests", "-n", "4", "--no-cov", "-p", "no:cacheprovider", "--timeout=300"], cwd=W, env=e, capture_output=True, text=True)
        sh(["git", "checkout", "-q", "--", "."], W)
        b = sh([os.path.join(d, "demo.sh")], W)
        print(sid, prop, "demo patched rc=%d clean rc=%d" % (a.returncode, b.returncode), "OK" if a.returncode and not b.returncode else "BAD " + b.stderr[-500:] + a.stdout[-300:],
              "| " + a.stderr.strip().split("\n")[-1][:100], "| tests", t.stdout.strip().split("\n")[-1] if t is not None else "skipped", flush=True)
        shutil.rmtree("/tmp/seedwork")


main(sys.argv[1], sys.argv[2:])

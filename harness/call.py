"""Start the concrete harness contained in a scratch directory (used by check.py)."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0",
             LOKY_MAX_CPU_COUNT="1", PYTHONPATH="")
    if os.environ.get("VALORI_SRC"):
        e["VALORI_SRC_DIR"] = os.path.dirname(os.environ["VALORI_SRC"].rstrip("/"))
    return e


def start(args, timeout):
    d = tempfile.mkdtemp(prefix="pyvc-", dir="/tmp")
    os.chmod(d, 0o755)
    p = subprocess.Popen([PY, os.path.join(HERE, "run.py")] + [str(a) for a in args[:3]] + [d] + [str(a) for a in args[3:]],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), cwd=d)
    return p, d, timeout


def finish(h):
    p, d, timeout = h
    try:
        out, err = p.communicate(timeout=timeout)
        try:
            return json.loads(out.strip().split("\n")[-1]) if out.strip() else {"error": "no output (exit %s): %s" % (p.returncode, err[-800:])}
        except ValueError:
            return {"error": "bad output: " + out[-500:]}
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "time limit of the harness"}
    finally:
        if d.startswith("/tmp/pyvc-"):
            shutil.rmtree(d, ignore_errors=True)


def run(prop, seed, seconds, mincases=0):
    return finish(start([prop, seed, seconds, mincases], seconds * 4 + 120))

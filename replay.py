#!/usr/bin/env python3
"""replay.py FILE: run the failing input of a replay file against the real code again."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import json
import shutil
import subprocess
import tempfile
import call
d = tempfile.mkdtemp(prefix="pyvc-", dir="/tmp")
os.chmod(d, 0o755)
f = os.path.join(d, "replay.json")
shutil.copy(sys.argv[1], f)
os.chmod(f, 0o644)
p = subprocess.run([call.PY, os.path.join(call.HERE, "run.py"), "--replay", f, d], env=call.env(), capture_output=True, text=True)
print(p.stdout, p.stderr[-500:])
if d.startswith("/tmp/pyvc-"):
    shutil.rmtree(d, ignore_errors=True)

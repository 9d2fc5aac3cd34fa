"""run.py PROPERTY SEED SECONDS SCRATCH [MINCASES]   |   run.py --replay FILE SCRATCH"""
import importlib
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get("VALORI_SRC_DIR", "/repo/src"))
warnings.simplefilter("ignore")
import core

AREAS = {"S": "h_storage", "I": "h_index", "Q": "h_quant", "P": "h_persist", "C": "h_chunk", "R": "h_proc", "B": "h_proc", "E": "h_proc",
         "U": "h_utils", "F": "h_utils", "V": "h_client"}


def main(a):
    replay = None
    if a[0] == "--replay":
        replay = json.load(open(a[1]))
        replay = replay.get("failing_input") or replay
        prop, scratch = replay["property"], a[2]
    else:
        prop, seed, seconds, scratch = a[0], int(a[1]), float(a[2]), a[3]
    core.contain(scratch)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import valori
        src = os.path.realpath(os.environ.get("VALORI_SRC_DIR", "/repo/src"))
        if not os.path.realpath(valori.__file__).startswith(src + os.sep):
            raise ImportError("valori came from %s, not from %s" % (valori.__file__, src))
        importlib.import_module(AREAS[prop[0]])
    except Exception as e:
        import traceback
        out.write(json.dumps({"error": "import: %s" % traceback.format_exc()[-1500:]}) + "\n")
        out.flush()
        return
    if replay:
        fn = [f for f, w in core.CASES[prop] if f.__name__ == replay["case"]][0]
        r = core.run_case(prop, fn, replay["seed"], replay["n"], scratch)
        out.write(json.dumps({"reproduced": r is not None, "failure": r}, indent=1) + "\n")
        out.flush()
        return
    r = core.search(prop, seed, seconds, scratch, mincases=int(a[4]) if len(a) > 4 else 0)
    r["valori"] = valori.__file__
    out.write(json.dumps(r) + "\n")
    out.flush()


main(sys.argv[1:])

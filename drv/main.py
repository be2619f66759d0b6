"""main.py UNIT PROFILE SEED N SEQS.json OUT.ndjson META.json

Runs the operation sequences of SEQS.json (from the specification) and N
seeded random ones from the unit's generator on the real code, recording one
trace line per call.
"""
import json
import random
import signal
import sys
import os
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rt          # noqa: E402,F401  (installs the import hook)
import common      # noqa: E402

unit, profile, seed, n, seqs_f, out_f, meta_f = sys.argv[1:8]
meta = {"import_error": None, "sequences": 0, "events": 0, "samples": [],
        "calls": {}}
seqs = json.load(open(seqs_f)) if seqs_f != "-" else []
out = open(out_f, "w")
rec = common.Recorder(out)
mod = None
try:
    mod = __import__("u_" + unit)
except Exception:
    meta["import_error"] = traceback.format_exc()
kept = []
if mod is not None:
    rng = random.Random("%s/%s/%s" % (unit, profile, seed))
    if int(n) > 0:
        seqs = seqs + mod.gen(profile, rng, int(n))
    limit = getattr(mod, "TIME_LIMIT", 30)
    for i, s in enumerate(seqs):
        rec.start(i)
        kept.append(s)
        signal.alarm(limit)
        try:
            mod.run(s, rec)
        except common.Timeout:
            rec.event(op="crash", ok=False, err="Timeout", why="timeout")
        except Exception as e:
            rec.event(op="crash", ok=False, err=type(e).__name__,
                      why=traceback.format_exc()[-1500:])
        finally:
            signal.alarm(0)
meta["sequences"] = len(seqs)
meta["events"] = rec.n
meta["calls"] = rec.calls
meta["seqs"] = kept
out.close()
json.dump(meta, open(meta_f, "w"))

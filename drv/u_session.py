"""Driver: a session's log (C28).  Every sequence plays one or more processes:
the settings are chosen, scripts start logging, loggers and warnings speak, and
what reaches the log directory and the terminal is recorded."""
import io
import logging
import os
import re
import shutil
import socket
import sys
import tempfile
import warnings
from common import attempt, tx
from echidna import settings, utilities

TIME_LIMIT = 30
LEVELS = ["debug", "info", "warning", "error", "critical"]
NAMES = ["Fit", "extra", "extra.sub", "extract", "a.b", "root", "extra.x.y"]
SCRIPTS = ["run", "dump_scaled", "my-fit", "fit.v2", "extra", "a"]
CATS = {"UserWarning": UserWarning, "RuntimeWarning": RuntimeWarning,
        "FutureWarning": FutureWarning}


# ------------------------------------------------------------- generation
def gen(profile, rng, n):
    return [gone(rng) for _ in range(n)]


def gprofile(rng):
    return {"op": "profile", "level": rng.choice(LEVELS[:3]),
            "mode": rng.choice(["normal", "normal", "cautious"]),
            "dir": rng.choice(["logs", "logs/", "logs/", "a/b", "a/b/",
                               "gone/"])}


def gstart(rng):
    return {"op": "start", "script": rng.choice(SCRIPTS),
            "capture": rng.random() < 0.7, "short": rng.random() < 0.4,
            "named": rng.random() < 0.6}


def gone(rng):
    seq = []
    k = 0
    for i in range(rng.choice([1, 1, 2, 3])):
        if i:
            seq.append({"op": "process"})
        if rng.random() < 0.9:
            seq.append(gprofile(rng))
        if rng.random() < 0.95:
            seq.append(gstart(rng))
        for _ in range(rng.randint(0, 7)):
            x = rng.random()
            k += 1
            if x < 0.12:
                seq.append(gstart(rng))
            elif x < 0.18:
                seq.append(gprofile(rng))
                if rng.random() < 0.7:
                    seq.append(gstart(rng))
            elif x < 0.3:
                seq.append({"op": "warn", "cat": rng.choice(sorted(CATS)),
                            "text": "caution %d!" % k})
            else:
                seq.append({"op": "log", "logger": rng.choice(NAMES),
                            "level": rng.choice(LEVELS),
                            "text": rng.choice([
                                "message %d", "at %d: 50%% done",
                                "[no %d] x - y"]) % k})
    return seq


# -------------------------------------------------------------- execution
def fresh(home):
    """What a new process starts from."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        h.close()
    root.setLevel(logging.WARNING)
    logging.captureWarnings(False)
    py = logging.getLogger("py.warnings")
    for h in list(py.handlers):
        py.removeHandler(h)
    warnings.resetwarnings()
    warnings.simplefilter("always")
    utilities.logger_set = False
    settings.user_profile.update(mode="normal", log_level="info",
                                 log_save_path=home + "/logs/")


def look(home, seen):
    """Lines added to the files below home since the last look."""
    out = []
    for d, ds, fs in sorted(os.walk(home)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            with io.open(p, encoding="utf-8", errors="replace") as h:
                t = h.read()
            old = seen.get(p)
            new = old is None or not t.startswith(old)
            if new or t != old:
                out.append({"dir": os.path.relpath(d, home), "n": f,
                            "fresh": bool(new),
                            "lines": (t if new else t[len(old):])
                            .splitlines()})
            seen[p] = t
    gone = [p for p in sorted(seen) if not os.path.exists(p)]
    for p in gone:
        del seen[p]
    return out, len(gone)


def run(seq, rec):
    home = os.path.realpath(tempfile.mkdtemp(
        dir=os.environ.get("VT_CWD") or None))
    root = logging.getLogger()
    keep = (list(root.handlers), root.level, dict(settings.user_profile),
            sys.stderr, warnings.filters[:], utilities.logger_set)
    for h in keep[0]:
        root.removeHandler(h)
    for d in ("logs", "a/b"):
        os.makedirs(os.path.join(home, d))
    try:
        logging.disable(logging.NOTSET)
        fresh(home)
        play(seq, rec, home)
    finally:
        sys.stderr = keep[3]
        fresh(home)
        for h in keep[0]:
            root.addHandler(h)
        root.setLevel(keep[1])
        settings.user_profile.clear()
        settings.user_profile.update(keep[2])
        warnings.filters[:] = keep[4]
        utilities.logger_set = keep[5]
        logging.disable(logging.CRITICAL)
        shutil.rmtree(home)


def play(seq, rec, home):
    seen, pid = {}, 0
    con = sys.stderr = io.StringIO()
    at = [0]

    def note(op, **k):
        e = dict(level="", mode="", dir="", script="", capture=False,
                 short=False, named=False, logger="", text="", cat="",
                 ok=True, err="", name="")
        e.update(k)
        files, gone = look(home, seen)
        t = con.getvalue()
        new, at[0] = t[at[0]:], len(t)
        rec.event(op=op, files=files, gone=gone, proc=pid,
                  con=re.sub(r"\x1b\[[0-9;]*m", "", new).splitlines(),
                  host="%s.%d" % (socket.gethostname(), os.getpid()), **e)

    note("begin", level="info", mode="normal", dir="logs")
    for op in seq:
        o = op["op"]
        if o == "process":
            fresh(home)
            for p in seen:          # so that an overwritten log shows
                with io.open(p, "a") as h:
                    h.write(u"-- end of process\n")
                seen[p] += "-- end of process\n"
            con = sys.stderr = io.StringIO()
            at[0] = 0
            pid += 1
            note("begin", level="info", mode="normal", dir="logs")
        elif o == "profile":
            settings.user_profile["log_level"] = op["level"]
            settings.user_profile["mode"] = op["mode"]
            settings.user_profile["log_save_path"] = \
                os.path.join(home, op["dir"])
            note(o, level=op["level"], mode=op["mode"],
                 dir=op["dir"].rstrip("/"))
        elif o == "start":
            ns = {"utilities": utilities}
            exec(compile("def go(**k):\n    return utilities."
                         "start_logging(**k)\n",
                         "/work/x.d/%s.py" % op["script"], "exec"), ns)
            ok, lg, err = attempt(ns["go"], capture_warnings=op["capture"],
                                  short_name=op["short"],
                                  script_name=op["named"])
            note(o, script=op["script"], capture=op["capture"],
                 short=op["short"], named=op["named"], ok=ok, err=err,
                 name=tx(getattr(lg, "name", None)))
        elif o == "log":
            lg = logging.getLogger() if op["logger"] == "root" else \
                logging.getLogger(op["logger"])
            ok, _, err = attempt(getattr(lg, op["level"]), op["text"])
            note(o, logger=op["logger"], level=op["level"], text=op["text"],
                 ok=ok, err=err)
        elif o == "warn":
            text = op["text"]
            ok, _, err = attempt(warnings.warn, text, CATS[op["cat"]])
            note(o, cat=op["cat"], text=text, ok=ok, err=err)

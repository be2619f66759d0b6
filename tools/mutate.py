#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-n N] [-s SEED] [-j JOBS] FILE[:PROPS]... -- development
aid: plants small token-level changes in a copy of /repo, one at a time, and
runs the quick checks of the given properties on each (stopping at the first
that notices).  Survivors are listed for a human to judge: many of them do not
change the behaviour.  Nothing here is used by the registered checks."""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="],
       "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"],
       "+=": ["-=", "="], "-=": ["+="], "*=": ["/="]}
NAMES = {"True": ["False"], "False": ["True"], "and": ["or"], "or": ["and"],
         "min": ["max"], "max": ["min"], "break": ["continue"],
         "_low": ["_high"], "_high": ["_low"], "_prior": ["_low"],
         "argmin": ["argmax"], "deepcopy": ["copy"], "ones": ["zeros"],
         "zeros": ["ones"], "int": ["float"], "linspace": ["logspace"]}
SKIP = re.compile(r"log(ger|ging)|warn|print|raise |Error\(|Exception\(|\"\"\"|"
                  r"^\s*(import|from|class|def|@)|__version__")


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    depth = 0
    bad = set()
    # lines of statements that only log, and of docstrings
    stmt, first = [], None
    stmts = []
    for t in toks:
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if stmt:
                stmts.append(stmt)
            stmt = []
        elif t.type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT,
                        tokenize.DEDENT):
            continue
        else:
            stmt.append(t)
    out = []

    def rep(t, new):
        r, c = t.start
        l = lines[r - 1]
        assert l[c:t.end[1]] == t.string
        out.append((r, t.string, new, "".join(
            lines[:r - 1] + [l[:c] + new + l[t.end[1]:]] + lines[r:])))

    for s in stmts:
        text = lines[s[0].start[0] - 1]
        if s[0].type == tokenize.STRING:
            continue
        if s[0].string in ("import", "from", "class", "def", "@", "print",
                           "global"):
            continue
        whole = " ".join(t.string for t in s)
        if s[0].string != "raise" and re.search(
                r"_logger|logging \.|warnings \.", whole):
            continue
        r0, r1 = s[0].start[0], s[-1].end[0]
        simple = s[0].string not in (
            "if", "for", "while", "else", "elif", "try", "except", "finally",
            "with", "return", "pass", "break", "continue")
        if simple:
            ind = text[:len(text) - len(text.lstrip())]
            out.append((r0, whole[:60], "pass", "".join(
                lines[:r0 - 1] + [ind + "pass\n"] + lines[r1:])))
        if s[0].string in ("raise", "print"):
            continue
        if s[0].string in ("if", "elif") and s[-1].string == ":":
            a, b = s[1], s[-1]
            if r0 == r1:
                l = lines[r0 - 1]
                cond = l[a.start[1]:b.start[1]]
                out.append((r0, s[0].string + " " + cond, "negated", "".join(
                    lines[:r0 - 1] + [l[:a.start[1]] + "not (" + cond + ")" +
                                      l[b.start[1]:]] + lines[r0:])))
        for i, t in enumerate(s):
            if t.type == tokenize.OP and t.string in OPS:
                if t.string in "+-*/" and (
                        i == 0 or s[i - 1].string in
                        ("(", ",", "=", "[", "**", "*", "/", "return", ":")):
                    continue
                for n in OPS[t.string]:
                    rep(t, n)
            elif t.type == tokenize.NUMBER:
                v = t.string
                rep(t, {"0": "1", "1": "0", "0.": "1.", "1.": "2.",
                        "0.5": "0.25"}.get(v, v + " + 1"))
            elif t.type == tokenize.NAME and t.string in NAMES:
                for n in NAMES[t.string]:
                    rep(t, n)
            elif t.type == tokenize.NAME and t.string == "not" and \
                    i + 1 < len(s) and s[i - 1].string != "is":
                if s[i + 1].string == "in":
                    rep(t, "")
                else:
                    rep(t, "")
    return out


def main():
    args = sys.argv[1:]
    outf = args.pop(0)
    n, seed, jobs, only = None, 1, 3, None
    specs = []
    while args:
        a = args.pop(0)
        if a == "-n":
            n = int(args.pop(0))
        elif a == "-s":
            seed = int(args.pop(0))
        elif a == "-j":
            jobs = int(args.pop(0))
        elif a == "-l":
            only = [int(x) for x in args.pop(0).split("-")]
        else:
            specs.append(a)
    todo = []
    for sp in specs:
        f, props = sp.split(":")
        ms = [(f, props.split(",")) + m for m in mutants("/repo/" + f)]
        if only:
            ms = [m for m in ms if only[0] <= m[2] <= only[1]]
        rng = random.Random("%s%d" % (f, seed))
        rng.shuffle(ms)
        todo += ms[:n] if n else ms
    print(len(todo), "mutants")
    if outf == "-":
        return
    dev = "/tmp/w/dev"
    os.makedirs(dev, exist_ok=True)

    def one(m):
        f, props, row, old, new, text = m
        d = tempfile.mkdtemp(prefix="vtm_", dir="/tmp/w")
        try:
            shutil.copytree("/tmp/w/mutbase", d + "/r", symlinks=True)
            open(d + "/r/" + f, "w").write(text)
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c",
                                "from lib2to3 import pytree"],
                               capture_output=True)
            e = dict(os.environ, VT_REPO=d + "/r", VT_DEV=dev,
                     VT_WORKERS="3", VT_OUT=d)
            res = "SURVIVED"
            for p, frac in [(p, fr) for fr in ("0.2", "1") for p in props]:
                e["VT_FRAC"] = frac
                c = subprocess.run([sys.executable, HERE + "/check.py", p],
                                   env=e, capture_output=True, text=True)
                if c.returncode == 1:
                    br = [l for l in c.stdout.splitlines()
                          if l.startswith("broken")]
                    res = "killed %s %s" % (p, br[0][:100] if br else "")
                    break
                if c.returncode != 0:
                    res = "ERROR %s %s" % (p, (c.stdout + c.stderr)[-400:])
                    break
            rec = dict(file=f, row=row, old=old, new=new, res=res)
            open(outf, "a").write(json.dumps(rec) + "\n")
            if not res.startswith("killed"):
                print("%s:%d  %s -> %s   %s" % (f, row, old, new, res),
                      flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    if os.path.exists("/tmp/w/mutbase"):
        shutil.rmtree("/tmp/w/mutbase")
    os.makedirs("/tmp/w/mutbase")
    subprocess.run("git -C /repo archive HEAD | tar x -C /tmp/w/mutbase",
                   shell=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


main()

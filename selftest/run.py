#!/usr/bin/env python3
"""Development aid, read by no check: run the checks against edits of a scratch copy of /repo.
usage: run.py FILE [name...]   FILE defines M = [(name, "ref" | "bug", [property ids], [(file, old, new)])]
"ref" edits keep the behaviour and must leave the checks (all, or those listed) quiet; "bug" edits must be
reported by the listed ones (by at least one check when none is listed)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = (os.environ.get("SELFTEST_PROPS") or "").split() or [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
W = 3
slots = Queue()


def work(m):
    name, kind, props, edits = m
    s = slots.get()
    try:
        root = "/tmp/selftest%d/%d" % (os.getpid(), s)
        r = root + "/repo"
        os.makedirs(r, exist_ok=True)
        for d in ("src", "benches", "tests", "examples"):
            shutil.rmtree("%s/%s" % (r, d), ignore_errors=True)
            if os.path.isdir("/repo/" + d):
                shutil.copytree("/repo/" + d, "%s/%s" % (r, d))
        for f in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists("/repo/" + f):
                shutil.copy("/repo/" + f, r)
        for f, a, b in edits:
            t = open("%s/%s" % (r, f)).read()
            if t.count(a) != 1:
                return "%-28s EDIT DOES NOT APPLY (%d) %s" % (name, t.count(a), f)
            open("%s/%s" % (r, f), "w").write(t.replace(a, b))
        env = dict(os.environ, FINDEX_REPO=r, FINDEX_CACHE=root + "/cache", FINDEX_EVIDENCE=root + "/ev", VERIF_SEED="1")

        def one(p):
            q = subprocess.run(["python3", V + "/check.py", p], env=env, capture_output=True, text=True)
            return p, q.returncode, q.stdout + q.stderr
        ids = props if props else ALL
        with ThreadPoolExecutor(3) as ex:
            res = list(ex.map(one, ids))
        if any("cannot build" in o or "[build]" in o for p, rc, o in res):
            o = [o for p, rc, o in res if "cannot build" in o or "[build]" in o][0]
            return "%-28s DOES NOT BUILD\n%s" % (name, "\n".join(l for l in o.splitlines() if "error" in l)[:600])
        bad = [(p, o) for p, rc, o in res if rc]
        if kind == "ref":
            if not bad:
                return "%-28s quiet" % name
            return "%-28s ALARM %s\n%s" % (name, " ".join(p for p, o in bad),
                                           "\n".join("    " + l[:230] for p, o in bad for l in o.splitlines()[-40:] if not l.startswith("VIOLATION"))[:1800])
        miss = [p for p in props if p not in [x for x, o in bad]]
        if bad and not miss:
            return "%-28s caught %s" % (name, " ".join(p for p, o in bad))
        return "%-28s MISSED by %s%s" % (name, " ".join(miss) or "all", (" (caught by %s)" % " ".join(p for p, o in bad)) if bad else "")
    finally:
        slots.put(s)


def main():
    for i in range(W):
        slots.put(i)
    ms = []
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for m in ns["M"]:
        if len(sys.argv) < 3 or m[0] in sys.argv[2:]:
            ms.append(m)
    with ThreadPoolExecutor(W) as ex:
        for r in ex.map(work, ms):
            print(r, flush=True)
    shutil.rmtree("/tmp/selftest%d" % os.getpid(), ignore_errors=True)


main()

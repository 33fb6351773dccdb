"""Shared machinery of the checks: building the dump, running the interpreter on entry points,
recording obligations and violations, writing evidence."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FINDEX_REPO", "/repo")
CACHE = os.environ.get("FINDEX_CACHE", os.path.join(HERE, ".cache"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from mir import Program                      # noqa: E402
import interp                                # noqa: E402
from interp import Engine, Monitor, State    # noqa: E402
from vals import V, T, C, is_t, is_int, show  # noqa: E402

EVID = os.environ.get("FINDEX_EVIDENCE", os.path.join(HERE, "evidence"))
CRATE = "cosmian_findex"


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def sources(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", ".cache")]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def sysroot_lib():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True)
    return os.path.join(r.stdout.strip(), "lib")


def build_driver():
    """Compile the rustc driver which prints the type-checked program. Returns its path."""
    d = os.path.join(HERE, "driver")
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--release", "--quiet"], cwd=d, env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise SystemExit("cannot build the driver:\n" + r.stderr[-4000:])
    return os.path.join(d, "target", "release", "findex-mir-driver")


class BuildError(Exception):
    pass


def dump():
    """Dump of the type-checked program of /repo's working tree. Returns the path of the JSON."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lock)
        srcs = sources(os.path.join(REPO, "src"), (".rs",)) + [os.path.join(REPO, "Cargo.toml")]
        srcs += sources(os.path.join(HERE, "driver", "src"), (".rs",))
        for extra in (lock, os.path.join(REPO, "build.rs")):
            if os.path.exists(extra):
                srcs.append(extra)
        out = os.path.join(CACHE, "dump-%s.json" % tree_hash(srcs))
        if os.path.exists(out):
            return out
        tgt = os.path.join(CACHE, "target")
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_CRATE=CRATE, MIRDUMP_OUT=out + ".tmp")
        env["LD_LIBRARY_PATH"] = sysroot_lib() + ":" + env.get("LD_LIBRARY_PATH", "")
        env.pop("RUSTFLAGS", None)
        # the wrapped compiler must really run: forget that this crate was compiled
        for d, ds, fs in os.walk(tgt):
            for x in [x for x in ds if x.startswith(CRATE)]:
                shutil.rmtree(os.path.join(d, x))
                ds.remove(x)
            for x in fs:
                if x.startswith((CRATE, "lib" + CRATE)):
                    os.remove(os.path.join(d, x))
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--features", "in_memory"],
                           cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out + ".tmp"):
            raise BuildError(r.stderr[-4000:])
        for x in os.listdir(CACHE):
            if x.startswith("dump-") and x.endswith(".json"):
                os.remove(os.path.join(CACHE, x))
        os.rename(out + ".tmp", out)
        return out


# ---------------------------------------------------------------------------------------------
def last(path):
    return path.split("::")[-1]


class Ctx(object):
    """What a rule sees: the program, its entry points, and where to report."""

    def __init__(self, pid, P, tier):
        self.pid = pid
        self.P = P
        self.tier = tier
        self.viols = {}
        self.counts = {}
        self.analysed = set()
        self.samples = []
        self.notes = []

    # -- reporting
    def viol(self, key, where, msg):
        """Report a violation: `key` names the construct independently of line numbers."""
        if key not in self.viols:
            self.viols[key] = {"key": key, "where": where, "message": msg}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """An analysis which saw less than it must have seen decides nothing."""
        if self.counts.get(what, 0) < n:
            self.viol("coverage:%s" % what, "-",
                      "the analysis matched %d '%s', at least %d are required: the rule lost its subject"
                      % (self.counts.get(what, 0), what, n))

    def ob(self, text):
        """One discharged or examined obligation, sampled in the evidence."""
        self.count("obligations")
        if len(self.samples) < 40 and text not in self.samples:
            self.samples.append(text)

    # -- entry points
    def methods(self, trait, selfpat=None):
        """{method: body key} of the implementations of a trait of the crate (or None: inherent)."""
        out = []
        for im in self.P.impls:
            tr = im.get("trait")
            if (last(tr) if tr else None) != trait:
                continue
            s = self.P.tystr(im["self"])
            if selfpat and selfpat not in s:
                continue
            out.append((s, {x[0]: x[1] for x in im["items"] if x[1] in self.P.bodies}, im))
        return out

    def root(self, trait, method, selfpat=None):
        for s, ms, im in self.methods(trait, selfpat):
            if method in ms:
                return ms[method]
        self.viol("anchor:%s::%s" % (trait, method), "-",
                  "no implementation of %s::%s was found in the crate: the rule lost its subject" % (trait, method))
        return None

    def run(self, key, mon, args=None, opaque=None):
        """Interpret a function; the monitor sees every event."""
        if key is None:
            return None, []
        e = Engine(self.P, mon)
        e.opaque = opaque or {}
        mon.ctx = self
        mon.root = key
        try:
            res = e.run(key, args)
        except interp.Budget:
            self.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
            res = []
        except RecursionError:
            self.viol("budget:" + key, "-", "the analysis of %s exceeded its depth" % key)
            res = []
        self.analysed |= set(e.reached) if hasattr(e, "reached") else {key}
        self.count("functions", len(getattr(e, "reached", [key])))
        self.count("blocks", e.stats["blocks"])
        self.count("calls", e.stats["calls"])
        self.count("loop iterations", e.stats["loops"])
        self.count("outcomes", len(res))
        for u, n in e.unknown.items():
            self.notes.append("unmodelled call %s (%d)" % (u, n))
        return e, res

    def where(self, e, site):
        return e.where(site)


RULES = {}


def rule(pid, title=""):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return deco


def known_findings():
    """{property: set of keys} recorded as genuine, unrepaired defects."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:"):
                _, prop, key = ln.split(None, 2)
                out.setdefault(prop.split("=")[1], set()).add(key.split(" -- ")[0].strip())
    return out


ORDERS = (3, 29, 211)


def orders(pid, ctx):
    """Thorough tier: the same rules, the sets of values and states being walked in other orders. A report in any order
    is a report."""
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for n in ORDERS:
            ev = os.path.join(d, str(n))
            env = dict(os.environ, FINDEX_PERTURB=str(n), FINDEX_EVIDENCE=ev, PYTHONHASHSEED="0")
            ps.append((n, ev, subprocess.Popen([sys.executable, os.path.join(HERE, "check.py"), pid, "--tier", "quick"],
                                               env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for n, ev, p in ps:
            p.wait()
            try:
                with open(os.path.join(ev, pid + ".json")) as f:
                    reports = json.load(f)["reports"]
            except (OSError, ValueError):
                ctx.viol("order:%d" % n, "-", "the analysis did not end for the walk order %d" % n)
                continue
            ctx.count("walk orders")
            for v in reports:
                ctx.viols.setdefault(v["key"], v)


def check(pid, tier, seed):
    import rules, rules2, rules3, rules4, rules5, rules6, rules7, rules8                     # noqa: F401,E401  (registers the rules)
    t0 = time.time()
    viols = []
    ctx = None
    try:
        P = Program(dump())
        ctx = Ctx(pid, P, tier)
        for f in RULES[pid]:
            f(ctx)
        if P.skipped:
            ctx.notes.append("bodies without MIR: %d" % len(P.skipped))
        if tier == "thorough":
            orders(pid, ctx)
        viols = list(ctx.viols.values())
    except BuildError as ex:
        viols = [{"key": "build", "where": "-", "message": "the crate does not compile: " + str(ex)[-1500:]}]
    known = known_findings().get(pid, set())
    new = [v for v in viols if v["key"] not in known]
    old = [v for v in viols if v["key"] in known]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    cov = {"explanation": "Static analysis of the type-checked program (MIR) of the current tree: abstract "
                          "interpretation to a fixpoint from the public entry points, no execution. "
                          "Counts are constructs analysed by this run."}
    if ctx:
        cov["rules"] = [(f.__doc__ or f.__name__).strip() for f in RULES[pid]]
        cov["counts"] = ctx.counts
        cov["obligations_sampled"] = ctx.samples
        cov["functions_analysed"] = sorted(ctx.analysed)[:200]
        cov["notes"] = sorted(set(ctx.notes))[:40]
    cov["known_findings"] = [v["key"] for v in old]
    ev["coverage"] = cov
    ev["reports"] = new
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["key"]))
    if new:
        rp = os.path.join(EVID, pid + ".replay.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("rule key: %s\n  at %s\n  %s\n" % (v["key"], v["where"], v["message"]))
            f.write("replay: python3 %s/check.py %s --tier %s\n" % (HERE, pid, tier))
        for v in new[:20]:
            print("  [%s] %s: %s" % (v["key"], v["where"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s (%s)" % (pid, ", ".join("%s: %d" % x for x in sorted(ctx.counts.items()))))
    return 0

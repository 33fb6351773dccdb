"""Abstract interpreter over the resolved MIR of the crate.

A path- and context-sensitive dataflow analysis (property simulation): states are
pairs (abstract store, monitor state); functions, closures and coroutines of the
crate are analysed inline; states meeting at a loop head with the same monitor
state are joined, and loops are iterated to a fixpoint.  Calls leaving the crate
are given by the transfer functions of models.py; those with no transfer function
produce an opaque value depending on all their arguments.
"""
import json, re, sys
from vals import *
from vals import _atoms
from mir import Program

sys.setrecursionlimit(20000)

CORE = {
    "core::option::Option": "Option", "std::option::Option": "Option",
    "std::result::Result": "Result", "core::result::Result": "Result",
    "std::ops::ControlFlow": "ControlFlow", "core::ops::ControlFlow": "ControlFlow",
    "std::task::Poll": "Poll", "core::task::Poll": "Poll",
}


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


class State(object):
    __slots__ = ("store", "facts", "univ", "h", "hs", "hm")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.univ = EMPTY       # frozenset of (guard, term, value)
        self.h = {}             # monitor state, states are kept apart by it
        self.hs = {}            # monitor sets, joined by union
        self.hm = {}            # monitor sets, joined by intersection

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.univ = self.univ
        s.h = dict(self.h)
        s.hs = dict(self.hs)
        s.hm = dict(self.hm)
        return s

    def hkey(self):
        return frozenset(self.h.items())

    def same(self, o):
        return self.store == o.store and self.facts == o.facts and self.univ == o.univ \
            and self.h == o.h and self.hs == o.hs and self.hm == o.hm


class Frame(object):
    __slots__ = ("fid", "key", "body", "env", "parent", "callblk")

    def chain(self):
        f, out = self, []
        while f:
            out.append(f.key)
            f = f.parent
        return out


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


class Monitor(object):
    """Base class of the rules: hooks called while the program is interpreted."""
    eager_lock = False
    mark = ()           # events one answer of which, chosen arbitrarily, is told apart from the other ones
    values = {}         # {event name or its prefix: possible answers, each one given its own outcome}

    def event(self, eng, st, name, args, site):
        """Called when an event happens. May return False to prune the path."""

    def guard(self, eng, st, atoms, g):
        """Facts (about atoms) kept with an element of a collection, or with the reason for its absence."""
        return g

    def conv(self, eng, st, rows):
        """Rows, as a list, are collected in a map."""

    def result(self, eng, st, name, okv, val, args, site):
        """Called on each outcome of an event."""

    def ret(self, eng, st, key, val):
        """Called on each outcome of the root function."""

    def call(self, eng, st, fr, key, args, site):
        """Called when a function of the crate is entered."""

    def leave(self, eng, st, fr, key, args, val, site):
        """Called when a function of the crate returns."""

    def ext(self, eng, st, fr, name, args, site):
        """Called at each call to a function outside of the crate."""

    def back(self, eng, st, lid):
        """Called at the end of each iteration of a loop."""

    def exit(self, eng, st, lid):
        """Called at each exit of a loop."""

    def panic(self, eng, st, fr, blk, what, payload):
        """Called when a path ends in a panic."""

    def asrt(self, eng, st, fr, blk, kind, cond, expected):
        """Called at each MIR assertion."""


class Cfg(object):
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self.succs(b["t"]) for b in bl]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        self.dom = dom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    L = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L:
                            L.add(x)
                            work.extend(pred[x])
        self.order = order

    @staticmethod
    def succs(t):
        k = t["k"]
        if k == "switch":
            r = [v[1] for v in t["v"]]
            if t["o"] is not None:
                r.append(t["o"])
            return r
        if k in ("goto", "drop", "call", "assert", "yield"):
            return [t["t"]] if t.get("t") is not None else []
        return []

    def innermost(self, b):
        best = None
        for h, L in self.loops.items():
            if b in L and (best is None or len(L) < len(self.loops[best])):
                best = h
        return best


MAXST = 40


class Engine(object):
    def __init__(self, P, mon=None, budget=3000000):
        self.maxst = MAXST          # states kept apart at one point
        self.part = 0               # counters up to this value are enumerated, not generalised
        self.namedl = {}
        self.framebody = {}
        self.opaque = {}            # {(trait, method) or (None, function): event name}
        self.P = P
        self.mon = mon or Monitor()
        self.phi_defs = {}
        self.cfgs = {}
        self.frames = {}
        self.reports = {}
        self.stack = []
        self.hids = {}
        self.reached = set()
        self.markloops = set()   # loops around the events a monitor marks
        self.lossy = self.backmerge = False
        self.active = []         # bound element atoms of the active loops: (lid, set)
        self.srckinds = {}
        self.loop_elems = {}     # loop -> atoms bound to its current element
        self.inner_elems = {}    # loop -> atoms bound by the loops it contains
        self.inner_lids = {}     # loop -> loops run inside of it
        self.unknown = {}
        self.stats = {"blocks": 0, "calls": 0, "events": 0, "loops": 0, "merges": 0}
        self.visited = set()     # body keys analysed
        self.sites = set()       # event sites
        self.recursive = set()
        self.budget = budget
        self.notes = []
        self.inline = lambda key: True
        from models import Models
        self.models = Models(self)

    # ---- reports ---------------------------------------------------------------
    def report(self, rule, key, msg, where=None):
        k = (rule, key)
        if k not in self.reports:
            self.reports[k] = (msg, where)

    # ---- frames ------------------------------------------------------------------
    def cfg(self, key):
        c = self.cfgs.get(key)
        if c is None:
            c = self.cfgs[key] = Cfg(self.P.bodies[key])
        return c

    def where(self, site):
        """Human readable position of a site."""
        fr, b = site[0], site[1]
        while isinstance(b, tuple):
            b = b[0]
        return self.P.loc(fr.body["blocks"][b]["sp"]) if fr is not None else "?"

    def sid(self, site):
        """Hashable identity of a site."""
        return (site[0].fid if site[0] is not None else 0,) + tuple(site[1:])

    # ---- memory --------------------------------------------------------------------
    def load(self, st, addr):
        base, path = addr
        v = st.store.get(base)
        if v is None:
            v = T("undef", base)
        for e in path:
            if v.k == "mref":
                v = self.load(st, v.a)
            v = self.vproj(st, v, e)
        return v

    def deref(self, st, v):
        n = 0
        while v.k == "mref" and n < 20:
            v = self.load(st, v.a)
            n += 1
        return v

    def vproj(self, st, v, e):
        k = e[0]
        if k == "f":
            if v.k == "alt":
                opts = [x for x in v.a[1] if not (x.k == "agg" and isinstance(x.a[1], int) and e[1] is not None and x.a[1] != e[1])]
                if len(opts) == 1:
                    return fld(opts[0], e[1], e[2])
                if opts and all(x.k == "agg" for x in opts):
                    rs = {fld(x, e[1], e[2]) for x in opts}
                    if len(rs) == 1:
                        return rs.pop()
                    return self.mkalt(("p", v.a[0], e[2]), rs)
            return fld(v, e[1], e[2])
        if k == "i":
            return self.index(st, v, e[1])
        if k == "range":
            if v.k == "coll" and v.a[3] is None:
                return v
            return slc(v, e[1], e[2])
        if k == "ent":
            rs = [x for _, x in self.models.lookup_vals(v, e[1])]
            if not rs:
                return T("at", v, e[1])
            r = rs[0]
            for x in rs[1:]:
                r = self.join(r, x, ("ent", e[1]), "ent")
            return r
        if k == "any":
            return self.anyelem(v, e[1] if len(e) > 1 else None)
        return T("proj", v, str(k))

    def anyelem(self, v, variant=None):
        if v.k == "coll":
            xs = [x for _, x in v.a[1]]
            if variant is not None:
                xs = [fld(x, None, variant) for x in xs]
            if len(xs) == 1:
                return xs[0]
            if xs:
                r = xs[0]
                for x in xs[1:]:
                    r = self.join(r, x, ("any",), "any")
                return r
            return T("undef", "empty")
        x = elem(v)
        return fld(x, None, variant) if variant is not None else x

    def index(self, st, v, i):
        if v.k == "agg" and is_int(i) and i.a[1] < len(v.a[2]):
            return v.a[2][i.a[1]]
        if v.k == "c" and isinstance(v.a[1], bytes) and is_int(i) and i.a[1] < len(v.a[1]):
            return C(v.a[1][i.a[1]])
        if v.k == "coll":
            if v.a[3] is not None and is_int(i):
                pos = C(0)
                for k, x in v.a[3]:
                    n = C(1) if k == "e" else length(x)
                    if pos is i:
                        return x if k == "e" else self.index(st, x, C(0))
                    d = sub(i, pos)
                    if k == "s" and is_int(d) and is_int(n) and d.a[1] < n.a[1]:
                        return self.index(st, x, d)
                    pos = add(pos, n)
            if v.a[4] is not None and i is sub(length(v), C(1)):
                return v.a[4]
            xs = {x for _, x in v.a[1]}
            if len(xs) == 1:
                return xs.pop()
            return T("idx", strip(v), i)
        if v.k == "segs":
            for l, h, x in reversed(v.a[1]):
                if le(l, i) and le(add(i, C(1)), h):
                    return self.index(st, x, sub(i, l))
                if le(h, i) or le(add(i, C(1)), l):
                    continue
                return T("idx", v, i)
            return self.index(st, v.a[0], i)
        if is_t(v, "slice"):
            return self.index(st, v.a[1], add(v.a[2], i))
        if is_t(v, "rep"):
            return v.a[1]
        return T("idx", v, i)

    def storeto(self, st, addr, val):
        base, path = addr
        if not path:
            st.store[base] = val
            return
        v = st.store.get(base)
        if v is None:
            v = T("undef", base)
        if v.k == "mref":
            self.storeto(st, (v.a[0], v.a[1] + path), val)
            return
        st.store[base] = self.vupd(st, v, path, val)

    def vupd(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        cur = None
        if rest:
            cur = self.vproj(st, v, e)
            if cur.k == "mref":
                self.storeto(st, (cur.a[0], cur.a[1] + rest), val)
                return v
            val = self.vupd(st, cur, rest, val)
        k = e[0]
        if k == "f":
            if v.k == "agg" and e[2] < len(v.a[2]):
                f = list(v.a[2])
                f[e[2]] = val
                return agg(v.a[0], v.a[1], f)
            if v.k == "alt":
                opts = [x for x in v.a[1] if x.k == "agg" and (e[1] is None or x.a[1] == e[1])]
                if len(opts) == 1:
                    return self.vupd(st, opts[0], (e,), val)
            return T("with", v, (e[1], e[2]), val)
        if k == "i":
            if v.k == "agg" and is_int(e[1]) and e[1].a[1] < len(v.a[2]):
                f = list(v.a[2])
                f[e[1].a[1]] = val
                return agg(v.a[0], v.a[1], f)
            if v.k == "coll":
                return self.models.weak_add(st, v, val)
            return setrange(v, e[1], add(e[1], C(1)), agg("array", None, [val]))
        if k == "range":
            if v.k == "coll":
                return self.models.weak_add(st, v, elem(val))
            return setrange(v, e[1], e[2], val)
        if k == "ent":
            return self.models.map_put(st, v, e[1], val, replace=True)
        if k == "any":
            if v.k == "coll" and len(e) > 1:
                return self.models.map_values_set(st, v, val)
            return self.models.weak_add(st, v, val)
        return T("mut", v, val)

    def addr(self, st, fr, place):
        base = (fr.fid, place[0])
        path = ()
        variant = None
        tyi = fr.body["locals"][place[0]]["t"]
        first = True
        for e in place[1]:
            k = e[0]
            if k == "*":
                t = self.P.types[tyi] if first else None
                follow = True
                if t is not None and t["k"] == "ref" and not t["mut"]:
                    follow = False
                if follow:
                    v = self.load(st, (base, path))
                    if v.k == "mref":
                        base, path = v.a
                if t is not None and t["k"] in ("ref", "ptr"):
                    tyi = t["t"]
                else:
                    first = False
                if t is not None and not follow:
                    # a shared reference is represented by the value it points to; the
                    # pointee may itself be a mutable reference, followed on next access
                    pass
                continue
            first = False
            if k == "f":
                if e[2] and variant is None:
                    continue
                path = path + (("f", variant, e[1]),)
                variant = None
            elif k == "d":
                variant = e[1]
            elif k == "i":
                path = path + (("i", self.load(st, ((fr.fid, e[1]), ()))),)
            elif k == "ci":
                if e[3]:
                    v = self.load(st, (base, path))
                    path = path + (("i", sub(length(v), C(e[1]))),)
                else:
                    path = path + (("i", C(e[1])),)
            elif k == "sub":
                v = self.load(st, (base, path))
                hi = sub(length(v), C(e[2])) if e[3] else C(e[2])
                path = path + (("range", C(e[1]), hi),)
        return (base, path)

    # ---- operands -------------------------------------------------------------------
    def operand(self, st, fr, o):
        k = o[0]
        if k == "c":
            return self.const(fr, o[1])
        a = self.addr(st, fr, o[1])
        v = self.load(st, a)
        if k == "mv" and not a[1] and not o[1][1]:
            st.store.pop(a[0], None)
        return v

    def const(self, fr, c):
        if "fn" in c:
            return self.fnval(fr, c["fn"])
        if "int" in c:
            return C(int(c["int"]))
        if "bytes" in c:
            return C(bytes(c["bytes"]))
        if "str" in c:
            return C(c["str"])
        if "strs" in c:
            v = self.strs(c)
            if v is not None:
                return v
        if "param" in c:
            return fr.env.get(c["param"]) or T("cparam", c["param"])
        if "zst" in c or "raw" in c:
            t = self.P.types[c["ty"]]
            if t["k"] == "tuple" and not t.get("ts"):
                return UNIT
            if t["k"] == "closure":
                return agg("closure:" + t.get("def", ""), self.envv(fr), ())
            if t["k"] == "adt" and self.P.adts.get(t["adt"], {}).get("kind") == "enum" and c.get("variant") is not None:
                return agg(CORE.get(t["adt"], t["adt"]), c["variant"], ())
            if t["k"] == "array" and "raw" in c:
                return C(bytes(c["raw"])) if isinstance(c["raw"], list) else T("const", t["s"], json.dumps(c["raw"]))
            return T("const", t["s"], json.dumps(c.get("raw", "")))
        if "item" in c or "item_key" in c:
            return self.constitem(fr, c)
        return T("const", self.P.tystr(c["ty"]), json.dumps({k: v for k, v in c.items() if k != "ty"}, sort_keys=True))

    def strs(self, c):
        if len(c["strs"]) == 1:
            return C(bytes(c["strs"][0]))
        return T("strs", str(c["strs"]))

    def constitem(self, fr, c):
        key = c.get("item_key") or c.get("item")
        for x in self.P.consts:
            if x["key"] == key:
                if "int" in x:
                    return C(int(x["int"]))
                if "bytes" in x:
                    return C(bytes(x["bytes"]))
                if "strs" in x:
                    return self.strs(x)
        b = self.P.bodies.get(key)
        if b is not None and len(self.stack) < 40:
            env = self.bindenv(fr, b, c.get("item_args") or [])
            rs = self.call_body(State(), fr, 0, key, [], env)
            if len(rs) == 1:
                return rs[0][1]
        return T("cparam", key, self.genargs(fr, c.get("item_args") or []))

    def genargs(self, fr, args):
        out = []
        for a in args:
            if "c" in a:
                c = a["c"]
                if isinstance(c, int):
                    out.append(C(c))
                else:
                    out.append(fr.env.get(c) if fr and c in fr.env else T("cparam", str(c)))
            else:
                out.append(C(self.P.tystr(a["t"])))
        return tuple(out)

    def bindenv(self, fr, body, args):
        env = {}
        gs = body.get("generics") or []
        vals = self.genargs(fr, args)
        if len(gs) == len(vals):
            for g, v in zip(gs, vals):
                if "c" in g:
                    env[str(g["c"])] = v
        return env

    def envv(self, fr):
        return tuple(sorted((k, v) for k, v in fr.env.items())) if fr.env else ()

    def fnval(self, fr, fn):
        return mk("fn", json.dumps(fn, sort_keys=True), self.envv(fr))

    # ---- rvalues ----------------------------------------------------------------------
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            a = self.addr(st, fr, r[2])
            if r[1] == "mut" or r[1] == "raw":
                v = self.load(st, a)
                if v.k == "mref" and r[2][1] and r[2][1][-1][0] == "*":
                    return v
                return mref(a[0], a[1])
            return self.load(st, a)
        if k == "rep":
            n = r[2]
            if isinstance(n, int):
                n = C(n)
            else:
                n = self.cname(fr, str(n))
            x = self.operand(st, fr, r[1])
            return T("rep", x, n)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if len(r) > 4:
                a, b = WIDTH.get(self.P.types[r[3]]["s"]), WIDTH.get(self.P.types[r[4]]["s"])
                if a and b and b < a:
                    if is_int(v):
                        return C(v.a[1] & ((1 << b) - 1))
                    if v.k in ("t", "lin"):
                        return T("trunc", v, b)
            return v
        if k == "bin":
            x, y = self.deref(st, self.operand(st, fr, r[2])), self.deref(st, self.operand(st, fr, r[3]))
            if r[1] == "SubWithOverflow":
                self.mon.ext(self, st, fr, "sub", [x, y], (fr, self.curblk))
            return self.binop(r[1], x, y)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return self.bnot(v, dty)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, v))
            return T("un", r[1], v)
        if k == "discr":
            v = self.load(st, self.addr(st, fr, r[1]))
            v = self.deref(st, v)
            if v.k == "agg" and isinstance(v.a[1], int):
                return C(self.discrval(v.a[0], v.a[1]))
            return T("discr", v)
        if k == "agg":
            fs = [self.operand(st, fr, x) for x in r[2]]
            a = r[1]
            if a[0] == "adt":
                name = CORE.get(a[1], a[1])
                ad = self.P.adts.get(a[1])
                if ad and ad["kind"] == "struct" and len(fs) == 1:
                    return fs[0]
                isenum = bool(ad and ad["kind"] == "enum")
                return agg(name, a[3] if isenum else None, fs)
            if a[0] == "tuple":
                return tup(*fs) if fs else UNIT
            if a[0] == "array":
                if fs and all(is_int(x) and 0 <= x.a[1] < 256 for x in fs) and self.is_bytearr(dty):
                    return C(bytes(x.a[1] for x in fs))
                return agg("array", None, fs)
            if a[0] in ("closure", "coroutine"):
                return agg(a[0] + ":" + a[1], self.envv(fr), fs)
            return agg(str(a[0]), None, fs)
        if k == "len":
            return length(self.load(st, self.addr(st, fr, r[1])))
        return T("rv", k)

    def is_bytearr(self, tyi):
        if tyi is None:
            return False
        t = self.P.types[tyi]
        return t["k"] == "array" and self.P.types[t["t"]]["s"] == "u8"

    def cname(self, fr, n):
        if fr and n in fr.env:
            return fr.env[n]
        if n.isdigit():
            return C(int(n))
        for x in self.P.consts:
            if x["key"].endswith("::" + n) and "int" in x:
                return C(int(x["int"]))
        return T("cparam", n)

    def discrval(self, name, variant):
        for full, short in CORE.items():
            if short == name:
                return variant
        ad = self.P.adts.get(name)
        if ad and ad["kind"] == "enum":
            d = ad["variants"][variant].get("discr")
            return d if d is not None else variant
        return variant

    def bnot(self, v, dty=None):
        if dty is not None and self.P.types[dty]["s"] != "bool":
            return T("un", "Not", v)
        if v.k == "c":
            return C(1 - v.a[1]) if isinstance(v.a[1], int) else T("not", v)
        if is_t(v, "not"):
            return v.a[1]
        if v.k == "alt" and all(is_int(x) for x in v.a[1]):
            return T("not", v)
        return T("not", v)

    def lt(self, a, b):
        if is_int(a) and is_int(b):
            return C(a.a[1] < b.a[1])
        if le(b, a):
            return FALSE
        if le(add(a, C(1)), b):
            return TRUE
        # comparisons of a length with zero / one
        if a is C(0):
            return self.bnot(self.eq(b, C(0)))
        if b is C(1):
            return self.eq(a, C(0))
        return T("lt", a, b)

    def eq(self, a, b):
        if b is C(0) and is_t(a, "len"):
            return self.isempty(a.a[1])
        if a is C(0) and is_t(b, "len"):
            return self.isempty(b.a[1])
        for x, y in ((a, b), (b, a)):
            # bool == const
            if is_int(y) and y.a[1] in (0, 1) and x.k == "t" and x.a[0] in ("not", "eq", "lt", "contains", "isempty"):
                return x if y.a[1] == 1 else self.bnot(x)
        return mkeq(a, b)

    def isempty(self, v):
        if v.k == "coll":
            if v.a[5] is True:
                return FALSE
            if v.a[5] is False or (not v.a[1]):
                return TRUE
            if v.a[3] is not None and any(k == "e" or is_int(length(x)) and length(x).a[1] > 0 for k, x in v.a[3]):
                return FALSE
            return T("isempty", strip(v))
        if v.k == "c" and isinstance(v.a[1], (bytes, str)):
            return C(len(v.a[1]) == 0)
        n = LEN.get(v)
        if n is not None and is_int(n):
            return C(n.a[1] == 0)
        return T("isempty", v)

    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base == "Eq":
            r = self.eq(a, b)
        elif base == "Ne":
            r = self.bnot(self.eq(a, b))
        elif base == "Lt":
            r = self.lt(a, b)
        elif base == "Gt":
            r = self.lt(b, a)
        elif base == "Le":
            r = self.bnot(self.lt(b, a))
        elif base == "Ge":
            r = self.bnot(self.lt(a, b))
        elif is_int(a) and is_int(b):
            x, y = a.a[1], b.a[1]
            try:
                r = {"Div": lambda: x // y, "Rem": lambda: x % y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[base]()
                r = C(r)
            except (KeyError, ZeroDivisionError):
                r = None
        if r is None:
            r = T("bin", base, a, b)
        if op.endswith("WithOverflow"):
            return tup(r, FALSE)
        return r

    # ---- facts -----------------------------------------------------------------------
    def truth(self, st, v):
        """Known value of the integer/boolean v, or None."""
        if is_int(v):
            return v.a[1]
        if is_t(v, "not"):
            t = self.truth(st, v.a[1])
            return None if t is None else 1 - t
        f = st.facts.get(v)
        return f if isinstance(f, int) else None

    def assume(self, st, v, val):
        """States of st in which the boolean v equals val (st may be reused)."""
        if is_int(v):
            return [st] if (v.a[1] != 0) == bool(val) else []
        if is_t(v, "not"):
            return self.assume(st, v.a[1], 1 - val)
        if v.k == "alt":
            out = []
            for x in sorted(v.a[1], key=lambda y: y.id):
                s = st.copy()
                self.replace(s, v, x)
                out += self.assume(s, x, val)
            return out
        if is_t(v, "bin") and v.a[1] in ("BitAnd", "BitOr"):
            dec = 1 if v.a[1] == "BitAnd" else 0
            if bool(val) == bool(dec):
                out = []
                for s in self.assume(st, v.a[2], dec):
                    out += self.assume(s, v.a[3], dec)
                return out
            out = self.assume(st.copy(), v.a[2], 1 - dec)
            for s in self.assume(st.copy(), v.a[2], dec):
                out += self.assume(s, v.a[3], 1 - dec)
            return out
        f = st.facts.get(v)
        if isinstance(f, int):
            return [st] if bool(f) == bool(val) else []
        st.facts[v] = 1 if val else 0
        if val and is_t(v, "isempty") and v.a[1].k == "coll" and v.a[1].a[2]:
            # nothing was added: the conditions under which nothing is added hold for all
            com = None
            for g in v.a[1].a[2]:
                com = g if com is None else com & g
            u = frozenset((EMPTY, t, b) for t, b in com if any(is_t(a, "elem") and ekind(a) == "g" for a in t.at or ()))
            if u:
                st.univ = st.univ | u
        return [st]

    def fork(self, st, v):
        """[(state, 0/1)] for a boolean."""
        t = self.truth(st, v)
        if t is not None:
            return [(st, 1 if t else 0)]
        out = [(s, 1) for s in self.assume(st.copy(), v, 1)]
        out += [(s, 0) for s in self.assume(st, v, 0)]
        return out

    def replace(self, st, old, new):
        m = {old: new}
        self.substate(st, m)

    def substate(self, st, m):
        memo = {}
        keys = frozenset(m)
        for k, v in st.store.items():
            if v.at and not v.at.isdisjoint(keys):
                st.store[k] = subst(v, m, memo)
        ks = [k for k in st.store if isinstance(k[1], V) or isinstance(k[1], tuple)]
        for k in ks:
            nk = subst(k, m, memo)
            if nk != k:
                st.store[nk] = st.store.pop(k)
        ch = [t for t in st.facts if t.at and not t.at.isdisjoint(keys)]
        for t in ch:
            f = st.facts.pop(t)
            n = subst(t, m, memo)
            if n.k != "c":
                st.facts[n] = f
        if st.univ:
            st.univ = subst(st.univ, m, memo)
        for d in (st.h, st.hs, st.hm):
            for k, v in d.items():
                if isinstance(v, (V, tuple, frozenset)):
                    d[k] = subst(v, m, memo)

    def kill(self, st, atoms):
        """Drop facts mentioning the given atoms."""
        if not atoms:
            return
        for t in [t for t in st.facts if t.at and not t.at.isdisjoint(atoms)]:
            del st.facts[t]

    def age(self, st, op, name, sid, *rest):
        """The most recent value of an event site becomes an older one."""
        new = T(op, name, sid, 0, *rest)
        old = T(op, name, sid, 1, *rest)
        self.kill(st, {old})
        if st.univ:
            st.univ = frozenset(u for u in st.univ if old not in (u[1].at or ()))
        self.substate(st, {new: old})
        self.kill(st, {old})
        return new

    # ---- enums ----------------------------------------------------------------------
    def cases(self, st, v, name, variants):
        """Split on the variant of v (an Option, Result, ...):
        [(state, variant, payload tuple)]; variants: number of fields of each variant."""
        v = self.deref(st, v)
        if v.k == "agg":
            return [(st, v.a[1], v.a[2])]
        if v.k == "alt":
            out = []
            for x in sorted(v.a[1], key=lambda y: y.id):
                s = st.copy()
                self.replace(s, v, x)
                out += self.cases(s, x, name, variants)
            return out
        d = T("discr", v)
        f = st.facts.get(d)
        out = []
        for i, n in enumerate(variants):
            if isinstance(f, int) and f != i:
                continue
            if isinstance(f, tuple) and i in f[1]:
                continue
            s = st.copy()
            s.facts[d] = i
            out.append((s, i, tuple(fld(v, i, j) for j in range(n))))
        return out

    def opt(self, st, v):
        return self.cases(st, v, "Option", (0, 1))

    def res(self, st, v):
        return self.cases(st, v, "Result", (1, 1))

    # ---- joins -----------------------------------------------------------------------
    def mkalt(self, tag, opts):
        flat = set()
        for x in opts:
            if x.k == "alt":
                flat |= x.a[1]
            else:
                flat.add(x)
        if len(flat) == 1:
            return flat.pop()
        return mk("alt", tag, frozenset(flat))

    def isenumv(self, v):
        return v.k == "agg" and isinstance(v.a[1], int) and v.a[0] != "tuple"

    def marked(self, els):
        """Whether elements come from the answer the monitor told apart."""
        return any(a.a[0] == "resp" and a.a[3] == "m" for g, y in els for a in self.leaves(y))

    def join(self, a, b, addr, lid, widen=False):
        if a is b:
            return a
        phi = T("phi", lid, addr)
        if a is phi or b is phi:
            self.phi_defs.setdefault(phi, set()).add(b if a is phi else a)
            return phi
        if a.k == "coll" and b.k == "coll" and a.a[0] == b.a[0]:
            x, y = a.a, b.a
            if strip(a) is strip(b):
                return mk("coll", *(x[:6] + (x[6] | y[6],)))
            seq = x[3] if x[3] == y[3] else None
            if x[4] is y[4]:
                last = x[4]
            elif x[4] is None or y[4] is None:
                # unknown unless one side is empty
                last = (y[4] if x[5] is False else x[4] if y[5] is False else None)
            else:
                last = self.join(x[4], y[4], addr + ("last",), lid, widen)
            ne = x[5] if x[5] == y[5] else None
            skips = x[2] | y[2]
            if self.lossy and self.marked(x[1]) != self.marked(y[1]):
                skips |= {LOST}
            els, sk = self.tidy(x[1] | y[1], skips, addr, lid, widen)
            return coll(x[0], els, sk, seq, last, ne, x[6] | y[6])
        if a.k == "iter" and b.k == "iter" and len(a.a[1]) == len(b.a[1]) and all(p[0] == q[0] for p, q in zip(a.a[1], b.a[1])):
            st = tuple((p[0],) + tuple(self.join(x, y, addr + ("st", i, j), lid, widen) if isinstance(x, V) and isinstance(y, V) else x
                                       for j, (x, y) in enumerate(zip(p[1:], q[1:])))
                       for i, (p, q) in enumerate(zip(a.a[1], b.a[1])))
            return iterv(self.join(a.a[0], b.a[0], addr + ("src",), lid, widen), st)
        if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return agg(a.a[0], a.a[1], [self.join(x, y, addr + (i,), lid, widen) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))])
        if not widen:
            oa = a.a[1] if a.k == "alt" else {a}
            ob = b.a[1] if b.k == "alt" else {b}
            opts = oa | ob
            def boolc(x):
                return is_int(x) and x.a[1] in (0, 1)
            if any(self.isenumv(x) for x in opts) or (all(boolc(x) for x in opts)) or a.k == "alt" or b.k == "alt":
                groups, rest = {}, set()
                for x in opts:
                    if self.isenumv(x):
                        groups.setdefault((x.a[0], x.a[1]), []).append(x)
                    else:
                        rest.add(x)
                out = set(rest)
                for (n, va), xs in groups.items():
                    xs.sort(key=lambda y: y.id)
                    r = xs[0]
                    for y in xs[1:]:
                        r = self.join(r, y, addr + ("v", va), lid, widen)
                    out.add(r)
                if len(out) <= 3 or len(out) <= len(groups) + 1:
                    return self.mkalt(("m", lid, addr), out)
        self.phi_defs.setdefault(phi, set()).update((a, b))
        for x in (a, b):
            if x.k == "alt":
                self.phi_defs[phi].update(x.a[1])
        return phi

    def hard(self, a, b, addr, lid):
        phi = T("phi", lid, addr)
        d = self.phi_defs.setdefault(phi, set())
        d.update(x for x in (a, b) if x is not phi)
        return phi

    @staticmethod
    def skeleton(v):
        if v.k == "coll":
            return ("coll", v.a[0])
        if v.k == "agg":
            return ("agg", v.a[0], v.a[1]) + tuple(Engine.skeleton(x) for x in v.a[2])
        return v

    @staticmethod
    def nests(v):
        return v.k == "coll" or v.k == "agg" and any(Engine.nests(x) for x in v.a[2])

    def tidy(self, els, skips, addr, lid, widen):
        """Bound the number of cases of a collection: elements differing only by
        the collections they hold are joined, guards are weakened."""
        if len(els) > 1:
            groups = {}
            for g, x in els:
                k = self.skeleton(x) if self.nests(x) else x
                groups.setdefault(k, []).append((g, x))
            out = set()
            for k, q in groups.items():
                xs = sorted({x for _, x in q}, key=lambda y: y.id)
                if len(xs) > 1:
                    r = xs[0]
                    for y in xs[1:]:
                        r = self.join(r, y, addr + ("el",), lid, widen)
                    q = [(g, r) for g, _ in q]
                gs = {g for g, _ in q}
                if len(gs) > 1 and (len(gs) > 6 or widen or len(xs) > 1):
                    com = None
                    for g in gs:
                        com = g if com is None else com & g
                    gs = {com}
                out |= {(g, q[0][1]) for g in gs}
            els = frozenset(out)
        if len(skips) > 12 or (widen and len(skips) > 6):
            com = None
            for g in skips:
                if any(t.a[0] == "note" for t, b in g if t.k == "t"):
                    if all(is_t(t, "note") and not t.at for t, b in g):
                        continue
                    g = frozenset((self.generic(t) if is_t(t, "note") else t, b) for t, b in g)
                com = g if com is None else com & g
            skips = frozenset([com]) if com is not None else skips
        return els, skips

    @staticmethod
    def generic(t):
        """The fact about any element."""
        m = {a: T("elem", a.a[1], "g") for a in sorted(t.at or (), key=lambda y: y.id) if is_t(a, "elem")}
        return subst(t, m) if m else t

    def merge2(self, s, t, lid, widen):
        o = State()
        self.stats["merges"] += 1
        hid = ()
        if s.h:
            hk = s.hkey()
            hid = ("h%d" % self.hids.setdefault(hk, len(self.hids)),)
        self.lossy = s.h.get("mark") == 2 and (lid in self.markloops or not self.backmerge)
        for k, v in s.store.items():
            w = t.store.get(k)
            if w is None:
                continue
            o.store[k] = v if v is w else self.hard(v, w, (k,) + hid, lid) if widen == 2 \
                else self.join(v, w, (k,) + hid, lid, widen)
        for k, v in s.facts.items():
            if t.facts.get(k, Ellipsis) == v:
                o.facts[k] = v
        self.absent(s, t, o)
        o.univ = s.univ & t.univ
        o.h = dict(s.h)
        for k in set(s.hs) | set(t.hs):
            o.hs[k] = s.hs.get(k, EMPTY) | t.hs.get(k, EMPTY)
        for k in set(s.hm) & set(t.hm):
            o.hm[k] = s.hm[k] & t.hm[k]
        return o

    def absent(self, s, t, o):
        """A key which is in neither of two joined maps is not in their join."""
        for s, t in ((s, t), (t, s)):
            fs = [(k.a[1], k.a[2]) for k, v in s.facts.items() if v == 0 and k.k == "t" and k.a[0] == "contains" and k.a[1].k == "coll" and k not in o.facts]
            if not fs:
                continue
            for a, v in o.store.items():
                if v.k != "coll" or v is s.store[a] or t.store[a].k != "coll":
                    continue
                for m, x in fs:
                    if m is strip(s.store[a]) and (not t.store[a].a[1] or t.facts.get(contains(strip(t.store[a]), x)) == 0):
                        o.facts[contains(strip(v), x)] = 0

    def phiof(self, v, lid):
        return any(x.k == "t" and x.a[0] == "phi" and x.a[1] == lid for x in v.at)

    def pkey(self, st):
        """States are kept apart by their monitor state and, on demand, by their small counters."""
        if not self.part:
            return st.hkey()
        out = []
        for a, v in st.store.items():
            if a[0] in self.framebody and a[1] in self.named(a[0]):
                if is_int(v) and 0 <= v.a[1] <= self.part:
                    out.append((a, v.a[1]))
                elif v.k == "agg" and not v.a[0].startswith("closure"):
                    for i, x in enumerate(v.a[2]):
                        if is_int(x) and 0 <= x.a[1] <= self.part:
                            out.append((a + (i,), x.a[1]))
        return (st.hkey(), frozenset(out))

    @staticmethod
    def branches(st):
        """The booleans and the variants a state holds, by which it is about to branch."""
        return frozenset((a, v.a[1] if is_int(v) else v.a[:2]) for a, v in st.store.items()
                         if is_int(v) and v.a[1] in (0, 1) or v.k == "agg" and isinstance(v.a[1], int))

    def named(self, fid):
        r = self.namedl.get(fid)
        if r is None:
            b = self.framebody[fid]
            r = self.namedl[fid] = {i for i, l in enumerate(b["locals"]) if l.get("n")}
        return r

    def mergeloop(self, heads, backs, lid, widen):
        """Join the states reaching a loop head by its back edges."""
        if heads:
            self.coverage(backs, lid)
        self.backmerge = bool(heads)
        out = {k: s for k, s in heads.items()}
        for b in backs:
            b = b.copy()
            if heads:
                self.mon.back(self, b, lid)
                self.pastify(b, lid)
            for k, v in b.store.items():
                nv = self.untouch(v, lid)
                if nv is not v:
                    b.store[k] = nv
            k = self.pkey(b)
            if k in out:
                out[k] = self.merge2(out[k], b, lid, widen)
            else:
                out[k] = b
        self.backmerge = False
        return out

    def stateatoms(self, st):
        out = set()
        for v in st.store.values():
            out |= v.at
        for d in (st.h, st.hs, st.hm):
            for v in d.values():
                if isinstance(v, V):
                    out |= v.at
                elif isinstance(v, (tuple, frozenset)):
                    _atoms(v, out)
        return out

    def pastify(self, st, lid):
        """End of an iteration: the values bound to it become those of a past one."""
        els = self.loop_elems.get(lid, set()) | self.inner_elems.get(lid, set())
        lids = self.inner_lids.get(lid, set()) | {lid}
        for t in [t for t in st.facts if t.at and (self.phiof(t, lid) or not t.at.isdisjoint(els))]:
            del st.facts[t]
        m = {}
        for a in sorted(self.stateatoms(st), key=lambda y: y.id):
            if a.k == "alt":
                tag = a.a[0]
                if isinstance(tag, tuple) and len(tag) > 1 and tag[0] == "m" and tag[1] in lids:
                    m[a] = mk("alt", ("p",) + tag, a.a[1])
            elif a.a[0] == "elem":
                if a in els or (ekind(a) == "x" and a.a[3] in lids):
                    d = (a.a[3],) if len(a.a) > 3 and a.a[2] == "i" and a.a[3] != lid else ()
                    m[a] = T("elem", subst(a.a[1], m) if m else a.a[1], "p", lid, *d)
            elif a.a[0] == "phi":
                if len(a.a) == 3 and a.a[1] in lids:
                    p = T("phi", a.a[1], a.a[2], "p")
                    m[a] = p
                    self.phi_defs.setdefault(p, set()).add(a)
        if m:
            self.substate(st, m)

    def untouch(self, v, lid):
        if v.k == "coll":
            if lid in v.a[6]:
                return mk("coll", *(v.a[:6] + (v.a[6] - {lid},)))
            return v
        if v.k == "agg":
            f = tuple(self.untouch(x, lid) for x in v.a[2])
            if any(x is not y for x, y in zip(f, v.a[2])):
                return agg(v.a[0], v.a[1], f)
        return v

    def leaveloop(self, st, lid, end):
        """A loop is left, because there are no more elements (end) or in the middle
        of an iteration."""
        own = self.loop_elems.get(lid, set())
        self.exhausted = end
        self.mon.exit(self, st, lid)
        end = end or not own        # iterations which are not about an element: none is missed
        m = {}
        for a in sorted(self.stateatoms(st), key=lambda y: y.id):
            if a.k == "t" and a.a[0] == "elem":
                base = subst(a.a[1], m) if m else a.a[1]
                if ekind(a) == "p" and a.a[3] == lid:
                    m[a] = T("elem", base, "g", *a.a[4:5])
                elif ekind(a) == "x" and a.a[3] == lid:
                    pass
                elif a in own and not end:
                    m[a] = T("elem", base, "x", lid)
        if m:
            self.substate(st, m)
        for k, v in st.store.items():
            nv = self.unmark(v, lid, end)
            if nv is not v:
                st.store[k] = nv

    def unmark(self, v, lid, end):
        if v.k == "coll":
            if ("b", lid) in v.a[6]:
                a = v.a
                tc = a[6] - {lid, ("b", lid)}
                if end:
                    return mk("coll", *(a[:6] + (tc,)))
                # filled by some of the iterations only
                return coll(a[0], a[1], a[2] | {EMPTY}, a[3], a[4], a[5], tc)
            return v
        if v.k == "agg":
            f = tuple(self.unmark(x, lid, end) for x in v.a[2])
            if any(x is not y for x, y in zip(f, v.a[2])):
                return agg(v.a[0], v.a[1], f)
        return v

    def guard(self, st, atoms):
        return self.mon.guard(self, st, atoms, frozenset(
            (t if colldepth(t) < 2 else shallow(t, atoms), f) for t, f in st.facts.items()
            if t.at and not t.at.isdisjoint(atoms) and not isinstance(f, tuple)
            and (colldepth(t) < 2 or t.a[0] in ("lt", "eq"))))

    def coverage(self, backs, lid):
        """Record, in collections filled by some iterations of the loop, the
        conditions under which an iteration adds nothing."""
        if len(backs) < 2:
            return
        els = self.loop_elems.get(lid, set())
        addrs = set()
        for b in backs:
            for k, v in b.store.items():
                for p in self.touched(v, (), lid):
                    addrs.add((k, p))
        for k, p in addrs:
            for b in backs:
                v = b.store.get(k)
                if v is None:
                    continue
                c = v
                for i in p:
                    c = c.a[2][i] if c.k == "agg" and i < len(c.a[2]) else None
                    if c is None:
                        break
                if c is None or c.k != "coll" or lid in c.a[6]:
                    continue
                g = self.guard(b, els)
                a = c.a
                n = mk("coll", a[0], a[1], a[2] | {g}, None, a[4], a[5], a[6])
                b.store[k] = self.setpath(v, p, n)

    def setpath(self, v, p, n):
        if not p:
            return n
        f = list(v.a[2])
        f[p[0]] = self.setpath(f[p[0]], p[1:], n)
        return agg(v.a[0], v.a[1], f)

    def touched(self, v, p, lid):
        if v.k == "coll":
            if lid in v.a[6]:
                yield p
        elif v.k == "agg" and len(p) < 4:
            for i, x in enumerate(v.a[2]):
                for q in self.touched(x, p + (i,), lid):
                    yield q

    def univfacts(self, backs, lid):
        """Facts about the current element common to all the iterations."""
        els = self.loop_elems.get(lid, set())
        if not els or not backs:
            return EMPTY
        com = None
        for b in backs:
            f = {(t, v) for t, v in b.facts.items() if t.at and not t.at.isdisjoint(els) and not isinstance(v, tuple)
                 and not self.phiof(t, lid) and colldepth(t) < 3}
            com = f if com is None else com & f
        m = {}
        for a in sorted(els, key=lambda y: y.id):
            m[a] = T("elem", subst(a.a[1], m) if m else a.a[1], "g")
        return frozenset((EMPTY, subst(t, m), v) for t, v in com)

    # ---- execution --------------------------------------------------------------------
    def call_body(self, st, fr, blk, key, args, env):
        """Analyse a function of the crate inline: [(state, value)]."""
        if key in self.stack:
            self.recursive.add(key)
            vs = [self.deref(st, a) for a in args]
            for a in args:
                if a.k == "mref":
                    self.storeto(st, a.a, T("rec", key, self.deref(st, a)))
            return [(st, T("rec", key, *vs))]
        body = self.P.bodies[key]
        fid = ((fr.fid if fr is not None else 0), blk, key)
        fid = self.frames.setdefault(fid, len(self.frames) + 1)
        f = Frame()
        f.fid, f.key, f.body, f.env, f.parent, f.callblk = fid, key, body, env, fr, blk
        self.framebody[fid] = body
        self.visited.add(key)
        self.stats["calls"] += 1
        self.mon.call(self, st, f, key, args, (fr, blk))
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
            self.note(f, i + 1, a)
        self.stack.append(key)
        self.reached.add(key)
        try:
            outs, backs = self.run_region(f, {0: [st]}, None, None)
        finally:
            self.stack.pop()
        res = []
        for s in outs.get("ret", []):
            v = s.store.get((fid, 0), UNIT)
            v = self.deref(s, v) if v.k == "mref" and v.a[0][0] == fid else v
            for k in [k for k in s.store if k[0] == fid]:
                del s.store[k]
            res.append((s, v))
        res = self.dedup(res)
        for s, v in res:
            self.mon.leave(self, s, f, key, args, v, (fr, blk))
        return res

    def dedup(self, res):
        out = []
        for s, v in res:
            for t, w in out:
                if v is w and s.same(t):
                    break
            else:
                out.append((s, v))
        if len(out) > self.maxst:
            groups = {}
            for s, v in out:
                shape = (self.pkey(s), v.a[0] if v.k == "agg" else None, v.a[1] if v.k == "agg" else None)
                groups.setdefault(shape, []).append((s, v))
            out = []
            for g in groups.values():
                s, v = g[0]
                for t, w in g[1:]:
                    v = self.join(v, w, ("ret",), ("ret", self.stack[-1] if self.stack else ""))
                    s = self.merge2(s, t, ("ret", 0), False)
                out.append((s, v))
        return out

    def note(self, fr, local, v):
        if v.k != "t":
            return
        t = self.P.types[fr.body["locals"][local]["t"]]
        n = self.arrlen(fr, t)
        if n is not None:
            note_len(v, n)

    def arrlen(self, fr, t):
        while t["k"] == "ref":
            t = self.P.types[t["t"]]
        if t["k"] == "array":
            n = t.get("n", t.get("len"))
            if isinstance(n, int):
                return C(n)
            return self.cname(fr, str(n))
        if t["k"] == "adt":
            ad = self.P.adts.get(t["adt"])
            if t["adt"].endswith("edx::structs::Token"):
                return self.cname(fr, "TOKEN_LENGTH")
        return None

    def compactst(self, sts):
        if len(sts) < 2:
            return sts
        out = []
        for s in sts:
            for t in out:
                if s.same(t):
                    break
            else:
                out.append(s)
        if len(out) > self.maxst:
            groups = {}
            for s in out:
                groups.setdefault((self.pkey(s), self.branches(s)), []).append(s)
            if len(groups) > self.maxst:
                groups = {}
                for s in out:
                    groups.setdefault(self.pkey(s), []).append(s)
            out = []
            for g in groups.values():
                s = g[0]
                for t in g[1:]:
                    s = self.merge2(s, t, ("cap", 0), False)
                out.append(s)
        return out

    def run_region(self, fr, pend, region, head):
        cfg = self.cfg(fr.key)
        outs, backs = {}, []

        def route(nb, s):
            if nb == "ret":
                outs.setdefault("ret", []).append(s)
            elif nb == head:
                backs.append(s)
            elif region is None or nb in region:
                pend.setdefault(nb, []).append(s)
            else:
                outs.setdefault(nb, []).append(s)
        started = False
        while pend:
            b = min(pend, key=lambda x: cfg.rpo.get(x, 1 << 30))
            sts = self.compactst(pend.pop(b))
            if b in cfg.loops and b != head:
                o = self.run_loop(fr, b, sts)
                for nb, ss in o.items():
                    for s in ss:
                        route(nb, s)
                continue
            for s in sts:
                for nb, s2 in self.exec_block(fr, b, s):
                    route(nb, s2)
        return outs, backs

    def run_loop(self, fr, h, sts):
        lid = (fr.fid, h)
        body = self.cfg(fr.key).loops[h]
        self.push(lid)
        self.loop_elems.pop(lid, None)
        try:
            sts = [s.copy() for s in sts]
            for s in sts:
                for k, v in s.store.items():
                    s.store[k] = self.untouch(v, lid)
            heads = self.mergeloop({}, sts, lid, False)
            for it in range(40):
                pend = {h: [s.copy() for s in heads.values()]}
                outs, backs = self.run_region(fr, pend, body, h)
                new = self.mergeloop(heads, backs, lid, 2 if it > 25 else it > 8)
                if len(new) == len(heads) and all(k in heads and new[k].same(heads[k]) for k in new):
                    uf = self.univfacts(backs, lid)
                    if uf:
                        for nb, ss in outs.items():
                            for s in ss:
                                # only exits through exhaustion of the iterator
                                if s.h.get("#end") == lid:
                                    s.univ = s.univ | uf
                    for ss in outs.values():
                        for s in ss:
                            end = s.h.get("#end") == lid
                            if end:
                                del s.h["#end"]
                            self.leaveloop(s, lid, end)
                    return outs
                heads = new
            self.notes.append("loop %s of %s did not stabilise" % (h, fr.key))
            return outs
        finally:
            self.active.pop()

    def exec_block(self, fr, b, st):
        self.stats["blocks"] += 1
        if self.stats["blocks"] > self.budget:
            raise Budget()
        bl = fr.body["blocks"][b]
        for s in bl["s"]:
            if s[0] == "=":
                place = s[1]
                dty = fr.body["locals"][place[0]]["t"] if not place[1] else None
                self.curblk = b
                v = self.rvalue(st, fr, s[2], dty)
                self.assign(st, fr, place, v)
            elif s[0] == "dead":
                st.store.pop((fr.fid, s[1]), None)
            elif s[0] == "sd":
                a = self.addr(st, fr, s[1])
                v = self.load(st, a)
                if v.k == "agg":
                    self.storeto(st, a, agg(v.a[0], s[2], v.a[2]))
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "drop":
            return self.drop(st, fr, b, t)
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            self.mon.asrt(self, st, fr, b, t["m"], c, t["e"])
            return [(t["t"], s) for s in self.assume(st, c, 1 if t["e"] else 0)]
        if k == "call":
            return self.call(st, fr, b, t)
        if k == "yield":
            return []
        return []

    def assign(self, st, fr, place, v):
        a = self.addr(st, fr, place)
        if not place[1]:
            self.note(fr, place[0], v)
            st.store[a[0]] = v
        else:
            self.storeto(st, a, v)

    def drop(self, st, fr, b, t):
        place = t["p"]
        a = self.addr(st, fr, place)
        v = st.store.get(a[0])
        if v is not None and not a[1]:
            self.models.dropval(st, v, (fr, b))
            st.store.pop(a[0], None)
        return [(t["t"], st)]

    def switch(self, st, fr, t):
        v = self.deref(st, self.operand(st, fr, t["op"]))
        tg = [(x[0], x[1]) for x in t["v"]]
        return self.doswitch(st, v, tg, t["o"])

    def doswitch(self, st, v, tg, other):
        if is_int(v):
            for x, b in tg:
                if int(x) == v.a[1]:
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        if v.k == "alt" or (is_t(v, "discr") and v.a[1].k == "alt") or (is_t(v, "not") and v.a[1].k == "alt"):
            al = v if v.k == "alt" else v.a[1]
            out = []
            for x in sorted(al.a[1], key=lambda y: y.id):
                s = st.copy()
                self.replace(s, al, x)
                if is_t(v, "discr"):
                    nv = C(self.discrval(x.a[0], x.a[1])) if self.isenumv(x) else T("discr", x)
                elif is_t(v, "not"):
                    nv = self.bnot(x)
                else:
                    nv = x
                out += self.doswitch(s, nv, tg, other)
            return out
        if len(tg) == 1 and int(tg[0][0]) == 0 and not is_t(v, "discr"):
            out = [(tg[0][1], s) for s in self.assume(st.copy(), v, 0)]
            if other is not None:
                out += [(other, s) for s in self.assume(st, v, 1)]
            return out
        f = st.facts.get(v)
        out = []
        seen = set()
        for x, b in tg:
            x = int(x)
            seen.add(x)
            if isinstance(f, int) and f != x:
                continue
            if isinstance(f, tuple) and x in f[1]:
                continue
            s = st.copy()
            s.facts[v] = x
            out.append((b, s))
        if other is not None:
            if isinstance(f, int):
                if f not in seen:
                    out.append((other, st))
            else:
                ns = seen | (set(f[1]) if isinstance(f, tuple) else set())
                s = st
                # two-variant enums: the remaining variant is known
                if is_t(v, "discr") and ns in ({0}, {1}):
                    s.facts[v] = 1 - next(iter(ns)) if self.twovar(v) else ("not", frozenset(ns))
                else:
                    s.facts[v] = ("not", frozenset(ns))
                out.append((other, s))
        return out

    def twovar(self, v):
        return True

    def call(self, st, fr, b, t):
        f = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["a"]]
        dty = t.get("dt")
        try:
            rs = self.apply(st, fr, b, f, args, dty)
        except Diverge:
            rs = []
        out = []
        if t.get("t") is None:
            return []
        for s, v in rs:
            if isinstance(v, Back):
                # an element was skipped: take the next one
                h = self.cfg(fr.key).innermost(b)
                if h is not None:
                    for i, a in enumerate(t["a"]):
                        if a[0] == "mv" and not a[1][1]:
                            s.store.setdefault((fr.fid, a[1][0]), args[i])
                    out.append((h, s))
                continue
            self.assign(s, fr, t["d"], v)
            out.append((t["t"], s))
        return out

    def apply(self, st, fr, b, f, args, dty):
        """Call the function value f: [(state, value)]."""
        if f.k == "fn":
            fn = json.loads(f.a[0])
            return self.models.callfn(st, fr, b, fn, args, dty)
        return self.callval(st, fr, b, f, args, dty)

    def callval(self, st, fr, b, f, args, dty=None, tag=None):
        """Call a closure or function value with untupled arguments."""
        f0 = f
        f = self.deref(st, f)
        blk = b if tag is None else (b, tag)
        if f.k == "fn":
            return self.models.callfn(st, fr, blk, json.loads(f.a[0]), args, dty)
        if f.k == "agg" and f.a[0].startswith("closure:"):
            key = f.a[0][8:]
            if key in self.P.bodies:
                env = dict(f.a[1]) if f.a[1] else {}
                self_arg = f0 if f0.k == "mref" else f
                return self.call_body(st, fr, blk, key, [self_arg] + list(args), env)
        if f.k == "alt":
            out = []
            for x in sorted(f.a[1], key=lambda y: y.id):
                s = st.copy()
                self.replace(s, f, x)
                out += self.callval(s, fr, b, x, args, dty, tag)
            return out
        return self.models.callback(st, fr, blk, f, args, dty)

    # ---- loops of the library ---------------------------------------------------------
    def lloop(self, st, site, pull, body):
        """Fixpoint of a loop run by a library function.
        pull(state) -> [(state, 'end'|'skip'|'elem', V)]; body(state, V) -> [(state, ctl, value)]
        with ctl 'next' or 'break'.  Returns (exits, breaks)."""
        lid = ("l",) + self.sid(site)
        self.push(lid)
        self.loop_elems.pop(lid, None)
        try:
            s = st.copy()
            for k, v in s.store.items():
                s.store[k] = self.untouch(v, lid)
            heads = self.mergeloop({}, [s], lid, False)
            for it in range(40):
                exits, breaks, backs = [], [], []
                for h in heads.values():
                    for s, what, v in pull(h.copy(), lid):
                        if what == "end":
                            exits.append(s)
                        elif what == "skip":
                            backs.append(s)
                        else:
                            for s2, ctl, r in body(s, v):
                                if ctl == "next":
                                    backs.append(s2)
                                else:
                                    breaks.append((s2, r))
                new = self.mergeloop(heads, backs, lid, 2 if it > 25 else it > 8)
                if len(new) == len(heads) and all(k in heads and new[k].same(heads[k]) for k in new):
                    break
                heads = new
            else:
                self.notes.append("library loop did not stabilise")
            uf = self.univfacts(backs, lid)
            for s in exits:
                if uf:
                    s.univ = s.univ | uf
                self.leaveloop(s, lid, True)
            for i, (s, r) in enumerate(breaks):
                s.store[("brk", "r")] = r if isinstance(r, V) else UNIT
                self.leaveloop(s, lid, False)
                x = s.store.pop(("brk", "r"))
                breaks[i] = (s, x if isinstance(r, V) else r)
            return exits, breaks
        finally:
            self.active.pop()

    def bind(self, lid, atoms):
        """Instantiate the bound variables among atoms for the current iteration of
        the loop: ({generic or past atom: current atom}, current atoms)."""
        outer = set()
        for l in self.active:
            if l == lid:
                break
            outer |= self.loop_elems.get(l, set())
        inst = {}
        for a in sorted((a for a in atoms if a.k == "t" and a.a[0] == "elem" and ekind(a) in ("g", "p")), key=lambda y: y.id):
            base = subst(a.a[1], inst) if inst else a.a[1]
            c = T("elem", base)
            d = len(a.a) > 3 and ekind(a) == "g" or len(a.a) > 4
            if ekind(a) == "p" or d or c in outer:
                c = T("elem", base, "i", lid, d)
            inst[a] = c
        own = frozenset(inst.values())
        if own:
            self.loop_elems.setdefault(lid, set()).update(own)
            for l in self.active:
                if l == lid:
                    break
                self.inner_elems.setdefault(l, set()).update(own)
        return inst, own

    def push(self, lid):
        for l in self.active:
            self.inner_lids.setdefault(l, set()).add(lid)
        self.active.append(lid)
        self.stats["loops"] += 1

    # ---- entry points ------------------------------------------------------------------
    def run(self, key, args=None, env=None, st=None):
        """Analyse a root function; coroutines returned by it are run to completion.
        Returns [(state, value)]."""
        body = self.P.bodies[key]
        if args is None:
            args = []
            for i in range(body["args"]):
                n = body["locals"][i + 1].get("n") or "a%d" % i
                args.append(self.param(body, i + 1, n))
        st = st or State()
        f = None
        for i, a in enumerate(args):
            if a.k == "mref" and a.a[0] not in st.store:
                st.store[a.a[0]] = T("param", a.a[0][1])
        res = self.call_body(st, None, 0, key, args, env or {})
        out = []
        for s, v in res:
            if v.k == "agg" and v.a[0].startswith("coroutine:"):
                out += self.poll(s, None, 1, v)
            else:
                out.append((s, v))
        for s, v in out:
            self.mon.ret(self, s, key, v)
        return out

    def param(self, body, local, name):
        t = self.P.types[body["locals"][local]["t"]]
        if t["k"] == "ref" and t["mut"]:
            return mref(("P", name))
        v = T("param", name)
        n = self.arrlen(None, t)
        if n is not None:
            note_len(v, n)
        return v

    def poll(self, st, fr, blk, fut, dty=None):
        """Run a future to completion: [(state, output)]."""
        fut = self.deref(st, fut)
        if fut.k == "agg" and fut.a[0].startswith("coroutine:"):
            key = fut.a[0][10:]
            env = dict(fut.a[1]) if fut.a[1] else {}
            return self.call_body(st, fr, (blk, "p"), key, [fut, T("ctx")], env)
        if is_t(fut, "fut"):
            return self.models.perform(st, fr, blk, fut, dty)
        if fut.k == "alt":
            out = []
            for x in sorted(fut.a[1], key=lambda y: y.id):
                s = st.copy()
                self.replace(s, fut, x)
                out += self.poll(s, fr, blk, x, dty)
            return out
        return self.models.opaque_await(st, fr, blk, fut, dty)

    # ---- provenance ----------------------------------------------------------------------
    def leaves(self, v, seen=None):
        """Atoms a value depends on, through the definitions of loop variables."""
        out = set()
        seen = set()
        work = [v]
        while work:
            x = work.pop()
            if isinstance(x, (tuple, frozenset)):
                work.extend(x)
                continue
            if not isinstance(x, V) or x in seen:
                continue
            seen.add(x)
            for a in x.at:
                if a in seen and a is not x:
                    continue
                if a.k == "alt":
                    work.extend(a.a[1])
                    continue
                out.add(a)
                if a.a[0] == "phi":
                    work.extend(self.phi_defs.get(a, ()))
                elif a.a[0] in ("elem",):
                    work.append(a.a[1])
                seen.add(a)
        return out

    def subterms(self, v, through_phi=True):
        """All the values reachable in v."""
        seen = set()
        work = [v]
        while work:
            x = work.pop()
            if isinstance(x, (tuple, frozenset)):
                work.extend(x)
                continue
            if not isinstance(x, V) or x in seen:
                continue
            seen.add(x)
            work.extend(y for y in x.a if isinstance(y, (V, tuple, frozenset)))
            if through_phi and is_t(x, "phi"):
                work.extend(self.phi_defs.get(x, ()))
        return seen


class Back(object):
    """Marker: the element was filtered out, iterate again."""


BACK = Back()

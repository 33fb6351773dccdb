"""Hygiene of keys and seeds (P28, P29)."""
import vals as VL
import taint
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, forms


class Wiped(Monitor):
    """What a drop leaves in a value."""

    def __init__(self):
        self.ends, self.calls, self.each, self.all = [], 0, False, True

    def ext(self, e, st, fr, name, args, site):
        if name == "zeroize":
            self.calls += 1
            if args[0].k == "mref" and args[0].a[1] == (("any",),):
                v = e.deref(st, args[0])
                if is_t(v, "elem") and v.a[1] is T("param", "self"):
                    self.each = True

    def exit(self, e, st, lid):
        if not e.exhausted:
            self.all = False

    def ret(self, e, st, key, val):
        self.ends.append(st.store.get(("P", "self")))


def wiped_type(c, TT, i, d=0):
    """Types which wipe themselves when dropped."""
    t = c.P.types[i]
    if t["k"] == "alias":
        return last(t["def"]) in ("Seed", "Key")
    if t["k"] == "array":
        return wiped_type(c, TT, t["t"], d + 1)
    if t["k"] == "tuple":
        return all(wiped_type(c, TT, x, d + 1) for x in t["ts"])
    if t["k"] == "adt":
        n = t["adt"]
        if last(n) in taint.KEYS + ("Zeroizing",) or n in TT.wiped:
            return True
        if last(n) in ("Box", "Option", "Vec"):
            return any("t" in x and wiped_type(c, TT, x["t"], d + 1) for x in t.get("args", []))
        if last(n) == "PhantomData":
            return True
    return False


def drop_of(c, adt):
    for im in c.P.impls:
        tr = (im.get("trait") or "").split("<")[0]
        if last(tr) == "Drop" and c.P.types[im["self"]].get("adt") == adt:
            for x in im["items"]:
                if x[0] == "drop":
                    return x[1]
    return None


@rule("P28")
def wiped(c):
    """every type holding a key or a seed wipes the whole of it when dropped, on every path, or is only made of types which do"""
    TT = taint.Types(c.P)
    n = 0
    types = {a for a in TT.wiped if a}
    for s, ms, im in c.methods("DxEnc"):
        for m in ("gen_seed", "derive_keys"):
            b = c.P.bodies.get(ms.get(m))
            if not b:
                continue
            i = b["locals"][0]["t"]
            n += 1
            if not wiped_type(c, TT, i):
                c.viol("unwiped:" + c.P.tystr(i), c.P.loc(b["span"]), "%s returns a %s, which is not wiped when it is dropped" % (m, c.P.tystr(i)))
    c.count("key and seed generators", n)
    c.floor("key and seed generators", 2)
    for adt in sorted(types):
        a = c.P.adts.get(adt)
        if not a:
            continue
        c.count("types holding secrets")
        key = drop_of(c, adt)
        where = c.P.loc(a.get("span"))
        fields = [f for v in a["variants"] for f in v["f"]]
        if key is None or key not in c.P.bodies:
            for f in fields:
                if not wiped_type(c, TT, f["t"]):
                    c.viol("field:%s.%s" % (last(adt), f["n"]), where,
                           "the field %s of %s, of type %s, is left in memory when the value is dropped" % (f["n"], last(adt), c.P.tystr(f["t"])))
            continue
        m = Wiped()
        e, _ = c.run(key, m)
        if not m.ends:
            c.viol("drop:" + last(adt), where, "the drop of %s does not end" % last(adt))
        for v in m.ends:
            for i, f in enumerate(fields):
                if wiped_type(c, TT, f["t"]):
                    continue
                x = v if len(fields) == 1 and v is not None and v.k != "agg" else VL.fld(v, None, i) if v is not None else None
                c.count("fields wiped")
                if m.each and m.all and x is not None and is_t(x, "phi") and not partial(c, e):
                    continue
                if x is None or not (is_t(x, "rep") and is_int(x.a[1]) and x.a[1].a[1] == 0 and (x.a[2] is VL.length(T("param", "self")) or c.P.types[f["t"]]["k"] == "array" and whole(x))):
                    c.viol("drop:%s.%s" % (last(adt), f["n"]), c.P.loc(c.P.bodies[key]["span"]),
                           "dropping a %s leaves its field %s (%s)" % (last(adt), f["n"], "unchanged" if x is None else sh(x, 100)))
        if not m.calls:
            c.viol("drop:%s:zeroize" % last(adt), c.P.loc(c.P.bodies[key]["span"]), "dropping a %s does not wipe it with zeroize (plain writes are removed by the compiler)" % last(adt))
    c.floor("types holding secrets", 2)


def partial(c, e):
    """Does an iteration leave some elements out?"""
    for k in getattr(e, "reached", ()):
        for bl in c.P.bodies[k]["blocks"] if k in c.P.bodies else ():
            if bl["t"]["k"] == "call" and taint.name(bl["t"]) in ("skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map", "nth", "map_while"):
                return True
    return False


def whole(x):
    n = x.a[2]
    return is_t(n, "len") and not is_t(n.a[1], "slice")


FORGET = ("forget", "leak", "into_raw", "transmute", "transmute_copy", "into_raw_parts")


def bodies(c, fmt=False):
    for k, b in sorted(c.P.bodies.items()):
        if b.get("derived"):
            continue
        yield k, b


def taints(c):
    """Taint of each body: captured and passed bytes included."""
    TT = taint.Types(c.P)
    cap, par, rets = {}, {}, set()
    res, todo, rounds = {}, True, 0
    while todo and rounds < 6:
        todo, rounds = False, rounds + 1
        for k, b in bodies(c):
            t = taint.Taint(TT, b, cap.get(k, ()), par.get(k, ()), rets)
            res[k] = t
            if 0 in t.hot and t.hot[0] == "bytes" and k not in rets and last((b.get("trait") or "").split("<")[0]) not in ("AsRef", "AsMut", "Deref", "From", "Into"):
                rets.add(k)
                todo = True
            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg":
                        d = c.P.types[b["locals"][s[1][0]]["t"]]
                        if d["k"] in ("closure", "coroutine"):
                            for i, x in enumerate(s[2][2]):
                                ps = list(taint.places([x]))
                                if ps and t.hot.get(ps[0][0]) == "bytes" and i not in cap.setdefault(d["def"], set()):
                                    cap[d["def"]].add(i)
                                    todo = True
                x = bl["t"]
                if x["k"] == "call" and not bl["cleanup"]:
                    key = taint.callee(x)
                    if key in c.P.bodies:
                        for i, a in enumerate(x["a"]):
                            ps = list(taint.places([a]))
                            if ps and t.tainted(ps[0]) and TT.bytes(c.P.bodies[key]["locals"][i + 1]["t"] if i + 1 < len(c.P.bodies[key]["locals"]) else 0):
                                if i + 1 not in par.setdefault(key, set()):
                                    par[key].add(i + 1)
                                    todo = True
    return TT, res


@rule("P28")
def never_forgotten(c):
    """no key or seed is forgotten, leaked, or copied to a buffer which is not wiped (but to encode an entry)"""
    TT, res = taints(c)
    entry = c.P.constint("ENTRY_LENGTH")
    for k, t in sorted(res.items()):
        b = c.P.bodies[k]
        for bl in b["blocks"]:
            x = bl["t"]
            if x["k"] != "call" or bl["cleanup"]:
                continue
            f = taint.fn(x)
            c.count("calls")
            if taint.name(x) in FORGET or "ManuallyDrop" in f.get("path", "") or "MaybeUninit" in f.get("path", ""):
                if any("t" in a and TT.secret(a["t"]) for a in f.get("args", [])) or any(t.tainted(p) for p in taint.places(x["a"])):
                    c.viol("forget:" + k, c.P.loc(bl["sp"]), "a key or a seed is never dropped: %s" % f.get("path"))
        if last((b.get("trait") or "").split("<")[0]) in ("Display", "Debug"):
            continue
        for n, h in sorted(t.hot.items()):
            i = b["locals"][n]["t"]
            ty = c.P.types[i]
            if h != "bytes" or not TT.owned(i) or (ty["k"] == "array" and str(ty.get("n")) in (str(entry), "ENTRY_LENGTH")):
                continue
            c.viol("copy:%s:%s" % (k, c.P.tystr(i)), c.P.loc(b["span"]), "bytes of a key or a seed are copied to a %s, which is not wiped" % c.P.tystr(i))
    c.floor("calls", 300)


def sink(f):
    p = f.get("path", "")
    return p.startswith("core::fmt::rt::Argument") or p.startswith("std::fmt::rt::Argument") or p.startswith("tracing::") or p.startswith("tracing_core::") or p.startswith("log::") \
        or "to_string" == last(p) or p.startswith("std::fmt::Formatter") or p.startswith("core::fmt::Formatter") or "eprint" in p


@rule("P29")
def never_logged(c):
    """no log, message or error is computed from a key, a seed, or bytes of one"""
    TT, res = taints(c)
    for k, t in sorted(res.items()):
        b = c.P.bodies[k]
        tr = last((b.get("trait") or "").split("<")[0])
        own = tr in ("Display", "Debug")
        for bl in b["blocks"]:
            if bl["cleanup"]:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and is_error(c, b, s[1]):
                    c.count("errors built")
                    if any(t.tainted(p) for p in taint.places(s[2])):
                        c.viol("error:" + k, c.P.loc(s[3] if len(s) > 3 else bl["sp"]), "an error is built from bytes of a key or a seed")
            x = bl["t"]
            if x["k"] != "call":
                continue
            f = taint.fn(x)
            if f.get("ctor") is not None or f.get("variant") is not None:
                if is_error(c, b, x["d"]):
                    c.count("errors built")
                    if any(t.tainted(p) for p in taint.places(x["a"])):
                        c.viol("error:" + k, c.P.loc(bl["sp"]), "an error is built from bytes of a key or a seed")
                continue
            if not sink(f):
                continue
            c.count("values formatted")
            if own and TT.secret(b["self"]):
                continue
            bad = any(t.tainted(p) for p in taint.places(x["a"]))
            bad = bad or any("t" in a and secret_shown(c, TT, a["t"]) for a in f.get("args", [])) or "self" in f and secret_shown(c, TT, f["self"])
            if bad:
                c.viol("fmt:" + k, c.P.loc(bl["sp"]), "a key, a seed or their bytes are formatted by %s" % last(f.get("path", "?")))
    c.floor("values formatted", 15)


def secret_shown(c, TT, i):
    return TT.secret(i)


def is_error(c, b, place):
    t = c.P.types[b["locals"][place[0]]["t"]]
    return t["k"] == "adt" and (last(t["adt"]) == "Error" or last(t["adt"]).endswith("Error"))


class Locks(Monitor):
    """Locks held on each path."""

    def __init__(self, c, name):
        self.c, self.name, self.bad, self.order, self.n = c, name, {}, {}, 0

    def report(self, e, site, kind, text):
        w = e.where(site)
        self.bad.setdefault((kind, w.split(":")[0]), (w, text))

    def ext(self, e, st, fr, name, args, site):
        if name not in ("lock", "unlock"):
            return
        held = st.h.get("held", ())
        m = args[0]
        if name == "unlock":
            st.h["held"] = tuple(x for x in held if x is not m)
            return
        self.n += 1
        if any(x is m for x in held):
            self.report(e, site, "twice", "%s is locked while this task already holds its lock: it waits for itself forever" % sh(m, 60))
            return
        for x in held:
            self.order.setdefault((x, m), e.where(site))
        st.h["held"] = held + (m,)

    def event(self, e, st, name, args, site):
        self.c.count("awaited calls")
        held = st.h.get("held", ())
        if held:
            self.report(e, site, "await", "the lock of %s is held while %s is awaited: another task using it blocks the executor" % (sh(held[0], 60), name))

    def ret(self, e, st, key, val):
        if st.h.get("held", ()) and not hands_guard(self.c, self.root):
            self.c.viol("kept:" + self.name, self.name, "the lock of %s is not released when %s ends" % (sh(st.h["held"][0], 60), self.name))


def hands_guard(c, key):
    """The function returns the guard of a lock: it is its callers', all of which are interpreted too, to release it."""
    def go(t, d):
        x = c.P.types[t]
        return "Guard" in str(x.get("adt") or "").split("::")[-1] or d > 0 and any(go(y, d - 1) for y in subtypes(x))
    return go(c.P.bodies[key]["locals"][0]["t"], 3)


def subtypes(x):
    for y in x.get("args", []) + x.get("ts", []) + [x.get("t")]:
        y = y.get("t") if isinstance(y, dict) else y
        if isinstance(y, int):
            yield y


@rule("P27")
def locks(c):
    """no lock is taken while it is held, nor held when the backend or a callback is awaited; all are released at the end, and taken in one order"""
    roots = [("Index::" + m, c.root("Index", m)) for m in ("keygen", "search", "add", "delete", "compact")]
    tables = set()
    for s, ms, im in c.methods("DbInterface"):
        tables.add(c.P.types[im["self"]].get("adt"))
    for im in c.P.impls:
        if c.P.types[im["self"]].get("adt") in tables and tables != {None}:
            for x in im["items"]:
                if x[1] in c.P.bodies and not im.get("derived"):
                    roots.append((x[1], x[1]))
    order, n = {}, 0
    for name, key in roots:
        m = Locks(c, name)
        c.run(key, m)
        n += m.n
        for k, w in m.order.items():
            order.setdefault(k, w)
        for (kind, f), (w, text) in sorted(m.bad.items()):
            c.viol("%s:%s:%s" % (last(name), kind, f), w, "%s: %s" % (name, text))
    for (a, b), w in sorted(order.items(), key=lambda q: q[1]):
        if (b, a) in order:
            c.viol("order:" + w, w, "%s is locked while %s is held here, and the other way round at %s" % (sh(b, 60), sh(a, 60), order[(b, a)]))
    c.count("locks taken", n)
    c.count("roots", len(roots))
    c.floor("locks taken", 10)
    c.floor("awaited calls", 10)


class Draws(Monitor):
    """The draws of the lines to compact, and what is selected in the end."""

    def __init__(self):
        self.draws, self.sel, self.within, self.put = [], [], {}, {}

    def ext(self, e, st, fr, name, args, site):
        if name.startswith("RngCore::next_") or name.startswith("Rng::"):
            loops = [x for l in e.active for x in e.loop_elems.get(l, ())]
            self.draws.append((site, loops, st.copy()))
            self.within[e.sid(site)] = tuple(e.active)
        elif name == "HashSet::insert":
            self.put[args[1]] = tuple(e.active)

    def event(self, e, st, name, args, site):
        if name == "GC.prepare":
            self.sel.append((site, args))


def listed(x):
    return is_t(x, "resp") and x.a[1] == "GC.list"


def number(x, n, rate):
    """Value of the extracted number of draws (None if it is made of something else)."""
    import math
    import struct
    r = lambda y: number(y, n, rate)
    if is_int(x):
        v = x.a[1]
        return struct.unpack("<d", struct.pack("<Q", v))[0] if v > 1 << 52 else float(v)
    if x.k == "lin":
        s = r(C(x.a[0])) if isinstance(x.a[0], int) else None
        for t, k in x.a[1]:
            y = r(t)
            if y is None or s is None:
                return None
            s += k * y
        return s
    if x.k != "t":
        return None
    if is_t(x, "len") and listed(x.a[1]):
        return float(n)
    if is_t(x, "param"):
        return rate
    if x.a[0] in ("mul", "bin", "call"):
        op = "Mul" if x.a[0] == "mul" else x.a[1]
        a = [r(y) for y in x.a[1 if x.a[0] == "mul" else 2:] if isinstance(y, V)]
        if any(y is None for y in a):
            return None
        op = str(op).split("::")[-1].lower()
        try:
            return {"mul": lambda: math.prod(a), "div": lambda: a[0] / a[1], "add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul_add": lambda: a[0] * a[1] + a[2],
                    "log2": lambda: math.log2(a[0]), "ln": lambda: math.log(a[0]), "log10": lambda: math.log10(a[0]), "log": lambda: math.log(a[0], a[1]), "sqrt": lambda: math.sqrt(a[0]),
                    "ceil": lambda: math.ceil(a[0]), "floor": lambda: math.floor(a[0]), "round": lambda: float(round(a[0])), "min": lambda: min(a), "max": lambda: max(a),
                    "trunc": lambda: math.trunc(a[0])}[op]()
        except (KeyError, IndexError, ValueError, ZeroDivisionError):
            return None
    return None


def reference(n, rate):
    """Draws of a coupon collector over n lines, in bits, spread over 1 / rate compactions."""
    import math
    return (n * (math.log2(n) + 0.5772) + 0.5) * rate


@rule("P36")
def selection(c):
    """the lines compacted are drawn one by one in the whole list, as many times as the rate asks, or are all of them"""
    import bounds
    from rules4 import GL
    root = c.root("Index", "compact")
    m = Draws()
    e, res = c.run(root, m, opaque=GL)
    rate = [T("param", l["n"]) for l in c.P.bodies[root]["locals"] if l.get("n") and c.P.tystr(l["t"]) == "f64"] if root else []
    for site, args in m.sel:
        w = e.where(site)
        sel = [a for a in args if a.k == "coll" or is_t(a, "phi") or listed(a)][-1:]
        for v in [x for a in args[1:] for x in forms(e, a) if x.k == "coll" and x.a[0] == "set"]:
            if any(is_t(x, "slice") for g, x in v.a[1]):
                continue
            whole = any(is_t(x, "elem") and listed(x.a[1]) for g, x in v.a[1])
            if v.a[2] and not whole:
                c.viol("left out", w, "a line drawn may be left out of the selection: " + sh(v))
            for g, x in v.a[1]:
                c.count("lines selected")
                if is_t(x, "elem") and listed(x.a[1]):
                    continue
                if not (is_t(x, "idx") and listed(x.a[1])):
                    continue
                if not drawn(e, m, x):
                    c.viol("index", w, "the position of a line is not drawn, each time, among all the lines: " + sh(x.a[2], 200))
                for t, b in g:
                    if not (is_t(t, "lt") and t.a[1] is x.a[2] or is_t(t, "contains") and not b and x in forms(e, t.a[2])):
                        c.viol("guard", w, "a line drawn is selected only if " + sh(t, 160))
    counted, uncounted = set(), {}
    for site, loops, st in m.draws:
        w = e.where(site)
        rs = [x.a[1] for x in loops if is_t(x, "elem") and is_t(x.a[1], "range")]
        c.count("draws")
        if not rs:
            rs = [T("range", C(0), t.a[2]) for t, b in st.facts.items() if t.k == "t" and t.a[0] == "lt" and b == 1 and (t.a[1].k == "alt" or is_int(t.a[1]) or is_t(t.a[1], "phi"))]
        if not rs:
            uncounted.setdefault(e.sid(site), w)
            continue
        counted.add(e.sid(site))
        lo, hi = rs[-1].a[1], rs[-1].a[2]
        n = VL.sub(hi, lo)
        lens = [x for x in e.subterms(n) if is_t(x, "len") and listed(x.a[1])]
        if not any(x is p for x in e.subterms(n) for p in rate):
            c.viol("rate", w, "the number of draws, %s, does not depend on the compacting rate" % sh(n, 160))
            continue
        if not lens:
            c.viol("number", w, "the number of draws, %s, does not depend on the number of lines" % sh(n, 160))
            continue
        if not bounds.prove(e, st, VL.sub(VL.sub(lens[0], n), C(1))):
            c.viol("all", w, "lines are drawn although there are as many draws as lines: all should be selected")
        for k, r in ((100, 0.05), (1000, 0.01), (4096, 0.02), (37, 0.1), (1 << 20, 0.001)):
            v = number(n, k, r)
            if v is None:
                c.notes.append("the number of draws is not a known function: " + sh(n, 120))
                break
            c.count("values compared")
            if abs(v - reference(k, r)) > 0.01:
                c.viol("number", w, "%.2f lines are drawn among %d at the rate %s, where %.2f are expected" % (v, k, r, reference(k, r)))
                break
    for k, w in uncounted.items():
        if k not in counted:
            c.viol("draws", w, "the lines are not drawn in a counted loop")
    c.floor("draws", 1)
    c.floor("lines selected", 2)


def drawn(e, m, v):
    """Is the index a fresh draw, of the current iteration, spread over all the lines?"""
    lines, i = v.a[1], v.a[2]
    n = VL.length(lines)
    if is_t(i, "bin") and i.a[1] == "Rem" and i.a[3] is n:
        x = i.a[2]
    elif is_t(i, "bin") and i.a[1] == "Shr" and any(y is n for y in e.subterms(i)):
        x = [y for y in e.subterms(i) if is_t(y, "fresh")]
        x = x[0] if len(x) == 1 else i
    else:
        return False
    if not is_t(x, "fresh"):
        return False
    if any(is_t(y, "elem") and is_t(y.a[1], "range") for y in (x.a[4] if len(x.a) > 4 else ())):
        return True
    return any(same(e, k, v) and m.within.get(x.a[2]) == l for k, l in m.put.items())


def same(e, a, b):
    """The same draw, whatever its age."""
    f = lambda v: {y.a[2] for y in e.subterms(v) if is_t(y, "fresh")}
    return is_t(a, "idx") and a.a[1] is b.a[1] and f(a) == f(b)

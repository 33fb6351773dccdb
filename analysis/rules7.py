"""Rules on ambiguous rows, reported keywords, row order, untrusted bytes, locks, secrets."""
import vals as VL
import interp
import bounds
from interp import Engine, State
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, forms, key_of, val_of, is_ok, is_err, leaves_of, update_roots
from rules3 import Trace

agg = VL.agg


def aged(x):
    """x without the iteration of its elements."""
    if is_t(x, "elem"):
        return T("elem", x.a[1])
    if is_t(x, "fld"):
        return VL.fld(aged(x.a[1]), x.a[2], x.a[3])
    return x


# =============================================================================================
# P21  ambiguous rows
# =============================================================================================
class Maps(Trace):
    """Rows of the backend put in maps."""

    def __init__(self):
        Trace.__init__(self)
        self.put = []           # (table, loop, distinct)
        self.dropped = []
        self.counted = {}       # table -> whether the number of rows is always compared before writing

    def conv(self, e, st, rows):
        if is_t(rows, "resp"):
            k = VL.fld(T("elem", rows), None, 0)
            self.put.append((rows.a[1], "collect", any(not g and new(shape(t), b, k) for g, t, b in st.univ), k))

    def event(self, e, st, name, args, site):
        Trace.event(self, e, st, name, args, site)
        if name.split(".")[-1] not in ("upsert", "insert", "delete"):
            return
        found = set()
        for t, b in st.facts.items():
            if is_t(t, "eq") and b == 1 or is_t(t, "lt") and b == 0:
                for x in t.a[1:3] if is_t(t, "eq") else t.a[1:2]:
                    if is_t(x, "len") and x.a[1].k == "coll" and x.a[1].a[0] == "map" and all(is_t(y, "len") for y in t.a[1:3]):
                        for g, y in elements(x.a[1]):
                            found.add(self.table(e, shape(key_of(y))))
        for tab in ("ET.get", "CT.get", "compacted"):
            self.counted[tab] = self.counted.get(tab, True) and tab in found

    def back(self, e, st, lid):
        for k in st.h.pop("pend", ()):
            self.put.append((self.table(e, k), lid, any(new(t, b, k) for t, b in st.facts.items()), k))
        if e.srckinds.get(lid, set()) <= {"map", "set"}:
            return
        own = e.loop_elems.get(lid, ())
        hit = {(addr, p) for addr, root in st.store.items() for p in e.touched(root, (), lid)}
        for addr, root in st.store.items():
            for p, v in maps(root, ()):
                ks = [key_of(y) for g, y in elements(v)]
                if (addr, p) in hit or not any(self.table(e, k) for k in ks):
                    continue
                for t, b in st.facts.items():
                    if (is_t(t, "contains") and b == 1 or is_t(t, "inserted") and b == 0) and t.a[1] is VL.strip(v):
                        tab = self.table(e, t.a[2])
                        if tab and not (t.a[2].at or frozenset()).isdisjoint(own) and any(shape(k) == shape(t.a[2]) for k in ks):
                            self.dropped.append((tab, lid))

    def ext(self, e, st, fr, name, args, site):
        if name != "map#insert":
            return
        m, k = args[0], args[1]
        tab = self.table(e, k)
        if tab is None or any(is_t(x, "elem") and is_t(x.a[1], "resp") and interp.ekind(x) != "c" for x in e.subterms(k)):
            return
        if m.k == "coll" and not m.a[1]:
            return                          # the first row
        if any(new(t, b, k) for t, b in st.facts.items()):
            self.put.append((tab, site, True, k))
        else:
            st.h["pend"] = st.h.get("pend", frozenset()) | {k}

    @staticmethod
    def table(e, k):
        """The rows (of which table) a key comes from."""
        if is_t(k, "fld") and k.a[3] == 0 and is_t(k.a[1], "elem") and is_t(k.a[1].a[1], "resp"):
            return k.a[1].a[1].a[1]
        if is_t(k, "tok") and k.a[1] == "ET" and any(is_t(x, "resolve") for x in e.subterms(k)):
            return "compacted"
        return None


def maps(v, p):
    if v.k == "coll":
        if v.a[0] == "map":
            yield p, v
    elif v.k == "agg" and len(p) < 4:
        for i, x in enumerate(v.a[2]):
            for r in maps(x, p + (i,)):
                yield r


def shape(k):
    """The key of any row of the same origin."""
    m = {a: T("elem", a.a[1]) for a in sorted(k.at or (), key=lambda y: y.id) if is_t(a, "elem")}
    return VL.subst(k, m) if m else k


def new(t, b, k):
    """The fact says that the key k was not in the map."""
    if is_t(t, "discr") and is_t(t.a[1], "prev") and t.a[1].a[2] is k and b == 0:
        return True
    if is_t(t, "contains") and t.a[2] is k and b == 0:
        return True
    return is_t(t, "inserted") and t.a[2] is k and b == 1


@rule("P21")
def ambiguous_rows(c):
    """additions, deletions and compactions fail when two rows come with one token, or when two entries would be compacted into one: rows put in a map are checked to be distinct"""
    want = {"insert": {"ET.get"}, "compact": {"ET.get", "CT.get", "compacted"}}
    for meth, root in (("insert", c.root("MmEnc", "insert")), ("compact", c.root("Index", "compact"))):
        m = Maps()
        e, res = c.run(root, m)
        seen = set()
        for tab, lid, ok, k in m.put:
            c.count("rows put in maps")
            seen.add(tab)
            if not ok and not m.counted.get(tab):
                what = "two entries compacted into one token" if tab == "compacted" else "two rows of %s with the same token" % tab
                c.viol("%s:%s" % (meth, tab), root, "%s: %s are silently merged: %s" % (meth, what, sh(k, 120)))
        for tab, lid in m.dropped:
            c.viol("%s:drop:%s" % (meth, tab), root, "%s: a second row of %s with the same token is silently ignored" % (meth, tab))
        for tab in want[meth] - seen:
            c.notes.append("%s: rows of %s are not put in a map" % (meth, tab))
    for s, ms, im in c.methods("DxEnc"):
        if "get" in ms:
            m = Maps()
            e, res = c.run(ms["get"], m)
            c.count("fetching methods of tables")
            for tab, lid, ok, k in m.put:
                if not ok:
                    c.viol("%s::get" % s.split("<")[0].split("::")[-1], ms["get"], "two rows fetched with the same token are silently merged: %s" % sh(k, 120))
    c.floor("rows put in maps", 3)
    c.floor("fetching methods of tables", 2)


# =============================================================================================
# P30  the new keywords reported by updates
# =============================================================================================
class Created(Monitor):
    """What is known of a keyword when it is put in, left out of, or removed from a set."""

    def __init__(self):
        self.rets = []
        self.cache = {}
        self.existing = {}          # loop -> removal of the keyword in the iterations which found its entry
        self.rounds = 0
        self.loops = set()

    def answered(self, e, m):
        """m holds rows the entry table answered with."""
        r = self.cache.get(m)
        if r is None:
            r = self.cache[m] = any(x.a[1].startswith("ET.") for x in leaves_of(e, m, "resp"))
        return r

    def entry(self, e, t, b):
        """The fact tells whether the entry of a keyword was found, or rejected."""
        return is_t(t, "contains") and not isinstance(b, tuple) and is_t(t.a[2], "tok") and t.a[2].a[1] == "ET" and self.answered(e, t.a[1])

    def found(self, e, st):
        """Whether the latest answer holds the entry of the current keyword."""
        out = None, None
        for t, b in st.facts.items():
            if self.entry(e, t, b):
                for x in leaves_of(e, t.a[1], "resp"):
                    r = 99 if x.a[1] == "ET.get" else x.a[3] if isinstance(x.a[3], int) else 98
                    if out[0] is None or r < out[0]:
                        out = r, b
        return out[1]

    def guard(self, e, st, atoms, g):
        """abs: had no entry when it was processed; ok: had one, was rejected, or was already accepted before."""
        out = set(g)
        own = {t.a[2] for t, b in g if is_t(t, "note") and t.a[1] == "abs"}
        for t, b in g:
            if self.entry(e, t, b):
                k = t.a[2]
                if not b:
                    out.add((T("note", "abs", k), 1))
                    if st.h.get("n") and k not in own:
                        out.add((T("note", "late", k), 1))
                if b or k not in own and any(x.a[1] == "ET.upsert" for x in leaves_of(e, t.a[1], "resp")):
                    out.add((T("note", "ok", k), 1))
            elif is_t(t, "removed"):
                out |= {(T("note", "ok", u.a[2]), 1) for u, v in st.facts.items() if self.entry(e, u, v) and v == 1}
        if not atoms:
            out.add((T("note", "ok"), 1))       # an iteration about no keyword
        return frozenset(out)

    def event(self, e, st, name, args, site):
        if name == "ET.upsert":
            self.rounds += 1
            self.loops |= set(e.active)
            st.h["up"] = 1

    def ext(self, e, st, fr, name, args, site):
        if name == "map#remove" and args[0].k == "coll" and args[0].a[0] == "set":
            st.h["rm"] = list(e.active)[-1] if e.active else 1

    def back(self, e, st, lid):
        if lid in self.loops and st.h.pop("up", 0):
            st.h["n"] = min(st.h.get("n", 0) + 1, 2)
        rm = st.h.get("rm") == lid and st.h.pop("rm")
        if self.found(e, st) == 1:
            self.existing[lid] = self.existing.get(lid, True) and bool(rm)

    def ret(self, e, st, key, val):
        self.rets.append((val, st.h.get("n", 0)))


class Forwarded(Monitor):
    def __init__(self):
        self.rets = []

    def ret(self, e, st, key, val):
        self.rets.append(val)


def inner(v):
    """The collection inside wrapping structures."""
    while v.k == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


@rule("P30")
def reported_keywords(c):
    """additions and deletions report exactly the keywords whose entry they created: absent when processed and accepted afterwards"""
    roots = update_roots(c)
    for meth, root in roots:
        m = Created()
        e, res = c.run(root, m)
        removes = any(m.existing.values())
        for val, n in m.rets:
            if not is_ok(val):
                continue
            c.count("reported sets")
            for v in forms(e, inner(val)):
                if v.k != "coll":
                    c.viol("%s:unknown" % meth, root, "the reported keywords are not a set filled with the keywords of created entries: " + sh(v))
                    continue
                check_reported(c, meth, root, v, n, removes)
        c.floor("reported sets", 1)
    if len(roots) == 1:
        from rules import GXL, MML
        for meth, root, opq in (("add", c.root("Index", "add"), GXL), ("delete", c.root("Index", "delete"), GXL), ("graph", c.root("GxEnc", "insert"), MML)):
            m = Forwarded()
            e, res = c.run(root, m, opaque=opq)
            for val in m.rets:
                if not is_ok(val):
                    continue
                c.count("forwarded sets")
                for v in forms(e, inner(val)):
                    if not copy_of(v):
                        c.viol("%s:forward" % meth, root, "the keywords reported are not those reported by the layer below: " + sh(v))
        c.floor("forwarded sets", 3)


def copy_of(v):
    if is_t(v, "resp") or is_t(v, "opq"):
        return True
    if v.k == "coll":
        return not v.a[2] and len(v.a[1]) == 1 and all(not g and (is_t(x, "elem") or is_t(x, "fld")) and any(is_t(a, "resp") or is_t(a, "opq") for a in x.at)
                                                   for g, x in v.a[1])
    return False


def check_reported(c, meth, root, v, n, removes):
    for g, x in elements(v):
        c.count("reported keywords")
        ops = {t.a[1] for t, b in g if is_t(t, "note")}
        if "abs" not in ops:
            c.viol("%s:old" % meth, root, "a keyword is reported which may have had an entry before: " + sh(x))
        elif not removes and not any(is_t(t, "contains") and b == 0 and any(a.a[1] == "ET.upsert" for a in t.a[1].at if is_t(a, "resp")) for t, b in g):
            c.viol("%s:rejected" % meth, root, "a keyword is reported though its entry may have been rejected, and created by another process: " + sh(x))
    for s in v.a[2]:
        if not any(is_t(t, "note") and t.a[1] == "ok" for t, b in s):
            c.viol("%s:missing" % meth, root, "a keyword whose entry was created may not be reported: when " + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))
    if n >= 2 and all(any(is_t(t, "note") and t.a[1] == "late" for t, b in g) for g, x in elements(v)):
        c.viol("%s:reset" % meth, root, "keywords created before the last round are not reported")


# =============================================================================================
# P24  no crash on bad data
# =============================================================================================
class Safe(Monitor):
    """Obligations met on the way: indices within bounds, subtractions of naturals, sizes of copies and allocations, no
    panic."""

    def __init__(self, c, name):
        self.c, self.name, self.bad, self.seen = c, name, {}, set()

    def report(self, e, site, kind, text):
        w = e.where(site)
        self.bad.setdefault((kind, w.split(":")[0]), (w, text))

    def need(self, e, st, site, kind, ds, text):
        self.c.count("bounds")
        self.seen.add((kind, e.where(site)))
        for d in ds:
            if not bounds.prove(e, st, d):
                if not foreign(e, d):
                    self.c.count("bounds on the crate's own data")
                    continue
                self.report(e, site, kind, text)
                return

    def panic(self, e, st, fr, blk, what, payload):
        self.report(e, (fr, blk), "panic " + what, "a path panics (%s)" % what)

    def asrt(self, e, st, fr, blk, kind, cond, expected):
        t = e.truth(st, cond)
        self.c.count("assertions")
        if t is not None and bool(t) == bool(expected):
            return
        if t is None:
            if is_t(cond, "lt"):
                d = VL.sub(VL.sub(cond.a[2], cond.a[1]), C(1)) if expected else VL.sub(cond.a[1], cond.a[2])
                if bounds.prove(e, st, d) or not foreign(e, d):
                    return
            if is_t(cond, "isempty") and not expected and bounds.prove(e, st, VL.sub(VL.length(cond.a[1]), C(1))):
                return
            if is_t(cond, "eq") and not expected and any(is_int(x) and x.a[1] == 0 for x in cond.a[1:3]):
                x = cond.a[2] if is_int(cond.a[1]) else cond.a[1]
                if bounds.positive(e, st, x):
                    return
        self.report(e, (fr, blk), "assertion " + str(kind[0] if isinstance(kind, (list, tuple)) else kind), "it is not known that " + sh(cond, 160) + " is %s" % bool(expected))

    def ext(self, e, st, fr, name, args, site):
        if name == "index":
            v, r = args
            n = VL.length(v)
            if isinstance(r, tuple):
                lo, hi = r
                ds = [VL.sub(n, lo)] if hi is None else [VL.sub(hi, lo), VL.sub(n, hi)]
                self.need(e, st, site, "slice", ds, "the range %s..%s may be out of the bounds of %s" % (sh(lo, 60), "" if hi is None else sh(hi, 60), sh(v, 80)))
            elif isinstance(r, V):
                self.need(e, st, site, "index", [VL.sub(VL.sub(n, e.deref(st, r)), C(1))], "the index %s may be out of the bounds of %s" % (sh(r, 60), sh(v, 80)))
        elif name == "copied":
            a, b = VL.length(args[0]), VL.length(args[1])
            if a is not b:
                self.need(e, st, site, "copy", [VL.sub(a, b), VL.sub(b, a)], "%s bytes may be copied to %s bytes" % (sh(b, 60), sh(a, 60)))
        elif name == "sub":
            self.need(e, st, site, "subtraction", [VL.sub(args[0], args[1])], "%s - %s may be negative" % (sh(args[0], 80), sh(args[1], 80)))
        elif name == "alloc":
            self.c.count("allocations")
            for x in direct(args[0]):
                if is_t(x, "opq") and x.a[1] == "read" or is_t(x, "idx") and not authentic(e, x):
                    self.report(e, site, "allocation", "memory is allocated for a number of items read from the data: " + sh(args[0], 80))


def authentic(e, x):
    """A byte of a decrypted row: written by this crate."""
    return any(is_t(y, "resolve") for f in forms(e, x.a[1]) for y in e.subterms(f)) or bool(leaves_of(e, x.a[1], "resolve"))


def direct(x):
    """The terms a number is computed from, without entering collections."""
    if x.k == "lin":
        for t, _ in x.a[1]:
            yield from direct(t)
    elif is_t(x, "bin"):
        for y in x.a[2:4]:
            yield from direct(y)
    else:
        yield x
        if x.k == "alt":
            for y in x.a[1]:
                if isinstance(y, V):
                    yield from direct(y)


def foreign(e, d):
    """Does the number depend on bytes or rows this crate did not write?"""
    for x in direct(d):
        if is_t(x, "idx") and not authentic(e, x) or is_t(x, "opq") and x.a[1] == "read":
            return True
        if is_t(x, "len") and x.a[1].k == "t" and (x.a[1].a[0] == "resp" or x.a[1].a[0] == "param" and e.mon.decoder):
            return True
        if is_t(x, "len") and is_t(x.a[1], "slice") and not authentic(e, x):
            return True
    return False


@rule("P24")
def no_crash_on_bad_data(c):
    """decoders and operations never panic: every index, slice, copy, subtraction and unwrap reached from them is proved safe for any bytes and any rows, and no allocation is sized by an unverified number"""
    roots = [("Index::" + m, c.root("Index", m)) for m in ("search", "add", "delete", "compact")]
    n = 0
    for im in c.P.impls:
        tr = im.get("trait")
        t = last(tr.split("<")[0]) if tr else ""
        for nm, key in [x[:2] for x in im["items"]]:
            if key not in c.P.bodies:
                continue
            if nm in ("try_from", "from_str", "read", "deserialize", "from_bytes", "try_from_bytes"):
                roots.append((key, key))
                n += nm in ("try_from", "read")
    c.count("decoders", n)
    c.floor("decoders", 3)
    for name, key in roots:
        m = Safe(c, name)
        m.decoder = not name.startswith("Index::")
        if m.decoder:
            VL.LEN.clear()
        c.run(key, m)
        for (kind, f), (w, text) in sorted(m.bad.items()):
            c.viol("%s:%s:%s" % (last(name), kind, f), w, "%s: %s: %s" % (name, kind, text))
    c.floor("bounds", 20)

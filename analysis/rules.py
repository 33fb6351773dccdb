"""The rules. Each property is decided by one or more functions registered with @rule(ID)."""
from framework import rule, last, show, is_t, is_int, V, T, C, Monitor, State
from interp import Engine
import vals as VL

WRITES = ("insert", "upsert", "delete")
TABLES = ("ET", "CT")


def sh(v, n=140):
    s = show(v, 5) if isinstance(v, V) else str(v)
    return s if len(s) <= n else s[:n] + "..."


def base(name):
    return name.split(".")[1] if "." in name else name


class Rec(Monitor):
    """Records the storage and callback events reached from a root."""

    def __init__(self):
        self.events = []

    def event(self, eng, st, name, args, site):
        self.events.append((name, args, site))


# =============================================================================================
# P01  searching only reads
# =============================================================================================
@rule("P01")
def search_reads_only(c):
    """every storage operation reachable from search is a fetch"""
    k = c.root("Index", "search")
    m = Rec()
    e, res = c.run(k, m)
    for name, args, site in m.events:
        c.count("storage events")
        c.ob("%s at %s" % (name, e.where(site)))
        if name.startswith("CB."):
            continue
        if name not in ("ET.get", "CT.get", "ET.dump", "DB.fetch", "DB.dump_tokens"):
            c.viol("search:%s" % name, e.where(site), "a search performs the write %s" % name)
    for want in ("ET.get", "CT.get"):
        if not any(n == want for n, _, _ in m.events):
            c.viol("coverage:search:%s" % want, "-", "no %s is reachable from search: the rule lost its subject" % want)


@rule("P01")
def fetching_does_not_write(c):
    """the fetching half of both table implementations and of the bundled database does not write"""
    for s, ms, im in c.methods("DxEnc"):
        for meth in ("get", "tokenize", "resolve", "derive_keys"):
            if meth in ms:
                m = Rec()
                e, _ = c.run(ms[meth], m)
                c.count("table methods")
                for name, args, site in m.events:
                    if name not in ("DB.fetch", "DB.dump_tokens"):
                        c.viol("%s::%s:%s" % (s.split("<")[0], meth, name), e.where(site), "a read of the table performs %s" % name)
    for s, ms, im in c.methods("TokenDump"):
        for meth, key in ms.items():
            m = Rec()
            e, _ = c.run(key, m)
            for name, args, site in m.events:
                if name not in ("DB.dump_tokens",):
                    c.viol("%s::%s:%s" % (s.split("<")[0], meth, name), e.where(site), "dumping tokens performs %s" % name)

    class W(Monitor):
        def ext(self, eng, st, fr, name, args, site):
            if name in ("map#insert", "map#remove", "map#clear", "map#retain", "extend", "map#drain") and args and touches_lock(eng, st, args[0]):
                self.hits.append((name, site))
    for s, ms, im in c.methods("DbInterface"):
        for meth in ("fetch", "dump_tokens"):
            if meth in ms:
                w = W()
                w.hits = []
                e, _ = c.run(ms[meth], w)
                c.count("database methods")
                for name, site in w.hits:
                    c.viol("%s::%s:%s" % (s.split("<")[0], meth, name), e.where(site), "reading the database changes it (%s)" % name)
    c.floor("table methods", 2)


def touches_lock(eng, st, v):
    v = eng.deref(st, v) if isinstance(v, V) else v
    return any(a.k == "t" and a.a[0] == "lockval" for a in eng.leaves(v))


# =============================================================================================
# P02  what add and delete may write
# =============================================================================================
@rule("P02")
def update_effects(c):
    """add and delete write the entry table through conditional upserts only and only ever insert chain rows"""
    for meth in ("add", "delete"):
        k = c.root("Index", meth)
        m = Rec()
        e, res = c.run(k, m)
        for name, args, site in m.events:
            c.count("storage events")
            c.ob("%s: %s at %s" % (meth, name, e.where(site)))
            if name.startswith("CB."):
                continue
            if name not in ("ET.get", "CT.get", "ET.dump", "ET.upsert", "CT.insert"):
                c.viol("%s:%s" % (meth, name), e.where(site),
                       "%s performs %s: entries may only change through the conditional upsert and chain rows may only be inserted" % (meth, name))
        for want in ("ET.upsert", "CT.insert"):
            if not any(n == want for n, _, _ in m.events):
                c.viol("coverage:%s:%s" % (meth, want), "-", "no %s is reachable from %s: the rule lost its subject" % (want, meth))


# =============================================================================================
# P03  the table layer forwards each operation to the database unchanged
# =============================================================================================
FORWARD = {"get": "DB.fetch", "upsert": "DB.upsert", "insert": "DB.insert", "delete": "DB.delete", "dump_tokens": "DB.dump_tokens"}


@rule("P03")
def table_forwarding(c):
    """each table operation performs exactly the database operation of its name, on its own arguments, and returns its answer"""
    forwarding(c, FORWARD)
    c.floor("table methods", 9)


def forwarding(c, meths):
    for trait in ("DxEnc", "TokenDump"):
        for s, ms, im in c.methods(trait):
            sn = s.split("<")[0].split("::")[-1]
            for meth, want in FORWARD.items():
                if meth not in ms or meth not in meths:
                    continue
                m = FwdMon()
                e, res = c.run(ms[meth], m)
                c.count("table methods")
                body = c.P.bodies[ms[meth]]
                params = [T("param", body["locals"][i + 1].get("n") or "a%d" % i) for i in range(body["args"])][1:]
                if not m.events and not res:
                    c.ob("%s::%s diverges" % (sn, meth))
                    continue
                for name, args, site in m.events:
                    key = "%s::%s" % (sn, meth)
                    if name != want:
                        c.viol(key + ":" + name, e.where(site), "%s::%s performs %s instead of %s" % (sn, meth, name, want))
                        continue
                    c.ob("%s::%s performs %s(%s)" % (sn, meth, name, ", ".join(sh(a, 60) for a in args)))
                    if len(args) != len(params):
                        continue
                    for i, (a, p) in enumerate(zip(args, params)):
                        if not same_content(e, a, p):
                            c.viol("%s:arg%d" % (key, i), e.where(site),
                                   "argument %d of %s is not what the caller gave to %s::%s: %s" % (i, name, sn, meth, sh(a)))
                for st, v in res:
                    n = dict(st.h).get("n", 0)
                    if n != 1:
                        c.viol("%s::%s:times" % (sn, meth), c.P.loc(body["span"]) if hasattr(c.P, "loc") else "-",
                               "%s::%s returns after %d database operations" % (sn, meth, n))
                    if v.k == "agg" and v.a[0] == "Result" and v.a[1] == 0 and meth in ("get", "upsert", "dump_tokens"):
                        r = v.a[2][0]
                        if not whole_response(e, r, want):
                            c.viol("%s::%s:answer" % (sn, meth), "-", "%s::%s does not return the database's answer: %s" % (sn, meth, sh(r)))


@rule("P04")
def upsert_forwarded(c):
    """the conditional update of both tables is that of the backend, with the same condition and the same answer"""
    forwarding(c, ("upsert",))
    c.floor("table methods", 2)


@rule("P02")
@rule("P05")
def writes_forwarded(c):
    """updating and inserting in a table are the same single operations of the backend"""
    forwarding(c, ("upsert", "insert"))
    c.floor("table methods", 4)


@rule("P07")
@rule("P08")
def changes_forwarded(c):
    """inserting in a table and deleting from it are the same single operations of the backend"""
    forwarding(c, ("insert", "delete"))
    c.floor("table methods", 4)


@rule("P09")
@rule("P18")
@rule("P33")
def reads_forwarded(c):
    """fetching from a table and listing its tokens are the same single operations of the backend, whose whole answer is returned"""
    forwarding(c, ("get", "dump_tokens"))
    c.floor("table methods", 3)


@rule("P06")
def tables_report_failures(c):
    """an operation of a table fails with the error of the backend when the backend fails"""
    for trait in ("DxEnc", "TokenDump"):
        for s, ms, im in c.methods(trait):
            sn = s.split("<")[0].split("::")[-1]
            for meth in FORWARD:
                if meth not in ms:
                    continue
                m = Errors()
                e, _ = c.run(ms[meth], m)
                c.count("table methods")
                for er, val in m.rets:
                    if er is None:
                        continue
                    c.count("failures of the backend")
                    if not is_err(val):
                        c.viol("%s::%s:swallowed" % (sn, meth), "-", "%s::%s may return %s although %s failed" % (sn, meth, sh(val, 80), er[0]))
                    elif not carries(e, val, er):
                        c.viol("%s::%s:masked" % (sn, meth), "-", "%s::%s fails with %s after a failure of %s: the cause is lost" % (sn, meth, sh(val, 100), er[0]))
                for er, what, site in m.panics:
                    c.viol("%s::%s:panic" % (sn, meth), e.where(site), "%s::%s panics (%s) when %s fails" % (sn, meth, what, er[0]))
    c.floor("failures of the backend", 5)


class FwdMon(Rec):
    def conv(self, eng, st, rows):
        """Rows put in a map: of those with the same token only one remains, and the others are no longer returned."""
        if is_t(rows, "resp") and rows.a[1] == "DB.fetch":
            st.h["n"] = 2

    def result(self, eng, st, name, okv, val, args, site):
        if name.startswith("DB."):
            st.h["n"] = min(2, st.h.get("n", 0) + 1)


def same_content(e, a, p):
    """a holds exactly the elements of p."""
    if a is p:
        return True
    if a.k == "coll":
        els, skips = a.a[1], a.a[2]
        ok_el = all(is_whole_elem(el_value(x), p) for x in els) and els
        return bool(ok_el) and not skips
    return False


def el_value(x):
    return x[1] if isinstance(x, tuple) else x


def is_whole_elem(v, p):
    if is_t(v, "elem") and v.a[1] is p:
        return True
    # a pair rebuilt from the two halves of an element
    if v.k == "agg" and v.a[0] in ("", "tuple") and len(v.a[2]) == 2:
        return all(is_t(x, "fld") and is_t(x.a[1], "elem") and x.a[1].a[1] is p for x in v.a[2]) \
            and len(set(x.a[1] for x in v.a[2])) == 1 and [x.a[3] for x in v.a[2]] == [0, 1]
    return False


def whole_response(e, r, name):
    if is_t(r, "resp") and r.a[1] == name:
        return True
    if r.k == "coll":
        ls = set(t for t in e.subterms(r) if is_t(t, "resp"))
        return len(ls) == 1 and all(t.a[1] == name and same_content(e, r, t) for t in ls)
    return False


# =============================================================================================
# helpers on values
# =============================================================================================
def elements(v):
    """[(guard, element)] of a known collection, through variables is not attempted."""
    if v.k == "coll":
        return sorted(v.a[1], key=lambda x: x[1].id)
    return []


def expand(e, v):
    """The collections a value may be: definitions of loop variables and alternatives, unfolded."""
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_t(x, "phi"):
            d = e.phi_defs.get(x) or e.phi_defs.get(T(*x.a[:3]), ())
            work += sorted(d, key=lambda y: y.id)
        elif x.k == "alt":
            work += sorted(x.a[1], key=lambda y: y.id)
        else:
            out.append(x)
    return out


def forms(e, v):
    """The values a term may be: loop variables, elements and fields of known collections, all unfolded."""
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        r = unfold(e, x)
        if r is None:
            out.append(x)
        else:
            work += r
    return out


def unfold(e, x):
    if is_t(x, "phi"):
        d = e.phi_defs.get(x) or e.phi_defs.get(T(*x.a[:3]), ())
        return sorted(d, key=lambda y: y.id)
    if x.k == "alt":
        return sorted(x.a[1], key=lambda y: y.id)
    if is_t(x, "fld"):
        r = forms(e, x.a[1]) if unfoldable(x.a[1]) else None
        if r is not None and r != [x.a[1]]:
            return [VL.fld(y, x.a[2], x.a[3]) for y in r]
        return None
    if is_t(x, "elem") or is_t(x, "at") or is_t(x, "idx"):
        r = forms(e, x.a[1]) if unfoldable(x.a[1]) else [x.a[1]]
        cs = [y for y in r if y.k == "coll"]
        if not cs:
            return None
        out = [T(x.a[0], y, *x.a[2:]) for y in r if y.k != "coll" and y is not x.a[1]]
        for y in cs:
            for g, z in elements(y):
                out.append(val_of(z) if is_t(x, "at") and y.a[0] == "map" else z)
        return out
    return None


def unfoldable(x):
    return is_t(x, "phi") or x.k in ("alt", "coll") or is_t(x, "fld") or is_t(x, "elem") or is_t(x, "at") or is_t(x, "idx")


def key_of(x):
    if x.k == "agg" and x.a[0] == "tuple":
        return x.a[2][0]
    return VL.fld(x, None, 0)


def val_of(x):
    if x.k == "agg" and x.a[0] == "tuple":
        return x.a[2][1]
    return VL.fld(x, None, 1)


def leaves_of(e, v, op=None):
    return [l for l in e.leaves(v) if op is None or l.a[0] == op]


def direct(e, v):
    """Subterms of a value, loop variables not unfolded."""
    return e.subterms(v, through_phi=False)


def is_err(v):
    return v.k == "agg" and v.a[0] == "Result" and v.a[1] == 1


def is_ok(v):
    return v.k == "agg" and v.a[0] == "Result" and v.a[1] == 0


OPS = {"add": ("Index", "add"), "delete": ("Index", "delete"), "search": ("Index", "search"), "compact": ("Index", "compact")}


LAYERS = {("GxEnc", "get"): "GX.get", ("GxEnc", "insert"): "GX.insert", ("MmEnc", "get"): "MM.get", ("MmEnc", "insert"): "MM.insert"}
GXL = {k: v for k, v in LAYERS.items() if k[0] == "GxEnc"}
MML = {k: v for k, v in LAYERS.items() if k[0] == "MmEnc"}


def update_roots(c):
    """[(name, entry point)] to interpret in order to see every storage event of additions and deletions: the
    multi-map layer alone when the layers above it only go through it, add and delete otherwise."""
    direct = False
    for meth in ("add", "delete"):
        m = Rec()
        c.run(c.root("Index", meth), m, opaque=GXL)
        names = [n for n, _, _ in m.events]
        direct |= any(n.split(".")[0] not in ("GX",) for n in names) or "GX.insert" not in names
    m = Rec()
    c.run(c.root("GxEnc", "insert"), m, opaque=MML)
    names = [n for n, _, _ in m.events]
    direct |= any(n.split(".")[0] not in ("MM",) for n in names) or "MM.insert" not in names
    if direct:
        return [(meth, c.root("Index", meth)) for meth in ("add", "delete")]
    return [("update", c.root("MmEnc", "insert"))]


# =============================================================================================
# P04  the conditional upsert
# =============================================================================================
class Upserts(Monitor):
    """Tracks how many conditional upserts succeeded on the path: none, or some."""

    def __init__(self):
        self.events = []

    def event(self, eng, st, name, args, site):
        if name == "ET.upsert":
            self.events.append((args, site, dict(st.h), dict(st.facts)))

    def result(self, eng, st, name, okv, val, args, site):
        if name == "ET.upsert" and okv:
            st.h["ups"] = 1


@rule("P04")
def conditional_upsert(c):
    """each upsert is conditioned on the entry its new value was computed from"""
    for meth, root in update_roots(c):
        m = Upserts()
        e, res = c.run(root, m)
        for args, site, h, facts in m.events:
            old, new = args[0], args[1]
            w = e.where(site)
            c.count("upserts")
            resp = [l for l in leaves_of(e, old, "resp")]
            names = set(r.a[1] for r in resp)
            # the condition is what the database answered last
            if not names & {"ET.get", "ET.upsert"}:
                c.viol("%s:condition:origin" % meth, w, "the values the upsert is conditioned on were not read from the entry table: " + sh(old))
            elif h.get("ups") and "ET.upsert" not in names:
                c.viol("%s:condition:stale" % meth, w,
                       "after a rejected upsert the condition is not refreshed with the values the database returned: " + sh(old))
            for x in expand(e, old):
                if x.k == "coll":
                    for g, y in elements(x):
                        for z in expand(e, y):
                            if not from_response(z):
                                c.viol("%s:condition:made" % meth, w, "the upsert is conditioned on a value which was not read: " + sh(z))
            els = elements(new)
            if not els:
                c.viol("coverage:%s:new" % meth, w, "the new entries of the upsert are unknown: " + sh(new))
            for g, x in els:
                upsert_element(c, e, meth, w, old, g, x, h, facts)
    c.floor("upserts", 1)
    c.floor("upserted entries", 2)


def from_response(z):
    """z is an element of a database response (or a pair of its halves)."""
    if is_t(z, "elem") and is_t(z.a[1], "resp"):
        return True
    if is_t(z, "elem") and is_t(z.a[1], "phi"):
        return True
    if is_t(z, "ent"):
        return True
    if z.k == "agg" and z.a[0] == "tuple":
        return all(any(is_t(t, "resp") or is_t(t, "phi") for t in y.at) for y in z.a[2])
    return is_t(z, "resp") or is_t(z, "phi") or is_t(z, "fld")


def copies(v):
    """v, and the maps it is an unfiltered copy of."""
    out = {v}
    if v.k == "coll" and len(v.a[1]) == 1 and not v.a[2]:
        for g, x in v.a[1]:
            if is_t(x, "elem") and not g:
                out.add(x.a[1])
    return out


def upsert_element(c, e, meth, w, old, g, x, h, facts):
    k, v = key_of(x), val_of(x)
    olds = copies(old)
    for val in expand(e, v):
        c.count("upserted entries")
        if not is_t(val, "prepare"):
            c.viol("%s:new:plain" % meth, w, "a new entry is not the encryption of an entry: " + sh(val))
            continue
        pt = val.a[3]
        known = None
        gd = dict(g)
        for t, b in list(gd.items()) + list(facts.items()):
            if is_t(t, "contains") and t.a[1] in olds and t.a[2] is k:
                known = b
        subs = direct(e, pt)
        reads = [t for t in subs if is_t(t, "at")]
        stale = [t for t in reads if t.a[1] not in olds]
        own = [t for t in reads if t.a[1] in olds and t.a[2] is k]
        other = [t for t in reads if t.a[1] in olds and t.a[2] is not k]
        oldresp = set(l for l in VLresp(pt))
        cond = set(leaves_of(e, old, "resp"))
        if stale:
            c.viol("%s:new:stale" % meth, w,
                   "a new entry is computed from %s while the upsert is conditioned on %s" % (sh(stale[0], 100), sh(old, 100)))
        if other:
            c.viol("%s:new:crossed" % meth, w, "a new entry is computed from the entry of another token: " + sh(other[0]))
        if oldresp - cond:
            c.viol("%s:new:stale" % meth, w, "a new entry is computed from a reading (%s) which is not the condition of the upsert" % sh(sorted(oldresp - cond, key=lambda y: y.id)[0]))
        if known == 0:
            if own:
                c.viol("%s:new:absent" % meth, w, "an entry absent from the condition is computed from it")
            if not any(is_t(t, "fresh") for t in subs):
                c.viol("%s:new:seed" % meth, w, "the entry of a new keyword has no fresh seed: " + sh(pt))
            c.ob("%s: new keyword: %s" % (meth, sh(pt)))
        elif own:
            c.ob("%s: updated entry: %s" % (meth, sh(pt)))
        else:
            c.viol("%s:new:blind" % meth, w,
                   "an entry which may exist in the table is overwritten by a value which does not depend on it: " + sh(pt))


def VLresp(v):
    return [a for a in v.at if a.k == "t" and a.a[0] == "resp"]


# =============================================================================================
# P05  chain rows are written once the entries which reserve them are
# =============================================================================================
class Commit(Monitor):
    def __init__(self):
        self.ins = []
        self.rets = []

    def event(self, eng, st, name, args, site):
        if name == "CT.insert":
            self.ins.append((args, site, dict(st.h), dict(st.facts)))

    def result(self, eng, st, name, okv, val, args, site):
        if name == "ET.upsert" and okv:
            st.h["ups"] = min(2, st.h.get("ups", 0) + 1)
        if name == "CT.insert":
            st.h["ins"] = 1 if okv else 2

    def ret(self, eng, st, key, val):
        self.rets.append((val, dict(st.h)))


@rule("P05")
def reserve_then_write(c):
    """chain rows are inserted only when no entry update is pending any more, and success is reported only after that"""
    for meth, root in update_roots(c):
        m = Commit()
        e, res = c.run(root, m)
        for args, site, h, facts in m.ins:
            w = e.where(site)
            c.count("chain insertions")
            done = []
            for t, b in facts.items():
                if is_t(t, "isempty") and b == 1:
                    done.append(t.a[1])
                if is_t(t, "eq") and b == 1 and any(is_t(x, "len") for x in t.a[1:3] if isinstance(x, V)) and any(is_int(x) and x.a[1] == 0 for x in t.a[1:3]):
                    done.append(t)
            if h.get("ups"):
                good = [x for x in done if any(r.a[1] == "ET.upsert" and r.a[3] == 0 for r in leaves_of(e, x, "resp"))]
            else:
                good = [x for x in done if not leaves_of(e, x, "resp")]
            if not good:
                c.viol("%s:pending" % meth, w,
                       "chain rows are inserted while some entry updates may still be %s"
                       % ("rejected" if h.get("ups") else "pending (no upsert was performed)"))
            else:
                c.ob("%s: %s implies nothing is pending: %s" % (meth, w, sh(good[0], 100)))
            if h.get("ups") == 2 and args:
                # several rounds: tokens reserved in the first and in the following ones are all written
                gens = set(l.a[1] for l in leaves_of(e, args[0], "resp"))
                if "ET.get" not in gens:
                    c.viol("%s:forgotten" % meth, w, "the rows reserved by the entries accepted at first are not written when other entries were rejected")
                if "ET.upsert" not in gens:
                    c.viol("%s:outdated" % meth, w, "the rows written after a rejection do not follow the entries returned by the rejection")
                c.count("insertions after a retry")
        for val, h in m.rets:
            c.count("outcomes seen")
            if is_ok(val) and h.get("ups") and not h.get("ins") == 1:
                c.viol("%s:unwritten" % meth, "-", "%s may succeed after reserving chain tokens without inserting the chain rows" % meth)
    c.floor("chain insertions", 1)
    c.floor("insertions after a retry", 1)


# =============================================================================================
# P06  no failure is swallowed
# =============================================================================================
class Errors(Monitor):
    """After a failed step, remembers it; nothing but an error carrying it may come out."""

    def __init__(self, rollback=()):
        self.after = []
        self.rets = []
        self.panics = []
        self.rollback = rollback
        self.fails = set()

    def event(self, eng, st, name, args, site):
        if "err" in st.h and not name.startswith("CB."):
            self.after.append((st.h["err"], name, args, site))

    def result(self, eng, st, name, okv, val, args, site):
        if not okv:
            self.fails.add((name, eng.where(site)))
            if "err" not in st.h:
                st.h["err"] = (name, val)

    def panic(self, eng, st, fr, blk, what, payload):
        if "err" in st.h:
            self.panics.append((st.h["err"], what, (fr, blk)))

    def ret(self, eng, st, key, val):
        self.rets.append((st.h.get("err"), val))


@rule("P06")
def no_swallowed_failure(c):
    """every failed storage, cryptographic or callback step makes the operation fail with that error"""
    for meth in ("search", "add", "delete", "compact"):
        m = Errors()
        e, res = c.run(c.root("Index", meth), m)
        for f in sorted(m.fails):
            c.count("failure points")
            c.ob("%s: failure of %s at %s" % (meth, f[0], f[1]))
        seen = set()
        for er, val in m.rets:
            if er is None:
                continue
            seen.add(er[0])
            if not is_err(val):
                c.viol("%s:%s:swallowed" % (meth, er[0]), "-", "%s may return %s although %s failed" % (meth, sh(val, 80), er[0]))
            elif not carries(e, val, er) and not (meth == "compact" and er[0] in ("CT.insert", "ET.insert") and carries(e, val, ("CT.delete",))):
                c.viol("%s:%s:masked" % (meth, er[0]), "-", "%s fails with %s after a failure of %s: the cause is lost" % (meth, sh(val, 100), er[0]))
        for er, what, site in m.panics:
            c.viol("%s:%s:panic" % (meth, er[0]), e.where(site), "%s panics (%s) when %s fails" % (meth, what, er[0]))
        for er, name, args, site in m.after:
            if meth == "compact" and er[0] in ("CT.insert", "ET.insert") and name in ("CT.delete", "ET.delete"):
                continue            # the rollback, decided by its own property
            if base(name) in WRITES:
                c.viol("%s:%s:continues:%s" % (meth, er[0], name), e.where(site), "%s goes on to %s after %s failed" % (meth, name, er[0]))
        for n in set(x[0] for x in m.fails) - seen:
            c.viol("%s:%s:no outcome" % (meth, n), "-", "no outcome of %s accounts for a failure of %s" % (meth, n))
    c.floor("failure points", 12)


def carries(e, val, er):
    name = er[0]
    return any(l.a[0] == "err" and (l.a[1] == name) for l in e.leaves(val))


# =============================================================================================
# compaction
# =============================================================================================
def token_origin(e, v):
    """What the tokens of a set are: 'old' rows (read from the tables), 'new' rows (under fresh seeds or the new key)."""
    out = set()
    for x in expand(e, v):
        if x.k == "coll":
            for g, y in elements(x):
                for z in expand(e, y):
                    out |= token_kind(e, z)
            continue
        out |= token_kind(e, x)
    return out


def token_kind(e, z):
    if is_t(z, "fld") and z.a[3] == 0 or is_t(z, "ent"):
        z0 = z.a[1]
        if is_t(z0, "elem"):
            ks = token_origin(e, z0.a[1])
            return ks
    if is_t(z, "elem"):
        s = z.a[1]
        if is_t(s, "resp"):
            return {("old", s.a[1])}
        return token_origin(e, s)
    if is_t(z, "resp"):
        return {("old", z.a[1])}
    if z.k == "agg" and z.a[0] == "tuple" and z.a[2]:
        return token_kind(e, z.a[2][0])
    if is_t(z, "tok"):
        X, key = z.a[1], z.a[2]
        out = set()
        for kk in expand(e, key):
            if is_t(kk, "dkeys"):
                ls = [l for l in e.leaves(kk.a[2])]
                if any(l.a[0] == "fresh" for l in ls):
                    out.add(("new", X))
                elif any(l.a[0] == "resp" for l in ls):
                    out.add(("old", X))
                else:
                    for l in ls:
                        if l.a[0] == "param":
                            out.add(("new" if X == "ET" else "?", X, str(l.a[1])))
                    if not ls:
                        out.add(("?", X))
            else:
                out.add(("?", X))
        return out
    return {("?", sh(z, 60))}


class Compaction(Monitor):
    STEPS = ("CT.insert", "ET.insert", "CT.delete", "ET.delete", "ET.upsert")

    def __init__(self, keep=()):
        self.evs = []
        self.rets = []

    def event(self, eng, st, name, args, site):
        if name in ("ET.get",):
            # a new batch starts
            for k in list(st.h):
                if k in self.STEPS or k == "n":
                    del st.h[k]
        self.evs.append((name, args, site, dict(st.h), dict(st.facts)))

    def result(self, eng, st, name, okv, val, args, site):
        if name in self.STEPS:
            st.h[name] = "ok" if okv else "err"

    def ret(self, eng, st, key, val):
        self.rets.append((val, dict(st.h)))


def origins(os):
    return set(o[0] for o in os)


@rule("P07")
def delete_old_last(c):
    """rows read by the compaction are deleted only once every new row was inserted, and a success implies they were"""
    m = Compaction()
    e, res = c.run(c.root("Index", "compact"), m)
    for name, args, site, h, facts in m.evs:
        if name not in ("CT.delete", "ET.delete"):
            continue
        c.count("deletions")
        os = token_origin(e, args[0])
        w = e.where(site)
        both = h.get("CT.insert") == "ok" and h.get("ET.insert") == "ok"
        c.ob("%s at %s deletes %s rows, after %s" % (name, w, "/".join(sorted(origins(os))), sorted((k, v) for k, v in h.items())))
        failed = "err" in (h.get("CT.insert"), h.get("ET.insert"))
        if "old" in origins(os) and not both:
            c.viol("compact:%s:early" % name, w, "%s removes previous rows while the rows replacing them %s" %
                   (name, "failed to be inserted" if failed else "are not inserted yet"))
        if "?" in origins(os):
            c.viol("compact:%s:unknown" % name, w, "%s removes rows whose origin is unknown: %s" % (name, sh(args[0])))
    for val, h in m.rets:
        if is_ok(val) and h.get("CT.insert"):
            for s in ("CT.insert", "ET.insert", "CT.delete", "ET.delete"):
                if h.get(s) != "ok":
                    c.viol("compact:success without %s" % s, "-", "the compaction may succeed although %s did not (%s)" % (s, sorted(h.items())))
    c.floor("deletions", 4)


@rule("P08")
def rollback(c):
    """after a failed insertion only rows written by this compaction are deleted: those under fresh seeds"""
    m = Compaction()
    e, res = c.run(c.root("Index", "compact"), m)
    for name, args, site, h, facts in m.evs:
        failed = "err" in (h.get("CT.insert"), h.get("ET.insert"))
        if not failed:
            continue
        w = e.where(site)
        c.count("events after a failed insertion")
        c.ob("%s at %s after %s" % (name, w, sorted(h.items())))
        if name not in ("CT.delete", "ET.delete"):
            if base(name) in WRITES:
                c.viol("compact:rollback:%s" % name, w, "%s is performed after a failed insertion" % name)
            continue
        os = token_origin(e, args[0])
        if name == "ET.delete" and h.get("ET.insert") == "err":
            c.viol("compact:rollback:ET.delete", w,
                   "the rows of a refused entry insertion are deleted: the insertion wrote nothing, and refused rows belong to somebody else")
        elif origins(os) != {"new"}:
            c.viol("compact:rollback:%s:%s" % (name, "/".join(sorted(origins(os)))), w,
                   "a failed compaction deletes rows it did not write (%s)" % "/".join(sorted(str(o) for o in os)))
    # what was written before the failure is removed
    for val, h in m.rets:
        if h.get("ET.insert") == "err" and h.get("CT.insert") == "ok" and not h.get("CT.delete"):
            c.viol("compact:rollback:incomplete", "-", "after the entry insertion failed the new chain rows stay in the table")
        if h.get("CT.insert") == "err" and not h.get("CT.delete"):
            c.viol("compact:rollback:partial", "-", "after the chain insertion failed the rows it may have stored are not removed")
        if "err" in (h.get("CT.insert"), h.get("ET.insert")) and not is_err(val):
            c.viol("compact:rollback:result", "-", "a compaction whose insertion failed reports %s" % sh(val, 80))
    c.floor("events after a failed insertion", 2)

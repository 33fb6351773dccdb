"""Rules on encodings and on the in-memory backend."""
import re
import vals as VL
import interp
from interp import Engine, State, mref
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, forms, is_ok, is_err
from rules4 import inherent
from rules5 import apply, consistent

agg = VL.agg


# =============================================================================================
# P22  encodings and conversions lose nothing
# =============================================================================================
def strip(c, t):
    """The type under references."""
    t = c.P.types[t]
    while t["k"] == "ref":
        t = c.P.types[t["t"]]
    return t


def wrapped(c, s):
    """The type wrapped by a crate struct with a single field (None: not one)."""
    ad = c.P.adts.get(s.lstrip("&").replace("mut ", "").split("<")[0])
    if ad and ad["kind"] == "struct" and len(ad["variants"][0]["f"]) == 1 and s.lstrip("&").startswith("cosmian_findex"):
        return c.P.tystr(ad["variants"][0]["f"][0]["t"])
    return None


def head(s):
    s = s.lstrip("&").replace("mut ", "", 1).strip()
    if s.startswith("[u8") or s in ("str", "std::vec::Vec<u8>", "alloc::vec::Vec<u8>", "std::string::String"):
        return "bytes"
    return s.split("<")[0].split("::")[-1] if not s.startswith("[") else "Vec"


def sig(c, key):
    b = c.P.bodies[key]
    return c.P.tystr(b["locals"][1]["t"]), c.P.tystr(b["locals"][0]["t"])


def plain(e, v, x):
    """v holds all of x, unconditionally and unchanged (a collection of its elements, or itself)."""
    if v is x:
        return True
    if is_t(v, "slice") and v.a[1] is x and v.a[2] is C(0) and v.a[3] is VL.length(x):
        return True
    if v.k == "coll" and not v.a[2]:
        for g, z in elements(v):
            if any(not (is_t(t, "isempty") and t.a[1] is x) for t, b in g):
                return False
            el = [y for y in sorted(e.subterms(z), key=lambda y: y.id) if is_t(y, "elem") and y.a[1] is x] or ([z] if is_t(z, "elem") and z.a[1] is x else [])
            if not el:
                return False
            E = el[0]
            if not (plain(e, z, E) or z.k == "agg" and len(z.a[2]) == 2 and all(plain(e, y, VL.fld(E, None, i)) for i, y in enumerate(z.a[2]))):
                return False
        return bool(elements(v))
    return False


CONV = ("From", "TryFrom", "AsRef", "AsMut", "Deref", "DerefMut", "FromIterator", "IntoIterator", "Borrow", "FromStr")


@rule("P22")
def wrappers_convert(c):
    """every conversion between a wrapper of the crate and what it wraps keeps the whole content, unchanged"""
    for im in c.P.impls:
        tr = (im.get("trait") or "").split("::")[-1]
        if tr not in CONV or im["derived"]:
            continue
        for x in im["items"]:
            key = x[1]
            if key not in c.P.bodies or x[0] == "deref" and False:
                continue
            b = c.P.bodies[key]
            if b["argc"] != 1 if "argc" in b else False:
                continue
            i, o = sig(c, key)
            out = re.sub(r"^(std|core)::result::Result<(.*)>$", r"\2", o)
            wi, wo = wrapped(c, i), wrapped(c, out.split(", ")[0] if tr in ("TryFrom", "FromStr") else out)
            if tr in ("FromIterator",):
                wi = None
            if tr == "IntoIterator":
                wo = None
            pair = (wi, out) if wi and not wo else (wo, i) if wo and not wi else None
            if pair is None:
                continue
            inner, other = pair
            if head(inner) != head(other) and tr not in ("FromIterator", "IntoIterator", "From") or "bytes" in (head(inner), head(other)) and head(inner) != head(other):
                continue
            if not re.search(r"HashMap|HashSet|Vec|\[u8|str", inner):
                continue
            X = T("param", "x")
            rs = apply(c, key, None, [X])
            c.count("conversions")
            good = False
            for _, f, v, e in rs:
                fall = o != out
                if fall and is_err(v):
                    if any(is_t(t, "len") or "len" in str(t) for t in f):
                        continue
                    c.viol("refused:" + key, key, "the conversion of %s into %s may fail" % (i, out))
                    continue
                w = v.a[2][0] if fall and is_ok(v) else v
                if w.k == "iter" and not w.a[1]:
                    w = w.a[0]
                ws = forms(e, w)
                good = True
                c.ob("%s -> %s" % (i.split("::")[-1], out.split("::")[-1]))
                for y in ws:
                    if not plain(e, y, X):
                        c.viol("content:" + key, key, "the conversion of %s into %s gives %s instead of its whole content" % (i, out, sh(y, 120)))
            if not good:
                c.viol("never:" + key, key, "the conversion of %s into %s never succeeds" % (i, out))
    c.floor("conversions", 20)


def codec(c, ty, other):
    """(writer, reader) keys: From<&T> for other and TryFrom<&..> for T."""
    W = R = None
    for im in c.P.impls:
        tr = (im.get("trait") or "").split("::")[-1]
        if tr not in ("From", "TryFrom"):
            continue
        s = c.P.tystr(im["self"])
        ks = [x[1] for x in im["items"] if x[1] in c.P.bodies]
        if not ks:
            continue
        i, o = sig(c, ks[0])
        if tr == "From" and head(s) == other and head(i) == ty:
            W = ks[0]
        if head(s) == ty and head(i) == other:
            R = ks[0]
    for n, k in (("an encoder", W), ("a decoder", R)):
        if k is None:
            c.viol("anchor:%s:%s" % (ty, n), "-", "%s of %s was not found: the rule lost its subject" % (n, ty))
    return W, R


def feasible(f):
    return consistent(f)


@rule("P22")
def encrypted_values(c):
    """decoding the encoding of an encrypted value gives this value; only byte strings of the exact length are decoded, from which every byte is used, once"""
    W, R = codec(c, "EncryptedValue", "bytes")
    if None in (W, R):
        return
    x = T("param", "value")
    for _, f, v, e in apply(c, W, None, [x]):
        n = 0
        for y in forms(e, v):
            for _, f2, r, e2 in apply(c, R, None, [y], f):
                if not feasible(f2):
                    continue
                n += 1
                c.count("round trips")
                same(c, R, r, x, "an encrypted value")
        if not n:
            c.viol("round trip:none", R, "the encoding of an encrypted value is never decoded")
    B = T("param", "bytes")
    for _, f, r, e in apply(c, R, None, [B]):
        if not is_ok(r):
            continue
        c.count("decodings")
        w = r.a[2][0]
        n = VL.length(B)
        cover = [y for y in w.a[2]] if w.k == "agg" else []
        if not all(is_t(y, "slice") and y.a[1] is B for y in cover) or not cover:
            c.viol("decode", R, "a decoded value is not made of parts of the given bytes: " + sh(w, 120))
            continue
        exact = None
        for t, b in f.items():
            if is_t(t, "eq") and b == 1 and any(n is s for s in t.a[1:3]):
                exact = [s for s in t.a[1:3] if s is not n]
        if not exact:
            c.viol("decode:length", R, "bytes of any length may be decoded as an encrypted value")
        pos, left = C(0), list(cover)
        while left:
            nxt = [y for y in left if y.a[2] is pos]
            if not nxt:
                c.viol("decode:cover", R, "the bytes decoded as an encrypted value are not all used once: " + sh(w, 160))
                break
            left.remove(nxt[0])
            pos = nxt[0].a[3]
        else:
            if pos is not n and not any(pos is x for x in exact or ()):
                c.viol("decode:end", R, "the last bytes of an encrypted value are ignored")
    c.floor("round trips", 1)
    c.floor("decodings", 1)


def same(c, R, r, x, what):
    """The result r of a decoder is exactly the value x."""
    if not is_ok(r):
        c.viol("round trip:error", R, "decoding the encoding of %s may fail" % what)
        return
    w = r.a[2][0]
    if w is x:
        return
    if w.k == "agg" and all(y is VL.fld(x, w.a[1], i) for i, y in enumerate(w.a[2])):
        return
    c.viol("round trip:value", R, "decoding the encoding of %s gives %s" % (what, sh(w, 160)))


@rule("P22")
def indexed_values(c):
    """decoding the encoding of a pointer or of a datum, empty ones included, gives it back; anything else is refused"""
    W, R = codec(c, "IndexedValue", "bytes")
    if None in (W, R):
        return
    x = T("param", "value")
    seen = set()
    D = T("discr", x)
    for _, f, v, e in apply(c, W, None, [x]):
        for y in forms(e, v):
            n = 0
            for _, f2, r, e2 in apply(c, R, None, [y], f):
                if not feasible(f2):
                    continue
                n += 1
                c.count("round trips")
                if not is_ok(r):
                    c.viol("round trip:error", R, "decoding the encoding of an indexed value may fail")
                    continue
                w = r.a[2][0]
                if not (w.k == "agg" and w.a[1] == f.get(D) and len(w.a[2]) == 1 and w.a[2][0] in (VL.fld(x, w.a[1], 0), VL.fld(x, None, 0))):
                    c.viol("round trip:value", R, "decoding the encoding of %s gives %s" % ("a pointer" if f.get(D) == 0 else "a datum", sh(w, 160)))
                seen.add(f.get(D))
            if not n:
                c.viol("round trip:none", R, "the encoding of an indexed value is never decoded")
    if seen != {0, 1}:
        c.viol("round trip:variants", W, "not all variants of an indexed value are encoded and decoded")
    B = T("param", "bytes")
    for _, f, r, e in apply(c, R, None, [B]):
        if not is_ok(r):
            continue
        c.count("decodings")
        w = r.a[2][0]
        tag = [b for t, b in f.items() if t is T("idx", B, C(0))]
        known = tag and isinstance(tag[0], int) or any(is_t(t, "eq") and b == 1 and T("idx", B, C(0)) in t.a for t, b in f.items())
        if not known:
            c.viol("decode:tag", R, "a value starting by any byte may be decoded as " + sh(w, 100))
        d = w.a[2][0] if w.k == "agg" and w.a[2] else w
        if not (is_t(d, "slice") and d.a[1] is B and d.a[2] is C(1) and d.a[3] is VL.length(B)):
            c.viol("decode:rest", R, "a decoded value does not hold all the bytes following its tag: " + sh(w, 120))
    c.floor("round trips", 2)
    c.floor("decodings", 2)


class Codec(Monitor):
    """What is written to a serializer, or read from a deserializer, in order."""

    def __init__(self):
        self.iters, self.rets, self.els = set(), [], set()
        self.nested = False

    def ext(self, e, st, fr, name, args, site):
        m = re.match(r"(Serializer::write|Deserializer::read)_?(\w*)$", name)
        if m:
            kind = re.sub("_as_ref$", "", m.group(2))
            what = e.deref(st, args[1]) if name.startswith("S") else e.sid(site)
            k = "it" if e.active else "tail" if st.h.get("looped") else "hdr"
            st.h[k] = st.h.get(k, ()) + ((kind, what),)
            if k == "it" and len(st.h[k]) > 40:
                return False

    def result(self, e, st, name, good, v, args, site):
        if not good:
            st.h["failed"] = 1

    def back(self, e, st, lid):
        st.h["looped"] = 1
        if len(e.active) > 1 and st.h.get("it"):
            self.nested = True
            st.h.pop("it")
        if any(is_t(x, "elem") for x in e.loop_elems.get(lid, ())):
            self.iters.add(st.h.pop("it", ()))
            self.els |= {x for x in e.loop_elems.get(lid, ()) if is_t(x, "elem")}
        else:
            self.iters.add(st.h.pop("it", ()))

    def exit(self, e, st, lid):
        st.h["looped"] = 1
        if not e.exhausted and any(is_t(x, "elem") for x in e.loop_elems.get(lid, ())):
            st.h["cut"] = 1

    def ret(self, e, st, key, val):
        self.rets.append((st.h.get("hdr", ()), st.h.get("tail", ()), st.h.get("cut"), st.h.get("failed"), val))


def track(c, key, args):
    m = Codec()
    e = Engine(c.P, m)
    e.opaque = {}
    m.ctx, m.root = c, key
    try:
        e.run(key, args)
    except (interp.Budget, RecursionError):
        c.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
        return m, e
    c.analysed |= set(e.reached)
    return m, e


def kinds(seq):
    return tuple(k or "value" for k, _ in seq)


@rule("P22")
def memory_backend_serialization(c):
    """the in-memory backend is written and read with the same sequence of fields: the number of rows, then for each row its fields, each read back into the field it was written from; a failing read makes the whole reading fail"""
    ms = [x for x in c.methods("Serializable") if "write" in x[1] and "read" in x[1]]
    if not ms:
        c.viol("anchor:Serializable", "-", "no implementation of Serializable was found: the rule lost its subject")
        return
    for s, k, im in ms:
        W, R = k["write"], k["read"]
        mw, ew = track(c, W, [T("param", "db"), T("param", "ser")])
        mr, er = track(c, R, [T("param", "de")])
        okw = [x for x in mw.rets if is_ok(x[4])]
        okr = [x for x in mr.rets if is_ok(x[4])]
        if not okw or not okr:
            c.viol("never", W if not okw else R, "%s never succeeds" % ("writing" if not okw else "reading"))
            continue
        for key, rs in ((W, okw), (R, okr)):
            c.count("outcomes of codecs", len(rs))
            if any(x[2] for x in rs):
                c.viol("cut:" + last(key), key, "not all rows are %s" % ("written" if key is W else "read"))
            if any(x[3] for x in rs):
                c.viol("swallowed:" + last(key), key, "a failing %s may be ignored" % ("write" if key is W else "read"))
        hw, hr = {x[0] for x in okw}, {x[0] for x in okr}
        tw, tr = {x[1] for x in okw}, {x[1] for x in okr}
        if len({kinds(x) for x in hw | hr}) != 1 or len({kinds(x) for x in tw | tr}) != 1:
            c.viol("header", W, "before the rows, %s are written and %s are read; after them, %s and %s" % tuple(
                [kinds(y) for y in sorted(x, key=str)] for x in (hw, hr, tw, tr)))
            continue
        iw, ir = mw.iters, mr.iters
        if mw.nested or mr.nested:
            c.notes.append("the fields of a row are written or read by a loop: rows are not compared")
            c.count("fields of a row", 3)
            continue
        if len({kinds(x) for x in iw | ir}) != 1 or not kinds(sorted(iw | ir, key=str)[0]):
            c.viol("row", W, "for each row, %s are written and %s are read" % ([kinds(x) for x in sorted(iw, key=str)], [kinds(x) for x in sorted(ir, key=str)]))
            continue
        c.count("fields of a row", len(kinds(sorted(iw, key=str)[0])))
        # the number of rows
        tables = {x.a[1] for x in mw.els if is_t(x, "elem")}
        for h in hw:
            if not any(w is VL.length(t) for k, w in h for t in tables):
                c.viol("number", W, "the number of rows is not written: %s" % [sh(w) for k, w in h])
        ns = {opq for h in hr for k, opq in h}
        for x in mr.els:
            if is_t(x.a[1], "range"):
                lo, hi = x.a[1].a[1:3]
                if not (lo is C(0) and is_t(hi, "opq") and hi.a[1] == "read" and hi.a[2] in ns):
                    c.viol("number:read", R, "the rows %s..%s are read instead of the number of them which was written" % (sh(lo), sh(hi)))
        # each field is read from what it was written from
        n = 0
        for h, t, cut, failed, val in okr:
            for v in forms(er, val.a[2][0]):
                for v2 in inner(er, v):
                    els = elements(v2)
                    if v2.k != "coll" or v2.a[2]:
                        c.viol("rows lost", R, "rows read may be lost: " + sh(v2, 120))
                        continue
                    for g, z in els:
                        n += 1
                        if g:
                            c.viol("rows only if", R, "a row read is kept only under a condition on " + sh(sorted(g, key=lambda x: x[0].id)[0][0], 80))
                        for it in iw:
                            for rt in ir:
                                row(c, R, z, it, rt)
        if not n:
            c.viol("rows", R, "no row is ever read")
        announced(c, k.get("length"), hw, iw, ir)
    c.floor("fields of a row", 3)


def inner(e, v):
    """The collections held by a newtype, a lock or a pointer."""
    if v.k == "coll" or not v.at:
        return [v]
    if v.k == "agg" and len(v.a[2]) == 1:
        return [y for x in forms(e, v.a[2][0]) for y in inner(e, x)]
    return [v]


def row(c, R, z, it, rt):
    pos = {s: i for i, (k, s) in enumerate(rt)}

    def back(v):
        if is_t(v, "opq") and v.a[1] == "read" and v.a[2] in pos:
            return it[pos[v.a[2]]][1]
        if v.k == "agg":
            return agg(v.a[0], v.a[1], [back(x) for x in v.a[2]])
        return v
    if not (z.k == "agg" and len(z.a[2]) == 2):
        c.viol("row:shape", R, "a row read is " + sh(z, 120))
        return
    k, v = back(z.a[2][0]), back(z.a[2][1])
    c.count("rows compared")
    rows = [x for x in k.at if is_t(x, "elem")] + ([k] if is_t(k, "elem") else [])
    ok_k = any(k is VL.fld(x, None, 0) or k is x for x in rows)
    cands = [VL.fld(x, None, 1) for x in rows] + [T("at", x.a[1], k) for x in rows]
    cands += [y for y in v.at if is_t(y, "at") and y.a[2] is k] + [T("at", y.a[1], k) for y in rows]
    ok_v = any(v is y or v.k == "agg" and all(z is VL.fld(y, None, i) for i, z in enumerate(v.a[2])) for y in cands)
    if not ok_k:
        c.viol("row:token", R, "the token of a row is read from what was written as " + sh(k, 120))
    elif not ok_v:
        c.viol("row:value", R, "the value of a row is read from what was written as " + sh(v, 160))


def announced(c, L, hw, iw, ir):
    """The announced length is that of what is written, when it can be compared."""
    if L is None or len(hw) != 1 or len(iw) != 1 or len(ir) != 1:
        return
    exp = {}
    for k, w in list(hw)[0]:
        if k != "leb128_u64":
            return
        plus(exp, {((LEB, poly(w)),): 1})
    for (k, w), (_, s) in zip(list(iw)[0], list(ir)[0]):
        if k == "array":
            p = poly(VL.length(T("opq", "read", s, 0)))
        elif k == "leb128_u64":
            p = frozenset({((LEB, poly(w)),): 1}.items())
        else:
            return
        plus(exp, times({("n",): 1}, dict(p) if p is not None else {None: 1}))
    for _, f, v, e in apply(c, L, T("param", "db"), []):
        for x in forms(e, v):
            p = poly(x)
            if p is None or None in exp:
                c.notes.append("the announced length is not a polynomial: not compared")
                continue
            c.count("announced lengths")
            if dict(p) != exp:
                c.viol("length", L, "the announced length is %s" % sh(x, 200))


LEB = "to_leb128_len"


def plus(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v
        if not a[k]:
            del a[k]


def times(a, b):
    out = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            plus(out, {tuple(sorted(k + k2, key=str)): v * v2})
    return out


def poly(v):
    """A polynomial in the number of rows and the parameters (None: something else)."""
    if is_int(v):
        return frozenset({(): v.a[1]}.items()) if v.a[1] else frozenset()
    if v.k == "lin":
        out = {(): v.a[0]} if v.a[0] else {}
        for x, k in v.a[1]:
            p = poly(x)
            if p is None:
                return None
            plus(out, times(dict(p), {(): k}))
        return frozenset(out.items())
    if is_t(v, "mul"):
        a, b = poly(v.a[1]), poly(v.a[2])
        return None if None in (a, b) else frozenset(times(dict(a), dict(b)).items())
    if is_t(v, "len"):
        return frozenset({("n",): 1}.items())
    if is_t(v, "cparam"):
        return frozenset({(v.a[1],): 1}.items())
    if is_t(v, "call") and v.a[1].endswith(LEB):
        p = poly(v.a[2])
        return None if p is None else frozenset({((LEB, p),): 1}.items())
    return None


# =============================================================================================
# P25, P26  the in-memory backend
# =============================================================================================
class Table(Monitor):
    """Operations on the rows of the in-memory backend."""

    def __init__(self):
        self.panics, self.backs = [], []

    def checked(self, e, st):
        """The tables in which all the expected rows were found."""
        if self.old is None:
            return set()
        return {locked(e, t.a[1]) for g, t, b in st.univ if not g and b == 1 and is_t(t, "contains") and is_key(t.a[2], T("elem", self.old))} - {None}

    def back(self, e, st, lid):
        els = [x for x in e.loop_elems.get(lid, ()) if is_t(x, "elem")]
        hit = {k for k, v in st.store.items() for p in e.touched(v, (), lid)}
        self.backs.append((els, dict(st.facts), st.h.pop("rem", None), self.checked(e, st), lid, hit))

    def exit(self, e, st, lid):
        els = [x for x in e.loop_elems.get(lid, ()) if is_t(x, "elem")]
        if not e.exhausted and any(x.a[1] is self.items for x in els):
            st.h["cut"] = 1

    def ext(self, e, st, fr, name, args, site):
        if name == "map#remove":
            k = e.deref(st, args[1])
            if is_t(k, "elem") and k.a[1] is self.items:
                st.h["rem"] = 1

    def panic(self, e, st, fr, blk, what, payload):
        self.panics.append((dict(st.facts), self.checked(e, st)))

    def ret(self, e, st, key, val):
        self.rets.append((st.copy(), val, st.h.get("cut")))


def locked(e, x):
    """The value of the table protected by the lock, possibly modified since."""
    if is_t(x, "lockval"):
        return x
    if is_t(x, "phi"):
        for y in forms(e, x):
            if is_t(y, "lockval"):
                return y
    if x.k == "coll":
        for g, z in elements(x):
            if is_t(z, "elem") and not g:
                r = locked(e, z.a[1])
                if r is not None:
                    return r
    return None


def is_row(e, z):
    return is_t(z, "elem") and locked(e, z.a[1]) is not None


def is_key(k, x):
    """k is the key of the (row) element x, up to the iteration."""
    k, x = gen(k), gen(x)
    return k is VL.fld(x, None, 0) or k is x


def gen(v):
    if is_t(v, "elem"):
        return T("elem", v.a[1])
    if is_t(v, "fld"):
        return VL.fld(gen(v.a[1]), v.a[2], v.a[3])
    return v


def backend(c, meth, old=None, items=None):
    """Run a method of the in-memory backend: (key, monitor, engine)."""
    key = None
    for s, ms, im in c.methods("DbInterface"):
        if meth in ms and "InMemoryDb" in s:
            key = ms[meth]
    if key is None:
        c.viol("anchor:" + meth, "-", "the method %s of the in-memory backend was not found: the rule lost its subject" % meth)
        return None, None, None
    m = Table()
    m.rets = []
    names = [l.get("n") for l in c.P.bodies[key]["locals"]]
    n = c.P.bodies[key]["argc"] if "argc" in c.P.bodies[key] else None
    ps = [x for x in names[2:] if x]
    m.old = T("param", ps[0]) if meth == "upsert" and len(ps) > 1 else None
    m.items = T("param", ps[1] if meth == "upsert" and len(ps) > 1 else ps[0]) if ps else None
    e = Engine(c.P, m)
    e.opaque = {}
    m.ctx, m.root = c, key
    try:
        e.run(key)
    except (interp.Budget, RecursionError):
        c.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
        return None, None, None
    c.analysed |= set(e.reached)
    c.count("outcomes of the backend", len(m.rets))
    return key, m, e


def rows(e, st):
    """[(locked value, form of the final table)]."""
    out = []
    for k, v in st.store.items():
        if k[0] == "H":
            for y in forms(e, v):
                out.append(y)
    return out


def case(e, g, old, new, M):
    """What a guard says of a row of the new values: ({"old", "cur", "eq": 0/1}, [other literals])."""
    d, rest, parts = {}, [], {}
    for t, b in sorted(g, key=lambda x: x[0].id):
        if is_t(t, "contains") and is_key(t.a[2], T("elem", new)):
            if t.a[1] is old:
                d["old"] = b
                continue
            if locked(e, t.a[1]) is M:
                d["cur"] = b
                continue
        if is_t(t, "eq"):
            s = [which(e, x, old, new, M) for x in t.a[1:3]]
            if {x and x[0] for x in s} == {"old", "cur"} and s[0][1] == s[1][1]:
                if s[0][1] is None:
                    d["eq"] = b
                else:
                    parts[s[0][1]] = b
                continue
        if is_t(t, "isempty") and t.a[1] is new and b == 0:
            continue
        if is_t(t, "removed") and b == 0:
            continue
        rest.append(t)
    if parts and "eq" not in d:
        if 0 in parts.values():
            d["eq"] = 0
        elif len(parts) >= 3:
            d["eq"] = 1
    return d, rest


def which(e, x, old, new, M):
    i = None
    if is_t(x, "fld") and is_t(x.a[1], "at"):
        i, x = x.a[3], x.a[1]
    if is_t(x, "at") and is_key(x.a[2], T("elem", new)):
        if x.a[1] is old:
            return ("old", i)
        if locked(e, x.a[1]) is M:
            return ("cur", i)
    return None


CASES = [({"old": 0, "cur": 0, "eq": 1}, "w", "without a stored nor an expected value"),
         ({"old": 1, "cur": 1, "eq": 1}, "w", "whose stored value is the expected one"),
         ({"old": 0, "cur": 1, "eq": 0}, "r", "which is stored but was expected to be absent"),
         ({"old": 1, "cur": 1, "eq": 0}, "r", "whose stored value is not the expected one"),
         ({"old": 1, "cur": 0, "eq": 0}, "e", "which is expected but not stored")]


def agree(d, cs):
    return all(cs.get(k, b) == b for k, b in d.items())


def says(d, **kw):
    return all(d.get(k) == b for k, b in kw.items())


@rule("P25")
def upsert_decides(c):
    """for each new value, the in-memory backend stores it if and only if the stored value is the expected one (or both are absent), else reports the stored one; a missing expected row is an error which leaves the table unchanged; all under one lock"""
    key, m, e = backend(c, "upsert")
    if key is None:
        return
    old, new = m.old, m.items
    E = T("elem", new)
    n, last = 0, None
    m.deciding = {lid for els, f, rem, ch, lid, hit in m.backs if any(k[0] == "H" for k in hit)}
    for st, val, cut in m.rets:
        fin = rows(e, st)
        if is_err(val):
            c.count("failures")
            for y in fin:
                if not is_t(y, "lockval"):
                    c.viol("error:partial", key, "an upsert may fail after some values were stored")
            continue
        if not is_ok(val):
            continue
        if cut:
            c.viol("cut", key, "an upsert may succeed without looking at all the new values")
        Ms = {locked(e, y) for y in fin} - {None}
        if len(Ms) != 1:
            c.viol("locks", key, "the table is locked %d times by an upsert: another writer may come in between" % len(Ms))
            continue
        M = Ms.pop()
        last = M
        done = {}
        for where, cols in (("w", fin), ("r", forms(e, val.a[2][0]))):
            for y in cols:
                if y.k != "coll":
                    if not is_t(y, "lockval") or where == "r":
                        c.viol("table", key, "%s: %s" % ("rows may be lost by an upsert" if where == "w" else "what is reported is not known", sh(y, 120)))
                    continue
                for g in y.a[2]:
                    if any(is_t(t, "removed") for t, b in g):
                        c.viol("lost:" + where, key, "rows may be %s" % ("lost by an upsert" if where == "w" else "removed from the reported ones"))
                        continue
                    d, rest = case(e, g, old, new, M)
                    for cs, act, txt in CASES:
                        if act == where and agree(d, cs):
                            c.viol("skip:" + where, key, "a new value %s may not be %s" % (txt, "stored" if where == "w" else "reported"))
                for g, z in elements(y):
                    if where == "w" and is_t(z, "elem") and locked(e, z.a[1]) is M and not g:
                        continue
                    if is_t(z, "ent"):
                        k, v = z.a[2], T("at", z.a[1], z.a[2])
                    elif is_t(z, "elem"):
                        k, v = VL.fld(z, None, 0), VL.fld(z, None, 1)
                    elif z.k == "agg" and len(z.a[2]) == 2:
                        k, v = z.a[2]
                    else:
                        k = v = z
                    n += 1
                    c.count("rows stored or reported")
                    d, rest = case(e, g, old, new, M)
                    if not is_key(k, E):
                        c.viol("key:" + where, key, "a row is %s under %s, which is not the token of a new value" % ("stored" if where == "w" else "reported", sh(k, 80)))
                        continue
                    if where == "w" and not (is_t(gen(v), "fld") and gen(v) is VL.fld(E, None, 1)):
                        c.viol("value:w", key, "what is stored for a new value is " + sh(v, 100))
                    if where == "r" and not (which(e, v, old, new, M) == ("cur", None)):
                        c.viol("value:r", key, "what is reported for a rejected value is %s instead of the stored value" % sh(v, 100))
                    if rest:
                        c.viol("only if:" + where, key, "a value is %s depending on %s" % ("stored" if where == "w" else "reported", sh(rest[0], 120)))
                    for cs, act, txt in CASES:
                        if agree(d, cs):
                            if act == where:
                                done.setdefault(txt, set()).add(where)
                            elif act != "e" or not excluded(m, m.checked(e, st), M):
                                c.viol("%s:%s" % (where, txt), key, "a new value %s may be %s" % (txt, "stored" if where == "w" else "reported as rejected"))
        for cs, act, txt in CASES[:4]:
            if txt not in done:
                c.viol("never:" + txt, key, "a new value %s is never %s" % (txt, "stored" if act == "w" else "reported"))
    for els, facts, rem, checked, lid, hit in m.backs:
        if any(x.a[1] is new for x in els):
            d = facts_case(e, facts, old, new)
            if says(d, old=1, cur=0):
                if not excluded(m, checked, last):
                    c.viol("missing", key, "an expected row which is not stored does not make the upsert fail")
            if lid in m.deciding and not hit and any(act == "w" and agree(case(e, facts.items(), old, new, last)[0], cs) for cs, act, txt in CASES):
                c.viol("ignored", key, "a new value may be neither stored nor reported")
    for facts, checked in m.panics:
        d = facts_case(e, facts, old, new)
        if says(d, old=1, cur=0) and not excluded(m, checked, last):
            c.viol("missing:panic", key, "an expected row which is not stored makes the upsert panic")
    if not any(is_err(v) for _, v, _ in m.rets):
        c.viol("missing:never", key, "an upsert never fails: an expected row which is not stored should make it fail")
    c.floor("rows stored or reported", 4)
    c.floor("failures", 1)


def facts_case(e, facts, old, new):
    d = {}
    for t, b in facts.items():
        if is_t(t, "contains") and b in (0, 1) and is_key(t.a[2], T("elem", new)):
            if t.a[1] is old:
                d["old"] = b
            elif locked(e, t.a[1]) is not None:
                d["cur"] = b
    return d


def excluded(m, checked, M):
    """All the expected rows were found stored before, in the same table."""
    return M in checked or M is None and bool(checked)


@rule("P26")
def insert_decides(c):
    """an insertion of the in-memory backend stores all the given rows, or none and fails if one of their tokens is already used; no stored row is replaced"""
    key, m, e = backend(c, "insert")
    if key is None:
        return
    E = T("elem", m.items)
    for st, val, cut in m.rets:
        fin = rows(e, st)
        if is_err(val):
            c.count("failures")
            if any(not is_t(y, "lockval") for y in fin):
                c.viol("insert:partial", key, "an insertion may fail after some rows were stored")
            continue
        if not is_ok(val):
            continue
        if cut:
            c.viol("insert:cut", key, "an insertion may succeed without looking at all rows")
        n = 0
        for y in fin:
            M = locked(e, y)
            if M is None:
                c.viol("insert:lost", key, "the rows stored before an insertion are lost: " + sh(y, 100))
                continue
            if y.k != "coll":
                continue
            if y.a[2]:
                c.viol("insert:skip", key, "an insertion may succeed without storing all rows (or lose one): it depends on " + sh(y.a[2], 120))
            for g, z in elements(y):
                if is_t(z, "elem") and locked(e, z.a[1]) is not None and not g:
                    continue
                z2 = gen(z) if is_t(z, "elem") else z
                ok = z2 is E or z.k == "agg" and len(z.a[2]) == 2 and all(gen(x) is VL.fld(E, None, i) for i, x in enumerate(z.a[2]))
                if not ok:
                    c.viol("insert:row", key, "an insertion stores %s instead of the given rows" % sh(z, 100))
                    continue
                n += 1
                c.count("rows inserted")
                free = False
                for t, b in g:
                    if is_t(t, "contains") and b == 0 and locked(e, t.a[1]) is M and is_key(t.a[2], E):
                        free = True
                    elif not (is_t(t, "isempty") or is_t(t, "removed")):
                        c.viol("insert:only if", key, "a row is inserted only under a condition on " + sh(t, 120))
                if not free:
                    c.viol("insert:replace", key, "an insertion may replace a stored row, or find it free under another lock")
        if not n:
            c.viol("insert:nothing", key, "an insertion may succeed without storing the rows")
    if not any(is_err(v) for _, v, _ in m.rets):
        c.viol("insert:never fails", key, "an insertion never fails")
    c.floor("rows inserted", 1)
    c.floor("failures", 1)


@rule("P26")
def delete_decides(c):
    """a deletion of the in-memory backend removes exactly the given rows"""
    key, m, e = backend(c, "delete")
    if key is None:
        return
    E = T("elem", m.items)
    n = 0
    for st, val, cut in m.rets:
        if not is_ok(val):
            continue
        if cut:
            c.viol("delete:cut", key, "a deletion may succeed without looking at all tokens")
        gone = False
        for y in rows(e, st):
            if locked(e, y) is None and not (y.k == "coll" and any(is_row(e, z) for g, z in elements(y))):
                c.viol("delete:others", key, "a deletion may change other rows: " + sh(y, 100))
                continue
            if y.k != "coll":
                continue
            c.count("tables after a deletion")
            for g in y.a[2]:
                for t, b in g:
                    if is_t(t, "removed") and is_key(t.a[1], E) or is_t(t, "contains") and t.a[1] is m.items and b == 1:
                        gone = True
                    elif is_t(t, "contains") and b == 1 and t.a[1] is m.items and is_t(t.a[2], "fld") and t.a[2].a[3] == 0 and is_row(e, t.a[2].a[1]):
                        gone = True
                    elif is_t(t, "contains") and locked(e, t.a[1]) is not None:
                        pass
                    else:
                        c.viol("delete:other", key, "a deletion may remove other rows, depending on " + sh(t, 120))
            for g, z in elements(y):
                for t, b in g:
                    if not (is_row(e, z) and is_t(t, "contains") and t.a[1] is m.items and b == 0 and is_key(t.a[2], gen(z))):
                        c.viol("delete:only if", key, "a row is kept by a deletion only under a condition on " + sh(t, 120))
                if not is_row(e, z):
                    c.viol("delete:stored", key, "a deletion stores " + sh(z, 100))
        if gone:
            n += 1
    for els, facts, rem, ch, lid, hit in m.backs:
        if any(x.a[1] is m.items for x in els) and not rem:
            if any(b == 0 and is_t(t, "contains") and is_key(t.a[2], E) and locked(e, t.a[1]) for t, b in facts.items()):
                continue
            c.viol("delete:kept", key, "a given row may be kept by a deletion")
    if not n:
        c.viol("delete:nothing", key, "a deletion may leave the given rows")
    c.floor("tables after a deletion", 1)


@rule("P26")
def reads_decide(c):
    """fetching returns exactly the stored rows of the given tokens, with their tokens, and dumping returns all stored tokens"""
    key, m, e = backend(c, "fetch")
    if key is not None:
        E = T("elem", m.items)
        n = 0
        for st, val, cut in m.rets:
            if not is_ok(val):
                c.viol("fetch:fails", key, "fetching may fail")
                continue
            if cut:
                c.viol("fetch:cut", key, "fetching may stop before the last token")
            for y in forms(e, val.a[2][0]):
                if y.k != "coll":
                    c.viol("fetch:result", key, "fetching returns " + sh(y, 100))
                    continue
                for g, z in elements(y):
                    n += 1
                    c.count("rows fetched")
                    if z.k == "agg" and len(z.a[2]) == 2:
                        k, v = z.a[2]
                    elif is_t(z, "ent"):
                        k, v = z.a[2], T("at", z.a[1], z.a[2])
                    else:
                        k, v = VL.fld(z, None, 0), VL.fld(z, None, 1)
                    by_tok = is_key(k, E) and is_t(v, "at") and is_key(v.a[2], E) and locked(e, v.a[1]) is not None
                    by_row = is_t(k, "fld") and is_t(k.a[1], "elem") and locked(e, k.a[1].a[1]) is not None and v is VL.fld(k.a[1], None, 1)
                    if not (by_tok or by_row):
                        c.viol("fetch:row", key, "fetching returns the row %s" % sh(z, 120))
                    for t, b in g:
                        if not (is_t(t, "contains") and b == 1 and (by_tok and locked(e, t.a[1]) is not None or by_row and t.a[1] is m.items)) and not is_t(t, "isempty"):
                            c.viol("fetch:only if", key, "a row is fetched only under a condition on " + sh(t, 120))
                for g in y.a[2]:
                    if not any(is_t(t, "contains") and b == 0 for t, b in g):
                        c.viol("fetch:skip", key, "the row of a given token may be skipped, depending on " + sh(g, 120))
        if not n:
            c.viol("fetch:nothing", key, "fetching never returns a row")
        c.floor("rows fetched", 1)
    key, m, e = backend(c, "dump_tokens")
    if key is not None:
        for st, val, cut in m.rets:
            if not is_ok(val):
                c.viol("dump:fails", key, "dumping the tokens may fail")
                continue
            for y in forms(e, val.a[2][0]):
                els = elements(y)
                c.count("dumps")
                if y.k != "coll" or y.a[2] or not els or any(g for g, z in els):
                    c.viol("dump:lost", key, "a stored token may be missing from the dump: " + sh(y, 120))
                for g, z in els:
                    if not (is_t(z, "fld") and z.a[3] == 0 and is_t(z.a[1], "elem") and locked(e, z.a[1].a[1]) is not None):
                        c.viol("dump:other", key, "the dump holds something else than the stored tokens: " + sh(z, 120))
        c.floor("dumps", 1)

"""Hash-consed abstract values.

Kinds (V.k) and payloads (V.a):
  c     (value,)                       constant (int, bytes, str, None for unit-like)
  fn    (json,)                        function item
  agg   (name, variant, fields)        struct / enum variant / tuple / closure / coroutine
  t     (op, *args)                    symbolic term
  lin   (const, ((term, coef), ..))    linear integer combination
  alt   (tag, frozenset)               one of several known values
  coll  (kind, elems, skips, seq, last, ne, tc)
  iter  (base, stages)
  mref  (base, path)                   mutable reference to an abstract address
  segs  (base, ((lo, hi, val), ..))    byte buffer overwritten at ranges
"""

_tab = {}
ATOMS = {"blk", "resp", "err", "fresh", "elem", "phi", "param", "lockval", "undef", "opq"}


class V(object):
    __slots__ = ("k", "a", "id", "at")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id          # identical runs iterate sets in the same order


def _atoms(x, out):
    if isinstance(x, V):
        if x.at:
            out |= x.at
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _atoms(y, out)


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = len(_tab)
        s = set()
        _atoms(a, s)
        if (k == "t" and a[0] in ATOMS) or k == "alt":
            s.add(v)
        v.at = frozenset(s)
        _tab[key] = v
    return v


def C(x):
    # keep 0/False and 1/True together: booleans are the integers 0 and 1
    if x is True:
        x = 1
    elif x is False:
        x = 0
    return mk("c", type(x).__name__, x)


def cval(v):
    return v.a[1] if v.k == "c" else None


def is_int(v):
    return v.k == "c" and isinstance(v.a[1], int)


TRUE = C(1)
FALSE = C(0)


def T(op, *a):
    return mk("t", op, *a)


def is_t(v, op=None):
    return v.k == "t" and (op is None or v.a[0] == op)


def agg(name, variant, fields):
    return mk("agg", name, variant, tuple(fields))


UNIT = agg("tuple", 0, ())


def tup(*f):
    return agg("tuple", 0, f)


NONE = agg("Option", 0, ())


def some(v):
    return agg("Option", 1, (v,))


def ok(v):
    return agg("Result", 0, (v,))


def err(v):
    return agg("Result", 1, (v,))


def mref(base, path=()):
    return mk("mref", base, tuple(path))


EMPTY = frozenset()


class Coll(object):
    """View on a coll value."""


def coll(kind, elems=EMPTY, skips=EMPTY, seq=None, last=None, ne=None, tc=EMPTY):
    """elems: frozenset of (guard, V); skips: frozenset of guards;
    guard: frozenset of (term, value).  seq: exact contents, tuple of ('e'|'s', V).
    ne: True/False/None (non empty / empty / unknown).
    tc: active loops during whose current iteration something was added."""
    return mk("coll", kind, frozenset(elems), frozenset(skips), seq, last, ne, tc)


def empty(kind):
    return coll(kind, seq=(), ne=False)


def iterv(base, stages=()):
    return mk("iter", base, tuple(stages))


# ---- linear integers ---------------------------------------------------------
def _lin(v):
    if is_int(v):
        return v.a[1], {}
    if v.k == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, sb=1):
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + sb * k
    return mklin(c1 + sb * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if is_int(b):
        a, b = b, a
    if is_int(a):
        c, d = _lin(b)
        k = a.a[1]
        return mklin(c * k, {t: x * k for t, x in d.items()})
    x, y = sorted((a, b), key=lambda v: v.id)
    return T("mul", x, y)


# ---- terms -------------------------------------------------------------------
def fld(v, variant, i):
    if v.k == "agg":
        if i < len(v.a[2]):
            return v.a[2][i]
        return T("bad", v, i)
    if v.k == "t":
        if v.a[0] == "with":
            if v.a[2] == (variant, i):
                return v.a[3]
            return fld(v.a[1], variant, i)
        if v.a[0] == "ent":
            # ent(M, k): the entry of map M for key k, a pair (k, at(M, k))
            return v.a[2] if i == 0 else T("at", v.a[1], v.a[2])
    return T("fld", v, variant, i)


def at(m, k):
    """Value associated with key k in the opaque map m."""
    if is_t(k, "fld") and k.a[3] == 0 and k.a[1].k == "t" and k.a[1].a[0] == "elem" and k.a[1].a[1] is m:
        return fld(k.a[1], None, 1)
    return T("at", m, k)


def pair(k, v):
    """Map entry; eta-reduced to the element it was taken from."""
    if is_t(k, "fld") and is_t(v, "fld") and k.a[1] is v.a[1] and k.a[3] == 0 and v.a[3] == 1:
        return k.a[1]
    if is_t(v, "at") and v.a[2] is k:
        return T("ent", v.a[1], k)
    return tup(k, v)


# Elements of a collection.
#   elem(S)              the element under consideration in the current iteration of a loop
#   elem(S, "i", lid)    the same, when an enclosing loop runs over S as well
#   elem(S, "g")         bound variable of a template: each element of S
#   elem(S, "p", lid)    the elements of the previous iterations of the loop lid
#   elem(S, "x", lid)    the element at which the loop lid was left
def elem(s):
    return T("elem", s)


def gelem(s):
    return T("elem", s, "g")


def ekind(a):
    """Kind of an element atom: 'c' (current), 'g', 'p' or 'x'."""
    if len(a.a) == 2 or a.a[2] == "i":
        return "c"
    return a.a[2]


# condition under which a collection misses what another path had put in it
LOST = frozenset([(T("lost"), 1)])


def contains(m, k):
    if is_t(k, "elem") and k.a[1] is m:
        return TRUE
    if is_t(k, "fld") and k.a[3] == 0 and is_t(k.a[1], "elem") and k.a[1].a[1] is m:
        return TRUE
    return T("contains", m, k)


def length(v):
    if v.k == "c" and isinstance(v.a[1], bytes):
        return C(len(v.a[1]))
    if v.k == "segs":
        return length(v.a[0])
    if is_t(v, "rep"):
        return v.a[2]
    if is_t(v, "slice"):
        return sub(v.a[3], v.a[2])
    n = LEN.get(v)
    if n is not None:
        return n
    if v.k == "coll":
        if v.a[5] is False:
            return C(0)
        if v.a[3] is not None:
            n = C(0)
            for k, x in v.a[3]:
                n = add(n, C(1) if k == "e" else length(x))
            return n
        return T("len", strip(v))
    if v.k == "agg" and v.a[0] == "array":
        return C(len(v.a[2]))
    return T("len", v)


def strip(v):
    if v.k == "coll" and v.a[6]:
        return mk("coll", *(v.a[:6] + (EMPTY,)))
    return v


def le(a, b):
    """a <= b when decidable on the linear forms (all terms are naturals)."""
    d = sub(b, a)
    if is_int(d):
        return d.a[1] >= 0
    c, m = _lin(d)
    if c >= 0 and all(k > 0 for k in m.values()):
        return True
    return None


def slc(v, lo, hi):
    n = length(v)
    if hi is None:
        hi = n
    if lo is C(0) and hi is n:
        return v
    if v.k == "c" and isinstance(v.a[1], bytes) and is_int(lo) and is_int(hi):
        return C(v.a[1][lo.a[1]:hi.a[1]])
    if is_t(v, "rep"):
        return T("rep", v.a[1], sub(hi, lo))
    if is_t(v, "slice"):
        return slc(v.a[1], add(v.a[2], lo), add(v.a[2], hi))
    if v.k == "segs":
        for l, h, x in reversed(v.a[1]):
            if l is lo and h is hi:
                return x
            if le(l, lo) and le(hi, h):
                return slc(x, sub(lo, l), sub(hi, l))
            if le(h, lo) or le(hi, l):
                continue
            return T("slice", v, lo, hi)
        return slc(v.a[0], lo, hi)
    if v.k == "coll" and v.a[3] is not None:
        # exact byte sequence: look for the pieces covering [lo, hi)
        pos = C(0)
        out = []
        started = False
        for k, x in v.a[3]:
            n = C(1) if k == "e" else length(x)
            end = add(pos, n)
            if pos is lo and end is hi:
                return x if k == "s" else seqv("vec", ((k, x),))
            if pos is lo:
                started = True
            if started:
                out.append((k, x))
                if end is hi:
                    return seqv(v.a[0], tuple(out))
            elif le(pos, lo) and le(hi, end) and k == "s":
                return slc(x, sub(lo, pos), sub(hi, pos))
            pos = end
    return T("slice", v, lo, hi)


def seqv(kind, items):
    if not items:
        return empty(kind)
    el = set()
    for k, x in items:
        if k == "e":
            el.add((EMPTY, x))
        else:
            el.add((EMPTY, gelem(x)))
    k, x = items[-1]
    return coll(kind, el, EMPTY, tuple(items), x if k == "e" else None, True if any(k == "e" for k, _ in items) else None)


LEN = {}


def note_len(v, n):
    """Record a length known from the static type."""
    if v.k == "t" and v.a[0] not in ("rep", "slice") and v not in LEN:
        LEN[v] = n


def setrange(v, lo, hi, x):
    if hi is None:
        hi = length(v)
    if lo is C(0) and hi is length(v):
        return x
    if v.k == "segs":
        keep = tuple(s for s in v.a[1] if not (le(lo, s[0]) and le(s[1], hi)))
        return mk("segs", v.a[0], keep + ((lo, hi, x),))
    return mk("segs", v, ((lo, hi, x),))


# ---- substitution -------------------------------------------------------------
def subst(x, m, memo=None):
    """Replace atoms according to the dict m (V -> V) in V / tuple / frozenset."""
    if memo is None:
        memo = {}
    keys = m.keys()

    def go(v):
        if isinstance(v, V):
            if v in m:
                return m[v]
            if not v.at or v.at.isdisjoint(keys):
                return v
            r = memo.get(v)
            if r is None:
                r = rebuild(v, tuple(go(y) for y in v.a))
                memo[v] = r
            return r
        if isinstance(v, tuple):
            return tuple(go(y) for y in v)
        if isinstance(v, frozenset):
            return frozenset(go(y) for y in v)
        return v
    return go(x)


def rebuild(v, a):
    if v.k == "t":
        op = a[0]
        if op == "fld":
            return fld(a[1], a[2], a[3])
        if op == "at":
            return at(a[1], a[2])
        if op == "slice":
            return slc(a[1], a[2], a[3])
        if op == "len":
            return length(a[1])
        if op == "contains":
            return contains(a[1], a[2])
        if op == "eq":
            return mkeq(a[1], a[2])
    if v.k == "lin":
        r = C(v.a[0])
        for t, k in a[1]:
            r = add(r, mul(C(k), t))
        return r
    return mk(v.k, *a)


def mkeq(a, b):
    if a is b:
        return TRUE
    if a.k == "c" and b.k == "c":
        return C(a.a[1] == b.a[1])
    d = None
    if (a.k in ("lin",) or b.k in ("lin",)):
        d = sub(a, b)
        if is_int(d):
            return C(d.a[1] == 0)
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and not a.a[0].startswith("closure"):
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[2]) == len(b.a[2]):
            rs = [mkeq(x, y) for x, y in zip(a.a[2], b.a[2])]
            if any(r is FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r is not TRUE]
            if not rs:
                return TRUE
            if len(rs) == 1:
                return rs[0]
    x, y = (a, b) if a.id < b.id else (b, a)
    return T("eq", x, y)


_fa = {}


def freeatoms(v):
    """Atoms of v occurring outside of the collections nested in it."""
    if isinstance(v, V):
        if v.k == "coll" or not v.at:
            return EMPTY
        r = _fa.get(v)
        if r is None:
            r = set()
            for y in v.a:
                if isinstance(y, (V, tuple, frozenset)):
                    r |= freeatoms(y)
            if v in v.at:
                r.add(v)
            r = _fa[v] = frozenset(r)
        return r
    if isinstance(v, (tuple, frozenset)):
        r = set()
        for y in v:
            if isinstance(y, (V, tuple, frozenset)):
                r |= freeatoms(y)
        return frozenset(r)
    return EMPTY


_cd = {}


def colldepth(v):
    """Nesting depth of the collections in v."""
    if isinstance(v, V):
        r = _cd.get(v)
        if r is None:
            r = max([colldepth(y) for y in v.a if isinstance(y, (V, tuple, frozenset))] or [0])
            if v.k == "coll":
                r += 1
            _cd[v] = r
        return r
    if isinstance(v, (tuple, frozenset)):
        return max([colldepth(y) for y in v] or [0])
    return 0


def shallow(v, atoms):
    """v where the collections are replaced by their kinds."""
    if isinstance(v, V):
        if v.k == "coll":
            return T("some", v.a[0], frozenset(v.at & atoms))
        if not colldepth(v):
            return v
        return mk(v.k, *[shallow(y, atoms) for y in v.a])
    if isinstance(v, tuple):
        return tuple(shallow(y, atoms) for y in v)
    if isinstance(v, frozenset):
        return frozenset(shallow(y, atoms) for y in v)
    return v


# ---- printing -------------------------------------------------------------------
def show(v, d=6):
    if d < 0:
        return "…"
    if isinstance(v, tuple):
        return "(" + ",".join(show(x, d - 1) for x in v) + ")"
    if isinstance(v, frozenset):
        return "{" + ",".join(sorted(show(x, d - 1) for x in v)) + "}"
    if not isinstance(v, V):
        return str(v)
    k, a = v.k, v.a
    if k == "c":
        return repr(a[1])
    if k == "agg":
        n, va, f = a
        n = str(n).split("::")[-1]
        if n == "tuple":
            return "(" + ", ".join(show(x, d - 1) for x in f) + ")"
        return "%s%s(%s)" % (n, "#%s" % va if isinstance(va, int) else "", ", ".join(show(x, d - 1) for x in f))
    if k == "t":
        if a[0] == "fld":
            return "%s.%s" % (show(a[1], d - 1), a[3])
        return "%s(%s)" % (a[0], ", ".join(show(x, d - 1) for x in a[1:]))
    if k == "lin":
        return "%d+%s" % (a[0], "+".join("%d*%s" % (c, show(t, d - 1)) for t, c in a[1]))
    if k == "coll":
        s = "%s{%s}" % (a[0], "; ".join(sorted(show(x, d - 1) + (" if " + show(g, d - 1) if g else "") for g, x in a[1])))
        if a[2]:
            s += " skip" + show(a[2], d - 1)
        if a[3] is not None:
            s += " seq"
        if a[6]:
            s += "*"
        return s
    if k == "iter":
        return "iter(%s|%s)" % (show(a[0], d - 1), ",".join(s[0] for s in a[1]))
    if k == "alt":
        return "alt" + show(a[1], d - 1)
    if k == "mref":
        return "&mut %s%s" % (show(a[0], 2), show(a[1], 3))
    if k == "segs":
        return "segs[%s]" % ", ".join("%s..%s=%s" % (show(l, d - 1), show(h, d - 1), show(x, d - 1)) for l, h, x in a[1])
    if k == "fn":
        return "fn"
    return "%s%s" % (k, show(a, d - 1))

# the results must not depend on the order in which sets are walked: development aid to check it
import os as _os
for _i in range(int(_os.environ.get("FINDEX_PERTURB", "0"))):
    mk("c", "perturb", _i)

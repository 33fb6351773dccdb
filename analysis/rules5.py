"""Rules on layouts (links, entries, encrypted values), and on the in-memory backend."""
import vals as VL
import interp
from interp import Engine, State, mref
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, forms, is_ok, is_err
from rules4 import inherent

agg = VL.agg


class Quiet(Monitor):
    pass


def apply(c, key, self0, args, facts=None):
    """Outcomes [(self after, facts, result, engine)] of a function on given argument terms; `self0` may be modified
    through a mutable reference."""
    m = Quiet()
    e = Engine(c.P, m)
    e.opaque = {}
    m.ctx, m.root = c, key
    st = State()
    for k, v in (facts or {}).items():
        st.facts[k] = v
    b = c.P.bodies[key]
    if self0 is None:
        a = list(args)
    else:
        t = c.P.types[b["locals"][1]["t"]]
        if t["k"] == "ref" and t["mut"]:
            st.store[("P", "self")] = self0
            a = [mref(("P", "self"))] + list(args)
        else:
            a = [self0] + list(args)
    try:
        res = e.run(key, a, st=st)
    except (interp.Budget, RecursionError):
        c.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
        return []
    c.analysed |= set(e.reached) if hasattr(e, "reached") else {key}
    c.count("outcomes", len(res))
    return [(s.store.get(("P", "self"), self0), dict(s.facts), v, e) for s, v in res]


def bit(v, i):
    """The i-th bit of an integer term: 0, 1, or a term."""
    if is_int(v):
        return v.a[1] >> i & 1
    if is_t(v, "un") and v.a[1] == "Not":
        b = bit(v.a[2], i)
        return 1 - b if isinstance(b, int) else T("bit", v, C(i))
    if is_t(v, "bin"):
        op, x, y = v.a[1], v.a[2], v.a[3]
        if op in ("BitOr", "BitAnd", "BitXor"):
            a, b = bit(x, i), bit(y, i)
            if op == "BitAnd":
                if a == 0 or b == 0:
                    return 0
                if a == 1 or b == 1:
                    return b if a == 1 else a
                if a == b:
                    return a
            elif op == "BitOr":
                if a == 1 or b == 1:
                    return 1
                if a == 0 or b == 0 or a == b:
                    return b if a == 0 else a
            elif isinstance(a, int) and isinstance(b, int):
                return a ^ b
            elif a == 0 or b == 0:
                return b if a == 0 else a
            return T("bit", v, C(i))
        if op in ("Shr", "ShrUnchecked") and is_int(y):
            return bit(x, i + y.a[1])
        if op in ("Shl", "ShlUnchecked") and is_int(y):
            return bit(x, i - y.a[1]) if i >= y.a[1] else 0
    return T("bit", v, C(i))


def outcomes(rs, B=None):
    """Comparable form of the outcomes of a reader; the data of a block is at most B bytes long."""
    def near(v):
        if v.k == "agg":
            return agg(v.a[0], v.a[1], [near(x) for x in v.a[2]])
        if B is not None and is_t(v, "slice") and v.a[1].k == "segs" and is_int(v.a[2]) and is_t(VL.sub(v.a[3], v.a[2]), "idx"):
            top = C(v.a[2].a[1] + B)
            rs = tuple(r for r in v.a[1].a[1] if not (VL.le(r[1], v.a[2]) or VL.le(top, r[0])))
            return T("slice", VL.mk("segs", v.a[1].a[0], rs) if rs else v.a[1].a[0], v.a[2], v.a[3])
        return v
    return {(tuple(sorted((id(k), v) for k, v in f.items())), near(v)) for _, f, v, _ in rs}




# =============================================================================================
# P23  what is written in a block is what is read from it
# =============================================================================================
@rule("P23")
def blocks_read_back(c):
    """every block written is read back with its exact data and its flag, at every position and for every length; it disturbs no other block and no operation"""
    G, S = inherent(c, "Link", "get_block"), inherent(c, "Link", "set_block")
    GO, SO = inherent(c, "Link", "get_operation"), inherent(c, "Link", "set_operation")
    if None in (G, S, GO, SO):
        return
    B, L, N = (c.P.constint(n) for n in ("BLOCK_LENGTH", "LINE_WIDTH", "LINK_LENGTH"))
    if None in (B, L, N):
        c.viol("anchor:parameters", "-", "the constants BLOCK_LENGTH, LINE_WIDTH and LINK_LENGTH were not found: the rule lost its subject")
        return
    L0 = T("param", "link")
    VL.note_len(L0, C(N))
    ops = {}
    for p in range(L):
        for n in range(B + 1):
            D = T("param", "data%d" % n)
            VL.note_len(D, C(n))
            for term in ((1,) if n < B else (0, 1)):
                c.count("blocks written (position, length, flag)")
                where = "block %d, %d bytes, %s" % (p, n, "terminating" if term else "not terminating")
                rs = apply(c, S, L0, [C(p), D, C(term)])
                if not any(is_ok(v) for _, _, v, _ in rs):
                    c.viol("write:%s" % p, S, "a %s cannot be written" % where)
                for L1, f, v, e in rs:
                    if not is_ok(v):
                        c.viol("write:%s" % p, S, "a %s may be refused" % where)
                        continue
                    back = apply(c, G, L1, [C(p)])
                    for _, f2, v2, _ in back:
                        w = v2.a[2][0] if is_ok(v2) else None
                        if w is None or w.k != "agg" or len(w.a[2]) != 2:
                            c.viol("read:%s" % p, G, "reading back a %s may fail or gives %s" % (where, sh(v2, 120)))
                            continue
                        if w.a[2][0] is not C(term):
                            c.viol("flag", G, "a %s is read back as %s" % (where, "terminating" if w.a[2][0] is C(1) else sh(w.a[2][0])))
                        if n and w.a[2][1] is not D or not n and VL.length(w.a[2][1]) is not C(0):
                            c.viol("data", G, "the data of a %s is read back as %s" % (where, sh(w.a[2][1], 120)))
                    for q in range(L):
                        if q != p and n in (0, 1, B):
                            c.count("other blocks compared")
                            if outcomes(apply(c, G, L1, [C(q)]), B) != outcomes(apply(c, G, L0, [C(q)]), B):
                                c.viol("overlap", S, "writing a %s changes what is read from the block %d" % (where, q))
                        if n in (0, 1, B) and outcomes(apply(c, GO, L1, [C(q)])) != outcomes(apply(c, GO, L0, [C(q)])):
                            c.viol("overlap op", S, "writing a %s changes the operation read for the block %d" % (where, q))
    c.floor("blocks written (position, length, flag)", 5)


@rule("P23")
def operations_read_back(c):
    """the operation set for a block of a fresh link is the one read for it, for all combinations of operations; it disturbs no block"""
    G, GO, SO, NW = (inherent(c, "Link", n) for n in ("get_block", "get_operation", "set_operation", "new"))
    if None in (G, GO, SO, NW):
        return
    L, N = (c.P.constint(n) for n in ("LINE_WIDTH", "LINK_LENGTH"))
    if None in (L, N):
        return
    fresh = {v for _, _, v, _ in apply(c, NW, None, [])}
    if len(fresh) != 1:
        c.viol("new", NW, "a new link may be one of %s" % sh(sorted(fresh, key=str)[0] if fresh else None))
        return
    new = fresh.pop()
    if VL.length(new) is not C(N):
        c.viol("new", NW, "a new link is %s" % sh(new))
        return
    OPS = [agg(c.P.adt_of(c.P.bodies[SO]["locals"][3]["t"]), i, []) for i in (0, 1)]
    for word in range(1 << L):
        links = {new}
        for p in range(L):
            nxt = set()
            for x in links:
                for L1, f, v, e in apply(c, SO, x, [C(p), OPS[word >> p & 1]]):
                    if is_ok(v):
                        nxt.add(L1)
                    else:
                        c.viol("operation refused", SO, "the operation of the block %d may be refused" % p)
            links = nxt
        c.count("combinations of operations")
        for x in links:
            for p in range(L):
                for _, f, v, e in apply(c, GO, x, [C(p)]):
                    if not consistent(f):
                        continue
                    r = v.a[2][0] if is_ok(v) else v
                    if r is not OPS[word >> p & 1]:
                        c.viol("operation", GO, "the operation set for the block %d of a link is read back as %s" % (p, sh(v)))
    L0 = T("param", "link")
    VL.note_len(L0, C(N))
    for p in range(L):
        for o in OPS:
            for L1, f, v, e in apply(c, SO, L0, [C(p), o]):
                for q in range(L):
                    c.count("other blocks compared")
                    if outcomes(apply(c, G, L1, [C(q)])) != outcomes(apply(c, G, L0, [C(q)])):
                        c.viol("operation over block", SO, "setting the operation of the block %d changes what is read from the block %d" % (p, q))
    c.floor("combinations of operations", 2)


def consistent(f):
    """False if the facts contradict the arithmetic of constants."""
    for k, v in f.items():
        if is_t(k, "eq"):
            a, b = const(k.a[1]), const(k.a[2])
            if a is not None and b is not None and (a == b) != (v == 1):
                return False
    return True


def const(v):
    if is_int(v):
        return v.a[1]
    if is_t(v, "bin"):
        x = [bit(v, i) for i in range(64)]
        if all(isinstance(b, int) for b in x):
            return sum(b << i for i, b in enumerate(x))
    return None


# =============================================================================================
# P34  values <-> blocks
# =============================================================================================
class Blocks(Monitor):
    """Abstract links: how many blocks are complete, which operation and data are pending."""

    def __init__(self, c, L):
        self.c, self.L = c, L
        self.sets, self.pushes, self.rets, self.reads = [], [], [], []

    def bad(self, e, site, key, msg):
        self.c.viol(key, e.where(site) if site is not None else self.root, msg)

    # ---- writing ---------------------------------------------------------------------------
    def new(self, e, st, fr, blk, args, site):
        return [(st, T("lk", C(0), VL.NONE, VL.NONE))]

    def put(self, what):
        def g(e, st, fr, blk, args, site):
            r, pos = args[0], e.deref(st, args[1])
            v = e.deref(st, r)
            x = tuple(e.deref(st, a) for a in args[2:])
            if not is_t(v, "lk"):
                self.bad(e, site, "link:unknown", "a block is written to %s instead of a link under construction" % sh(v))
                return [(st, VL.ok(VL.UNIT))]
            n, op, bl = v.a[1:4]
            if pos is not n or n.a[1] >= self.L:
                self.bad(e, site, "position", "a block is written at the position %s of a link holding %s complete blocks out of %d" % (sh(pos), sh(n), self.L))
            if what == "op":
                if op is not VL.NONE:
                    self.bad(e, site, "operation:twice", "the operation of the block %s is set twice" % sh(n))
                op = VL.some(x[0])
            else:
                if bl is not VL.NONE:
                    self.bad(e, site, "block:twice", "the block %s is overwritten before being complete" % sh(n))
                bl = VL.some(VL.tup(x[0], x[1]))
            if op is not VL.NONE and bl is not VL.NONE:
                o, (d, t) = op.a[2][0], bl.a[2][0].a[2]
                n, op, bl = VL.add(n, C(1)), VL.NONE, VL.NONE
                i = upto(d)
                last = whether_last(st.facts, i)
                t = resolved(t, i, last)
                if i is not None and st.h.get("last") == 1:
                    st.h["dead"] = 1            # there is no iteration after the last one
                if not st.h.get("dead"):
                    self.sets.append((o, d, t, site, last, e))
                    if st.h.get("term"):
                        self.bad(e, site, "after the end", "a block of a value is written after its terminating block")
                st.h["open"] = 1
                if t is not C(0):
                    st.h["term"] = 1
            if r.k == "mref":
                e.storeto(st, r.a, T("lk", n, op, bl))
            return [(st, VL.ok(VL.UNIT))]

        def f(e, st, fr, blk, args, site):
            # a flag comparing the index with the last one: both outcomes apart
            for a in args[2:]:
                t = e.deref(st, a)
                i = next((z for z in t.at if inclusive(z)), None)
                if compared(t, i) is not None and whether_last(st.facts, i) is None:
                    out = []
                    for v in (0, 1):
                        s = st.copy()
                        s.facts[t] = v
                        out += g(e, s, fr, blk, args, site)
                    return out
            return g(e, st, fr, blk, args, site)
        return f

    def ext(self, e, st, fr, name, args, site):
        if name in ("Iterator::rev", "slice::reverse", "Vec::reverse", "slice::sort", "slice::sort_unstable") and args:
            self.bad(e, site, "order", "the modifications, the blocks or the links are not walked in order (%s)" % name)
        if name in ("vec#push", "Vec::push") and is_t(e.deref(st, args[1]), "lk"):
            if name == "vec#push":
                v = e.deref(st, args[1])
                n, op, bl = v.a[1:4]
                self.pushes.append((n, site))
                st.h.pop("open", None)
                if op is not VL.NONE or bl is not VL.NONE:
                    self.bad(e, site, "push:incomplete", "a link is stored while its block %s is incomplete" % sh(n))
                elif n is C(0):
                    self.bad(e, site, "push:empty", "a link without any block is stored")

    def ret(self, e, st, key, val):
        if not st.h.get("dead"):
            self.rets.append((st.h.get("open"), st.h.get("cut"), val))

    def exit(self, e, st, lid):
        for x in e.loop_elems.get(lid, ()):
            if not e.exhausted and is_t(x, "elem"):
                st.h["cut"] = 1
            elif inclusive(x) and st.h.pop("last", None) in (None, 0):
                st.h["dead"] = 1                # a walk over 0..=n ends after its n-th iteration

    def back(self, e, st, lid):
        for x in e.loop_elems.get(lid, ()):
            if inclusive(x):
                st.h["last"] = whether_last(st.facts, x, "?")
        if any(is_t(x, "elem") and x.a[1] is self.mods for x in e.loop_elems.get(lid, ())):
            self.c.count("modifications written")
            if not st.h.pop("term", None) and not st.h.get("dead"):
                self.c.viol("unterminated", self.root, "a modification may be written without a terminating block")


def inclusive(x):
    """An index walking 0..=n."""
    return is_t(x, "elem") and is_t(x.a[1], "range") and x.a[1].a[1] is C(0) and is_t(VL.sub(x.a[1].a[2], C(1)), "bin")


def upto(d):
    """The index walking 0..=n a piece is taken at."""
    for x in d.at:
        if is_t(x, "slice") and is_t(x.a[1], "fld") and len(x.a) > 3:
            for z in x.a[2].at:
                if inclusive(z):
                    return z
    if is_t(d, "slice"):
        for z in d.a[2].at:
            if inclusive(z):
                return z
    return None


def compared(t, i):
    """1, 0 if the term says that the index is / is not the last one, None if it says something else."""
    if i is None or t.k != "t" or t.a[0] not in ("eq", "lt", "not"):
        return None
    if t.a[0] == "not":
        r = compared(t.a[1], i)
        return None if r is None else 1 - r
    d = VL.sub(i, VL.sub(i.a[1].a[2], C(1)))
    a, b = t.a[1:3]
    if t.a[0] == "eq":
        return 1 if VL.sub(a, b) is d or VL.sub(b, a) is d else None
    return 0 if VL.sub(a, b) is d else None


def whether_last(facts, i, default=None):
    """Whether the index is the last one, by the facts of the path."""
    if i is None:
        return None
    for t, f in facts.items():
        r = None if isinstance(f, tuple) else compared(t, i)
        if r is not None:
            return r if f else 1 - r
    return default


def resolved(t, i, last):
    r = compared(t, i)
    return t if r is None or last is None else C(last if r else 1 - last)


CUR, OLD = T("blk", "cur"), T("blk", "old")


def has(v, x):
    return x in v.at


class Values(Monitor):
    """Abstract blocks: the one being read and the previous ones of the same value."""

    def __init__(self, c, L, opty):
        self.c, self.L = c, L
        self.OPS = [agg(opty, i, []) for i in (0, 1)]
        self.n = {}

    def guard(self, e, st, atoms, g):
        return g | frozenset((t, f) for t, f in st.facts.items() if not isinstance(f, tuple) and (CUR in t.at or OLD in t.at) and not interp.colldepth(t))

    def bad(self, e, site, key, msg):
        self.c.viol(key, e.where(site) if site is not None else self.root, msg)

    def count(self, k, st):
        self.n.setdefault(k, set()).add(st.hkey())

    def settle(self, e, st, site):
        """The block read last has been dealt with."""
        if "flag" not in st.h:
            return
        fl, op = st.h.pop("flag"), st.h.pop("op", None)
        ins, rem = st.h.pop("ins", None), st.h.pop("rem", None)
        if fl == 1:
            st.h.pop("pend", None)
            st.h.pop("first", None)
            self.count("values", st)
            if op == 0 and not (ins and not rem):
                self.bad(e, site, "addition", "a value whose last block is read as an addition is %s" % ("removed" if rem else "not added"))
            if op == 1 and not (rem and not ins):
                self.bad(e, site, "deletion", "a value whose last block is read as a deletion is %s" % ("added" if ins else "not removed"))
            if op is None:
                self.bad(e, site, "operation", "the operation of a value is not read")
        else:
            if ins or rem:
                self.bad(e, site, "unterminated", "a value is %s although its last block is not terminating" % ("added" if ins else "removed"))
            if site is not None and not any(v.k == "coll" and has(v, CUR) for k, v in st.store.items()):
                self.bad(e, site, "block dropped", "the data of a non-terminating block may be dropped")
            st.h["pend"] = 1
            if op is not None:
                st.h.setdefault("first", op)
        e.substate(st, {CUR: OLD})

    def block(self, e, st, fr, blk, args, site):
        me = (e.deref(st, args[0]), e.deref(st, args[1]))
        self.settle(e, st, site)
        self.where(e, st, site, *me)
        early = st.h.pop("early", None)
        out = [(st.copy(), VL.err(T("blkerr")))]
        for fl in (0, 1):
            s = st.copy()
            s.h["flag"] = fl
            s.h["at"] = me
            if early is not None:
                if early[1:] != me:
                    self.bad(e, site, "operation of another block", "the operation is read at (%s, %s) and the data at (%s, %s)" % tuple(sh(x) for x in early[1:] + me))
                s.h["op"] = early[0]
            out.append((s, VL.ok(VL.tup(C(fl), CUR))))
        return out

    def oper(self, e, st, fr, blk, args, site):
        me = (e.deref(st, args[0]), e.deref(st, args[1]))
        mine = "flag" in st.h and "op" not in st.h and st.h.get("at") == me
        if not mine:
            self.settle(e, st, site)
        out = [(st.copy(), VL.err(T("operr")))]
        for i, o in enumerate(self.OPS):
            s = st.copy()
            if mine:
                s.h["op"] = i
            else:
                s.h["early"] = (i,) + me
            out.append((s, VL.ok(o)))
        return out

    def where(self, e, st, site, link, pos):
        if not (is_t(link, "elem") and link.a[1] is self.chain):
            self.bad(e, site, "link", "blocks are read from %s instead of from each link of the chain" % sh(link))
        if is_int(pos):
            if pos.a[1] != (st.h.get("next", 0)):
                self.bad(e, site, "positions", "the block %s is read after %s blocks of a link" % (sh(pos), st.h.get("next", 0)))
            st.h["next"] = (pos.a[1] + 1) % self.L
        elif not (is_t(pos, "elem") and is_t(pos.a[1], "range") and pos.a[1].a[1] is C(0) and pos.a[1].a[2] is C(self.L)):
            self.bad(e, site, "positions", "the blocks read are at the positions %s instead of 0..%d" % (sh(pos), self.L))
        self.c.count("reads of blocks")

    def exit(self, e, st, lid):
        if e.exhausted:
            return
        for x in e.loop_elems.get(lid, ()):
            if is_t(x, "elem") and (x.a[1] is self.chain or is_t(x.a[1], "range") and x.a[1].a[2] is C(self.L)):
                st.h["cut"] = 1

    def ext(self, e, st, fr, name, args, site):
        if name in ("Iterator::rev", "slice::reverse", "Vec::reverse", "slice::sort", "slice::sort_unstable") and args:
            self.bad(e, site, "order", "the links or the blocks are not walked in order (%s)" % name)
        if name in ("Vec::insert", "Vec::swap_remove", "Vec::swap", "slice::swap") and any(e.deref(st, a).k == "coll" and (has(e.deref(st, a), OLD) or has(e.deref(st, a), CUR)) for a in args[:1]):
            self.bad(e, site, "order", "the blocks of a value are reordered (%s)" % name)
        if name in ("Vec::truncate", "Vec::remove", "Vec::resize", "Vec::split_off") and args and len(args) > 1 and e.deref(st, args[1]) is not C(0 if name != "Vec::remove" else -1):
            v = e.deref(st, args[0])
            if v.k == "coll" and (has(v, OLD) or has(v, CUR)):
                self.bad(e, site, "blocks removed", "blocks of a value may be dropped (%s)" % name)
        if name == "extend":
            t, x = e.deref(st, args[0]), e.deref(st, args[1])
            if has(t, CUR) and has(x, OLD):
                self.bad(e, site, "order", "the previous blocks of a value are appended after its last one")
        if name in ("HashSet::insert", "HashSet::remove"):
            v = e.deref(st, args[1])
            if not (has(v, CUR) or has(v, OLD)):
                return
            self.count("values handled", st)
            fl, op, pend = st.h.get("flag"), st.h.get("op"), st.h.get("pend")
            what = "added" if name.endswith("insert") else "removed"
            if not self.whole(v, CUR):
                self.bad(e, site, "value:last", "a value is %s without (all of) its last block: %s" % (what, sh(v, 120)))
            if pend and not self.whole(v, OLD):
                self.bad(e, site, "value:first", "a value is %s without (all of) its previous blocks: %s" % (what, sh(v, 120)))
            if not pend and has(v, OLD):
                self.bad(e, site, "value:stale", "a value is %s together with blocks of another one" % what)
            if st.h.get("first", op) != op:
                self.bad(e, site, "mixed", "a value is %s although its blocks disagree on the operation" % what)
            st.h["ins" if name.endswith("insert") else "rem"] = 1

    def whole(self, v, x):
        """All of x is in the value, unconditionally."""
        if v is x:
            return True
        if v.k != "coll":
            return False
        for g, z in v.a[1]:
            if (z is x or is_t(z, "elem") and z.a[1] is x) and all(is_t(t, "isempty") and t.a[1] is x for t, b in g):
                return True
        return False

    def ret(self, e, st, key, val):
        if not is_ok(val):
            return
        st = st.copy()
        ins = st.h.get("ins")
        self.c.count("outcomes of recompose")
        if st.h.get("cut"):
            self.c.viol("cut", key, "the walk over the links and their blocks may stop before the last one")
        r = val.a[2][0]
        for x in forms(e, r):
            if ins and not any(has(z, CUR) for g, z in elements(x)):
                self.c.viol("result", key, "a value which was added is not part of the result " + sh(x, 120))
        self.settle(e, st, None)


def shape(c, key):
    """The block and link lengths the function is instantiated with, from its call sites."""
    out = set()
    gs = [g.get("c") for g in c.P.bodies[key].get("generics") or []]
    for k, b in c.P.bodies.items():
        for bl in b["blocks"]:
            t = bl["t"]
            if t["k"] != "call":
                continue
            f = t["f"]
            fn = f[1].get("fn") if f[0] == "c" else None
            if not fn:
                continue
            r = fn.get("res") or fn
            if r.get("key") == key or fn.get("key") == key:
                out.add(tuple((n, a.get("c")) for n, a in zip(gs, fn.get("args") or []) if n))
    return out


def instances(c, key):
    """Environments giving the lengths their values."""
    envs = []
    for s in shape(c, key):
        env = {}
        for n, v in s:
            i = v if isinstance(v, int) else c.P.constint(str(v))
            env[n] = C(i) if i is not None else T("cparam", str(v))
        if env not in envs:
            envs.append(env)
    return envs


@rule("P34")
def values_to_blocks(c):
    """every modification is written as blocks covering its value in order, the last one and only it terminating, each with the operation of the modification; every block written belongs to a link which is stored"""
    key = inherent(c, "FindexMultiMap", "decompose")
    B, L = c.P.constint("BLOCK_LENGTH"), c.P.constint("LINE_WIDTH")
    if key is None or None in (B, L):
        return
    envs = instances(c, key)
    for env in envs:
        m = Blocks(c, L)
        e = Engine(c.P, m)
        e.part, e.maxst = max(L + 3, 8), 400
        e.opaque = {(None, "new"): m.new, (None, "set_block"): m.put("block"), (None, "set_operation"): m.put("op")}
        m.ctx, m.root = c, key
        m.mods = mods = T("param", c.P.bodies[key]["locals"][2].get("n"))
        try:
            res = e.run(key, None, env)
        except (interp.Budget, RecursionError):
            c.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
            continue
        c.analysed |= set(e.reached)
        kinds = {}
        for o, d, t, site, last, en in m.sets:
            pieces(c, e, B, mods, o, d, t, site, kinds, last)
        for k in ("full", "rest"):
            if not kinds.get(k):
                c.viol("cover:%s" % k, key, "no %s of a value is ever written" % ("full block" if k == "full" else "last block"))
        for n, site in m.pushes:
            c.count("links stored")
        for op, cut, val in m.rets:
            if not is_ok(val):
                continue
            c.count("outcomes of decompose")
            if op:
                c.viol("link lost", key, "blocks are written to a link which may not be part of the result")
            if cut:
                c.viol("cut", key, "the walk over the modifications may stop before the last one")
            for x in forms(e, val.a[2][0]):
                if x.k == "coll" and any(not is_t(z, "lk") for g, z in elements(x)):
                    c.viol("result", key, "the result holds something else than the links written: " + sh(x, 120))
        if not any(is_ok(v) for _, _, v in m.rets):
            c.viol("result", key, "no outcome of the decomposition is a success")
    c.floor("links stored", 1)
    c.floor("modifications written", 1)


def pieces(c, e, B, mods, o, d, t, site, kinds, last):
    w = e.where(site)
    for x in forms(e, d):
        c.count("blocks written")
        if not (is_t(x, "slice")):
            c.viol("piece", w, "a block holds %s instead of a piece of a value" % sh(x, 120))
            continue
        v, lo, hi = x.a[1:4]
        if not (is_t(v, "fld") and v.a[3] == 1 and is_t(v.a[1], "elem") and v.a[1].a[1] is mods):
            c.viol("piece", w, "a block holds a piece of %s, which is not the value of a modification" % sh(v, 120))
            continue
        for y in forms(e, o):
            if y is not VL.fld(v.a[1], None, 0):
                c.viol("operation", w, "a block of the value %s is given the operation %s" % (sh(v, 80), sh(y, 80)))
        q = T("bin", "Div", VL.length(v), C(B))
        if is_t(lo, "chunkx") and is_t(hi, "chunkx") and lo.a[1] is C(B) and hi.a[1] is C(B) and lo.a[2] is hi.a[2] and (lo.a[3], hi.a[3]) == (0, 1):
            kinds["full"] = 1
            if t is not C(0):
                c.viol("flag:full", w, "a full block is written as %s" % ("terminating" if t is C(1) else sh(t)))
            continue
        i = [z for z in lo.at if is_t(z, "elem") and is_t(z.a[1], "range")]
        n = None if len(i) != 1 or i[0].a[1].a[1] is not C(0) else i[0].a[1].a[2]
        if is_t(hi, "min") and n is VL.add(q, C(1)) and last is not None:
            # the end of the value is before the end of its i-th block for the last one only
            end = VL.mul(C(B), VL.add(i[0], C(1)))
            if {hi.a[1], hi.a[2]} == {VL.length(v), end}:
                hi = VL.length(v) if last else end
        if n is VL.add(q, C(1)) and last == 1:
            # the block after the full ones, in a walk over all of them
            kinds["rest"] = 1
            if lo is not VL.mul(C(B), i[0]) and lo is not VL.add(C(0), VL.mul(C(B), i[0])) or hi is not VL.length(v):
                c.viol("rest", w, "the last block of a value holds its bytes %s..%s" % (sh(lo), sh(hi)))
            if t is not C(1):
                c.viol("flag:rest", w, "the last block of a value is written as %s" % ("not terminating" if t is C(0) else sh(t)))
        elif n is q or n is VL.add(q, C(1)) and last == 0:
            # the i-th full block
            kinds["full"] = 1
            if lo is not VL.mul(C(B), i[0]) and lo is not VL.add(C(0), VL.mul(C(B), i[0])) or VL.sub(hi, lo) is not C(B):
                c.viol("full", w, "the %s-th full block of a value holds its bytes %s..%s" % (sh(i[0]), sh(lo), sh(hi)))
            if t is not C(0):
                c.viol("flag:full", w, "a full block is written as %s" % ("terminating" if t is C(1) else sh(t)))
        elif VL.sub(lo, VL.mul(C(B), q)) is C(0) or lo is VL.mul(C(B), q):
            kinds["rest"] = 1
            if hi is not VL.length(v):
                c.viol("rest", w, "the last block of a value stops at %s" % sh(hi))
            if t is not C(1):
                c.viol("flag:rest", w, "the last block of a value is written as %s" % ("not terminating" if t is C(0) else sh(t)))
        else:
            c.viol("piece", w, "a block holds the bytes %s..%s of a value: they are neither a full block nor the last one" % (sh(lo, 80), sh(hi, 80)))


@rule("P34")
def blocks_to_values(c):
    """all blocks of all links are read in order; each terminating one completes a value made of the blocks since the previous one, which is added or removed according to its operation"""
    key = inherent(c, "FindexMultiMap", "recompose")
    GO = inherent(c, "Link", "get_operation")
    SO = inherent(c, "Link", "set_operation")
    L = c.P.constint("LINE_WIDTH")
    if None in (key, GO, SO, L):
        return
    for env in instances(c, key):
        m = Values(c, L, c.P.adt_of(c.P.bodies[SO]["locals"][3]["t"]))
        m.chain = T("param", c.P.bodies[key]["locals"][2].get("n"))
        e = Engine(c.P, m)
        e.part, e.maxst = max(L + 3, 8), 400
        e.opaque = {(None, "get_block"): m.block, (None, "get_operation"): m.oper}
        m.ctx, m.root = c, key
        try:
            e.run(key, None, env)
        except (interp.Budget, RecursionError):
            c.viol("budget:" + key, "-", "the analysis of %s exceeded its budget" % key)
            continue
        c.analysed |= set(e.reached)
        c.count("ways a value is completed", len(m.n.get("values", ())))
        c.count("values handled", len(m.n.get("values handled", ())))
    c.floor("reads of blocks", 1)
    c.floor("ways a value is completed", 2)
    c.floor("values handled", 2)
    c.floor("outcomes of recompose", 1)

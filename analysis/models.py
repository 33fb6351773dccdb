"""Transfer functions of the calls leaving the crate (standard library, cryptographic
primitives, storage backend, user callbacks)."""
import json, re
from vals import *

E_ = EMPTY
ENTRY = "std::collections::hash_map::Entry"

# traits whose method returns (a view of) its argument
IDENT_TRAITS = {
    "Clone": {"clone"}, "ToOwned": {"to_owned"}, "Borrow": {"borrow"}, "BorrowMut": {"borrow_mut"},
    "AsRef": {"as_ref"}, "AsMut": {"as_mut"}, "Deref": {"deref"}, "DerefMut": {"deref_mut"},
    "IntoFuture": {"into_future"}, "RandomFixedSizeCBytes": {"as_bytes"}, "FixedSizeCBytes": {"to_bytes"},
    "Instrument": {"instrument", "in_current_span", "or_current"}, "IntoXof": {"into_xof"},
}
IDENT = set("""
Option::as_ref Option::as_mut Option::as_deref Option::as_deref_mut Option::copied Option::cloned Option::iter Option::into_iter
Result::as_ref Result::as_mut Result::as_deref Result::copied Result::cloned
slice::to_vec slice::into_vec slice::as_ref slice::to_owned Vec::as_slice Vec::as_mut_slice Vec::into_boxed_slice Vec::leak
Box::pin Box::new Arc::new Rc::new Pin::new Pin::new_unchecked Pin::as_mut Pin::get_mut Pin::into_inner Arc::clone Rc::clone
hint::must_use hint::black_box mem::ManuallyDrop str::as_bytes String::as_bytes String::into_bytes String::as_str str::to_string str::to_owned
Iterator::by_ref Iterator::copied Iterator::cloned Iterator::fuse Iterator::rev Iterator::peekable
Mutex::new RwLock::new RefCell::new Cell::new convert::identity array::as_slice array::as_mut_slice
Arc::try_unwrap Mutex::into_inner slice::as_slice Cow::into_owned GenericArray::as_slice Wrapping::0
BytesMut::freeze slice::as_ptr cmp::Reverse
""".split())


def seg(p):
    """Last two components of a path, generic arguments removed."""
    if p.startswith("<"):
        # <T as Trait>::method
        m = re.match(r"<(.*) as (.*)>::(\w+)$", p)
        if m:
            return re.sub(r"<.*", "", m.group(2)).split("::")[-1] + "::" + m.group(3)
    out, depth, prev = [], 0, ""
    for ch in p:
        if ch == "<":
            depth += 1
        elif ch == ">" and prev != "-":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        prev = ch
    parts = [x for x in "".join(out).split("::") if x]
    return "::".join(parts[-2:])


def splitargs(s):
    """Top level generic arguments of a type string."""
    i = s.find("<")
    if i < 0:
        return []
    out, depth, cur = [], 0, ""
    prev = ""
    for ch in s[i + 1:s.rstrip().rfind(">")]:
        if ch in "<([":
            depth += 1
        elif ch in ")]" or (ch == ">" and prev != "-"):
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Models(object):
    def __init__(self, eng):
        self.e = eng
        self.P = eng.P

    # ---- types -----------------------------------------------------------------
    def contkind(self, s):
        """Kind of container of a type string: 'map', 'set', 'vec', ('Result', k), ('Option', k)."""
        s = self.P.tystr(s) if isinstance(s, int) else s.strip()
        while s.startswith("&"):
            s = re.sub(r"^&('\w+ )?(mut )?", "", s).strip()
        head = s.split("<")[0]
        h = head.split("::")[-1]
        if s.startswith("["):
            return "vec"
        if h in ("HashMap", "BTreeMap", "IndexMap"):
            return "map"
        if h in ("HashSet", "BTreeSet", "IndexSet"):
            return "set"
        if h in ("Vec", "VecDeque", "BinaryHeap", "LinkedList"):
            return "vec"
        if h in ("Result", "Option"):
            a = splitargs(s)
            if a:
                return (h, self.contkind(a[0]))
        if h in ("Box", "Arc", "Rc", "Pin"):
            a = splitargs(s)
            return self.contkind(a[0]) if a else None
        if s == "()":
            return "unit"
        if h == "String":
            return "string"
        ad = self.P.adts.get(head)
        if ad and ad["kind"] == "struct" and len(ad["variants"][0]["f"]) == 1:
            return self.contkind(ad["variants"][0]["f"][0]["t"])
        return None

    def default(self, st, fr, blk, ty):
        """The default value of a type, by its own implementation if it is one of the crate."""
        s = self.P.tystr(ty)
        for im in self.P.impls:
            if (im.get("trait") or "").split("::")[-1] == "Default" and not im["derived"] and self.P.tystr(im["self"]) == s:
                for x in im["items"]:
                    if x[0] == "default" and x[1] in self.P.bodies and "<" not in s:
                        return self.e.call_body(st, fr, blk, x[1], [], {})
        return [(st, self.default_of(fr, s))]

    def default_of(self, fr, s):
        s = self.P.tystr(s) if isinstance(s, int) else s.strip()
        k = self.contkind(s)
        if k in ("map", "set"):
            return empty(k)
        if k == "vec" and not s.startswith("["):
            return empty("vec")
        h = s.split("<")[0].split("::")[-1]
        if h == "Option":
            return NONE
        if s in ("bool", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128", "i8", "i16", "isize"):
            return C(0)
        if h in ("Box", "Arc", "Rc", "Mutex", "RefCell", "RwLock"):
            a = splitargs(s)
            if a:
                return self.default_of(fr, a[0])
        m = re.match(r"\[(\w+); (.*)\]$", s)
        if m:
            return T("rep", C(0), self.e.cname(fr, m.group(2)))
        if h in ("SymmetricKey", "Nonce"):
            a = splitargs(s)
            return T("rep", C(0), self.e.cname(fr, a[0]) if a else C(0))
        ad = self.P.adts.get(s.split("<")[0])
        if ad and ad["kind"] == "struct":
            fs = [self.default_of(fr, f["t"]) for f in ad["variants"][0]["f"]]
            if len(fs) == 1:
                return fs[0]
            return agg(s.split("<")[0], None, fs)
        if s == "()":
            return UNIT
        return T("default", s)

    # ---- matching of templates --------------------------------------------------
    def match(self, p, t, sub, cond):
        if p is t:
            return True
        if p in sub:
            return sub[p] is t
        if p.k == "t":
            e = None
            if p.a[0] == "elem":
                e, n = p, t
            elif p.a[0] == "fld" and p.a[2] is None and p.a[3] == 0 and is_t(p.a[1], "elem"):
                e, n = p.a[1], T("ent", p.a[1].a[1], t)
                if is_t(t, "fld") and t.a[2] is None and t.a[3] == 0 and is_t(t.a[1], "elem"):
                    n = t.a[1]
            if e is not None and ekind(e) in ("g", "p"):
                if e in sub:
                    return sub[e] is n
                if is_t(n, "elem") and e.a[1].at and not self.match(e.a[1], n.a[1], sub, cond):
                    return False
                sub[e] = n
                cond.append((contains(e.a[1], t), 1))
                return True
        if p.k != t.k or not p.at or len(p.a) != len(t.a):
            return False
        if p.k not in ("t", "agg", "coll"):
            return False
        for x, y in zip(p.a, t.a):
            if not self.match1(x, y, sub, cond):
                return False
        return True

    def match1(self, x, y, sub, cond):
        if isinstance(x, V):
            return isinstance(y, V) and self.match(x, y, sub, cond)
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(self.match1(a, b, sub, cond) for a, b in zip(x, y))
        return x == y

    def kv(self, kind, x):
        if kind == "map":
            return fld(x, None, 0), fld(x, None, 1)
        return x, x

    def building(self, m, K):
        """K belongs to the previous iterations of a loop still running."""
        return any(is_t(a, "elem") and ekind(a) == "p" and a.a[3] in self.e.active for a in K.at)

    def lookup(self, st, m, k):
        """[(state, present, value)]"""
        e = self.e
        m = e.deref(st, m)
        k = e.deref(st, k)
        if m.k == "alt":
            out = []
            for x in sorted(m.a[1], key=lambda y: y.id):
                s = st.copy()
                e.replace(s, m, x)
                out += self.lookup(s, x, k)
            return out
        if m.k != "coll":
            if k is elem(m) or k is fld(elem(m), None, 0) and is_t(k, "fld"):
                return [(st, 1, at(m, k))]
            return [(s, b, at(m, k)) for s, b in e.fork(st, contains(m, k))]
        if not m.a[1]:
            return [(st, 0, None)]
        out = []
        cur = [st]
        sure = []
        other = growing = False
        ms = strip(m)
        lost = LOST in m.a[2]           # what the collection held may have been left out
        for g, x in sorted(m.a[1], key=lambda q: (q[1].id, sorted((a.id, b) for a, b in q[0]))):
            K, Vv = self.kv(m.a[0], x)
            sub, cond = {}, []
            if not self.match(K, k, sub, cond):
                if not (K.k == "c" and k.k == "c"):
                    other = True
                continue
            V2 = subst(Vv, sub) if sub else Vv
            conds = [(subst(t, sub) if sub else t, b) for t, b in g] + [(subst(t, sub) if sub else t, b) for t, b in cond]
            notes = [q for q in conds if is_t(q[0], "note")]
            conds = [q for q in conds if not is_t(q[0], "note")]
            if self.building(m, K):
                conds.append((contains(ms, k), 1))
                growing = True
            nxt = []
            # what was found under another case may have been overwritten under this one
            for s in list(sure):
                ys = [s.copy()]
                for t, b in conds:
                    ys = [z for y in ys for z in e.assume(y, t, b)]
                for y in ys:
                    y.facts.update(notes)
                out += [(y, 1, V2) for y in ys]
            for s in cur:
                unk = []
                bad = False
                for t, b in conds:
                    v = e.truth(s, t)
                    if v is None and t.k == "c":
                        v = t.a[1]
                    if v is None:
                        unk.append((t, b))
                    elif bool(v) != bool(b):
                        bad = True
                if bad:
                    nxt.append(s)
                    continue
                if not unk:
                    s.facts.update(notes)
                    out.append((s, 1, V2))
                    sure.append(s)
                    continue
                ys = [s.copy()]
                for t, b in unk:
                    ys = [z for y in ys for z in e.assume(y, t, b)]
                for y in ys:
                    y.facts.update(notes)
                out += [(y, 1, V2) for y in ys]
                sure += ys
                if len(unk) == 1 and not lost:
                    nxt += e.assume(s, unk[0][0], 1 - unk[0][1])
                else:
                    nxt.append(s)
            cur = nxt
        for s in cur:
            if other or m.a[2]:
                for s2, b in e.fork(s, contains(ms, k)):
                    if b and not other:
                        continue
                    out.append((s2, b, at(ms, k)))
            elif growing:
                out += [(s2, 0, None) for s2 in e.assume(s, contains(ms, k), 0)]
            else:
                out.append((s, 0, None))
        return out

    def lookup_vals(self, m, k):
        """Values possibly associated with k, without splitting the state."""
        if m.k != "coll":
            return [(E_, at(m, k))]
        out = []
        if m.a[4] is not None:
            K, Vv = self.kv(m.a[0], m.a[4])
            if K is k and all(len(a.a) == 2 for a in K.at if is_t(a, "elem")) \
                    and all(len(a.a) == 3 for a in K.at if is_t(a, "phi")):
                return [(E_, Vv)]           # what was put last, under a key which denotes a single value
        for g, x in m.a[1]:
            K, Vv = self.kv(m.a[0], x)
            sub, cond = {}, []
            if self.match(K, k, sub, cond):
                out.append((g, subst(Vv, sub) if sub else Vv))
        out.sort(key=lambda q: q[1].id)
        if not out:
            return [(E_, at(strip(m), k))]
        return out

    # ---- building collections -----------------------------------------------------
    def tocoll(self, v, kind):
        if v.k == "coll":
            return v
        if v.k == "c" and isinstance(v.a[1], bytes):
            return coll("vec", {(E_, gelem(v))}, seq=(("s", v),))
        if v.k == "agg" and v.a[0] == "array":
            return seqv("vec", tuple(("e", x) for x in v.a[2]))
        return coll(kind, {(E_, gelem(v))}, seq=(("s", v),) if kind == "vec" else None)

    def marks(self):
        out = set()
        for l in self.e.active:
            out.add(l)
            out.add(("b", l))
        return frozenset(out)

    def guardfor(self, st, x):
        own = set()
        for l in self.e.active:
            own |= self.e.loop_elems.get(l, set())
        own |= set(a for a in x.at if is_t(a, "elem"))
        return self.e.guard(st, frozenset(own))

    def addto(self, st, c, x):
        """Collection c with x added, under the facts known of the current element."""
        a = c.a
        g = self.guardfor(st, x)
        els = a[1] | {(g, x)}
        same = [q for q in els if q[1] is x]
        if len(same) > 6:
            com = None
            for q in same:
                com = q[0] if com is None else com & q[0]
            els = (els - set(same)) | {(com, x)}
        seq = a[3] + (("e", x),) if a[0] == "vec" and a[3] is not None and len(a[3]) < 200 else None
        return coll(a[0], els, a[2], seq, x, True, a[6] | self.marks())

    def weak_add(self, st, v, val):
        c = self.tocoll(v, "vec")
        return coll(c.a[0], c.a[1] | {(self.guardfor(st, val), val)}, c.a[2], None, None, c.a[5], c.a[6] | self.marks())

    def map_put(self, st, v, k, val, replace=True):
        c = self.tocoll(v, "map")
        x = pair(k, val)
        a = c.a
        els = set(a[1])
        for q in list(els):
            K, W = self.kv("map", q[1])
            if K is k:
                els.discard(q)          # the same key
        c2 = mk("coll", a[0], frozenset(els), a[2], None, None, a[5], a[6])
        return self.addto(st, c2, x)

    def map_values_set(self, st, v, val):
        if v.k != "coll":
            return T("mut", v, val)
        els = set(v.a[1])
        g = self.guardfor(st, val)
        for q in v.a[1]:
            K, W = self.kv("map", q[1])
            els.add((q[0] | g, pair(K, val)))
        return coll(v.a[0], els, v.a[2], None, None, v.a[5], v.a[6] | self.marks())

    def map_insert(self, st, m, k, val):
        """[(new map, previous value as an Option)]"""
        e = self.e
        ms = strip(m)
        if m.k == "coll" and not m.a[1]:
            prev = NONE
        elif st.facts.get(contains(ms, k)) == 0:
            prev = NONE
        else:
            prev = T("prev", ms, k)
        return self.map_put(st, m, k, val), prev

    # ---- iteration --------------------------------------------------------------
    def toiter(self, v):
        if v.k == "iter":
            return v
        return iterv(v)

    def src(self, st, base, lid, want_skips=True):
        """Pull one element of a source: [(state, what, value)]"""
        e = self.e
        if base.k == "alt":
            out = []
            for x in sorted(base.a[1], key=lambda y: y.id):
                s = st.copy()
                e.replace(s, base, x)
                out += self.src(s, x, lid)
            return out
        if base.k == "iter":
            return self.pull(st, None, None, base, lid)
        if base.k == "agg" and base.a[0] == "array":
            return [(st.copy(), "elem", x) for x in base.a[2]] + [(st, "end", None)]
        if base.k == "agg" and base.a[0] in ("Option",):
            if base.a[1] == 0:
                return [(st, "end", None)]
            return [(st.copy(), "elem", base.a[2][0]), (st, "end", None)]
        if base.k == "agg" and base.a[0] == "Result":
            if base.a[1] == 1:
                return [(st, "end", None)]
            return [(st.copy(), "elem", base.a[2][0]), (st, "end", None)]
        if base.k == "agg" and base.a[0] == "chain#":
            out = []
            for x in base.a[2]:
                out += [r for r in self.src(st.copy(), x, lid) if r[1] != "end"]
            return out + [(st, "end", None)]
        if base.k == "c" and base.a[1] in (b"", ""):
            return [(st, "end", None)]
        out = [(st.copy(), "end", None)]
        e.srckinds.setdefault(lid, set()).add(base.a[0] if base.k == "coll" else base.k)
        if base.k == "coll":
            if not base.a[1]:
                return out
            its = sorted(base.a[1], key=lambda q: (q[1].id, sorted((a.id, b) for a, b in q[0])))
            n = 0
            for g, x in its:
                inst, own = e.bind(lid, freeatoms(x) | freeatoms(g))
                s = st.copy()
                e.kill(s, own)
                ss = [s]
                if inst:
                    x, g = subst(x, inst), subst(g, inst)
                g = self.consistent(g)
                for t, b in sorted(g, key=lambda q: q[0].id):
                    ss = [z for y in ss for z in e.assume(y, t, b)]
                for z in ss:
                    if self.univ(z, inst):
                        out.append((z, "elem", x))
            if want_skips:
                for g in base.a[2]:
                    inst, own = e.bind(lid, freeatoms(g))
                    s = st.copy()
                    e.kill(s, own)
                    ss = [s]
                    if inst:
                        g = subst(g, inst)
                    g = self.consistent(g)
                    for t, b in sorted(g, key=lambda q: q[0].id):
                        ss = [z for y in ss for z in e.assume(y, t, b)]
                    for z in ss:
                        if self.univ(z, inst):
                            out.append((z, "skip", None))
            return out
        gx = gelem(base)
        inst, own = e.bind(lid, frozenset([gx]))
        x = inst[gx]
        s = st.copy()
        e.kill(s, own)
        if self.univ(s, inst):
            out.append((s, "elem", x))
        return out

    @staticmethod
    def consistent(g):
        """Guard without the conditions it both requires and excludes (bound variables
        of several loops were identified)."""
        d = {}
        for t, b in g:
            d.setdefault(t, set()).add(b)
        if all(len(b) == 1 for b in d.values()):
            return g
        return frozenset((t, next(iter(b))) for t, b in d.items() if len(b) == 1)

    def univ(self, st, inst):
        """Apply the facts known for all the elements to the current ones."""
        if not st.univ or not inst:
            return True
        gens = frozenset(inst)
        for g, t, v in st.univ:
            if t.at.isdisjoint(gens):
                continue
            t, g = subst(t, inst), subst(g, inst)
            if any(is_t(a, "elem") and ekind(a) == "g" for a in t.at):
                continue
            if t.k == "c":
                if bool(t.a[1]) != bool(v):
                    return False
                continue
            if all(self.e.truth(st, x) == y for x, y in g):
                f = st.facts.get(t)
                if f is None:
                    st.facts[t] = v
                elif isinstance(f, int) and f != v:
                    return False
        return True

    def pull(self, st, fr, blk, it, lid):
        e = self.e
        if it.k != "iter":
            return self.src(st, it, lid)
        base, stages = it.a
        rs = self.src(st, base, lid)
        for n, sg in enumerate(stages):
            k = sg[0]
            out = []
            for s, what, v in rs:
                if what != "elem":
                    out.append((s, what, v))
                    continue
                b = (blk, "it", n)
                if k == "map":
                    out += [(s2, "elem", r) for s2, r in e.callval(s, fr, b, sg[1], [v])]
                elif k == "mapwith":
                    out += [(s2, "elem", r) for s2, r in e.callval(s, fr, b, sg[1], [v])]
                elif k == "inspect":
                    out += [(s2, "elem", v) for s2, r in e.callval(s, fr, b, sg[1], [v])]
                elif k == "filter":
                    for s2, r in e.callval(s, fr, b, sg[1], [v]):
                        for s3, t in e.fork(s2, r):
                            out.append((s3, "elem" if t else "skip", v))
                elif k in ("take_while", "skip_while"):
                    for s1, t in e.fork(s, T("cut", v)):
                        if t:           # a previous element was not (to be skipped) to be taken
                            out.append((s1, "skip" if k == "take_while" else "elem", v))
                            continue
                        for s2, r in e.callval(s1, fr, b, sg[1], [v]):
                            for s3, t in e.fork(s2, r):
                                keep = t if k == "take_while" else 1 - t
                                out.append((s3, "elem" if keep else "skip", v))
                elif k in ("filter_map", "map_while"):
                    if k == "map_while":
                        for s1 in e.assume(s.copy(), T("cut", v), 1):
                            out.append((s1, "skip", v))
                        s = e.assume(s, T("cut", v), 0)
                        if not s:
                            continue
                        s = s[0]
                    for s2, r in e.callval(s, fr, b, sg[1], [v]):
                        for s3, var, f in e.opt(s2, r):
                            if var == 1:
                                out.append((s3, "elem", f[0]))
                            else:
                                out.append((s3, "skip", v))
                elif k in ("flat_map", "flatten"):
                    rr = e.callval(s, fr, b, sg[1], [v]) if k == "flat_map" else [(s, v)]
                    rs2 = []
                    for s2, r in rr:
                        r = e.deref(s2, r)
                        if r.k == "alt":
                            for x in sorted(r.a[1], key=lambda y: y.id):
                                s3 = s2.copy()
                                e.replace(s3, r, x)
                                rs2.append((s3, x))
                        else:
                            rs2.append((s2, r))
                    for s2, r in rs2:
                        it2 = self.toiter(r)
                        inner = self.pull(s2, fr, (b, "in"), it2, lid)
                        one = r.k == "agg" and (r.a[0] == "Option" and r.a[1] == 1 or r.a[0] == "Result" and r.a[1] == 0)
                        for s3, w, y in inner:
                            if one and w == "end":
                                continue            # exactly one element
                            if w != "end":
                                out.append((s3, w, y))
                            elif it2.k == "iter" and all(z[0] in ("map", "mapwith", "inspect", "enumerate", "proj") for z in it2.a[1]) and it2.a[0].k in ("coll", "t"):
                                # nothing comes from this element: what it holds is empty
                                out += [(s4, "skip", y) for s4 in e.assume(s3, e.isempty(it2.a[0]), 1)]
                            else:
                                out.append((s3, "skip", y))
                elif k == "enumerate":
                    out.append((s, "elem", tup(T("opq", "idx", v), v)))
                elif k == "proj":
                    out.append((s, "elem", fld(v, None, sg[1])))
                elif k == "zip":
                    for s2, w, y in self.pull(s, fr, (b, "z"), sg[1], lid):
                        if w == "elem":
                            out.append((s2, "elem", tup(v, y)))
                        elif w == "end":
                            out.append((s2, "end", None))
                        else:
                            out.append((s2, "skip", None))
                elif k == "cut":
                    for s2, t in e.fork(s, T("cut", v)):
                        out.append((s2, "skip" if t else "elem", v))
                elif k == "mutof":
                    K = fld(v, None, 0) if sg[2] == "map" else None
                    if len(sg) > 3:
                        e.storeto(s, sg[1].a, self.map_put(s, e.load(s, sg[1].a), fld(v, None, 0), fld(v, None, 1)))
                    if sg[2] == "map":
                        out.append((s, "elem", tup(K, mref(sg[1].a[0], sg[1].a[1] + (("ent", K),)))))
                    elif sg[2] == "vals":
                        K = fld(v, None, 0)
                        out.append((s, "elem", mref(sg[1].a[0], sg[1].a[1] + (("ent", K),))))
                    else:
                        out.append((s, "elem", mref(sg[1].a[0], sg[1].a[1] + (("any",),))))
                elif k == "chunksx" and len(sg) > 2 and sg[2].k == "t":
                    out.append((s, "elem", T("slice", sg[2], T("chunkx", sg[1], v, 0), T("chunkx", sg[1], v, 1))))
                elif k == "chunks":
                    if sg[2].k == "t":
                        out.append((s, "elem", T("slice", sg[2], T("chunk", sg[1], v, 0), T("chunk", sg[1], v, 1))))
                    else:
                        out.append((s, "elem", T("opq", "chunk", v)))
                else:
                    out.append((s, "elem", T("opq", k, v)))
            rs = out
        return rs

    def loop(self, st, fr, blk, it, body, tag="L"):
        """Run a library loop over the iterator value it. body(state, v) -> [(state, ctl, value)]."""
        e = self.e
        site = (fr, (blk, tag))
        b2 = (blk, tag)

        def pull(s, lid):
            return self.pull(s, fr, b2, it, lid)
        return e.lloop(st, site, pull, body)

    def collect(self, st, fr, blk, it, kind, init=None):
        e = self.e
        it = self.toiter(e.deref(st, it))
        wrap = None
        if isinstance(kind, tuple):
            wrap, kind = kind
        if kind is None:
            kind = "vec"
        # identity collection
        if wrap is None and init is None and not it.a[1]:
            b = it.a[0]
            if b.k == "coll" and b.a[0] == kind:
                return [(st, b)]
            if b.k not in ("coll", "alt", "agg", "iter", "c") and kind in ("map", "set"):
                if kind == "map":
                    e.mon.conv(e, st, b)
                return [(st, coll(kind, {(E_, gelem(b))}))]
            if b.k not in ("coll", "alt", "agg", "iter", "c") and kind == "vec" and is_t(b) and b.a[0] in ("param", "resp", "slice", "fld"):
                return [(st, b)]
        tmp = ("tmp", (fr.fid if fr else 0), blk)
        st.store[tmp] = init if init is not None else (empty(kind) if kind in ("map", "set", "vec") else UNIT)

        def put(s, v):
            if kind in ("map", "set", "vec"):
                v = e.deref(s, v)
                if v.k == "agg" and any(f.k == "mref" for f in v.a[2]):
                    v = agg(v.a[0], v.a[1], [e.deref(s, f) for f in v.a[2]])
                c = s.store[tmp]
                if kind == "map":
                    self.e.mon.ext(e, s, fr, "map#insert", [c, fld(v, None, 0), fld(v, None, 1)], (fr, blk))
                    s.store[tmp] = self.map_put(s, c, fld(v, None, 0), fld(v, None, 1))
                else:
                    s.store[tmp] = self.addto(s, c, v)

        def body(s, v):
            if wrap is None:
                put(s, v)
                return [(s, "next", None)]
            out = []
            for s2, var, f in (e.res(s, v) if wrap == "Result" else e.opt(s, v)):
                good = 0 if wrap == "Result" else 1
                if var == good:
                    put(s2, f[0])
                    out.append((s2, "next", None))
                else:
                    out.append((s2, "break", err(f[0]) if wrap == "Result" else NONE))
            return out
        ex, br = self.loop(st, fr, blk, it, body, "collect")
        out = []
        for s in ex:
            c = s.store.pop(tmp)
            out.append((s, c if wrap is None else (ok(c) if wrap == "Result" else some(c))))
        for s, r in br:
            s.store.pop(tmp, None)
            out.append((s, r))
        return out

    # ---- drops ------------------------------------------------------------------
    def guards(self, v, d=0):
        if v.k == "agg":
            if v.a[0] == "MutexGuard":
                yield v
            elif d < 6:
                for x in v.a[2]:
                    for y in self.guards(x, d + 1):
                        yield y
        elif v.k == "alt":
            for x in v.a[1]:
                for y in self.guards(x, d + 1):
                    yield y

    def dropval(self, st, v, site):
        for g in self.guards(v):
            m = g.a[2][0].a[0][1]
            self.e.mon.ext(self.e, st, site[0], "unlock", [m], site)

    # ---- dispatch ---------------------------------------------------------------
    def callfn(self, st, fr, blk, fn, args, dty):
        e = self.e
        site = (fr, blk)
        if fn.get("ctor") is not None or fn.get("variant") is not None:
            return [(st, self.ctor(fn, args))]
        res = fn.get("res")
        tr = fn.get("trait")
        trl = tr.split("::")[-1] if tr else None
        meth = fn.get("method") or fn["path"].split("::")[-1]
        # calls of closures and function values
        if trl in ("Fn", "FnMut", "FnOnce"):
            a = e.deref(st, args[1])
            fs = list(a.a[2]) if a.k == "agg" else [fld(a, None, 0)]
            return e.callval(st, fr, blk, args[0], fs, dty)
        if trl == "Future" and meth == "poll":
            return self.m_Future__poll(st, fr, blk, fn, args, dty)
        # layers kept opaque: an event with both outcomes instead of the body
        if e.opaque:
            nm = e.opaque.get((trl, meth)) if trl else e.opaque.get((None, fn["path"].split("::")[-1])) if (res or fn).get("key") in self.P.bodies else None
            if callable(nm):
                return nm(e, st, fr, blk, args, site)
            if nm:
                return [(st, T("fut", nm, tuple(e.deref(st, a) for a in args[1:]), e.sid(site)))]
        # functions of the crate
        key = None
        if res and "key" in res and not res.get("derived"):
            key = res["key"]
            a = res.get("args")
        elif not res and "key" in fn and fn["key"] in self.P.bodies and not tr:
            key, a = fn["key"], fn.get("args")
        if key in self.P.bodies and not (tr and self.pure_trait(trl)):
            b = self.P.bodies[key]
            if e.inline(key):
                return e.call_body(st, fr, blk, key, args, e.bindenv(fr, b, a or []))
        # provided methods of local traits
        if tr and not res and "key" in fn and fn["key"] in self.P.bodies and self.P.bodies[fn["key"]].get("trait_default"):
            b = self.P.bodies[fn["key"]]
            return e.call_body(st, fr, blk, fn["key"], args, e.bindenv(fr, b, fn.get("args") or []))
        # storage interfaces
        if trl == "DxEnc":
            return self.dxenc(st, fr, blk, fn, meth, args)
        if trl == "TokenDump":
            return [(st, T("fut", "ET.dump", (), e.sid(site)))]
        if trl == "DbInterface":
            return [(st, T("fut", "DB." + meth, tuple(e.deref(st, a) for a in args[1:]), e.sid(site)))]
        name = (trl + "::" + meth) if tr else seg(fn["path"])
        e.mon.ext(e, st, fr, name, args, site)
        # local conversions selected behind a blanket implementation
        nk = self.nested_conv(fn, trl, meth)
        if nk:
            return e.call_body(st, fr, blk, nk, args, {})
        if tr and meth in IDENT_TRAITS.get(trl, ()):
            if trl.endswith("FixedSizeCBytes") and "self" in fn:
                a, v = splitargs(self.P.tystr(fn["self"])), e.deref(st, args[0])
                if a and v.k == "t":
                    note_len(v, e.cname(fr, a[-1]))
            return self.ident(st, fr, trl, meth, args)
        if name in IDENT:
            return [(st, args[0])]
        h = getattr(self, "m_" + name.replace("::", "__").replace("#", ""), None)
        if h is None and tr:
            h = getattr(self, "t_" + trl, None)
        if h is None:
            ty = name.split("::")[0]
            al = {"BTreeMap": "HashMap", "BTreeSet": "HashSet", "VecDeque": "Vec", "IndexMap": "HashMap", "array": "slice",
                  "RwLock": "Mutex"}.get(ty)
            if al:
                h = getattr(self, "m_" + al + "__" + meth, None)
        if h is None and name.split("::")[0] in ("Vec", "HashMap", "HashSet"):
            h = getattr(self, "m_slice__" + meth, None) if name.startswith("Vec") else None
        if h is not None:
            r = h(st, fr, blk, fn, args, dty)
            if r is not None:
                return r
        return self.unknown(st, fr, blk, fn, name, args, dty)

    def pure_trait(self, trl):
        return False

    def ctor(self, fn, args):
        from interp import CORE
        adt = fn.get("ctor")
        v = fn.get("variant")
        if isinstance(adt, dict):
            adt, v = adt.get("adt"), adt.get("variant")
        ad = self.P.adts.get(adt)
        if ad and ad["kind"] == "struct" and len(args) == 1:
            return args[0]
        return agg(CORE.get(adt, adt), v if (ad and ad["kind"] == "enum") else None, args)

    def nested_conv(self, fn, trl, meth):
        res = fn.get("res") or {}
        if res.get("derived"):
            return None
        def find(ns, trait, m):
            for n in ns:
                if "impl" in n and n["trait"].split("::")[-1] == trait:
                    for nm, k in n["methods"]:
                        if nm == m and k in self.P.bodies:
                            return k
                for k in [find(n.get("nested", []), trait, m)]:
                    if k:
                        return k
            return None
        ns = res.get("nested") or fn.get("nested") or []
        if trl == "Into" and meth == "into":
            return find(ns, "From", "from")
        if trl == "TryInto" and meth == "try_into":
            return find(ns, "TryFrom", "try_from") or find(ns, "From", "from")
        if trl == "ToString":
            return None
        return None

    def unknown(self, st, fr, blk, fn, name, args, dty):
        """A call with no transfer function: an opaque value depending on all the
        arguments; arguments passed by mutable reference are overwritten and closures
        may be called any number of times."""
        e = self.e
        e.unknown[name] = e.unknown.get(name, 0) + 1
        vs = tuple(e.deref(st, a) for a in args)
        for i, a in enumerate(args):
            d = vs[i]
            if d.k == "agg" and d.a[0].startswith("closure:") and d.a[0][8:] in self.P.bodies:
                body = self.P.bodies[d.a[0][8:]]
                ps = [T("opq", e.sid((fr, blk)), i, j, vs[:i]) for j in range(max(0, body["args"] - 1))]

                def pull(s, lid):
                    return [(s.copy(), "elem", None), (s, "end", None)]

                def run(s, v, a=a, ps=ps, i=i):
                    return [(s2, "next", None) for s2, r in e.callval(s, fr, (blk, "u", i), a, ps)]
                ex, br = e.lloop(st, (fr, (blk, "unk", i)), pull, run)
                if ex:
                    st2 = ex[0]
                    for o in ex[1:]:
                        st2 = e.merge2(st2, o, ("unk",), False)
                    st.store, st.facts, st.univ, st.h, st.hs, st.hm = st2.store, st2.facts, st2.univ, st2.h, st2.hs, st2.hm
        out = T("call", name, *vs)
        for i, a in enumerate(args):
            if a.k == "mref" and not self.isguard(vs[i]):
                e.storeto(st, a.a, T("clob", name, i, *vs))
        return [(st, out)]

    def m_boxed__box_assume_init_into_vec_unsafe(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        while is_t(v, "with") or (v.k == "agg" and len(v.a[2]) == 1 and v.a[0] != "array"):
            v = v.a[3] if v.k == "t" else v.a[2][0]
        return [(st, self.tocoll(v, "vec"))] if v.k == "agg" and v.a[0] == "array" else None

    def m_Box__new_uninit(self, st, fr, blk, fn, args, dty):
        return [(st, T("uninit"))]

    def isguard(self, v):
        return v.k == "agg" and v.a[0] == "MutexGuard"

    def ident(self, st, fr, trl, meth, args):
        v = args[0]
        g = self.e.deref(st, v)
        if self.isguard(g):
            return [(st, g.a[2][0])]
        if trl == "Clone" or trl == "ToOwned":
            return [(st, g)]
        return [(st, v)]

    # ---- storage ------------------------------------------------------------------
    def table(self, fn):
        """ET or CT, from the length of the values stored."""
        for a in fn.get("targs", []):
            if "c" in a:
                c = a["c"]
                if isinstance(c, str) and not c.isdigit():
                    c = self.P.constint(c) if hasattr(self.P, "constint") else c
                return self.P.tables.get(str(c), "XT")
        return "XT"

    def scope(self):
        own = set()
        for l in self.e.active:
            own |= self.e.loop_elems.get(l, set())
        return frozenset(own)

    def fresh(self, st, name, fr, blk, rng=None):
        if rng is not None and any(is_t(t, "rng") and t.a[1:2] == ("seeded",) for t in self.e.subterms(rng)):
            return T("weak", name, rng)
        return self.e.age(st, "fresh", name, self.e.sid((fr, blk)), self.scope())

    def dxenc(self, st, fr, blk, fn, meth, args):
        e = self.e
        X = self.table(fn)
        site = (fr, blk)
        vs = [e.deref(st, a) for a in args]
        if meth in ("get", "upsert", "insert", "delete"):
            return [(st, T("fut", X + "." + meth, tuple(vs[1:]), e.sid(site)))]
        e.mon.ext(e, st, fr, X + "." + meth, vs[1:], site)
        e.sites.add((X + "." + meth, fr.key, blk if not isinstance(blk, tuple) else str(blk)))
        if meth == "tokenize":
            t = T("tok", X, vs[1], vs[2], vs[3])
            return [(st, t)]
        if meth == "derive_keys":
            return [(st, T("dkeys", X, vs[1]))]
        if meth == "gen_seed":
            return [(st, self.fresh(st, X + ".seed", fr, blk, vs[1] if len(vs) > 1 else None))]
        if meth == "setup":
            return [(st, T("setup", X, vs[0]))]
        if meth in ("resolve", "prepare"):
            val = T(meth, X, vs[1], vs[2]) if meth == "resolve" else T(meth, X, vs[2], vs[3])
            if meth == "resolve":
                n = self.P.lengths.get(X)
                if n is not None:
                    note_len(val, C(n))
            s2 = st.copy()
            er = e.age(s2, "err", X + "." + meth, e.sid(site))
            e.mon.result(e, st, X + "." + meth, True, val, vs[1:], site)
            e.mon.result(e, s2, X + "." + meth, False, er, vs[1:], site)
            return [(st, ok(val)), (s2, err(er))]
        return self.unknown(st, fr, blk, fn, "DxEnc::" + meth, args, None)

    def perform(self, st, fr, blk, fut, dty):
        e = self.e
        name, args = fut.a[1], fut.a[2]
        site = (fr, blk)
        e.stats["events"] += 1
        e.sites.add((name, fr.key if fr else "root", str(fut.a[3][1:])))
        if e.mon.event(e, st, name, args, site) is False:
            return []
        sid = fut.a[3]
        s2 = st.copy()
        unit = name.split(".")[1] in ("insert", "delete", "complete") and not name.startswith(("MM.i", "GX."))
        er = e.age(s2, "err", name, sid)
        out = []
        split = e.mon.values.get(name) or e.mon.values.get(name.split(".")[0])
        for x in split or (None,):          # the monitor may ask for each possible answer
            s1 = st.copy() if split else st
            val = UNIT if unit else (e.age(s1, "resp", name, sid) if x is None else C(x))
            if x is None and name in e.mon.mark and "mark" not in s1.h:
                # an arbitrary round, followed until the end of the operation
                s3 = s1.copy()
                m = T("resp", name, sid, "m")
                self.e.substate(s3, {val: m})
                s3.h["mark"] = 1
                e.markloops.update(e.active)
                e.mon.result(e, s3, name, True, m, args, site)
                out.append((s3, ok(m)))
            if name in e.mon.mark and "mark" in s1.h:
                s1.h["mark"] = 2
            e.mon.result(e, s1, name, True, val, args, site)
            out.append((s1, ok(val)))
        e.mon.result(e, s2, name, False, er, args, site)
        return out + [(s2, err(er))]

    def opaque_await(self, st, fr, blk, fut, dty):
        return [(st, T("await", fut))]

    def callback(self, st, fr, blk, f, args, dty):
        e = self.e
        vs = tuple(e.deref(st, a) for a in args)
        if is_t(f, "const") or is_t(f, "undef"):
            e.unknown["callback"] = e.unknown.get("callback", 0) + 1
            return [(st, T("call", "cb", f, *vs))]
        return [(st, T("fut", "CB." + self.cbname(f), vs, e.sid((fr, blk))))]

    def cbname(self, f):
        if is_t(f, "param"):
            return str(f.a[1])
        return "fn"

    # ================= language traits =================
    def m_Try__branch(self, st, fr, blk, fn, args, dty):
        e = self.e
        s = self.P.tystr(fn["self"]) if "self" in fn else ""
        out = []
        if s.startswith("std::option::Option"):
            for s2, v, f in e.opt(st, args[0]):
                out.append((s2, agg("ControlFlow", 0, (f[0],)) if v == 1 else agg("ControlFlow", 1, (NONE,))))
        elif s.startswith("std::ops::ControlFlow"):
            for s2, v, f in e.cases(st, args[0], "ControlFlow", (1, 1)):
                out.append((s2, agg("ControlFlow", 0, (f[0],)) if v == 0 else agg("ControlFlow", 1, (agg("ControlFlow", 1, f),))))
        else:
            for s2, v, f in e.res(st, args[0]):
                out.append((s2, agg("ControlFlow", 0, (f[0],)) if v == 0 else agg("ControlFlow", 1, (err(f[0]),))))
        return out

    def m_Try__from_output(self, st, fr, blk, fn, args, dty):
        s = self.P.tystr(fn["self"])
        if s.startswith("std::option::Option"):
            return [(st, some(args[0]))]
        return [(st, ok(args[0]))]

    def m_FromResidual__from_residual(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        if v.k == "agg" and v.a[0] == "Result":
            k = self.find_nested(fn, "From", "from")
            if k:
                return [(s, err(x)) for s, x in e.call_body(st, fr, blk, k, [v.a[2][0]], {})]
        return [(st, v)]

    def find_nested(self, fn, trait, m):
        def find(ns):
            for n in ns:
                if "impl" in n and n["trait"].split("::")[-1] == trait:
                    for nm, k in n["methods"]:
                        if nm == m and k in self.P.bodies:
                            return k
                k = find(n.get("nested", []))
                if k:
                    return k
        return find((fn.get("res") or {}).get("nested") or fn.get("nested") or [])

    def t_Into(self, st, fr, blk, fn, args, dty):
        return [(st, self.e.deref(st, args[0]))]

    def t_From(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        kind = self.contkind(self.P.tystr(fn["self"])) if "self" in fn else None
        if kind in ("map", "set", "vec") and v.k == "agg" and v.a[0] == "array":
            return self.collect(st, fr, blk, v, kind)
        if kind in ("map", "set") and v.k in ("coll",) and v.a[0] != kind:
            return self.collect(st, fr, blk, v, kind)
        return [(st, v)]

    def t_TryInto(self, st, fr, blk, fn, args, dty):
        return self.tryconv(st, fr, blk, self.P.tystr(fn["targs"][1]["t"]) if len(fn.get("targs", [])) > 1 and "t" in fn["targs"][1] else "", args[0])

    def t_TryFrom(self, st, fr, blk, fn, args, dty):
        return self.tryconv(st, fr, blk, self.P.tystr(fn["self"]), args[0])

    def tryconv(self, st, fr, blk, ty, v):
        e = self.e
        v = e.deref(st, v)
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
        m = re.match(r"\[u8; (.*)\]$", ty) or re.match(r".*(?:SymmetricKey|Nonce|GenericArray)<(.*)>$", ty)
        if m:
            return self.fixlen(st, fr, v, e.cname(fr, m.group(1)), "array")
        if re.match(r"[ui](8|16|32|64|128|size)$", ty):
            if is_int(v):
                bits = {"u8": 256, "u16": 65536}.get(ty)
                if bits is None or v.a[1] < bits:
                    return [(st, ok(v))]
                return [(st, err(T("converr", v)))]
            out = []
            for s, b in e.fork(st, T("fits", C(ty), v)):
                out.append((s, ok(v) if b else err(T("converr", v))))
            return out
        return None

    def fixlen(self, st, fr, v, n, why):
        e = self.e
        out = []
        for s, b in e.fork(st, e.eq(length(v), n)):
            if b:
                note_len(v, n)
            out.append((s, ok(v) if b else err(T("lenerr", v))))
        return out

    def t_Default(self, st, fr, blk, fn, args, dty):
        return [(st, self.default_of(fr, self.P.tystr(fn["self"])))]

    def t_PartialEq(self, st, fr, blk, fn, args, dty):
        e = self.e
        a, b = e.deref(st, args[0]), e.deref(st, args[1])
        r = self.eqv(a, b)
        if fn["method"] == "ne":
            r = e.bnot(r)
        return [(st, r)]

    def eqv(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.k == "agg" and x.a[0] == "Option" and y.k != "agg" and y.k != "alt":
                return T("eq", *sorted((a, b), key=lambda v: v.id))
        return mkeq(a, b)

    def t_PartialOrd(self, st, fr, blk, fn, args, dty):
        e = self.e
        s = self.P.tystr(fn["self"])
        m = fn["method"]
        if "tracing" in s:
            return [(st, FALSE)]
        a, b = e.deref(st, args[0]), e.deref(st, args[1])
        r = {"lt": lambda: e.lt(a, b), "gt": lambda: e.lt(b, a), "le": lambda: e.bnot(e.lt(b, a)),
             "ge": lambda: e.bnot(e.lt(a, b))}.get(m)
        return [(st, r())] if r else None

    def m_Ord__min(self, st, fr, blk, fn, args, dty):
        return [(st, T("min", *sorted((self.e.deref(st, a) for a in args), key=lambda v: v.id)))]

    def m_Ord__max(self, st, fr, blk, fn, args, dty):
        return [(st, T("max", *sorted((self.e.deref(st, a) for a in args), key=lambda v: v.id)))]

    def m_ToString__to_string(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        if v.k == "c":
            return [(st, v)]
        if not any(l.a[0] == "err" for l in self.e.leaves(v)):
            return [(st, T("fmt"))]
        return [(st, T("fmt", v))]

    def m_Drop__drop(self, st, fr, blk, fn, args, dty):
        return [(st, UNIT)]

    def m_mem__drop(self, st, fr, blk, fn, args, dty):
        self.dropval(st, self.e.deref(st, args[0]), (fr, blk))
        return [(st, UNIT)]

    def m_mem__forget(self, st, fr, blk, fn, args, dty):
        return [(st, UNIT)]

    def m_mem__take(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        out = []
        for s, d in self.default(st, fr, blk, dty):
            if args[0].k == "mref":
                e.storeto(s, args[0].a, d)
            out.append((s, v))
        return out

    def m_mem__replace(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        if args[0].k == "mref":
            e.storeto(st, args[0].a, args[1])
        return [(st, v)]

    def m_mem__swap(self, st, fr, blk, fn, args, dty):
        e = self.e
        a, b = e.deref(st, args[0]), e.deref(st, args[1])
        if args[0].k == "mref":
            e.storeto(st, args[0].a, b)
        if args[1].k == "mref":
            e.storeto(st, args[1].a, a)
        return [(st, UNIT)]

    # ---- futures ----------------------------------------------------------------
    def m_Future__poll(self, st, fr, blk, fn, args, dty):
        from interp import Back
        out = []
        for s, v in self.e.poll(st, fr, (blk, "await"), args[0]):
            out.append((s, agg("Poll", 0, (v,))))
        return out

    def m_future__get_context(self, st, fr, blk, fn, args, dty):
        return [(st, T("ctx"))]

    # ---- tracing and formatting ---------------------------------------------------
    def m_Span__is_disabled(self, st, fr, blk, fn, args, dty):
        return [(st, TRUE)]

    def m_Interest__is_never(self, st, fr, blk, fn, args, dty):
        return [(st, TRUE)]

    def m___macro_support____is_enabled(self, st, fr, blk, fn, args, dty):
        return [(st, FALSE)]

    def quiet(self, st, fr, blk, fn, args, dty):
        return [(st, T("fmt"))]

    def formatted(self, st, fr, blk, fn, args, dty):
        """Formatted text: only the failures it reports are kept."""
        ls = set()
        for a in args:
            for l in self.e.leaves(self.e.deref(st, a)):
                if l.a[0] == "err":
                    ls.add(l)
        return [(st, T("fmt", *sorted(ls, key=lambda v: v.id)))]

    m_fmt__format = m_Arguments__new = m_Arguments__from_str = m_Argument__new_display = m_Argument__new_debug = formatted
    m_String__from_utf8_lossy = m_Engine__encode = m_Callsite__metadata = m_LevelFilter__current = quiet
    m_DefaultCallsite__interest = m_Interest__never = m___macro_support____disabled_span = quiet
    m_Metadata__fields = m_Metadata__new = m_FieldSet__new = m_FieldSet__value_set_all = m_Event__dispatch = quiet
    m_field__debug = m_field__display = m_Span__new = m_FieldName__new = m_FieldName__as_str = m_DefaultCallsite__new = quiet
    m_Span__none = m_Span__current = m_Span__enter = m_Span__entered = quiet

    def m_Formatter__write_fmt(self, st, fr, blk, fn, args, dty):
        s2 = st.copy()
        return [(st, ok(UNIT)), (s2, err(T("fmterr")))]

    m_Formatter__write_str = m_Formatter__write_fmt

    # ---- panics -------------------------------------------------------------------
    def diverge(self, st, fr, blk, fn, args, dty):
        self.e.mon.panic(self.e, st, fr, blk, seg(fn["path"]), None)
        return []

    def must(self, st, fr, blk, what, cases, good):
        """Payloads of the expected variant; the other one is a panic."""
        out = []
        for s, v, f in cases:
            if v == good:
                out.append((s, f[0]))
            else:
                self.e.mon.panic(self.e, s, fr, blk, what, f[0] if f else None)
        return out

    m_panicking__panic_fmt = m_panicking__panic = m_rt__begin_panic = m_panicking__panic_display = diverge
    m_panicking__assert_failed = m_process__abort = m_process__exit = m_panicking__unreachable_display = diverge
    m_option__expect_failed = m_option__unwrap_failed = m_result__unwrap_failed = m_panicking__panic_explicit = diverge

    # ================= Option / Result =================
    def m_Option__is_some(self, st, fr, blk, fn, args, dty):
        return [(s, C(v)) for s, v, f in self.e.opt(st, args[0])]

    def m_Option__is_none(self, st, fr, blk, fn, args, dty):
        return [(s, C(1 - v)) for s, v, f in self.e.opt(st, args[0])]

    def m_Result__is_ok(self, st, fr, blk, fn, args, dty):
        return [(s, C(1 - v)) for s, v, f in self.e.res(st, args[0])]

    def m_Result__is_err(self, st, fr, blk, fn, args, dty):
        return [(s, C(v)) for s, v, f in self.e.res(st, args[0])]

    def m_Option__is_some_and(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v else [(s, FALSE)]
        return out

    def m_Option__is_none_or(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v else [(s, TRUE)]
        return out

    def m_Result__is_ok_and(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v == 0 else [(s, FALSE)]
        return out

    def m_Result__is_err_and(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v == 1 else [(s, FALSE)]
        return out

    def payload(self, st, a0, f):
        """Payload of an Option behind a mutable reference: keep a reference to it."""
        return f

    def m_Option__expect(self, st, fr, blk, fn, args, dty):
        return self.must(st, fr, blk, "Option::expect", self.e.opt(st, args[0]), 1)

    m_Option__unwrap = m_Option__unwrap_unchecked = m_Option__expect

    def m_Result__expect(self, st, fr, blk, fn, args, dty):
        return self.must(st, fr, blk, "Result::expect", self.e.res(st, args[0]), 0)

    m_Result__unwrap = m_Result__expect

    def m_Result__unwrap_err(self, st, fr, blk, fn, args, dty):
        return self.must(st, fr, blk, "Result::unwrap_err", self.e.res(st, args[0]), 1)

    m_Result__expect_err = m_Result__unwrap_err

    def m_Option__unwrap_or_default(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v else self.default_of(fr, self.P.tystr(dty))) for s, v, f in self.e.opt(st, args[0])]

    def m_Result__unwrap_or_default(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v == 0 else self.default_of(fr, self.P.tystr(dty))) for s, v, f in self.e.res(st, args[0])]

    def m_Option__unwrap_or(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v else args[1]) for s, v, f in self.e.opt(st, args[0])]

    def m_Result__unwrap_or(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v == 0 else args[1]) for s, v, f in self.e.res(st, args[0])]

    def m_Option__unwrap_or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += [(s, f[0])] if v else self.e.callval(s, fr, blk, args[1], [])
        return out

    def m_Result__unwrap_or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += [(s, f[0])] if v == 0 else self.e.callval(s, fr, blk, args[1], [f[0]])
        return out

    def m_Option__map(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += [(s2, some(r)) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v else [(s, NONE)]
        return out

    def m_Option__inspect(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += [(s2, some(f[0])) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v else [(s, NONE)]
        return out

    def m_Option__and_then(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v else [(s, NONE)]
        return out

    def m_Option__filter(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            if not v:
                out.append((s, NONE))
                continue
            for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]]):
                for s3, t in self.e.fork(s2, r):
                    out.append((s3, some(f[0]) if t else NONE))
        return out

    def m_Option__map_or(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += self.e.callval(s, fr, blk, args[2], [f[0]]) if v else [(s, args[1])]
        return out

    def m_Option__map_or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += self.e.callval(s, fr, (blk, 1), args[2], [f[0]]) if v else self.e.callval(s, fr, (blk, 0), args[1], [])
        return out

    def m_Option__ok_or(self, st, fr, blk, fn, args, dty):
        return [(s, ok(f[0]) if v else err(args[1])) for s, v, f in self.e.opt(st, args[0])]

    def m_Option__ok_or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += [(s, ok(f[0]))] if v else [(s2, err(r)) for s2, r in self.e.callval(s, fr, blk, args[1], [])]
        return out

    def m_Option__or(self, st, fr, blk, fn, args, dty):
        return [(s, some(f[0]) if v else args[1]) for s, v, f in self.e.opt(st, args[0])]

    def m_Option__or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            out += [(s, some(f[0]))] if v else self.e.callval(s, fr, blk, args[1], [])
        return out

    def m_Option__and(self, st, fr, blk, fn, args, dty):
        return [(s, args[1] if v else NONE) for s, v, f in self.e.opt(st, args[0])]

    def m_Option__xor(self, st, fr, blk, fn, args, dty):
        return None

    def m_Option__zip(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            if not v:
                out.append((s, NONE))
                continue
            for s2, w, g in self.e.opt(s, args[1]):
                out.append((s2, some(tup(f[0], g[0])) if w else NONE))
        return out

    def m_Option__flatten(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v else NONE) for s, v, f in self.e.opt(st, args[0])]

    def m_Option__transpose(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            if not v:
                out.append((s, ok(NONE)))
                continue
            for s2, w, g in self.e.res(s, f[0]):
                out.append((s2, ok(some(g[0])) if w == 0 else err(g[0])))
        return out

    def m_Option__take(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        if args[0].k == "mref":
            self.e.storeto(st, args[0].a, NONE)
        return [(st, v)]

    def m_Option__replace(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        if args[0].k == "mref":
            self.e.storeto(st, args[0].a, some(args[1]))
        return [(st, v)]

    def optref(self, a0):
        """Reference to the payload of the Option at address a0."""
        if a0.k == "mref":
            return mref(a0.a[0], a0.a[1] + (("f", 1, 0),))
        return fld(a0, 1, 0)

    def m_Option__insert(self, st, fr, blk, fn, args, dty):
        if args[0].k == "mref":
            self.e.storeto(st, args[0].a, some(args[1]))
        return [(st, self.optref(args[0]))]

    def m_Option__get_or_insert_with(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.opt(st, args[0]):
            if v:
                out.append((s, self.optref(args[0])))
            else:
                for s2, r in self.e.callval(s, fr, blk, args[1], []):
                    if args[0].k == "mref":
                        self.e.storeto(s2, args[0].a, some(r))
                    out.append((s2, self.optref(args[0])))
        return out

    def m_Option__as_mut(self, st, fr, blk, fn, args, dty):
        if args[0].k != "mref":
            return [(st, args[0])]
        return [(s, some(self.optref(args[0])) if v else NONE) for s, v, f in self.e.opt(st, args[0])]

    m_Option__as_deref_mut = m_Option__as_mut

    def m_Result__as_mut(self, st, fr, blk, fn, args, dty):
        if args[0].k != "mref":
            return [(st, args[0])]
        a = args[0].a
        return [(s, agg("Result", v, (mref(a[0], a[1] + (("f", v, 0),)),))) for s, v, f in self.e.res(st, args[0])]

    def m_Result__map(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += [(s2, ok(r)) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v == 0 else [(s, err(f[0]))]
        return out

    def m_Result__map_err(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += [(s2, err(r)) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v == 1 else [(s, ok(f[0]))]
        return out

    def m_Result__inspect_err(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += [(s2, err(f[0])) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v == 1 else [(s, ok(f[0]))]
        return out

    def m_Result__inspect(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += [(s2, ok(f[0])) for s2, r in self.e.callval(s, fr, blk, args[1], [f[0]])] if v == 0 else [(s, err(f[0]))]
        return out

    def m_Result__and_then(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v == 0 else [(s, err(f[0]))]
        return out

    def m_Result__and(self, st, fr, blk, fn, args, dty):
        return [(s, args[1] if v == 0 else err(f[0])) for s, v, f in self.e.res(st, args[0])]

    def m_Result__or(self, st, fr, blk, fn, args, dty):
        return [(s, args[1] if v == 1 else ok(f[0])) for s, v, f in self.e.res(st, args[0])]

    def m_Result__or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, blk, args[1], [f[0]]) if v == 1 else [(s, ok(f[0]))]
        return out

    def m_Result__map_or(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, blk, args[2], [f[0]]) if v == 0 else [(s, args[1])]
        return out

    def m_Result__map_or_else(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            out += self.e.callval(s, fr, (blk, 1), args[2], [f[0]]) if v == 0 else self.e.callval(s, fr, (blk, 0), args[1], [f[0]])
        return out

    def m_Result__ok(self, st, fr, blk, fn, args, dty):
        return [(s, some(f[0]) if v == 0 else NONE) for s, v, f in self.e.res(st, args[0])]

    def m_Result__err(self, st, fr, blk, fn, args, dty):
        return [(s, some(f[0]) if v == 1 else NONE) for s, v, f in self.e.res(st, args[0])]

    def m_Result__transpose(self, st, fr, blk, fn, args, dty):
        out = []
        for s, v, f in self.e.res(st, args[0]):
            if v == 1:
                out.append((s, some(err(f[0]))))
                continue
            for s2, w, g in self.e.opt(s, f[0]):
                out.append((s2, some(ok(g[0])) if w else NONE))
        return out

    def m_Result__flatten(self, st, fr, blk, fn, args, dty):
        return [(s, f[0] if v == 0 else err(f[0])) for s, v, f in self.e.res(st, args[0])]

    def m_bool__then(self, st, fr, blk, fn, args, dty):
        out = []
        for s, b in self.e.fork(st, self.e.deref(st, args[0])):
            out += [(s2, some(r)) for s2, r in self.e.callval(s, fr, blk, args[1], [])] if b else [(s, NONE)]
        return out

    def m_bool__then_some(self, st, fr, blk, fn, args, dty):
        return [(s, some(args[1]) if b else NONE) for s, b in self.e.fork(st, self.e.deref(st, args[0]))]

    # ================= synchronisation =================
    def m_Mutex__lock(self, st, fr, blk, fn, args, dty):
        e = self.e
        m = e.deref(st, args[0])
        base = ("H", m)
        site = (fr, blk)
        e.mon.ext(e, st, fr, "lock", [m], site)
        lv = e.age(st, "lockval", "lock", e.sid(site), m)
        held = base in st.store and st.store[base]
        st.store[base] = lv
        g = agg("MutexGuard", None, (mref(base),))
        return [(st, ok(g))]

    m_Mutex__write = m_Mutex__read = m_Mutex__lock
    m_RwLock__write = m_RwLock__read = m_Mutex__lock

    def m_Mutex__try_lock(self, st, fr, blk, fn, args, dty):
        s2 = st.copy()
        return self.m_Mutex__lock(st, fr, blk, fn, args, dty) + [(s2, err(T("wouldblock")))]

    def m_Mutex__get_mut(self, st, fr, blk, fn, args, dty):
        return [(st, ok(args[0]))]

    # ================= maps and sets =================
    def m_HashMap__new(self, st, fr, blk, fn, args, dty):
        return [(st, empty("map"))]

    def m_HashMap__with_capacity(self, st, fr, blk, fn, args, dty):
        self.e.mon.ext(self.e, st, fr, "alloc", [args[0]], (fr, blk))
        return [(st, empty("map"))]

    def m_HashSet__new(self, st, fr, blk, fn, args, dty):
        return [(st, empty("set"))]

    def m_HashSet__with_capacity(self, st, fr, blk, fn, args, dty):
        self.e.mon.ext(self.e, st, fr, "alloc", [args[0]], (fr, blk))
        return [(st, empty("set"))]

    def m_HashMap__get(self, st, fr, blk, fn, args, dty):
        return [(s, some(v) if p else NONE) for s, p, v in self.lookup(st, args[0], args[1])]

    def m_HashMap__get_key_value(self, st, fr, blk, fn, args, dty):
        k = self.e.deref(st, args[1])
        return [(s, some(pair(k, v)) if p else NONE) for s, p, v in self.lookup(st, args[0], args[1])]

    def m_HashMap__contains_key(self, st, fr, blk, fn, args, dty):
        return [(s, C(p)) for s, p, v in self.lookup(st, args[0], args[1])]

    m_HashSet__contains = m_HashMap__contains_key

    def m_slice__contains(self, st, fr, blk, fn, args, dty):
        v, k = self.e.deref(st, args[0]), self.e.deref(st, args[1])
        return [(st, contains(strip(v), k))]

    def m_HashSet__get(self, st, fr, blk, fn, args, dty):
        k = self.e.deref(st, args[1])
        return [(s, some(k) if p else NONE) for s, p, v in self.lookup(st, args[0], args[1])]

    def m_HashMap__get_mut(self, st, fr, blk, fn, args, dty):
        k = self.e.deref(st, args[1])
        out = []
        for s, p, v in self.lookup(st, args[0], k):
            if not p:
                out.append((s, NONE))
            elif args[0].k == "mref":
                out.append((s, some(mref(args[0].a[0], args[0].a[1] + (("ent", k),)))))
            else:
                out.append((s, some(v)))
        return out

    def m_HashMap__insert(self, st, fr, blk, fn, args, dty):
        e = self.e
        k, v = e.deref(st, args[1]), e.deref(st, args[2])
        m = e.deref(st, args[0])
        e.mon.ext(e, st, fr, "map#insert", [m, k, v], (fr, blk))
        m2, prev = self.map_insert(st, m, k, v)
        if args[0].k == "mref":
            e.storeto(st, args[0].a, m2)
        e.mon.ext(e, st, fr, "map#inserted", [m, k, v, prev], (fr, blk))
        return [(st, prev)]

    def m_HashMap__try_insert(self, st, fr, blk, fn, args, dty):
        return None

    def m_HashSet__insert(self, st, fr, blk, fn, args, dty):
        e = self.e
        m = self.tocoll(e.deref(st, args[0]), "set")
        x = e.deref(st, args[1])
        if not m.a[1]:
            r = TRUE
        else:
            r = T("inserted", strip(m), x)
            f = st.facts.get(contains(strip(m), x))
            if isinstance(f, int):
                r = C(1 - f)
        if args[0].k == "mref":
            e.storeto(st, args[0].a, self.addto(st, m, x))
        return [(st, r)]

    m_HashSet__replace = m_HashSet__insert

    def without(self, st, m, k):
        """m with the key k removed."""
        e_ = self.e
        c = self.tocoll(m, "map")
        els = set()
        for g, x in c.a[1]:
            K, _ = self.kv(c.a[0], x)
            if K is k:
                continue
            els.add((g, x))
        return coll(c.a[0], els, c.a[2] | {e_.mon.guard(e_, st, k.at, frozenset([(T("removed", k), 1)]))}, None, None, None, c.a[6])

    def m_HashMap__remove(self, st, fr, blk, fn, args, dty):
        e = self.e
        k = e.deref(st, args[1])
        m = e.deref(st, args[0])
        e.mon.ext(e, st, fr, "map#remove", [m, k], (fr, blk))
        isset = "HashSet" in fn["path"] or "BTreeSet" in fn["path"]
        out = []
        for s, p, v in self.lookup(st, m, k):
            if p and args[0].k == "mref":
                e.storeto(s, args[0].a, self.without(s, e.deref(s, args[0]), k))
            out.append((s, C(p) if isset else (some(v) if p else NONE)))
        return out

    m_HashSet__remove = m_HashMap__remove

    def m_HashSet__take(self, st, fr, blk, fn, args, dty):
        e = self.e
        k = e.deref(st, args[1])
        out = []
        for s, p, v in self.lookup(st, args[0], k):
            if p and args[0].k == "mref":
                e.storeto(s, args[0].a, self.without(s, e.deref(s, args[0]), k))
            out.append((s, some(k) if p else NONE))
        return out

    def m_HashMap__remove_entry(self, st, fr, blk, fn, args, dty):
        e = self.e
        k = e.deref(st, args[1])
        out = []
        for s, p, v in self.lookup(st, args[0], k):
            if p and args[0].k == "mref":
                e.storeto(s, args[0].a, self.without(s, e.deref(s, args[0]), k))
            out.append((s, some(pair(k, v)) if p else NONE))
        return out

    def m_HashMap__len(self, st, fr, blk, fn, args, dty):
        return [(st, length(self.e.deref(st, args[0])))]

    m_HashSet__len = m_Vec__len = m_slice__len = m_String__len = m_str__len = m_ExactSizeIterator__len = m_HashMap__len

    def m_HashMap__is_empty(self, st, fr, blk, fn, args, dty):
        return [(st, self.e.isempty(self.e.deref(st, args[0])))]

    m_HashSet__is_empty = m_Vec__is_empty = m_slice__is_empty = m_str__is_empty = m_String__is_empty = m_HashMap__is_empty

    def m_HashMap__iter(self, st, fr, blk, fn, args, dty):
        return [(st, self.toiter(self.e.deref(st, args[0])))]

    m_HashSet__iter = m_Vec__iter = m_slice__iter = m_HashMap__iter
    m_HashMap__into_iter = m_HashMap__iter

    def m_HashMap__keys(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(self.e.deref(st, args[0]), (("proj", 0),)))]

    m_HashMap__into_keys = m_HashMap__keys

    def m_HashMap__values(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(self.e.deref(st, args[0]), (("proj", 1),)))]

    m_HashMap__into_values = m_HashMap__values

    def m_HashMap__iter_mut(self, st, fr, blk, fn, args, dty):
        if args[0].k != "mref":
            return self.m_HashMap__iter(st, fr, blk, fn, args, dty)
        return [(st, self.mutiter(st, args[0], "map"))]

    def mutiter(self, st, r, what):
        """Iterator of mutable references to the values of a map: the map is rebuilt, value by value."""
        old = self.e.deref(st, r)
        if what != "vec" and old.k in ("t", "coll"):
            self.e.storeto(st, r.a, empty("map"))
            return iterv(old, (("mutof", r, what, "rebuild"),))
        return iterv(old, (("mutof", r, what),))

    def m_HashMap__values_mut(self, st, fr, blk, fn, args, dty):
        if args[0].k != "mref":
            return self.m_HashMap__values(st, fr, blk, fn, args, dty)
        return [(st, self.mutiter(st, args[0], "vals"))]

    def m_slice__iter_mut(self, st, fr, blk, fn, args, dty):
        if args[0].k != "mref":
            return self.m_HashMap__iter(st, fr, blk, fn, args, dty)
        return [(st, iterv(self.e.deref(st, args[0]), (("mutof", args[0], "vec"),)))]

    def m_HashMap__drain(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        if args[0].k == "mref":
            k = v.a[0] if v.k == "coll" else (self.contkind(fn["path"].split("::<")[0]) or "map")
            self.e.storeto(st, args[0].a, empty(k))
        return [(st, self.toiter(v))]

    m_HashSet__drain = m_HashMap__drain

    def m_HashMap__clear(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        e = self.e
        e.mon.ext(e, st, fr, "map#clear", [v], (fr, blk))
        if args[0].k == "mref":
            k = v.a[0] if v.k == "coll" else (self.contkind(fn["path"].split("::<")[0]) or "map")
            e.storeto(st, args[0].a, empty(k))
        return [(st, UNIT)]

    m_HashSet__clear = m_HashMap__clear

    def m_Vec__clear(self, st, fr, blk, fn, args, dty):
        if args[0].k == "mref":
            self.e.storeto(st, args[0].a, empty("vec"))
        return [(st, UNIT)]

    def noop(self, st, fr, blk, fn, args, dty):
        return [(st, UNIT)]

    def m_HashMap__reserve(self, st, fr, blk, fn, args, dty):
        self.e.mon.ext(self.e, st, fr, "alloc", [args[1]], (fr, blk))
        return [(st, UNIT)]

    m_HashSet__reserve = m_Vec__reserve = m_Vec__reserve_exact = m_HashMap__reserve
    m_HashMap__shrink_to_fit = m_Vec__shrink_to_fit = noop
    m_HashSet__shrink_to_fit = noop
    m_slice__sort = m_slice__sort_unstable = m_slice__reverse = noop

    def m_HashMap__retain(self, st, fr, blk, fn, args, dty):
        e = self.e
        m = e.deref(st, args[0])
        ismap = "HashMap" in fn["path"] or "BTreeMap" in fn["path"]
        kind = "map" if ismap else ("set" if "Set" in fn["path"] else "vec")
        e.mon.ext(e, st, fr, "map#retain", [m], (fr, blk))
        tmp = ("tmp", (fr.fid if fr else 0), blk)
        st.store[tmp] = empty(kind)

        def body(s, v):
            if ismap:
                k, val = fld(v, None, 0), fld(v, None, 1)
                cell = ("cell", (fr.fid if fr else 0), blk)
                s.store[cell] = val
                rs = e.callval(s, fr, (blk, "ret"), args[1], [k, mref(cell)])
            else:
                rs = e.callval(s, fr, (blk, "ret"), args[1], [v])
            out = []
            for s2, r in rs:
                for s3, b in e.fork(s2, r):
                    w = v
                    if ismap:
                        w = pair(k, s3.store.pop(cell, val))
                    if b:
                        s3.store[tmp] = self.addto(s3, s3.store[tmp], w)
                    out.append((s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(m), body, "retain")
        out = []
        for s in ex:
            c = s.store.pop(tmp)
            if args[0].k == "mref":
                e.storeto(s, args[0].a, c)
            out.append((s, UNIT))
        return out

    m_HashSet__retain = m_Vec__retain = m_HashMap__retain

    # ---- entries ---------------------------------------------------------------
    def m_HashMap__entry(self, st, fr, blk, fn, args, dty):
        k = self.e.deref(st, args[1])
        out = []
        for s, p, v in self.lookup(st, args[0], k):
            out.append((s, agg(ENTRY, 0 if p else 1, (agg("slot", None, (args[0], k)),))))
        return out

    def slot(self, st, v):
        v = self.e.deref(st, v)
        if v.k == "agg" and v.a[0] == ENTRY:
            sl = v.a[2][0]
            return sl.a[2][0], sl.a[2][1], v.a[1]
        if v.k == "agg" and v.a[0] == "slot":
            return v.a[2][0], v.a[2][1], None
        return None

    def entref(self, m, k):
        return mref(m.a[0], m.a[1] + (("ent", k),))

    def setent(self, st, fr, blk, m, k, v):
        e = self.e
        cur = e.deref(st, m)
        e.mon.ext(e, st, fr, "map#insert", [cur, k, v], (fr, blk))
        m2, prev = self.map_insert(st, cur, k, v)
        e.storeto(st, m.a, m2)
        return prev

    def entmodel(self, st, fr, blk, args, mk_):
        sl = self.slot(st, args[0])
        if sl is None or sl[0].k != "mref":
            return None
        m, k, p = sl
        if p == 0:
            return [(st, self.entref(m, k))]
        out = []
        for s, v in mk_(st, k):
            self.setent(s, fr, blk, m, k, v)
            out.append((s, self.entref(m, k)))
        return out

    def m_Entry__or_insert(self, st, fr, blk, fn, args, dty):
        return self.entmodel(st, fr, blk, args, lambda s, k: [(s, args[1])])

    def m_Entry__or_insert_with(self, st, fr, blk, fn, args, dty):
        return self.entmodel(st, fr, blk, args, lambda s, k: self.e.callval(s, fr, (blk, "e"), args[1], []))

    def m_Entry__or_insert_with_key(self, st, fr, blk, fn, args, dty):
        return self.entmodel(st, fr, blk, args, lambda s, k: self.e.callval(s, fr, (blk, "e"), args[1], [k]))

    def m_Entry__or_default(self, st, fr, blk, fn, args, dty):
        t = re.sub(r"^&('\w+ )?mut ", "", self.P.tystr(dty))
        return self.entmodel(st, fr, blk, args, lambda s, k: [(s, self.default_of(fr, t))])

    def m_Entry__and_modify(self, st, fr, blk, fn, args, dty):
        sl = self.slot(st, args[0])
        if sl is None or sl[0].k != "mref":
            return None
        m, k, p = sl
        if p == 0:
            return [(s, args[0]) for s, r in self.e.callval(st, fr, (blk, "m"), args[1], [self.entref(m, k)])]
        return [(st, args[0])]

    def m_Entry__key(self, st, fr, blk, fn, args, dty):
        return [(st, self.slot(st, args[0])[1])]

    m_OccupiedEntry__key = m_VacantEntry__key = m_VacantEntry__into_key = m_Entry__key

    def m_OccupiedEntry__get(self, st, fr, blk, fn, args, dty):
        m, k, p = self.slot(st, args[0])
        return [(st, self.e.load(st, self.entref(m, k).a))]

    def m_OccupiedEntry__get_mut(self, st, fr, blk, fn, args, dty):
        m, k, p = self.slot(st, args[0])
        return [(st, self.entref(m, k))]

    m_OccupiedEntry__into_mut = m_OccupiedEntry__get_mut

    def m_OccupiedEntry__insert(self, st, fr, blk, fn, args, dty):
        m, k, p = self.slot(st, args[0])
        old = self.e.load(st, self.entref(m, k).a)
        self.setent(st, fr, blk, m, k, args[1])
        return [(st, old)]

    def m_OccupiedEntry__remove(self, st, fr, blk, fn, args, dty):
        m, k, p = self.slot(st, args[0])
        e = self.e
        old = e.load(st, self.entref(m, k).a)
        e.mon.ext(e, st, fr, "map#remove", [e.deref(st, m), k], (fr, blk))
        e.storeto(st, m.a, self.without(st, e.deref(st, m), k))
        return [(st, old)]

    def m_VacantEntry__insert(self, st, fr, blk, fn, args, dty):
        m, k, p = self.slot(st, args[0])
        self.setent(st, fr, blk, m, k, args[1])
        return [(st, self.entref(m, k))]

    # ---- set algebra -----------------------------------------------------------
    def m_HashSet__difference(self, st, fr, blk, fn, args, dty):
        b = self.e.deref(st, args[1])
        return [(st, iterv(self.e.deref(st, args[0]), (("filter", T("notin", b)),)))]

    def m_HashSet__intersection(self, st, fr, blk, fn, args, dty):
        b = self.e.deref(st, args[1])
        return [(st, iterv(self.e.deref(st, args[0]), (("filter", T("isin", b)),)))]

    def m_HashSet__union(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(agg("chain#", None, (self.e.deref(st, args[0]), self.e.deref(st, args[1])))))]

    # ================= vectors and slices =================
    def m_Vec__new(self, st, fr, blk, fn, args, dty):
        return [(st, empty("vec"))]

    def m_Vec__with_capacity(self, st, fr, blk, fn, args, dty):
        self.e.mon.ext(self.e, st, fr, "alloc", [args[0]], (fr, blk))
        return [(st, empty("vec"))]

    def m_vec__from_elem(self, st, fr, blk, fn, args, dty):
        x = self.e.deref(st, args[0])
        n = args[1]
        self.e.mon.ext(self.e, st, fr, "alloc", [n], (fr, blk))
        if is_t(x) or x.k in ("c", "lin"):
            return [(st, T("rep", x, n))]
        return [(st, coll("vec", {(E_, x)}, ne=None))]

    def m_Vec__push(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = self.tocoll(e.deref(st, args[0]), "vec")
        x = e.deref(st, args[1]) if args[1].k == "mref" and False else args[1]
        e.mon.ext(e, st, fr, "vec#push", [v, x], (fr, blk))
        if args[0].k == "mref":
            e.storeto(st, args[0].a, self.addto(st, v, x))
        return [(st, UNIT)]

    m_Vec__push_back = m_Vec__push_front = m_Vec__push

    def m_Vec__insert(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = self.tocoll(e.deref(st, args[0]), "vec")
        if args[0].k == "mref":
            c = self.addto(st, v, args[2])
            e.storeto(st, args[0].a, coll(c.a[0], c.a[1], c.a[2], None, None, True, c.a[6]))
        return [(st, UNIT)]

    def m_Vec__extend_from_slice(self, st, fr, blk, fn, args, dty):
        return self.extend(st, fr, blk, args[0], self.e.deref(st, args[1]))

    def m_Vec__append(self, st, fr, blk, fn, args, dty):
        src = self.e.deref(st, args[1])
        if args[1].k == "mref":
            self.e.storeto(st, args[1].a, empty("vec"))
        return self.extend(st, fr, blk, args[0], src)

    def m_Extend__extend(self, st, fr, blk, fn, args, dty):
        return self.extend(st, fr, blk, args[0], self.e.deref(st, args[1]), fn)

    def extend(self, st, fr, blk, dst, src, fn=None):
        e = self.e
        d = e.deref(st, dst)
        kind = d.a[0] if d.k == "coll" else None
        if kind is None and fn is not None and "self" in fn:
            kind = self.contkind(self.P.tystr(fn["self"]))
        kind = kind or "vec"
        d = self.tocoll(d, kind)
        e.mon.ext(e, st, fr, "extend", [d, src], (fr, blk))
        if kind == "vec":
            s0 = src
            if s0.k == "iter" and not s0.a[1]:
                s0 = s0.a[0]
            exact = None
            if s0.k == "coll" and s0.a[3] is not None:
                exact = s0.a[3]
            elif s0.k in ("t", "segs") or (s0.k == "c" and isinstance(s0.a[1], bytes)):
                exact = (("s", s0),)
            elif s0.k == "agg" and s0.a[0] == "array":
                exact = tuple(("e", x) for x in s0.a[2])
            if exact is not None:
                els = set(d.a[1])
                g = self.guardfor(st, s0)
                for k, x in exact:
                    els.add((g, x if k == "e" else gelem(x)))
                seq = d.a[3] + exact if d.a[3] is not None and len(d.a[3]) + len(exact) < 300 else None
                last = exact[-1][1] if exact and exact[-1][0] == "e" else (d.a[4] if not exact else None)
                c = coll("vec", els, d.a[2], seq, last, True if d.a[5] or any(k == "e" for k, _ in exact) else None, d.a[6] | self.marks())
                if dst.k == "mref":
                    e.storeto(st, dst.a, c)
                return [(st, UNIT)]
        rs = self.collect(st, fr, blk, src, kind, init=d)
        out = []
        for s, c in rs:
            if dst.k == "mref":
                e.storeto(s, dst.a, c)
            out.append((s, UNIT))
        return out

    def m_slice__last(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        out = []
        for s, b in e.fork(st, e.isempty(v)):
            if b:
                out.append((s, NONE))
            elif v.k == "coll" and v.a[4] is not None:
                out.append((s, some(v.a[4])))
            elif v.k == "coll":
                out.append((s, some(T("last", strip(v)))))
            else:
                out.append((s, some(T("last", v))))
        return out

    m_slice__last_mut = m_slice__last

    def m_slice__first(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        return [(s, NONE if b else some(e.index(s, v, C(0)))) for s, b in e.fork(st, e.isempty(v))]

    def m_slice__split_last(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        n = length(v)
        out = []
        for s, b in e.fork(st, e.isempty(v)):
            out.append((s, NONE if b else some(tup(e.index(s, v, sub(n, C(1))), slc(v, C(0), sub(n, C(1)))))))
        return out

    def m_slice__split_first(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        return [(s, NONE if b else some(tup(e.index(s, v, C(0)), slc(v, C(1), None)))) for s, b in e.fork(st, e.isempty(v))]

    def m_slice__split_at(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        self.e.mon.ext(self.e, st, fr, "index", [v, (args[1], None)], (fr, blk))
        return [(st, tup(slc(v, C(0), args[1]), slc(v, args[1], None)))]

    def m_slice__split_at_mut(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        if args[0].k != "mref":
            return None
        self.e.mon.ext(self.e, st, fr, "index", [v, (args[1], None)], (fr, blk))
        n = length(v)
        a = args[0].a
        return [(st, tup(mref(a[0], a[1] + (("range", C(0), args[1]),)), mref(a[0], a[1] + (("range", args[1], n),))))]

    def m_slice__get(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        rng = self.range_of(fn, args[1], v, st)
        if rng is None:
            i = e.deref(st, args[1])
            x = e.index(st, v, i)
            return [(s, some(x) if b else NONE) for s, b in e.fork(st, e.lt(i, length(v)))]
        lo, hi = rng
        x = slc(v, lo, hi)
        hi = length(v) if hi is None else hi
        out = []
        for s, b in e.fork(st, e.bnot(e.lt(length(v), hi))):
            if not b:
                out.append((s, NONE))
                continue
            for s2, b2 in e.fork(s, e.bnot(e.lt(hi, lo))):
                out.append((s2, some(x) if b2 else NONE))
        return out

    def m_Vec__pop(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        out = []
        for s, b in e.fork(st, e.isempty(v)):
            if b:
                out.append((s, NONE))
                continue
            c = self.tocoll(v, "vec")
            if c.a[3] and c.a[3][-1][0] == "e":
                x = c.a[3][-1][1]
                c2 = seqv("vec", c.a[3][:-1])
                if args[0].k == "mref":
                    e.storeto(s, args[0].a, c2)
                out.append((s, some(x)))
                continue
            xs = [x for _, x in c.a[1]]
            if c.a[4] is not None:
                x = c.a[4]
            elif len(xs) == 1:
                x = xs[0]
            elif xs and not all(y.k == "agg" for y in xs) and e.active:
                x = T("phi", e.active[-1], (e.sid((fr, blk)), "pop"))
                e.phi_defs.setdefault(x, set()).update(y for y in xs if y is not x)
            else:
                x = e.mkalt(("pop", e.sid((fr, blk))), xs) if xs and all(y.k == "agg" for y in xs) else T("popped", strip(c))
            if args[0].k == "mref":
                e.storeto(s, args[0].a, coll(c.a[0], c.a[1], c.a[2] | {frozenset([(T("removed", T("last", x)), 1)])}, None, None, None, c.a[6]))
            out.append((s, some(x)))
        return out

    m_Vec__pop_front = m_Vec__pop_back = m_Vec__pop

    def m_Vec__truncate(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        if args[0].k == "mref":
            if v.k == "coll":
                e.storeto(st, args[0].a, coll("vec", v.a[1], v.a[2] | {frozenset([(T("removed", T("trunc", args[1])), 1)])}, None, None, None, v.a[6]))
            else:
                e.storeto(st, args[0].a, slc(v, C(0), args[1]))
        return [(st, UNIT)]

    def m_Vec__split_off(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        e.mon.ext(e, st, fr, "index", [v, (args[1], None)], (fr, blk))
        if args[0].k == "mref" and v.k != "coll":
            e.storeto(st, args[0].a, slc(v, C(0), args[1]))
        return [(st, slc(v, args[1], None) if v.k != "coll" else v)]

    def m_Vec__drain(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        rng = self.range_of(fn, args[1], v, st) or (C(0), None)
        e.mon.ext(e, st, fr, "index", [v, rng], (fr, blk))
        if args[0].k == "mref":
            if rng[0] is C(0) and rng[1] is None:
                e.storeto(st, args[0].a, empty("vec"))
            else:
                c = self.tocoll(v, "vec")
                e.storeto(st, args[0].a, coll("vec", c.a[1], c.a[2] | {frozenset([(T("removed", v), 1)])}, None, None, None, c.a[6]))
        return [(st, self.toiter(v if v.k == "coll" else slc(v, rng[0], rng[1])))]

    def m_slice__copy_from_slice(self, st, fr, blk, fn, args, dty):
        e = self.e
        src = e.deref(st, args[1])
        e.mon.ext(e, st, fr, "copy", [args[0], src], (fr, blk))
        e.mon.ext(e, st, fr, "copied", [e.deref(st, args[0]), src], (fr, blk))
        if args[0].k == "mref":
            e.storeto(st, args[0].a, src)
        return [(st, UNIT)]

    m_slice__clone_from_slice = m_slice__copy_from_slice
    m_Clone__clone_from = m_slice__copy_from_slice

    def m_slice__fill(self, st, fr, blk, fn, args, dty):
        e = self.e
        if args[0].k == "mref":
            e.storeto(st, args[0].a, T("rep", args[1], length(e.deref(st, args[0]))))
        return [(st, UNIT)]

    def m_slice__concat(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        xs = None
        if v.k == "agg" and v.a[0] == "array":
            xs = [e.deref(st, x) for x in v.a[2]]
        if xs is not None:
            seq = []
            for x in xs:
                if x.k == "coll" and x.a[3] is not None:
                    seq += x.a[3]
                else:
                    seq.append(("s", x))
            return [(st, seqv("vec", tuple(seq)))]
        if v.k == "coll":
            return self.collect(st, fr, blk, iterv(v, (("flatten",),)), "vec")
        return None

    def m_slice__starts_with(self, st, fr, blk, fn, args, dty):
        return [(st, T("starts", *[self.e.deref(st, a) for a in args]))]

    def m_slice__chunks(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        return [(st, iterv(v, (("chunks", args[1], v),)))]

    def m_slice__chunks_exact(self, st, fr, blk, fn, args, dty):
        v = self.e.deref(st, args[0])
        return [(st, iterv(v, (("chunksx", args[1], v),)))]

    def m_slice__windows(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(self.e.deref(st, args[0]), (("windows", args[1]),)))]

    m_slice__rchunks = m_slice__windows

    def m_ChunksExact__remainder(self, st, fr, blk, fn, args, dty):
        it = self.e.deref(st, args[0])
        if it.k == "iter" and len(it.a[1]) == 1 and it.a[1][0][0] == "chunksx" and it.a[1][0][2].k == "t":
            v, n = it.a[1][0][2], it.a[1][0][1]
            return [(st, T("slice", v, mul(n, T("bin", "Div", length(v), n)), length(v)))]
        return None

    def m_array__map(self, st, fr, blk, fn, args, dty):
        return None

    # ---- indexing -------------------------------------------------------------
    def range_of(self, fn, idx, v, st):
        """(lo, hi or None) of a range used as an index, None for a plain index."""
        s = ""
        for a in (fn.get("targs") or []) + (fn.get("args") or []):
            if "t" in a:
                t = self.P.tystr(a["t"])
                if re.match(r"(std|core)::ops::Range", t):
                    s = t
        idx = self.e.deref(st, idx)
        h = s.split("<")[0].split("::")[-1]
        if h == "Range":
            return fld(idx, None, 0), fld(idx, None, 1)
        if h == "RangeFrom":
            return idx, None
        if h == "RangeTo":
            return C(0), idx
        if h == "RangeFull":
            return C(0), None
        if h == "RangeInclusive":
            return fld(idx, None, 0), add(fld(idx, None, 1), C(1))
        if h == "RangeToInclusive":
            return C(0), add(idx, C(1))
        return None

    def m_RangeInclusive__new(self, st, fr, blk, fn, args, dty):
        return [(st, agg("RangeInclusive", None, args))]

    def m_Index__index(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        s = self.P.tystr(fn["self"])
        if self.contkind(s) == "map":
            out = []
            for s2, p, x in self.lookup(st, v, args[1]):
                if p:
                    out.append((s2, x))
                else:
                    e.mon.panic(e, s2, fr, blk, "index", None)
            return out
        r = self.range_of(fn, args[1], v, st)
        e.mon.ext(e, st, fr, "index", [v, r if r else args[1]], (fr, blk))
        if r is None:
            return [(st, e.index(st, v, e.deref(st, args[1])))]
        if v.k == "coll" and v.a[3] is None:
            return [(st, T("slice", strip(v), r[0], r[1] if r[1] is not None else length(v)))]
        return [(st, slc(v, r[0], r[1]))]

    def m_IndexMut__index_mut(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.deref(st, args[0])
        r = self.range_of(fn, args[1], v, st)
        e.mon.ext(e, st, fr, "index", [v, r if r else args[1]], (fr, blk))
        if args[0].k != "mref":
            return self.m_Index__index(st, fr, blk, fn, args, dty)
        a = args[0].a
        if r is None:
            if self.contkind(self.P.tystr(fn["self"])) == "map":
                return [(st, mref(a[0], a[1] + (("ent", e.deref(st, args[1])),)))]
            return [(st, mref(a[0], a[1] + (("i", e.deref(st, args[1])),)))]
        hi = r[1] if r[1] is not None else length(v)
        return [(st, mref(a[0], a[1] + (("range", r[0], hi),)))]

    # ================= iterators =================
    def t_IntoIterator(self, st, fr, blk, fn, args, dty):
        v = args[0]
        if v.k == "mref":
            d = self.e.deref(st, v)
            if d.k == "iter":
                return [(st, v)]
            s = self.P.tystr(fn["self"])
            if s.startswith("&") and "mut " in s.split("<")[0]:
                k = self.contkind(s)
                return [(st, self.mutiter(st, v, "map" if k == "map" else "vec"))]
            v = d
        if v.k == "agg" and v.a[0].endswith("ops::Range") or v.k == "agg" and v.a[0] == "RangeInclusive":
            return [(st, v)]
        return [(st, self.toiter(v) if v.k != "alt" else v)]

    def stage(name):
        def f(self, st, fr, blk, fn, args, dty):
            v = self.toiter(self.rangeit(self.e.deref(st, args[0])))
            return [(st, iterv(v.a[0], v.a[1] + ((name,) + tuple(args[1:]),)))]
        return f

    def rangeit(self, v):
        if v.k == "agg" and v.a[0].endswith("ops::Range"):
            return T("range", v.a[2][0], v.a[2][1])
        if v.k == "agg" and v.a[0] == "RangeInclusive":
            return T("range", v.a[2][0], add(v.a[2][1], C(1)))
        return v

    m_Iterator__map = stage("map")
    m_Iterator__filter = stage("filter")
    m_Iterator__filter_map = stage("filter_map")
    m_Iterator__map_while = stage("map_while")
    m_Iterator__take_while = stage("take_while")
    m_Iterator__skip_while = stage("skip_while")
    m_Iterator__flat_map = stage("flat_map")
    m_Iterator__flatten = stage("flatten")
    m_Iterator__inspect = stage("inspect")
    m_Iterator__enumerate = stage("enumerate")
    m_Iterator__take = stage("cut")
    m_Iterator__skip = stage("cut")
    m_Iterator__step_by = stage("cut")
    m_Iterator__scan = stage("scan")
    del stage

    def m_Iterator__zip(self, st, fr, blk, fn, args, dty):
        v = self.toiter(self.rangeit(self.e.deref(st, args[0])))
        w = self.toiter(self.rangeit(self.e.deref(st, args[1])))
        return [(st, iterv(v.a[0], v.a[1] + (("zip", w),)))]

    def m_iter__zip(self, st, fr, blk, fn, args, dty):
        return self.m_Iterator__zip(st, fr, blk, fn, args, dty)

    def m_Iterator__chain(self, st, fr, blk, fn, args, dty):
        v, w = self.toiter(self.e.deref(st, args[0])), self.toiter(self.e.deref(st, args[1]))
        return [(st, iterv(agg("chain#", None, (v, w))))]

    def m_iter__once(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(agg("array", None, (args[0],))))]

    def m_iter__empty(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(empty("vec")))]

    def m_iter__repeat(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(coll("vec", {(E_, args[0])})))]

    def m_iter__repeat_with(self, st, fr, blk, fn, args, dty):
        return [(st, iterv(T("repeat"), (("map0", args[0]),)))]

    def m_Iterator__next(self, st, fr, blk, fn, args, dty):
        """One step of an iterator; in a MIR loop the element is bound to the loop."""
        from interp import BACK
        e = self.e
        it = e.deref(st, args[0])
        if it.k == "alt":
            out = []
            for x in sorted(it.a[1], key=lambda y: y.id):
                s = st.copy()
                e.replace(s, it, x)
                out += self.m_Iterator__next(s, fr, blk, fn, args, dty)
            return out
        it = self.rangeit(it)
        b0 = blk
        while isinstance(b0, tuple):
            b0 = b0[0]
        h = e.cfg(fr.key).innermost(b0) if fr is not None else None
        lid = (fr.fid, h) if h is not None else ("n",) + e.sid((fr, blk))
        inloop = h is not None and lid in e.active
        out = []
        for s, what, v in self.pull(st, fr, (blk, "nx"), self.toiter(it), lid):
            if what == "end":
                if inloop:
                    s.h["#end"] = lid
                out.append((s, NONE))
            elif what == "skip":
                if inloop:
                    out.append((s, BACK))
            else:
                out.append((s, some(v)))
        return out

    m_DoubleEndedIterator__next_back = m_Iterator__next
    m_Iterator__last = m_Iterator__nth = m_Iterator__next
    m_Peekable__peek = m_Iterator__next

    def destkind(self, fr, dty, fn):
        return self.contkind(self.P.tystr(dty)) if dty is not None else None

    def m_Iterator__collect(self, st, fr, blk, fn, args, dty):
        it = self.toiter(self.rangeit(self.e.deref(st, args[0])))
        k = self.destkind(fr, dty, fn)
        if k is None and dty is not None and self.P.types[dty]["k"] not in ("param", "alias"):
            return None
        return self.collect(st, fr, blk, it, k)

    def m_FromIterator__from_iter(self, st, fr, blk, fn, args, dty):
        return self.m_Iterator__collect(st, fr, blk, fn, args, dty)

    def m_Iterator__partition(self, st, fr, blk, fn, args, dty):
        e = self.e
        a = splitargs("X<" + self.P.tystr(dty).strip("()") + ">")
        kind = self.contkind(a[0]) if a else "vec"
        t1, t2 = ("tmp", (fr.fid if fr else 0), (blk, 1)), ("tmp", (fr.fid if fr else 0), (blk, 2))
        st.store[t1] = st.store[t2] = empty(kind)

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "p"), args[1], [v]):
                for s3, b in e.fork(s2, r):
                    t = t1 if b else t2
                    s3.store[t] = self.addto(s3, s3.store[t], v)
                    out.append((s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(e.deref(st, args[0])), body, "part")
        return [(s, tup(s.store.pop(t1), s.store.pop(t2))) for s in ex]

    def m_Iterator__unzip(self, st, fr, blk, fn, args, dty):
        e = self.e
        s = self.P.tystr(dty)
        a = splitargs("X<" + s[1:-1] + ">")
        kinds = [self.contkind(x) or "vec" for x in a] or ["vec", "vec"]
        t1, t2 = ("tmp", (fr.fid if fr else 0), (blk, 1)), ("tmp", (fr.fid if fr else 0), (blk, 2))
        st.store[t1], st.store[t2] = empty(kinds[0]), empty(kinds[1])

        def put(s, t, kind, v):
            if kind == "map":
                s.store[t] = self.map_put(s, s.store[t], fld(v, None, 0), fld(v, None, 1))
            else:
                s.store[t] = self.addto(s, s.store[t], v)

        def body(s, v):
            put(s, t1, kinds[0], fld(v, None, 0))
            put(s, t2, kinds[1], fld(v, None, 1))
            return [(s, "next", None)]
        ex, br = self.loop(st, fr, blk, self.toiter(e.deref(st, args[0])), body, "unz")
        return [(s, tup(s.store.pop(t1), s.store.pop(t2))) for s in ex]

    def foldish(self, st, fr, blk, it, init, f, mode):
        e = self.e
        tmp = ("acc", (fr.fid if fr else 0), blk)
        st.store[tmp] = init

        def body(s, v):
            acc = s.store[tmp]
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), f, [acc, v]):
                if mode == "fold":
                    s2.store[tmp] = r
                    out.append((s2, "next", None))
                    continue
                r = e.deref(s2, r)
                isopt = mode == "opt"
                for s3, var, fs in (e.opt(s2, r) if isopt else e.res(s2, r)):
                    good = 1 if isopt else 0
                    if var == good:
                        s3.store[tmp] = fs[0]
                        out.append((s3, "next", None))
                    else:
                        out.append((s3, "break", NONE if isopt else err(fs[0])))
            return out
        ex, br = self.loop(st, fr, blk, it, body, "fold")
        out = []
        for s in ex:
            a = s.store.pop(tmp)
            out.append((s, a if mode == "fold" else (some(a) if mode == "opt" else ok(a))))
        for s, r in br:
            s.store.pop(tmp, None)
            out.append((s, r))
        return out

    def m_Iterator__fold(self, st, fr, blk, fn, args, dty):
        return self.foldish(st, fr, blk, self.toiter(self.rangeit(self.e.deref(st, args[0]))), args[1], args[2], "fold")

    def m_Iterator__try_fold(self, st, fr, blk, fn, args, dty):
        s = self.P.tystr(dty)
        return self.foldish(st, fr, blk, self.toiter(self.rangeit(self.e.deref(st, args[0]))), args[1], args[2],
                            "opt" if s.startswith("std::option") else "res")

    def m_Iterator__for_each(self, st, fr, blk, fn, args, dty):
        e = self.e

        def body(s, v):
            return [(s2, "next", None) for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v])]
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "each")
        return [(s, UNIT) for s in ex]

    def m_Iterator__try_for_each(self, st, fr, blk, fn, args, dty):
        e = self.e
        isopt = self.P.tystr(dty).startswith("std::option")

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v]):
                for s3, var, fs in (e.opt(s2, r) if isopt else e.res(s2, r)):
                    if var == (1 if isopt else 0):
                        out.append((s3, "next", None))
                    else:
                        out.append((s3, "break", NONE if isopt else err(fs[0])))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "each")
        return [(s, some(UNIT) if isopt else ok(UNIT)) for s in ex] + br

    def anyall(self, st, fr, blk, args, stop, res_stop, res_end):
        e = self.e

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v]):
                for s3, b in e.fork(s2, r):
                    if b == stop:
                        out.append((s3, "break", res_stop))
                    else:
                        out.append((s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "any")
        return [(s, res_end) for s in ex] + br

    def m_Iterator__any(self, st, fr, blk, fn, args, dty):
        return self.anyall(st, fr, blk, args, 1, TRUE, FALSE)

    def m_Iterator__all(self, st, fr, blk, fn, args, dty):
        return self.anyall(st, fr, blk, args, 0, FALSE, TRUE)

    def m_Iterator__find(self, st, fr, blk, fn, args, dty):
        e = self.e

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v]):
                for s3, b in e.fork(s2, r):
                    out.append((s3, "break", some(v)) if b else (s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "find")
        return [(s, NONE) for s in ex] + br

    def m_Iterator__find_map(self, st, fr, blk, fn, args, dty):
        e = self.e

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v]):
                for s3, var, fs in e.opt(s2, r):
                    out.append((s3, "break", some(fs[0])) if var else (s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "find")
        return [(s, NONE) for s in ex] + br

    def m_Iterator__position(self, st, fr, blk, fn, args, dty):
        e = self.e

        def body(s, v):
            out = []
            for s2, r in e.callval(s, fr, (blk, "f"), args[1], [v]):
                for s3, b in e.fork(s2, r):
                    out.append((s3, "break", some(T("opq", "pos", v))) if b else (s3, "next", None))
            return out
        ex, br = self.loop(st, fr, blk, self.toiter(self.rangeit(e.deref(st, args[0]))), body, "find")
        return [(s, NONE) for s in ex] + br

    def reduceish(self, st, fr, blk, fn, args, dty):
        """sum, count, min, max...: runs the iterator for its effects, opaque result."""
        e = self.e
        it = self.toiter(self.rangeit(e.deref(st, args[0])))

        def body(s, v):
            return [(s, "next", None)]
        ex, br = self.loop(st, fr, blk, it, body, "red")
        return [(s, T("opq", fn["path"].split("::")[-1], it.a[0] if it.a[0].k != "coll" else strip(it.a[0]))) for s in ex]

    m_Iterator__sum = m_Iterator__count = m_Iterator__product = m_Iterator__min = m_Iterator__max = reduceish

    def m_Iterator__size_hint(self, st, fr, blk, fn, args, dty):
        return [(st, tup(T("opq", "hint"), NONE))]

    # ================= cryptography =================
    def m_Kmac__v256(self, st, fr, blk, fn, args, dty):
        e = self.e
        return [(st, T("kmac256", e.deref(st, args[0]), e.deref(st, args[1]), ()))]

    def m_Kmac__v128(self, st, fr, blk, fn, args, dty):
        e = self.e
        return [(st, T("kmac128", e.deref(st, args[0]), e.deref(st, args[1]), ()))]

    def hasher(name):
        def f(self, st, fr, blk, fn, args, dty):
            return [(st, T(name, ()))]
        return f

    m_Sha3__v256 = hasher("sha3_256")
    m_Sha3__v512 = hasher("sha3_512")
    m_Sha3__v224 = hasher("sha3_224")
    m_Sha3__v384 = hasher("sha3_384")
    m_Keccak__v256 = hasher("keccak_256")
    m_Shake__v256 = hasher("shake_256")
    m_Shake__v128 = hasher("shake_128")
    m_CShake__v256 = hasher("cshake_256")
    del hasher

    def m_Hasher__update(self, st, fr, blk, fn, args, dty):
        e = self.e
        h = e.deref(st, args[0])
        x = e.deref(st, args[1])
        if h.k == "t" and isinstance(h.a[-1], tuple):
            h2 = T(*(h.a[:-1] + (h.a[-1] + (x,),)))
        else:
            h2 = T("absorb", h, x)
        if args[0].k == "mref":
            e.storeto(st, args[0].a, h2)
        return [(st, UNIT)]

    def m_Hasher__finalize(self, st, fr, blk, fn, args, dty):
        e = self.e
        h = e.deref(st, args[0])
        n = length(e.deref(st, args[1]))
        v = T("hash", h, n)
        note_len(v, n)
        if args[1].k == "mref":
            e.storeto(st, args[1].a, v)
        return [(st, UNIT)]

    m_Xof__squeeze = m_Hasher__finalize

    def t_Instantiable(self, st, fr, blk, fn, args, dty):
        return [(st, T("aead", C(self.P.tystr(fn["self"])), self.e.deref(st, args[0])))]

    def m_DemInPlace__encrypt_in_place_detached(self, st, fr, blk, fn, args, dty):
        e = self.e
        a, n = e.deref(st, args[0]), e.deref(st, args[1])
        p, ad = e.deref(st, args[2]), e.deref(st, args[3]) if len(args) > 3 else NONE
        e.mon.ext(e, st, fr, "aead#encrypt", [a, n, p, ad], (fr, blk))
        s2 = st.copy()
        c = T("enc", a, n, p, ad)
        note_len(c, length(p))
        tag = T("mactag", a, n, p, ad)
        if args[2].k == "mref":
            e.storeto(st, args[2].a, c)
        er = e.age(s2, "err", "encrypt", e.sid((fr, blk)))
        return [(st, ok(tag)), (s2, err(er))]

    def m_DemInPlace__decrypt_in_place_detached(self, st, fr, blk, fn, args, dty):
        e = self.e
        a, n = e.deref(st, args[0]), e.deref(st, args[1])
        c, tag = e.deref(st, args[2]), e.deref(st, args[3])
        ad = e.deref(st, args[4]) if len(args) > 4 else NONE
        e.mon.ext(e, st, fr, "aead#decrypt", [a, n, c, tag, ad], (fr, blk))
        s2 = st.copy()
        p = T("dec", a, n, c, tag, ad)
        note_len(p, length(c))
        if args[2].k == "mref":
            e.storeto(st, args[2].a, p)
            e.storeto(s2, args[2].a, T("decfail", a, n, c, tag))
        er = e.age(s2, "err", "decrypt", e.sid((fr, blk)))
        return [(st, ok(UNIT)), (s2, err(er))]

    def m_RngCore__fill_bytes(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = self.fresh(st, "bytes", fr, blk, e.deref(st, args[0]))
        old = e.deref(st, args[1])
        note_len(v, length(old)) if not is_t(length(old), "len") else None
        if args[1].k == "mref":
            e.storeto(st, args[1].a, v)
        return [(st, UNIT)]

    def m_RngCore__try_fill_bytes(self, st, fr, blk, fn, args, dty):
        s2 = st.copy()
        self.m_RngCore__fill_bytes(st, fr, blk, fn, args, dty)
        return [(st, ok(UNIT)), (s2, err(T("rngerr")))]

    def m_RngCore__next_u64(self, st, fr, blk, fn, args, dty):
        return [(st, self.fresh(st, "u64", fr, blk, self.e.deref(st, args[0])))]

    m_RngCore__next_u32 = m_RngCore__next_u64

    def t_RandomFixedSizeCBytes(self, st, fr, blk, fn, args, dty):
        if fn["method"] == "new":
            return [(st, self.fresh(st, "key", fr, blk, self.e.deref(st, args[0]) if args else None))]
        return None

    def t_FixedSizeCBytes(self, st, fr, blk, fn, args, dty):
        m = re.match(r".*<(.*)>$", self.P.tystr(fn["self"]))
        v = self.e.deref(st, args[0]) if args else None
        n = self.e.cname(fr, m.group(1)) if m else None
        if fn["method"] == "try_from_slice" and n is not None:
            return self.fixlen(st, fr, v, n, "slice")
        if fn["method"] == "try_from_bytes":
            s2 = st.copy()
            return [(st, ok(v)), (s2, err(T("converr", v)))]
        return None

    def t_SeedableRng(self, st, fr, blk, fn, args, dty):
        m = fn["method"]
        if m in ("from_seed", "seed_from_u64"):
            v = self.e.deref(st, args[0])
            if not any(is_t(t, "fresh") for t in self.e.subterms(v)):
                return [(st, T("rng", "seeded", v))]
            return [(st, T("rng", "drawn"))]
        if m in ("from_rng", "try_from_rng", "fork"):
            src = self.e.deref(st, args[0])
            weak = any(is_t(t, "rng") and t.a[1:2] == ("seeded",) for t in self.e.subterms(src))
            r = T("rng", "seeded", src) if weak else T("rng", "drawn")
            s2 = st.copy()
            return [(st, ok(r)), (s2, err(T("rngerr")))] if "Result" in self.P.tystr(dty) else [(st, r)]
        return [(st, T("rng", "entropy"))]

    def t_Zeroize(self, st, fr, blk, fn, args, dty):
        e = self.e
        e.mon.ext(e, st, fr, "zeroize", [args[0]], (fr, blk))
        if args[0].k == "mref":
            e.storeto(st, args[0].a, T("rep", C(0), length(e.deref(st, args[0]))))
        return [(st, UNIT)]

    # ---- serialization ------------------------------------------------------------
    def serop(self, st, fr, blk, fn, args, dty):
        e = self.e
        s2 = st.copy()
        n = T("nbytes", e.deref(st, args[1]))
        return [(st, ok(n)), (s2, err(T("sererr")))]

    m_Serializer__write_array = m_Serializer__write_leb128_u64 = m_Serializer__write_vec = serop

    def deserop(self, st, fr, blk, fn, args, dty):
        e = self.e
        v = e.age(st, "opq", "read", e.sid((fr, blk)))
        m = re.search(r"Result<\[u8; ([^\]]*)\]", self.P.tystr(dty))
        if m:
            note_len(v, e.cname(fr, m.group(1)))
        s2 = st.copy()
        er = e.age(s2, "err", "deser", e.sid((fr, blk)))
        e.mon.result(e, s2, "deser", False, er, (), (fr, blk))
        return [(st, ok(v)), (s2, err(er))]

    m_Deserializer__read_array = m_Deserializer__read_leb128_u64 = m_Deserializer__read_vec = m_Deserializer__read_vec_as_ref = deserop

    # ---- integers -----------------------------------------------------------------
    def m_usize__min(self, st, fr, blk, fn, args, dty):
        return self.m_Ord__min(st, fr, blk, fn, args, dty)

    def m_num__saturating_sub(self, st, fr, blk, fn, args, dty):
        return None

"""Rules on compaction: what it refuses, what it keeps, what it rewrites."""
import vals as VL
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, forms, key_of, val_of, leaves_of, is_ok, is_err, WRITES
from rules2 import generic, param_of
from rules3 import Trace, rows, members, ungen


class Early(Monitor):
    """Outcomes and events, with whether something happened before."""

    def __init__(self):
        self.all = []
        self.rets = []

    def event(self, eng, st, name, args, site):
        self.all.append((name, site, dict(st.facts)))
        st.h["started"] = 1

    def ret(self, eng, st, key, val):
        self.rets.append((st.h.get("started"), dict(st.facts), val))


# =============================================================================================
# P20  compaction needs a new key or a new label
# =============================================================================================
@rule("P20")
def refuses_unchanged(c):
    """with the same key and the same label, compact fails and does nothing"""
    root = c.root("Index", "compact")
    if root is None:
        return
    ps = [T("param", c.P.bodies[root]["locals"][i + 1].get("n") or "a%d" % i) for i in range(c.P.bodies[root]["args"])]
    same = list(ps)
    same[2], same[4] = ps[1], ps[3]
    m = Early()
    e, res = c.run(root, m, args=same)
    for name, site, facts in m.all:
        if base(name) in WRITES:
            c.viol("unchanged:%s" % name, e.where(site), "compact goes on to %s although neither the key nor the label changes" % name)
    for started, facts, val in m.rets:
        c.count("outcomes with an unchanged key and label")
        if not is_err(val):
            c.viol("unchanged:accepted", "-", "compact may return %s although neither the key nor the label changes" % sh(val, 80))
    c.floor("outcomes with an unchanged key and label", 1)


@rule("P20")
def refuses_only_unchanged(c):
    """compact is refused beforehand only if both the whole key and the whole label are unchanged"""
    root = c.root("Index", "compact")
    if root is None:
        return
    ps = [T("param", c.P.bodies[root]["locals"][i + 1].get("n") or "a%d" % i) for i in range(c.P.bodies[root]["args"])]
    m = Early()
    e, res = c.run(root, m)
    for started, facts, val in m.rets:
        if started:
            continue
        c.count("early outcomes")
        if not is_err(val):
            c.viol("early:nothing done", "-", "compact may return %s without doing anything" % sh(val, 80))
            continue
        for a, b, what in ((ps[1], ps[2], "key"), (ps[3], ps[4], "label")):
            if facts.get(VL.mkeq(a, b)) != 1:
                c.viol("early:%s" % what, "-", "compact may be refused beforehand (%s) although the %s changes" % (sh(val, 80), what))
    c.floor("early outcomes", 1)


# =============================================================================================
# layers of the compaction
# =============================================================================================
GL = {(None, "prepare_compact"): "GC.prepare", (None, "complete_compacting"): "GC.complete", (None, "list_indexed_encrypted_tags"): "GC.list"}
ML = {(None, "prepare_compacting"): "MC.prepare", (None, "complete_compacting"): "MC.complete", (None, "dump_entry_tokens"): "MC.list"}
LL = {(None, "recompose"): "L.recompose", (None, "decompose"): "L.decompose"}


def inherent(c, ty, meth):
    for s, ms, im in c.methods(None, ty):
        if meth in ms:
            return ms[meth]
    c.viol("anchor:%s::%s" % (ty, meth), "-", "no function %s::%s was found in the crate: the rule lost its subject" % (ty, meth))
    return None


def layer(c, key, opaque):
    m = Trace()
    e, res = c.run(key, m, opaque=opaque)
    return m, e, res


def resp_of(v, name, i=None):
    """v is the answer of an event (or its i-th component)."""
    if i is not None:
        if not (is_t(v, "fld") and v.a[3] == i):
            return None
        v = v.a[1]
    return v if is_t(v, "resp") and v.a[1] == name else None


def decide(g, pred):
    """The polarity under which the guard g holds something satisfying pred, or None."""
    for t, b in g:
        if pred(t):
            return b
    return None


def same_el(a, b):
    return a is b or generic(a) == generic(b)


def maps(e, v):
    return [x for x in forms(e, v)]


# =============================================================================================
# P32  compaction drops only what the filter rejects
# =============================================================================================
@rule("P32")
def filter_is_obeyed(c):
    """the filter is given all the data of the batch; a value is dropped if and only if it is a datum the filter did not return"""
    m, e, res = layer(c, c.root("Index", "compact"), GL)
    done = False
    for name, args, site, facts in m.events:
        w = e.where(site)
        if name.startswith("CB."):
            c.count("calls of the filter")
            for x in forms(e, args[0]):
                if x.k != "coll":
                    c.viol("filter:given", w, "the filter is not given the data of the fetched entries: " + sh(x))
                    continue
                for g, z in elements(x):
                    R = z.a[1] if is_t(z, "fld") else None
                    if batch_value(R) is None:
                        c.viol("filter:given", w, "the filter is given something else than the data of the fetched entries: " + sh(z))
                        continue
                    for t, b in g:
                        if not (is_t(t, "discr") and t.a[1] is R and b == 1):
                            c.viol("filter:given only if", w, "a datum is only given to the filter under a condition on " + sh(t))
                    c.ob("the filter is given %s if %s" % (sh(z, 60), sh(R, 50)))
                for s in x.a[2]:
                    if not any(is_t(t, "isempty") and b == 1 or is_t(t, "discr") and b == 0 and batch_value(t.a[1]) is not None for t, b in s):
                        c.viol("filter:left out", w, "some data of the fetched entries are not given to the filter: when " + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))
                if not elements(x):
                    c.viol("filter:nothing", w, "the filter is given no datum")
        if name == "GC.complete":
            done = True
            kept_values(c, e, w, args)
    if not done:
        c.viol("coverage:complete", "-", "compact does not complete through the graph layer: the rule lost its subject")
    c.floor("calls of the filter", 1)
    c.floor("values kept", 1)


def batch_value(v):
    """The answer of the preparation, for an indexed value of one of its entries."""
    if not is_t(v, "elem"):
        return None
    s = v.a[1]
    if is_t(s, "fld") and s.a[3] == 1 and is_t(s.a[1], "elem"):
        return resp_of(s.a[1].a[1], "GC.prepare", 0)
    if is_t(s, "at"):
        return resp_of(s.a[1], "GC.prepare", 0)
    return None


def kept_values(c, e, w, args):
    data = [resp_of(a, "GC.prepare", 1) for a in args]
    data = [d for d in data if d is not None]
    if len(data) != 1:
        c.viol("batch", w, "what is completed is not what was prepared")
        return
    R = data[0]
    got = False
    for a in args:
        for x in forms(e, a):
            if x.k == "coll" and x.a[0] == "map":
                got = True
                one_map(c, e, w, R, x)
            elif resp_of(x, "GC.prepare", 0) is not None:
                c.viol("filter:ignored", w, "the answer of the filter is ignored: all prepared values are kept")
                got = True
    if not got:
        c.viol("filter:values", w, "the values kept are not gathered from the prepared ones")


def one_map(c, e, w, R, x):
    for s in x.a[2]:
        c.viol("entry left out", w, "the values of some prepared entries are not handed over for completion: when "
               + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))
    for g, y in elements(x):
        k = key_of(y)
        if not (is_t(k, "fld") and k.a[3] == 0 and is_t(k.a[1], "elem") and resp_of(k.a[1].a[1], "GC.prepare", 0) is R):
            c.viol("entry", w, "values are kept for something which is not an entry of the batch: " + sh(k))
            continue
        for t, b in g:
            if not is_t(t, "isempty"):
                c.viol("entry only if", w, "an entry of the batch is only completed under a condition on " + sh(t))
        E = k.a[1]
        for S in forms(e, val_of(y)):
            if S.k != "coll":
                c.viol("filter:ignored", w, "the values kept for an entry do not depend on the filter: " + sh(S))
                continue
            for g2, z in elements(S):
                c.count("values kept")
                if not (is_t(z, "elem") and is_t(z.a[1], "fld") and same_el(z.a[1].a[1], E)):
                    c.viol("value", w, "a value is kept which is not one of this entry: " + sh(z))
                    continue
                d = decide(g2, lambda t: is_t(t, "discr") and t.a[1] is z)
                f = decide(g2, lambda t: filtered(t, z))
                if d == 0:
                    bad = [t for t, b in g2 if not (is_t(t, "discr") and t.a[1] is z)]
                    if bad:
                        c.viol("pointer only if", w, "a pointer is only kept under a condition on " + sh(bad[0]))
                elif f != 1:
                    c.viol("datum", w, "a datum may be kept although the filter did not return it: " + sh(z))
                else:
                    bad = [t for t, b in g2 if not (is_t(t, "discr") and t.a[1] is z or filtered(t, z))]
                    if bad:
                        c.viol("datum only if", w, "a datum the filter returned is only kept under a condition on " + sh(bad[0]))
                c.ob("kept: %s when discriminant %s, returned by the filter %s" % (sh(z, 60), d, f))
            if not any(decide(g2, lambda t: is_t(t, "discr") and t.a[1] is z) != 1 for g2, z in elements(S)):
                c.viol("pointers", w, "pointers are not kept")
            if not any(decide(g2, lambda t: is_t(t, "discr") and t.a[1] is z) != 0 for g2, z in elements(S)):
                c.viol("data", w, "data are not kept")
            for s in S.a[2]:
                d = [b for t, b in s if is_t(t, "discr") and batch_value(t.a[1]) is R]
                f = [b for t, b in s if is_t(t, "contains") and from_filter(t.a[1]) and is_t(t.a[2], "fld") and batch_value(t.a[2].a[1]) is R]
                if f != [0] or d == [0]:
                    if any(is_t(t, "isempty") and b == 1 for t, b in s):
                        continue
                    c.viol("dropped", w, "a value may be dropped although the filter returned it or it is a pointer: when "
                           + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))


def from_filter(v):
    return is_t(v, "resp") and v.a[1].startswith("CB.")


def filtered(t, z):
    return is_t(t, "contains") and from_filter(t.a[1]) and is_t(t.a[2], "fld") and t.a[2].a[1] is z


@rule("P32")
def graph_hands_over(c):
    """the graph layer hands every value of every entry over, decoded one way and encoded back the other way"""
    m, e, res = layer(c, inherent(c, "FindexGraph", "prepare_compact"), ML)
    for name, args, site, facts in m.events:
        if name == "MC.prepare" and any(not is_t(a, "param") for a in args):
            c.viol("graph:prepare:arguments", e.where(site), "the graph layer does not prepare exactly the given entries: " + sh([a for a in args if not is_t(a, "param")][0]))
    for st, val in res:
        if not is_ok(val):
            continue
        r = val.a[2][0]
        parts = list(r.a[2]) if r.k == "agg" else []
        if not any(resp_of(p, "MC.prepare", 1) is not None for p in parts):
            c.viol("graph:prepare:data", "-", "the graph layer does not return the prepared data")
        for x in [x for p in parts for x in forms(e, p) if x.k == "coll"]:
            if x.a[2]:
                c.viol("graph:prepare:lost", "-", "the graph layer may lose entries: " + sh(x))
            for g, y in elements(x):
                k = key_of(y)
                E = k.a[1] if is_t(k, "fld") and k.a[3] == 0 else None
                if E is None or not is_t(E, "elem") or resp_of(E.a[1], "MC.prepare", 0) is None or g:
                    c.viol("graph:prepare:entry", "-", "the graph layer returns values for something else than each prepared entry: " + sh(k))
                    continue
                for S in forms(e, val_of(y)):
                    if S.k != "coll" or S.a[2] or not elements(S):
                        c.viol("graph:prepare:values", "-", "the graph layer may lose values of an entry: " + sh(S))
                        continue
                    for g2, z in elements(S):
                        c.count("decoded values")
                        if not any(same_el(t, E) for t in e.subterms(z, through_phi=False) if is_t(t, "elem")):
                            c.viol("graph:prepare:value", "-", "the graph layer returns under an entry a value of another one: " + sh(z))
    m, e, res = layer(c, inherent(c, "FindexGraph", "complete_compacting"), ML)
    n = 0
    for name, args, site, facts in m.events:
        if name != "MC.complete":
            continue
        w = e.where(site)
        for x in [x for a in args for x in forms(e, a)]:
            if x.k != "coll":
                if not is_t(x, "param"):
                    c.viol("graph:complete:arguments", w, "the graph layer does not complete with what it is given: " + sh(x))
                continue
            n += 1
            if x.a[2]:
                c.viol("graph:complete:lost", w, "the graph layer may lose entries: " + sh(x))
            for g, y in elements(x):
                k = key_of(y)
                E = k.a[1] if is_t(k, "fld") and k.a[3] == 0 else None
                if E is None or not is_t(E, "elem") or not is_t(E.a[1], "param") or [t for t, b in g if not is_t(t, "isempty")]:
                    c.viol("graph:complete:entry", w, "the graph layer completes something else than each given entry: " + sh(k))
                    continue
                for S in forms(e, val_of(y)):
                    if S.k != "coll" or S.a[2] or not elements(S):
                        c.viol("graph:complete:values", w, "the graph layer may lose values of an entry: " + sh(S))
                        continue
                    for g2, z in elements(S):
                        c.count("encoded values")
                        if not any(same_el(t, E) for t in e.subterms(z, through_phi=False) if is_t(t, "elem")):
                            c.viol("graph:complete:value", w, "the graph layer stores under an entry a value of another one: " + sh(z))
    if not n:
        c.viol("coverage:graph:complete", "-", "the graph layer does not complete through the multi-map layer: the rule lost its subject")
    c.floor("decoded values", 1)
    c.floor("encoded values", 1)


@rule("P32")
def chain_holds_the_rest(c):
    """each new chain is decomposed from exactly the remaining values of its entry, each one recorded as an addition"""
    decs = {}

    def decompose(e, st, fr, blk, args, site):
        a = [e.deref(st, x) for x in args]
        decs.setdefault((e.sid(site), a[-1]), None)
        return [(st, T("fut", "L.decompose", tuple(a[1:]), e.sid(site)))]
    m, e, res = layer(c, inherent(c, "FindexMultiMap", "complete_compacting"), LL | {(None, "decompose"): decompose})
    n = 0
    for _, d in decs:
        n += 1
        for x in forms(e, d):
            if x.k != "coll" or x.a[2] or not elements(x):
                c.viol("chain:lost", "-", "a new chain may not hold all the remaining values: " + sh(x))
                continue
            for g, z in elements(x):
                c.count("values of a new chain")
                op, v = key_of(z), val_of(z)
                if not (op.k == "agg" and op.a[0].endswith("Operation") and op.a[1] == 0):
                    c.viol("chain:operation", "-", "a remaining value is recorded as %s in its new chain" % sh(op))
                if not (is_t(v, "elem") and remaining(v.a[1])):
                    c.viol("chain:value", "-", "a new chain holds something else than a remaining value: " + sh(v))
                if g:
                    c.viol("chain:only if", "-", "a remaining value is only recorded under a condition on " + sh(sorted(g, key=lambda x: x[0].id)[0][0]))
    if not n:
        c.viol("coverage:decompose", "-", "no chain is decomposed: the rule lost its subject")
    c.floor("values of a new chain", 1)


def remaining(v):
    """The remaining values of an entry: what the caller of the completion gives for it."""
    return is_t(v, "fld") and v.a[3] == 1 and is_t(v.a[1], "elem") and is_t(v.a[1].a[1], "param") or \
        is_t(v, "at") and is_t(v.a[1], "param")


# =============================================================================================
# P33  compaction rewrites every entry
# =============================================================================================
class Batches(Trace):
    """Which batches were prepared and completed."""

    def __init__(self):
        Trace.__init__(self)
        self.unfinished = []
        self.ends = []

    def result(self, eng, st, name, okv, val, args, site):
        if not okv:
            return
        if name == "GC.prepare":
            if st.h.get("open"):
                self.unfinished.append(site)
            st.h["open"] = 1
            st.h["sites"] = st.h.get("sites", frozenset()) | {eng.sid(site)}
        elif name == "GC.complete":
            st.h["open"] = None

    def ret(self, eng, st, key, val):
        if is_ok(val):
            self.ends.append((st.h.get("open"), st.h.get("sites", frozenset()), dict(st.facts)))


@rule("P33")
def every_batch(c):
    """the batches prepared cover the whole list of entries, and each one is completed under the new key and label"""
    root = c.root("Index", "compact")
    m = Batches()
    e, res = c.run(root, m, opaque=GL)
    ps = [c.P.bodies[root]["locals"][i + 1].get("n") for i in range(c.P.bodies[root]["args"])] if root else []
    cover, sites = set(), {}
    for name, args, site, facts in m.events:
        w = e.where(site)
        if name == "GC.prepare":
            c.count("batches")
            keyed(c, e, w, "prepare:key", args[0], ps[1])
            for x in forms(e, args[1]):
                p = portion(c, e, w, x)
                if p:
                    cover.add(p)
                    sites.setdefault(p, set()).add(e.sid(site))
        if name == "GC.complete":
            c.count("completions")
            ks = [a for a in args if any(is_t(t, "dkeys") for t in e.subterms(a, through_phi=False))]
            if len(ks) != 1:
                c.viol("complete:key", w, "a batch is completed under no key or several ones")
            for k in ks:
                keyed(c, e, w, "complete:key", k, ps[2])
            if not any(any(is_t(t, "param") and t.a[1] == ps[4] for t in forms(e, a)) for a in args):
                c.viol("complete:label", w, "a batch is not completed under the new label")
    c.ob("batches: " + "; ".join(sorted(p[0] for p in cover)))
    for p in [p for p in cover if p[0] == "loop"]:
        # batches following each other from the first entry: the loop must end at the last one
        n = [VL.length(t) for name, args, site, facts in m.events for a in args for t in e.subterms(a) if listed(t)]
        if any(not any(f.get(T("lt", p[1], x)) == 0 or f.get(VL.mk("t", "isempty", x.a[1]) if is_t(x, "len") else x) == 1 for x in n) for o, d, f in m.ends):
            c.viol("cover", "-", "compact may succeed before the last batch")
    whole = bool(cover & {("all",), ("chunks",)} or [p for p in cover if p[0] == "loop"])
    if not whole and cover and not any(p[0] == "blocks" and ("rest", p[1]) in cover for p in cover):
        c.viol("cover", "-", "the batches do not cover the list of entries: only " + ", ".join(sorted(p[0] for p in cover)))
    for site in m.unfinished:
        c.viol("unfinished", e.where(site), "a batch is prepared although the previous one was not completed")
    loops = {p for p in cover if p[0] in ("chunks", "blocks", "loop", "first")}
    for opened, done, facts in m.ends:
        c.count("successes")
        if opened:
            c.viol("success unfinished", "-", "compact may succeed although a prepared batch was not completed")
        for p in cover - loops:
            if not sites[p] & done:
                c.viol("success without:%s" % p[0], "-", "compact may succeed without having processed a batch (%s)" % p[0])
    c.floor("batches", 1)
    c.floor("completions", 1)
    c.floor("successes", 1)


def keyed(c, e, w, key, k, p):
    for y in forms(e, k):
        if not any(is_t(t, "param") and t.a[1] == p for t in e.subterms(y, through_phi=False)):
            c.viol(key, w, "a batch is not processed under the given %s: %s" % (p, sh(y)))


def listed(v):
    return is_t(v, "resp") and v.a[1] == "GC.list"


def portion(c, e, w, x):
    """Which part of the list of entries a batch is."""
    if listed(x):
        return ("all",)
    if x.k == "coll":
        if x.a[2]:
            c.viol("batch:left out", w, "entries of a batch are left out: " + sh(x))
            return None
        out = None
        for g, z in elements(x):
            if [t for t, b in g if not is_t(t, "isempty")] or not is_t(z, "elem"):
                c.viol("batch:only if", w, "an entry is only processed under a condition: %s if %s" % (sh(z), "; ".join(sh(t, 60) for t, b in g)))
                return None
            out = portion(c, e, w, z.a[1])
        return out
    if is_t(x, "slice") and is_t(x.a[1], "slice") and listed(x.a[1].a[1]) and x.a[1].a[2] is C(0):
        # a batch of the entries before some position
        lo, hi, d = x.a[2], x.a[3], multiple(e, x.a[1].a[3], VL.length(x.a[1].a[1]))
        if d is not None and (is_t(lo, "chunk") and is_t(hi, "chunk") or is_t(lo, "chunkx") and is_t(hi, "chunkx") and lo.a[1] is d):
            return ("blocks", d)
    if is_t(x, "slice") and listed(x.a[1]):
        L, lo, hi = x.a[1], x.a[2], x.a[3]
        n = VL.length(L)
        if is_t(lo, "chunk") and is_t(hi, "chunk"):
            return ("chunks",)
        if is_t(lo, "chunkx") and is_t(hi, "chunkx") and lo.a[2] is hi.a[2] and (lo.a[3], hi.a[3]) == (0, 1):
            return ("blocks", lo.a[1])
        if lo is C(0) and hi is n:
            return ("all",)
        for t in e.subterms(lo, through_phi=False):
            if is_t(t, "elem") and is_t(t.a[1], "range"):
                r = t.a[1]
                d = VL.sub(hi, lo)
                if is_int(d) and lo is VL.mul(d, t) and r.a[1] is C(0) and quotient(r.a[2], n, d):
                    return ("blocks", d)
        if hi is n and multiple(e, lo, n) is not None:
            return ("rest", multiple(e, lo, n))
        if advance(hi, lo, n):
            los = [ungen(y) for y in forms(e, lo)]
            his = [ungen(hi), ungen(VL.subst(hi, {lo: C(0)}))]
            if all(y is C(0) or y in his or stepped(y, n) for y in los):
                return ("loop", lo) if is_t(lo, "phi") else ("first",)
    c.viol("batch", w, "a batch is not a known part of the list of entries: " + sh(x))
    return None


def multiple(e, m, n):
    """d if m is the greatest multiple of d up to n."""
    for t in e.subterms(m, through_phi=False):
        if is_t(t, "bin") and t.a[2] is n and (t.a[1] == "Div" and m is VL.mul(t.a[3], t) or t.a[1] == "Rem" and m is VL.sub(n, t)):
            return t.a[3]
    return None


def stepped(y, n):
    """y is what some batches from the first entry on lead to."""
    if y is C(0):
        return True
    if not (is_t(y, "min") and n in y.a[1:]):
        return False
    o = [x for x in y.a[1:] if x is not n]
    if len(o) != 1:
        return False
    return is_int(o[0]) and o[0].a[1] > 0 or o[0].k == "lin" and any(stepped(x, n) and advance(y, x, n) for x, q in o[0].a[1])


def advance(hi, lo, n):
    """hi is min(n, lo + some positive constant)."""
    if not (is_t(hi, "min") and n in hi.a[1:]):
        return False
    o = [x for x in hi.a[1:] if x is not n]
    d = VL.sub(o[0], lo) if len(o) == 1 else None
    return d is not None and is_int(d) and d.a[1] > 0


def quotient(q, n, d):
    return is_t(q, "bin") and q.a[1] == "Div" and q.a[2] is n and q.a[3] is d


@rule("P33")
def prepared_entries(c):
    """all the entries of the batch are fetched and prepared, and the chain of each selected one"""
    key = inherent(c, "FindexMultiMap", "prepare_compacting")
    m, e, res = layer(c, key, LL)
    ps = [c.P.bodies[key]["locals"][i + 1].get("n") for i in range(c.P.bodies[key]["args"])] if key else []
    for name, args, site, facts in m.events:
        if name == "ET.get":
            for x in forms(e, args[0]):
                c.count("batches fetched")
                if not (is_t(x, "param") and x.a[1] == ps[2]):
                    c.viol("fetched", e.where(site), "what is fetched is not the whole batch: " + sh(x))
    n = 0
    for st, val in res:
        if not is_ok(val):
            continue
        r = val.a[2][0]
        for p in (r.a[2] if r.k == "agg" else ()):
            for x in forms(e, p):
                if x.k == "agg":
                    for q in x.a[2]:
                        for y in forms(e, q):
                            n += 1
                            prepared(c, e, y, ps, any_entry(e, y))
                else:
                    n += 1
                    prepared(c, e, x, ps, False)
    if n < 3:
        c.viol("coverage:prepared", "-", "what is prepared was not recognised: the rule lost its subject")
    c.floor("prepared elements", 3)


def any_entry(e, x):
    """The collection holds decrypted entries themselves."""
    return any(val_of(z).k == "agg" and val_of(z).a[0].endswith("Entry") for g, z in elements(x))


def prepared(c, e, x, ps, whole):
    if x.k != "coll":
        c.viol("prepared", "-", "what is prepared is not built from the fetched entries: " + sh(x))
        return

    def selected(t):
        return is_t(t, "contains") and is_t(t.a[1], "param") and t.a[1].a[1] == ps[3] and entry_token(t.a[2])
    for g, y in elements(x):
        c.count("prepared elements")
        if not entry_token(key_of(y)):
            c.viol("prepared:token", "-", "something is prepared under what is not the token of a fetched entry: " + sh(key_of(y)))
        for t, b in g:
            if selected(t) and not whole and b == 1 or is_t(t, "discr") and is_t(t.a[1], "prev") or of_layout(t):
                continue
            c.viol("prepared:only if", "-", "an entry of the batch is only prepared under a condition on " + sh(t))
    for s in x.a[2]:
        if whole or not any(selected(t) and b == 0 for t, b in s):
            c.viol("prepared:left out", "-", "an entry of the batch may be left out: when " + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))


def of_layout(t):
    """The presence of a chain in a decrypted entry."""
    return is_t(t, "eq") and any(is_t(a, "slice") and is_t(a.a[1], "resolve") for a in t.a[1:]) or is_t(t, "isempty")


def entry_token(v):
    return is_t(v, "fld") and v.a[3] == 0 and is_t(v.a[1], "elem") and is_t(v.a[1].a[1], "resp") and v.a[1].a[1].a[1] == "ET.get"


class Removals(Trace):
    """Which tables rows were removed from."""

    def event(self, e, st, name, args, site):
        super().event(e, st, name, args, site)
        if name in ("ET.delete", "CT.delete"):
            st.h[name] = 1


@rule("P33")
def rewritten_entries(c):
    """every prepared entry is rewritten and its old row removed; it is dropped if and only if it has been selected and no value remains"""
    m = Removals()
    key = inherent(c, "FindexMultiMap", "complete_compacting")
    e, res = c.run(key, m, opaque=LL)
    for st, val in res:
        if is_ok(val):
            for n in ("ET.delete", "CT.delete"):
                c.count("successes")
                if not st.h.get(n) and not any(is_t(t, "isempty") and b == 1 for t, b in st.facts.items()):
                    c.viol("%s:kept" % n, key, "a compaction may succeed without having removed old rows (%s)" % n)
    for name, args, site, facts in m.events:
        w = e.where(site)
        if name == "ET.insert":
            for x in forms(e, args[0]):
                if x.k != "coll" or not elements(x):
                    c.viol("rewritten", w, "the entries rewritten are not built from the prepared ones: " + sh(x))
                    continue
                for g, y in elements(x):
                    c.count("entries rewritten")
                    for t, b in g:
                        if not (dropping(e, t, 1 - b, 0) or is_t(t, "discr") or is_t(t, "isempty") and False or is_t(t, "contains") and keeps(e, t, b)):
                            c.viol("rewritten only if", w, "an entry is only rewritten under a condition on %s" % sh(t))
                for s in x.a[2]:
                    c.count("entries dropped")
                    if not any(dropping(e, t, b, 0) for t, b in s):
                        c.viol("dropped", w, "an entry may be dropped although it keeps values: when " + "; ".join("%s=%s" % (sh(t, 90), b) for t, b in s))
                    else:
                        c.ob("an entry is dropped when " + "; ".join("%s=%s" % (sh(t, 90), b) for t, b in s))
        if name in ("ET.delete", "CT.delete"):
            if any(is_t(t, "fresh") or is_t(t, "tok") for g, z in members(e, args[0]) for t in e.subterms(z, through_phi=False)):
                continue            # the rollback, decided by its own property
            for x in forms(e, args[0]):
                c.count("removals of old rows")
                if x.k != "coll":
                    c.viol("%s:old rows" % name, w, "%s does not remove the rows which were prepared: %s" % (name, sh(x)))
                    continue
                for g, z in elements(x):
                    if not prepared_row(e, z) or [t for t, b in g if not is_t(t, "isempty")]:
                        c.viol("%s:old rows" % name, w, "%s does not remove all the rows which were prepared: %s" % (name, sh(z)))
                for s in x.a[2]:
                    if not any(is_t(t, "isempty") and b == 1 for t, b in s):
                        c.viol("%s:left" % name, w, "some of the old rows may be left: when " + "; ".join("%s=%s" % (sh(t, 60), b) for t, b in s))
    c.floor("entries rewritten", 1)
    c.floor("entries dropped", 1)
    c.floor("removals of old rows", 2)


def root_of(e, v, seen=None):
    """The parameters a collection comes from, through projections and loop variables."""
    out = set()
    for y in forms(e, v):
        while is_t(y, "fld") or is_t(y, "elem") or is_t(y, "at"):
            y = y.a[1]
        out.add(y)
    return out


def prepared_row(e, z):
    while is_t(z, "fld") or is_t(z, "elem") or is_t(z, "at"):
        z = z.a[1]
    if is_t(z, "phi"):
        return True                 # the prepared data, updated
    return is_t(z, "param")


def dropping(e, t, b, depth):
    """The condition t=b holds only for entries which were selected and keep no value."""
    if depth > 3:
        return False
    if is_t(t, "isempty"):
        return b == 1 and (remaining(t.a[1]))
    if is_t(t, "contains"):
        S = t.a[1]
        for x in forms(e, S):
            if x.k != "coll":
                return False
            if b == 0:
                # left out of a set of the kept entries
                if not x.a[2] or not all(any(dropping(e, u, v, depth + 1) for u, v in s) for s in x.a[2]) or not whole_keys(x):
                    return False
            else:
                if not all(any(dropping(e, u, v, depth + 1) for u, v in g) for g, z in elements(x)):
                    return False
        return True
    return False


def whole_keys(x):
    """The elements (or keys) of the set are those of the prepared entries."""
    for g, z in elements(x):
        k = z if not (z.k == "agg" and z.a[0] == "tuple") else key_of(z)
        if not (is_t(k, "fld") and k.a[3] == 0 and is_t(k.a[1], "elem")):
            return False
    return True


def keeps(e, t, b):
    """A condition on what remains for the entry."""
    return is_t(t.a[1], "param")


# =============================================================================================
# P09, P18, P32  the links of a chain
# =============================================================================================
class WholeChain(Trace):
    """Walks over chain tokens which stop before the last one."""

    def exit(self, e, st, lid):
        if not e.exhausted and any(b == 0 and is_t(t, "contains") and is_t(t.a[2], "tok") and is_t(t.a[1], "resp") for t, b in st.facts.items()):
            st.h["stopped"] = 1


@rule("P09")
@rule("P18")
@rule("P32")
def whole_chains(c):
    """a value is rebuilt from all the rows found for the tokens of its chain: a missing row hides no other"""
    for meth, key in (("get", c.root("MmEnc", "get")), ("compact", inherent(c, "FindexMultiMap", "prepare_compacting"))):
        m = WholeChain()
        e, res = c.run(key, m, opaque=LL)
        seen = set()
        for st, val in res:
            if st.h.get("stopped") and is_ok(val):
                c.viol("%s:links:stopped" % meth, key, "a walk over the tokens of a chain may stop before the last one")
            for t in e.subterms(val):
                if is_t(t, "fut") and t.a[1] == "L.recompose" and t not in seen:
                    seen.add(t)
                    for x in [y for a in t.a[2] for y in forms(e, a)]:
                        if x.k != "coll":
                            continue
                        for g, y in elements(x):
                            c.count("links read")
                            bad = [q for q, b in g if is_t(q, "cut") or is_t(q, "lt")]
                            if bad:
                                c.viol("%s:links" % meth, key, "a link found is only read when %s: another link hides it" % sh(bad[0], 160))
    c.floor("links read", 4)


@rule("P17")
def compacted_tokens(c):
    """a compaction writes every entry under the token of its tag hash, the new key and the new label"""
    key = inherent(c, "FindexMultiMap", "complete_compacting")
    if key is None:
        return
    m, e, res = layer(c, key, LL)
    for name, args, site, facts in m.events:
        if name != "ET.insert":
            continue
        w = e.where(site)
        for g, k, v in rows(e, args[0]):
            for z in forms(e, k):
                c.count("compacted tokens")
                if not is_t(z, "tok"):
                    c.viol("compact:token", w, "an entry is compacted under something else than a token: " + sh(z))
                    continue
                if not (is_t(z.a[2], "param")):
                    c.viol("compact:key", w, "a compacted entry token does not use the new key: " + sh(z.a[2]))
                for lb in forms(e, z.a[4]):
                    if not (lb.k == "agg" and lb.a[0] == "Option" and lb.a[1] == 1 and is_t(lb.a[2][0], "param")):
                        c.viol("compact:label", w, "a compacted entry token does not depend on the new label: " + sh(lb))
    c.floor("compacted tokens", 1)

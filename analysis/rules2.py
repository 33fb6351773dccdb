"""Rules on searching and on what updates hand over, layer by layer: a layer is interpreted with the
one below kept opaque (an event with both outcomes)."""
from framework import rule, show, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, expand, forms, unfold, unfoldable, key_of, val_of, leaves_of, is_ok, is_err, Rec, same_content, copies
from vals import ekind, LOST

GX = {("GxEnc", "get"): "GX.get", ("GxEnc", "insert"): "GX.insert"}
MM = {("MmEnc", "get"): "MM.get", ("MmEnc", "insert"): "MM.insert"}


def generic(v):
    """v with the instances of bound elements forgotten: (op, ...) comparable across iterations."""
    if is_t(v, "elem"):
        return ("elem", generic(v.a[1]))
    if v.k == "t":
        return (v.a[0],) + tuple(generic(x) if isinstance(x, V) else x for x in v.a[1:])
    return v


def elem_of(v, base_):
    """v is an element of base_ (whatever the instance)."""
    return is_t(v, "elem") and v.a[1] is base_


def param_of(c, e, key, i):
    """The symbolic value of the i-th parameter of a function."""
    b = c.P.bodies[key]
    return T("param", b["locals"][i + 1].get("n") or "a%d" % i)


def guards_only(g, okf):
    return [t for t, b in g if not okf(t, b)]


def op_in(*ops):
    return lambda t, b: t.k == "t" and t.a[0] in ops


def key_source(k):
    """The collection whose elements are in bijection with k, when k is an element (or its key)."""
    if is_t(k, "fld") and k.a[3] == 0 and is_t(k.a[1], "elem"):
        k = k.a[1]
    return k.a[1] if is_t(k, "elem") else None


def overwrites(eng, st, m, k):
    """Whether inserting the key k may replace what the map m holds for another iteration's key."""
    if m.k == "coll" and not m.a[1]:
        return False
    for t, b in st.facts.items():
        if is_t(t, "contains") and b == 0 and t.a[2] is k and (t.a[1] is m or generic(t.a[1]) == generic(m) or t.a[1].k == "coll" and t.a[1].a[1] == m.a[1]):
            return False
    if m.k != "coll":
        return True
    S = key_source(k)
    for g, x in elements(m):
        kk = key_of(x)
        if kk is k:
            continue
        if S is None or key_source(kk) is not S:
            return True
    return False


# =============================================================================================
# P09  what a search returns
# =============================================================================================
class Search(Monitor):
    def __init__(self):
        self.events = []
        self.rets = []
        self.reads = []
        self.lost = []
        self.bounded = set()

    def event(self, eng, st, name, args, site):
        self.events.append((name, args, site, dict(st.facts), dict(st.h)))

    def exit(self, eng, st, lid):
        """A loop of a fixed number of steps ends after the last one, whatever is left to do."""
        own = [x for x in eng.loop_elems.get(lid, ()) if is_t(x, "elem")]
        if eng.exhausted and own and all(is_t(x.a[1], "range") and all(is_int(y) for y in x.a[1].a[1:3]) for x in own):
            self.bounded.add(own[0].a[1])

    def ext(self, eng, st, fr, name, args, site):
        if name == "map#insert" and overwrites(eng, st, args[0], args[1]):
            self.lost.append((args, site, dict(st.h)))
        if len(args) < 2 or not isinstance(args[0], V):
            return
        m = eng.deref(st, args[0])
        if is_t(m, "resp") and m.a[1] == "GX.get":
            self.reads.append((m, eng.deref(st, args[1]), site, dict(st.facts)))

    def ret(self, eng, st, key, val):
        self.rets.append((val, dict(st.h)))


def run_search(c):
    m = Search()
    k = c.root("Index", "search")
    e, res = c.run(k, m, opaque=GX)
    return k, m, e


def nodes(e, R, K, v, seen):
    """Kinds of nodes of the graph v may be: 'root' a requested keyword, 'step' the target of a
    pointer of a node, '?' anything else."""
    if v in seen:
        return set()
    seen.add(v)
    if elem_of(v, K):
        return {"root"}
    if is_t(v, "phi"):
        out = set()
        for d in e.phi_defs.get(v) or e.phi_defs.get(T(*v.a[:3]), ()):
            out |= nodes(e, R, K, d, seen)
        return out
    if v.k == "alt":
        out = set()
        for d in v.a[1]:
            out |= nodes(e, R, K, d, seen)
        return out
    if v.k == "coll":
        out = set()
        for _, x in elements(v):
            out |= nodes(e, R, K, x, seen)
        return out
    if is_t(v, "elem"):
        return nodes(e, R, K, v.a[1], seen)
    if is_t(v, "fld") and is_t(v.a[1], "elem") and is_t(v.a[1].a[1], "at") and v.a[1].a[1].a[1] is R:
        inner = nodes(e, R, K, v.a[1].a[1].a[2], seen)
        return (inner - {"root", "step"}) | {"step"}
    return {"?" + sh(v, 80)}


@rule("P09")
def search_result(c):
    """a search maps every requested keyword to the data of all the nodes reachable from it in the fetched graph"""
    k, m, e = run_search(c)
    gets = [x for x in m.events if x[0] == "GX.get"]
    if not gets:
        c.viol("coverage:graph", "-", "the search does not go through the graph layer: the rule lost its subject")
        return
    Ks = set()
    for name, args, site, facts, h in gets:
        w = e.where(site)
        c.count("graph reads")
        ps = [l for l in leaves_of(e, args[1], "param")]
        K = ps[0] if len(ps) == 1 else None
        if K is None or not same_content(e, args[1], K):
            c.viol("search:keywords", w, "the keywords searched are not exactly the requested ones: " + sh(args[1]))
            continue
        Ks.add(K)
        if not is_t(args[2], "param"):
            c.viol("search:label", w, "the label searched with is not the caller's: " + sh(args[2]))
    for val, h in m.rets:
        if not is_ok(val):
            continue
        for x in expand(e, val.a[2][0]):
            if x.k != "coll":
                c.viol("search:result", "-", "the result of the search is not built from the keywords: " + sh(x))
                continue
            if x.a[2]:
                c.viol("search:result:missing", "-", "some requested keywords may be missing from the result of the search: " + sh(x))
            for g, y in elements(x):
                K = [K for K in Ks if elem_of(key_of(y), K)]
                c.count("result entries")
                if not K:
                    c.viol("search:result:key", "-", "an entry of the result is not keyed by a requested keyword: " + sh(key_of(y)))
                    continue
                kinds = set()
                for d in expand(e, val_of(y)):
                    if d.k != "coll":
                        c.viol("search:result:values", "-", "the data of a keyword are not those of the fetched graph: " + sh(d))
                        continue
                    for q, b2 in [x for g2 in d.a[2] for x in g2]:
                        if not walk_guard(q, b2):
                            c.viol("search:result:lost", "-", "data are left out under a condition on " + sh(q))
                    for g2, z in elements(d):
                        kinds |= datum(c, e, K[0], g2, z)
                for want, text in (("root", "the data indexed under the keyword itself"), ("step", "the data reached through pointers")):
                    if want not in kinds:
                        c.viol("search:result:no %s" % want, "-", text + " are never part of the result")
    c.floor("result entries", 1)
    for r in sorted(m.bounded, key=str):
        c.viol("search:walk:bounded", "-", "the walk of the graph ends after a fixed number of steps: " + sh(r))
    # the nodes visited are those reachable, and all of them
    for R, node, site, facts in m.reads:
        ks = set()
        for K in Ks:
            ks |= nodes(e, R, K, node, set())
        c.count("graph nodes read")
        c.ob("node %s: %s" % (sh(node, 80), "/".join(sorted(ks))))
        walk_condition(c, e, R, ks, node, site, facts)
        for q in sorted(ks - {"root", "step"}):
            c.viol("search:walk:node", e.where(site), "the walk reads a node which is neither a requested keyword nor the target of a pointer: " + q[1:])
    c.floor("graph nodes read", 2)


def walk_guard(t, b):
    if op_in("discr", "inserted", "contains", "isempty", "removed")(t, b):
        return True
    if is_t(t, "eq") and any(is_t(x, "len") for x in t.a[1:3] if isinstance(x, V)) and any(is_int(x) and x.a[1] == 0 for x in t.a[1:3] if isinstance(x, V)):
        return True
    return False


def walk_condition(c, e, R, ks, node, site, facts):
    """A node is expanded whatever was found so far: only its being visited already may prevent it."""
    w = e.where(site)
    for t, b in facts.items():
        if not walk_guard(t, b):
            c.viol("search:walk:limited", w, "a node is only expanded under a condition on " + sh(t))
        if ks == {"root"} and op_in("inserted", "contains")(t, b) and t.a[2] is node and t.a[1] is not R:
            c.viol("search:walk:shared", w, "a requested keyword is only expanded if it was not met before, and what was met before "
                   "comes from another keyword: " + sh(t))
        if is_t(t, "isempty"):
            for x in expand(e, t.a[1]):
                if x.k != "coll":
                    continue
                for g, y in elements(x):
                    for q, b2 in g:
                        if not walk_guard(q, b2):
                            c.viol("search:walk:limited", w, "a pointer is only followed under a condition on " + sh(q))
                for g in x.a[2]:
                    for q, b2 in g:
                        if not walk_guard(q, b2):
                            c.viol("search:walk:limited", w, "pointers are not followed under a condition on " + sh(q))


def datum(c, e, K, g, z):
    """Kinds of nodes the datum z of a result comes from."""
    if not (is_t(z, "fld") and is_t(z.a[1], "elem") and is_t(z.a[1].a[1], "at") and is_t(z.a[1].a[1].a[1], "resp")):
        c.viol("search:result:datum", "-", "a value of the result is not a datum of the fetched graph: " + sh(z))
        return set()
    item, node, R = z.a[1], z.a[1].a[1].a[2], z.a[1].a[1].a[1]
    ks = nodes(e, R, K, node, set())
    c.count("result data")
    c.ob("datum %s of a %s node" % (sh(z, 80), "/".join(sorted(ks))))
    disc = [b for t, b in g if is_t(t, "discr") and generic(t.a[1]) == generic(item)]
    if disc != [1]:
        c.viol("search:result:pointer", "-", "something else than a datum is returned as one: " + sh(z))
    bad = guards_only(g, op_in("discr", "inserted", "contains", "isempty"))
    if bad:
        c.viol("search:result:filtered", "-", "a datum is only returned under a condition on %s" % sh(bad[0]))
    if "root" in ks and "step" not in ks and any(is_t(t, "inserted") or (is_t(t, "contains") and t.a[1] is not R) for t, b in g):
        c.viol("search:result:shared", "-", "the data of a requested keyword are only returned if it was not visited before: " + sh([t for t, b in g if not is_t(t, "discr")][0]))
    return ks


def fetched_value(e, v, R):
    """v = bytes of a value fetched for a tag: element of the values of an element of R."""
    return is_t(v, "elem") and is_t(v.a[1], "fld") and is_t(v.a[1].a[1], "elem") and is_t(v.a[1].a[1].a[1], "resp") \
        and v.a[1].a[1].a[1].a[1] == "MM.get"


def value_bytes(v):
    """bytes x if v is x[1..]."""
    if is_t(v, "slice") and is_int(v.a[2]) and v.a[2].a[1] == 1:
        return v.a[1]
    return None


class Graph(Monitor):
    values = {"CB": (0, 1)}

    def __init__(self):
        self.events = []
        self.rets = []
        self.ends = []

    def event(self, eng, st, name, args, site):
        self.events.append((name, args, site, dict(st.facts), dict(st.h)))

    def result(self, eng, st, name, okv, val, args, site):
        if name == "MM.get" and okv:
            st.h["got"] = 1
            st.h["rounds"] = min(2, st.h.get("rounds", 0) + 1)
        if name.startswith("CB.") and okv:
            st.h.pop("got", None)
            if val.k == "c" and val.a[1] == 1:
                st.h["stop"] = 1

    def ret(self, eng, st, key, val):
        self.rets.append((val, dict(st.h)))
        if is_ok(val) and not st.h.get("stop"):
            self.ends.append((st.h.get("rounds", 0), [t.a[1] for t, b in st.facts.items() if is_t(t, "isempty") and b == 1]))


def run_graph(c):
    k = c.root("GxEnc", "get")
    m = Graph()
    e, res = c.run(k, m, opaque=MM)
    return k, m, e


ALLOWED = op_in("contains", "isempty", "inserted", "discr")


def graph_guard(t, b):
    if ALLOWED(t, b):
        return True
    if is_t(t, "idx") and is_int(t.a[2]) and t.a[2].a[1] == 0:
        return True                 # the leading byte, which tells data and pointers apart
    if is_t(t, "eq") and any(is_t(x, "idx") or is_t(x, "len") for x in t.a[1:3] if isinstance(x, V)):
        return True
    if is_t(t, "lt") and any(is_t(x, "len") for x in t.a[1:3] if isinstance(x, V)):
        return all(is_int(x) and x.a[1] <= 1 for x in t.a[1:3] if isinstance(x, V) and not is_t(x, "len"))
    return False


def graph_entries(c, e, what, v, want_all):
    """Checks that v maps each fetched tag to all its fetched values; returns the responses covered."""
    gens = set()
    for x in expand(e, v):
        if x.k != "coll":
            c.viol("graph:%s" % what, "-", "%s is not built from the fetched values: %s" % (what, sh(x)))
            continue
        if not elements(x):
            continue
        bad = [t for g in x.a[2] for t, b in g if not ALLOWED(t, b)]
        if x.a[2] and (bad or want_all):
            c.viol("graph:%s:missing" % what, "-", "%s may miss some of the fetched keywords: %s" % (what, sh(sorted(x.a[2], key=str)[0]) if not bad else sh(bad[0])))
        for g, y in elements(x):
            kk = key_of(y)
            if not (is_t(kk, "fld") and is_t(kk.a[1], "elem") and is_t(kk.a[1].a[1], "resp") and kk.a[1].a[1].a[1] == "MM.get"):
                c.viol("graph:%s:key" % what, "-", "%s has a key which was not fetched: %s" % (what, sh(kk)))
                continue
            R = kk.a[1].a[1]
            gens.add(R)
            kinds = set()
            for d in expand(e, val_of(y)):
                if d.k != "coll":
                    c.viol("graph:%s:values" % what, "-", "the values of a keyword in %s are not the fetched ones: %s" % (what, sh(d)))
                    continue
                lost = [t for g2 in d.a[2] for t, b in g2 if not ALLOWED(t, b)] or [1 for g2 in d.a[2]]
                if d.a[2] and lost:
                    c.viol("graph:%s:lost" % what, "-", "%s may miss some of the values fetched for a keyword: %s" % (what, sh(d)))
                for g2, z in elements(d):
                    kinds |= graph_value(c, e, what, R, g2, z)
            c.count("graph entries")
            for kd, nm in ((0, "pointers"), (1, "data")):
                if kd not in kinds:
                    c.viol("graph:%s:no %s" % (what, nm), "-", "the %s fetched for a keyword never are in %s" % (nm, what))
    return gens


def graph_value(c, e, what, R, g, z):
    if not (z.k == "agg" and z.a[0].endswith("IndexedValue") and z.a[1] in (0, 1)):
        c.viol("graph:%s:value" % what, "-", "%s contains something else than the decoded values: %s" % (what, sh(z)))
        return set()
    bs = value_bytes(z.a[2][0])
    if bs is None or not fetched_value(e, bs, R) or bs.a[1].a[1].a[1] is not R:
        c.viol("graph:%s:value" % what, "-", "a value of a keyword in %s is not one fetched for it: %s" % (what, sh(z)))
        return set()
    lead = [b for t, b in g if is_t(t, "idx") and t.a[1] is bs] + \
           [b for t, b in g if is_t(t, "eq") and any(is_t(x, "idx") for x in t.a[1:3])]
    c.ob("%s: variant %d decoded when the leading byte is %s" % (what, z.a[1], lead))
    bad = guards_only(g, graph_guard)
    if bad:
        c.viol("graph:%s:filtered" % what, "-", "a fetched value is only kept in %s under a condition on %s" % (what, sh(bad[0])))
    return {z.a[1]}


@rule("P09")
@rule("P11")
def graph_result(c):
    """the graph handed over, interrupted or not, maps every fetched keyword to all its fetched values, over all the iterations"""
    k, m, e = run_graph(c)
    for val, h in m.rets:
        if is_ok(val):
            gens = graph_entries(c, e, "the result", val.a[2][0], True)
            ages = set(R.a[3] for R in gens)
            c.count("graph results")
            c.ob("the graph returned after %s gathers the responses %s" % (("no round", "one round", "several rounds")[h.get("rounds", 0)], sorted(ages)))
            lost = []
            if h.get("rounds") and 0 not in ages:
                lost.append("last")
            if h.get("rounds") == 2 and not ages - {0}:
                lost.append("first")
            for x in lost:
                c.viol("graph:the result:%s round" % x, "-", "%sthe graph returned misses what its %s round fetched"
                       % ("after an interruption, " if h.get("stop") else "", x))
    c.floor("graph results", 1)
    c.floor("graph entries", 2)


@rule("P09")
def graph_frontier(c):
    """each round fetches exactly the targets of the pointers fetched in the previous one, except those already fetched"""
    k, m, e = run_graph(c)
    frontiers = frontier_elements(e, m)
    for name, args, site, facts, h in m.events:
        if name != "MM.get":
            continue
        w = e.where(site)
        c.count("rounds")
        kinds = set()
        for x in expand(e, args[1]):
            if is_t(x, "param"):
                kinds.add("requested")
                continue
            if x.k != "coll":
                c.viol("graph:tags", w, "the keywords of a round are of unknown origin: " + sh(x))
                continue
            for g, y in elements(x):
                bs = value_bytes(y)
                if bs is None or not fetched_value(e, bs, None):
                    if elem_of(y, y.a[1] if is_t(y, "elem") else None) and is_t(y.a[1], "param"):
                        kinds.add("requested")
                        continue
                    if is_t(y, "phi"):
                        continue
                    c.viol("graph:tags", w, "a round fetches a keyword which is not the target of a fetched pointer: " + sh(y))
                    continue
                kinds.add("pointer")
                bad = guards_only(g, graph_guard)
                if bad:
                    c.viol("graph:tags:filtered", w, "pointers are only followed under a condition on " + sh(bad[0]))
            for g in x.a[2]:
                bad = guards_only(g, graph_guard)
                if bad:
                    c.viol("graph:tags:filtered", w, "pointers are not followed under a condition on " + sh(bad[0]))
                cont = [t for t, b in g if is_t(t, "contains") and b == 1 or is_t(t, "inserted") and b == 0]
                for t in cont:
                    if not visited_container(e, frontiers, t.a[1]):
                        c.viol("graph:tags:dropped", w, "a pointer is not followed because of %s, which is not what was already fetched" % sh(t))
        if name == "MM.get" and not kinds & {"requested", "pointer"} and elements_any(e, args[1]):
            c.viol("coverage:tags", w, "the keywords of a round are unknown: " + sh(args[1]))
        c.ob("round at %s fetches %s" % (w, "/".join(sorted(kinds))))
        c.kinds = getattr(c, "kinds", set()) | kinds
    if "pointer" not in getattr(c, "kinds", set()):
        c.viol("graph:tags:no pointers", "-", "the targets of the fetched pointers are never fetched")
    c.floor("rounds", 2)


@rule("P09")
def nothing_left(c):
    """a search which is not interrupted ends when no keyword is left to fetch, however many rounds this takes"""
    k, m, e = run_graph(c)
    for rounds, empty in m.ends:
        c.count("ends of searches")
        if any(is_t(x, "param") if not rounds else to_fetch(e, x) for x in empty):
            c.ob("after %s, no keyword is left" % ("no round", "one round", "several rounds")[rounds])
        else:
            c.viol("graph:unfinished:%d" % rounds, "-", "after %s, the search may succeed although keywords are left to fetch" % ("no round", "one round", "several rounds")[rounds])
    c.floor("ends of searches", 2)


def to_fetch(e, x):
    """x holds what the pointers found by the last round target, or what this round found."""
    for y in expand(e, x):
        if is_t(y, "resp") and y.a[1] == "MM.get" and y.a[3] == 0:
            return True
        if y.k == "coll":
            for g, z in elements(y):
                bs = value_bytes(z)
                if bs is not None and fetched_value(e, bs, None) and bs.a[1].a[1].a[1].a[3] == 0:
                    return True
    return False


def elements_any(e, v):
    return any(x.k == "coll" and elements(x) for x in expand(e, v))


def visited_container(e, frontiers, v):
    """The keys of v are keywords which were fetched, or put in the frontier of some round as well."""
    for x in expand(e, v):
        if is_t(x, "param") or is_t(x, "resp") and x.a[1] == "MM.get":
            continue
        if x.k != "coll":
            return False
        for g, y in elements(x):
            y = key_of(y) if x.a[0] == "map" else y
            for f, g in guarded_forms(e, y, g):
                if fetched_key(f) or is_t(f, "elem") and is_t(f.a[1], "param"):
                    continue
                bs = value_bytes(f)
                if bs is None or not fetched_value(e, bs, None) or \
                        not any(ageless(f) == z and drop_seen(g2) <= drop_seen(g) for z, g2 in frontiers):
                    return False
    return True


def guarded_forms(e, v, g):
    """forms, with the conditions under which the collections gone through hold each of them."""
    out, seen, work = [], set(), [(v, frozenset(g))]
    while work:
        x, g = work.pop()
        if (x, g) in seen:
            continue
        seen.add((x, g))
        if is_t(x, "elem") and unfoldable(x.a[1]):
            cs = expand(e, x.a[1])
            if cs != [x.a[1]] or cs[0].k == "coll":
                for y in cs:
                    work += [(z, g | g2) for g2, z in elements(y)] if y.k == "coll" else [(T("elem", y, *x.a[2:]), g)]
                continue
        r = unfold(e, x)
        if r is None:
            out.append((x, g))
        else:
            work += [(y, g) for y in r]
    return out


def fetched_key(f):
    return is_t(f, "fld") and f.a[3] == 0 and is_t(f.a[1], "elem") and is_t(f.a[1].a[1], "resp") and f.a[1].a[1].a[1] == "MM.get"


def ageless(v):
    """generic, whatever the round the values come from."""
    def go(x):
        if isinstance(x, tuple):
            return ("resp", x[1]) if len(x) == 4 and x[0] == "resp" else tuple(go(y) for y in x)
        return x
    return go(generic(v))


def drop_seen(g):
    return frozenset((ageless(t), b) for t, b in g if not is_t(t, "contains") and not is_t(t, "inserted"))


def frontier_elements(e, m):
    out = set()
    for name, args, site, facts, h in m.events:
        if name == "MM.get":
            for x in expand(e, args[1]):
                if x.k == "coll":
                    for g, y in elements(x):
                        out.add((ageless(y), frozenset(g)))
    return out


# =============================================================================================
# P10  cycles and depth
# =============================================================================================
@rule("P10")
def walk_visits_once(c):
    """a node which is not a requested keyword is expanded only the first time it is met"""
    k, m, e = run_search(c)
    gets = [x for x in m.events if x[0] == "GX.get"]
    Ks = set(l for x in gets for l in leaves_of(e, x[1][1], "param"))
    for R, node, site, facts in m.reads:
        ks = set()
        for K in Ks:
            ks |= nodes(e, R, K, node, set())
        if "step" not in ks:
            continue
        c.count("expansions")
        ok_ = [t for t, b in facts.items() if (is_t(t, "inserted") and b == 1 or is_t(t, "contains") and b == 0) and t.a[2] is node]
        if not ok_:
            c.viol("walk:revisit", e.where(site), "a node is expanded without checking that it was not visited yet: the walk of a cycle does not end")
        else:
            c.ob("expansion of %s requires %s" % (sh(node, 60), sh(ok_[0], 80)))
    c.floor("expansions", 1)


class GraphM(Graph):
    """One round, any of them, is told apart from the other ones until the end of the search."""
    mark = {"MM.get"}


def run_marked(c):
    k = c.root("GxEnc", "get")
    m = GraphM()
    e, res = c.run(k, m, opaque=MM)
    return k, m, e


def of_marked(v):
    return is_t(v, "resp") and v.a[3] == "m"


def covers_marked(e, v):
    """Whether v holds all the keywords fetched by the round told apart, or all those it asked for."""
    for x in expand(e, v):
        if of_marked(x):
            continue
        if x.k != "coll" or any(not g or not all(ALLOWED(t, b) for t, b in g) for g in x.a[2]):
            return False
        found = False
        for g, y in elements(x):
            y = key_of(y) if x.a[0] == "map" else y
            for f in forms(e, y):
                bs = value_bytes(f)
                if fetched_key(f) and of_marked(f.a[1].a[1]) and not guards_only(g, ALLOWED):
                    found = True
                elif bs is not None and fetched_value(e, bs, None) and of_marked(bs.a[1].a[1].a[1]) and not guards_only(g, graph_guard):
                    found = True
        if not found:
            return False
    return True


@rule("P10")
def fetch_once(c):
    """whatever the round, no pointer found after it is followed to a keyword it fetched"""
    k, m, e = run_marked(c)
    for name, args, site, facts, h in m.events:
        if name != "MM.get":
            continue
        older = h.get("mark") == 2
        for x in expand(e, args[1]):
            if x.k != "coll":
                continue
            for g, y in elements(x):
                bs = value_bytes(y)
                if bs is None or not fetched_value(e, bs, None):
                    continue
                c.count("followed pointers")
                if not older:
                    continue
                c.count("pointers followed after the round told apart")
                seen = [t for t, b in g if is_t(t, "contains") and b == 0 or is_t(t, "inserted") and b == 1]
                good = [t for t in seen if generic(t.a[2]) == generic(y) and covers_marked(e, t.a[1])]
                if not good:
                    c.viol("graph:refetch", e.where(site), "a pointer is followed although an earlier round may have fetched its target: a cycle is searched for ever")
                else:
                    c.ob("pointer followed under %s" % sh(good[0], 90))
    c.floor("pointers followed after the round told apart", 1)


@rule("P09")
@rule("P11")
def every_round_kept(c):
    """whatever the round, what it fetched is in the graph handed over"""
    k, m, e = run_marked(c)
    for val, h in m.rets:
        if not is_ok(val) or "mark" not in h:
            continue
        c.count("graphs after the round told apart")
        for x in expand(e, val.a[2][0]):
            keys = [key_of(y) for g, y in elements(x)] if x.k == "coll" else []
            if not any(fetched_key(f) and of_marked(f.a[1].a[1]) for f in keys) or LOST in x.a[2]:
                c.viol("graph:the result:some round", "-", "the graph returned may miss what one of the rounds fetched: %s" % sh(x))
            else:
                c.ob("the graph keeps the round told apart")
    c.floor("graphs after the round told apart", 2)


@rule("P10")
def no_recursion(c):
    """no function reachable from an operation calls itself: the stack used does not depend on the index"""
    for meth in ("search", "add", "delete", "compact"):
        m = Rec()
        e, res = c.run(c.root("Index", meth), m)
        c.count("operations")
        for f in sorted(e.recursive):
            c.viol("recursion:%s" % f.split("::")[-1], c.P.loc(c.P.bodies[f]["span"]) if hasattr(c.P, "loc") else f,
                   "%s calls itself when reached from %s: the depth depends on the content of the index" % (f, meth))
    c.floor("operations", 4)


# =============================================================================================
# P11  the interruption callback
# =============================================================================================
@rule("P11")
def interruption(c):
    """after each round the callback is given exactly the values fetched by this round; true stops the search"""
    k, m, e = run_graph(c)
    seen = 0
    for name, args, site, facts, h in m.events:
        w = e.where(site)
        if name == "MM.get":
            if h.get("got"):
                c.viol("interrupt:skipped", w, "a round starts although the results of the previous one were not shown to the callback")
            if h.get("stop"):
                c.viol("interrupt:ignored", w, "a round starts although the callback asked to stop")
        if name.startswith("CB."):
            seen += 1
            c.count("callback calls")
            if not h.get("got"):
                c.viol("interrupt:extra", w, "the callback is called without new results")
            gens = graph_entries(c, e, "the results shown", args[0], False)
            stale = [R for R in gens if R.a[3] != 0]
            c.ob("%s is given the values of %s" % (name, [sh(R, 60) for R in gens]))
            if stale:
                c.viol("interrupt:stale", w, "the callback is shown results of previous rounds")
    for val, h in m.rets:
        if is_ok(val):
            c.count("successes")
            if h.get("got"):
                c.viol("interrupt:last", "-", "the search may end without showing the results of the last round to the callback")
            if h.get("stop"):
                c.count("stopped searches")
    if not seen:
        c.viol("coverage:callback", "-", "the search never calls the interruption callback")
    c.floor("callback calls", 1)
    c.floor("stopped searches", 1)
    # the callback is the caller's
    k, m, e = run_search(c)
    for name, args, site, facts, h in m.events:
        if name == "GX.get" and len(args) > 3 and not is_t(args[3], "param"):
            if not (args[3].k == "agg" and args[3].a[0].startswith("closure:") and leaves_of(e, args[3], "param")):
                c.viol("interrupt:replaced", e.where(site), "the callback handed to the graph search is not the caller's: " + sh(args[3]))


# =============================================================================================
# P12  what an update indexes
# =============================================================================================
@rule("P12")
def update_associations(c):
    """add/delete hand every given association over, as an addition/deletion of this very value under this very keyword"""
    for meth, opv in (("add", 0), ("delete", 1)):
        m = Search()
        k = c.root("Index", meth)
        e, res = c.run(k, m, opaque=GX)
        n = 0
        for name, args, site, facts, h in m.events:
            if name != "GX.insert":
                continue
            n += 1
            w = e.where(site)
            c.count("insertions")
            for x in expand(e, args[2]):
                modifications(c, e, meth, opv, w, x)
            if not is_t(args[3], "param"):
                c.viol("%s:label" % meth, w, "the label is not the caller's: " + sh(args[3]))
        for val, h in m.rets:
            if is_ok(val):
                r = val.a[2][0]
                if not [l for l in leaves_of(e, r, "resp") if l.a[1] == "GX.insert"]:
                    c.viol("%s:result" % meth, "-", "%s may succeed without inserting anything: %s" % (meth, sh(r)))
        lost(c, e, m, meth)
        if not n:
            c.viol("coverage:%s:insert" % meth, "-", "%s does not go through the graph layer: the rule lost its subject" % meth)
    c.floor("insertions", 2)
    c.floor("modifications", 2)


def lost(c, e, m, meth):
    for (mp, k, v), site, h in m.lost:
        c.viol("%s:overwritten" % meth, e.where(site), "what was gathered for a keyword may be replaced by what comes for the same keyword later: %s"
               % sh(k))


def modifications(c, e, meth, opv, w, x):
    if x.k != "coll" or not elements(x):
        if x.k == "coll":
            return                      # nothing to add
        c.viol("%s:modifications" % meth, w, "what %s inserts is not built from the given associations: %s" % (meth, sh(x)))
        return
    def none_given(g):
        """The association left out has no keywords."""
        return any(b == 1 and is_t(t, "isempty") and is_t(t.a[1], "fld") and is_t(t.a[1].a[1], "elem") and is_t(t.a[1].a[1].a[1], "param") for t, b in g)
    if not all(none_given(g) for g in x.a[2]):
        c.viol("%s:lost" % meth, w, "some of the given associations may be dropped: " + sh(x))
    for g, y in elements(x):
        kk = key_of(y)
        # an element of the keywords of an association
        src = kk.a[1] if is_t(kk, "elem") else None
        A = src.a[1] if src is not None and is_t(src, "fld") and is_t(src.a[1], "elem") else None
        if A is None or not is_t(A.a[1], "param"):
            c.viol("%s:keyword" % meth, w, "a modified keyword is not one of the given ones: " + sh(kk))
            continue
        if g:
            bad = guards_only(g, op_in("isempty"))
            if bad:
                c.viol("%s:filtered" % meth, w, "an association is only inserted under a condition on " + sh(bad[0]))
        for d in expand(e, val_of(y)):
            if d.k != "coll" or d.a[2]:
                c.viol("%s:values" % meth, w, "some values of a keyword may be lost: " + sh(d))
                continue
            for g2, z in elements(d):
                c.count("modifications")
                for z in expand(e, z):
                    op, v = key_of(z), val_of(z)
                    if not (op.k == "agg" and op.a[0].endswith("Operation") and op.a[1] == opv):
                        c.viol("%s:operation" % meth, w, "%s records a modification which is %s" % (meth, sh(op)))
                    if not (is_t(v, "fld") and generic(v.a[1]) == generic(A) and v.a[3] == 0):
                        c.viol("%s:value" % meth, w, "%s records under a keyword a value which is not associated to it: %s" % (meth, sh(v)))
                    if g2 and guards_only(g2, op_in("isempty")):
                        c.viol("%s:filtered" % meth, w, "a value is only inserted under a condition on " + sh(guards_only(g2, op_in("isempty"))[0]))
                    c.ob("%s: %s of %s under %s" % (meth, sh(op, 50), sh(v, 50), sh(kk, 60)))


@rule("P12")
def graph_insert(c):
    """the graph layer hands every modification over with its operation, its value prefixed by its kind"""
    k = c.root("GxEnc", "insert")
    m = Search()
    e, res = c.run(k, m, opaque=MM)
    n = 0
    for name, args, site, facts, h in m.events:
        if name != "MM.insert":
            continue
        n += 1
        w = e.where(site)
        for x in expand(e, args[2]):
            if x.k != "coll" or x.a[2]:
                c.viol("graph:insert:lost", w, "some modifications may be dropped: " + sh(x))
                continue
            for g, y in elements(x):
                kk, P = key_of(y), None
                if is_t(kk, "fld") and is_t(kk.a[1], "elem") and is_t(kk.a[1].a[1], "param"):
                    P = kk.a[1]
                else:
                    c.viol("graph:insert:key", w, "a modified keyword is not a given one: " + sh(kk))
                    continue
                for d in expand(e, val_of(y)):
                    if d.k != "coll" or d.a[2]:
                        c.viol("graph:insert:values", w, "some modifications of a keyword may be lost: " + sh(d))
                        continue
                    for g2, z in elements(d):
                        c.count("modifications")
                        graph_mod(c, e, w, P, z)
    lost(c, e, m, "insert")
    if not n:
        c.viol("coverage:graph:insert", "-", "the graph layer does not insert through the multi-map layer: the rule lost its subject")


def graph_mod(c, e, w, P, z):
    op, v = key_of(z), val_of(z)
    src = op.a[1] if is_t(op, "fld") else None
    if src is None or not (is_t(src, "elem") and is_t(src.a[1], "fld") and generic(src.a[1].a[1]) == generic(P)):
        c.viol("graph:insert:operation", w, "the operation of a modification is not the given one: " + sh(op))
        return
    if generic(P) not in [generic(t) for t in e.subterms(v) if is_t(t, "elem")]:
        c.viol("graph:insert:value", w, "the bytes inserted do not come from the value to index: " + sh(v))
    c.ob("graph insertion: %s of %s" % (sh(op, 50), sh(v, 90)))

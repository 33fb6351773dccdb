"""Linear inequalities known on a path, and proofs that an expression is not negative."""
import vals as VL
from vals import is_t, is_int, T, C, sub, add, mul, length
from vals import _lin


def facts_on(e, st, x):
    """Linear forms known not to be negative, about the term x."""
    if is_t(x, "elem") and is_t(x.a[1], "range"):
        yield sub(sub(x.a[1].a[2], C(1)), x)
        yield sub(x, x.a[1].a[1])
    if is_t(x, "bin") and x.a[1] == "Div" and is_int(x.a[3]) and x.a[3].a[1] > 0:
        n, k = x.a[2], x.a[3]
        yield sub(n, mul(k, x))
        yield add(sub(mul(k, x), n), C(k.a[1] - 1))
    if is_t(x, "bin") and x.a[1] == "Rem" and (is_int(x.a[3]) and x.a[3].a[1] > 0 or positive(e, st, x.a[3])):
        yield sub(sub(x.a[3], C(1)), x)
        yield sub(x.a[2], x)
    if is_t(x, "bin") and x.a[1] == "BitAnd":
        for y in x.a[2:4]:
            yield sub(y, x)
    if is_t(x, "bin") and x.a[1] == "Shr":
        yield sub(x.a[2], x)
    if is_t(x, "min"):
        for y in x.a[1:]:
            yield sub(y, x)
    if is_t(x, "max"):
        for y in x.a[1:]:
            yield sub(x, y)
    if is_t(x, "idx"):
        yield sub(C(255), x)
    if is_t(x, "len") and x.a[1].k == "coll" and x.a[1].a[5] is True:
        yield sub(x, C(1))
    if x.k == "alt" and all(is_int(y) for y in x.a[1]):
        yield sub(C(max(y.a[1] for y in x.a[1])), x)
        yield sub(x, C(min(y.a[1] for y in x.a[1])))
    if is_t(x, "phi") and x in e.phi_defs and all(is_int(y) for y in e.phi_defs[x]):
        yield sub(C(max(y.a[1] for y in e.phi_defs[x])), x)
        yield sub(x, C(min(y.a[1] for y in e.phi_defs[x])))
    for t, b in st.facts.items():
        if not isinstance(b, int) or t.k != "t":
            continue
        if t.a[0] == "lt":
            a, c = t.a[1], t.a[2]
            if has(a, x) or has(c, x):
                yield sub(sub(c, a), C(1)) if b else sub(a, c)
        elif t.a[0] == "eq" and b:
            a, c = t.a[1], t.a[2]
            if num(a) and num(c) and (has(a, x) or has(c, x)):
                yield sub(a, c)
                yield sub(c, a)
        elif t.a[0] == "isempty":
            n = length(t.a[1])
            if has(n, x):
                yield sub(C(0), n) if b else sub(n, C(1))


def num(v):
    return is_int(v) or v.k == "lin" or is_t(v, "len") or is_t(v, "bin") or is_t(v, "elem") or is_t(v, "idx") or is_t(v, "opq") or is_t(v, "phi") or is_t(v, "param")


def has(v, x):
    return v is x or v.k == "lin" and any(t is x for t, _ in v.a[1])


def positive(e, st, v):
    if is_int(v):
        return v.a[1] > 0
    return prove(e, st, sub(v, C(1)), 4)


def prove(e, st, d, depth=6, seen=None):
    """d >= 0 on every execution reaching st (all terms are naturals)."""
    c, m = _lin(d)
    if c >= 0 and all(k > 0 for k in m.values()):
        return True
    if depth == 0:
        return False
    seen = seen or set()
    if d in seen:
        return False
    seen = seen | {d}
    order = sorted(m.items(), key=lambda q: (q[1] > 0, q[0].id))
    for x, k in order:
        if (is_t(x, "min") and k > 0 or is_t(x, "max") and k < 0) and \
                all(prove(e, st, add(sub(d, mul(C(k), x)), mul(C(k), y)), depth - 1, seen) for y in x.a[1:]):
            return True
        if k > 0 and c >= 0:
            continue
        for i in facts_on(e, st, x):
            ci, mi = _lin(i)
            j = mi.get(x, 0)
            # d = q * i + rest with q > 0
            if j == 0 or (j > 0) != (k > 0) or k % j:
                continue
            q = k // j
            if q > 0 and prove(e, st, sub(d, mul(C(q), i)), depth - 1, seen):
                return True
    return False

"""Rules on keys, tokens, chains and ciphertexts: what is derived from what."""
import vals as VL
from framework import rule, last, is_t, is_int, V, T, C, Monitor
from rules import sh, base, elements, forms, key_of, val_of, leaves_of, is_ok, is_err, WRITES, Errors
from rules2 import generic

AEADS = ("Aes256Gcm",)


class Trace(Monitor):
    """Everything which happens: storage events, table primitives, outcomes."""

    def __init__(self):
        self.events = []
        self.calls = []
        self.facts = []
        self.rets = []

    def event(self, eng, st, name, args, site):
        self.events.append((name, args, site, dict(st.facts)))

    def ext(self, eng, st, fr, name, args, site):
        self.calls.append((name, args, site))
        self.facts.append(dict(st.facts))

    def ret(self, eng, st, key, val):
        self.rets.append(val)


def tables(c):
    """[(name, {method: body}, interpreted as)] of the encrypted tables of the crate."""
    out = [(s, ms) for s, ms, im in c.methods("DxEnc")]
    if len(out) < 2:
        c.viol("coverage:tables", "-", "the two encrypted tables were not found: the rule lost its subject")
    return out


def multimap(c):
    """[(operation, trace, engine)] of the three operations using the tables."""
    out = []
    for meth, root in (("get", c.root("MmEnc", "get")), ("insert", c.root("MmEnc", "insert")), ("compact", c.root("Index", "compact"))):
        m = Trace()
        e, res = c.run(root, m)
        out.append((meth, m, e))
    return out


def weak(e, v):
    return any(is_t(t, "weak") or is_t(t, "rng") and t.a[1:2] == ("seeded",) for t in e.subterms(v))


def is_fresh(v, *names):
    return is_t(v, "fresh") and (not names or v.a[1] in names)


def rows(e, v):
    """[(guard, key, value)] of the map a value may be, alternatives unfolded."""
    out = []
    for x in forms(e, v):
        if x.k != "coll":
            continue
        for g, y in elements(x):
            for z in forms(e, y):
                for k in forms(e, key_of(z)):
                    for w in forms(e, val_of(z)):
                        out.append((g, k, w))
    return out


def members(e, v):
    out = []
    for x in forms(e, v):
        if x.k == "coll":
            for g, y in elements(x):
                for z in forms(e, y):
                    out.append((g, z))
        else:
            out.append((frozenset(), x))
    return out


# =============================================================================================
# P13  fresh randomness
# =============================================================================================
@rule("P13")
def fresh_nonces(c):
    """each encryption draws its whole nonce from the given generator; seeds and user keys are drawn too"""
    for name, ms in tables(c):
        m = Trace()
        e, res = c.run(ms.get("prepare"), m)
        n = 0
        for call, args, site in m.calls:
            if call != "aead#encrypt":
                continue
            n += 1
            c.count("encryptions")
            nonce = args[1]
            c.ob("%s::prepare encrypts under the nonce %s" % (name, sh(nonce, 60)))
            if not is_fresh(nonce):
                c.viol("%s:nonce" % name, e.where(site), "the nonce of an encryption is not entirely drawn at random: " + sh(nonce))
        if not n:
            c.viol("coverage:%s:encrypt" % name, "-", "no encryption is reachable from prepare: the rule lost its subject")
        m = Trace()
        e, res = c.run(ms.get("gen_seed"), m)
        for val in m.rets:
            c.count("seeds")
            if not is_fresh(val):
                c.viol("%s:seed" % name, "-", "a generated seed is not entirely drawn at random: " + sh(val))
    m = Trace()
    e, res = c.run(c.root("Index", "keygen"), m)
    for val in m.rets:
        c.count("user keys")
        if not is_fresh(val):
            c.viol("keygen", "-", "a generated user key is not drawn at random: " + sh(val))
    m = Trace()
    e, res = c.run(c.root("Index", "new"), m)
    for val in m.rets:
        c.count("constructors")
        if weak(e, val):
            c.viol("new:rng", "-", "the generator of a new instance has a fixed seed")
        elif not any(is_t(t, "rng") for t in e.subterms(val)):
            c.viol("new:rng", "-", "the generator of a new instance is not seeded by the system: " + sh(val))
    c.floor("encryptions", 2)
    c.floor("seeds", 2)
    c.floor("user keys", 1)


@rule("P13")
def fresh_chain_seeds(c):
    """the chain of a new keyword and each compacted chain get a seed of their own, drawn from the caller's generator"""
    for meth, m, e in multimap(c):
        for call, args, site in m.calls:
            if call.endswith((".prepare", ".gen_seed")) and args and isinstance(args[0], V):
                c.count("uses of the generator")
                if weak(e, args[0]):
                    c.viol("%s:generator" % meth, e.where(site), "%s uses a generator with a known seed" % call)
        for name, args, site, facts in m.events:
            if name == "CT.insert" and meth == "compact":
                for g, k, v in rows(e, args[-1]):
                    for y in forms(e, k.a[2]) if is_t(k, "tok") else ():
                        c.count("compacted chains")
                        if not any(is_fresh(t) for t in e.subterms(y, through_phi=False)):
                            c.viol("%s:old seed" % meth, e.where(site), "a compacted chain is written under a seed which was not drawn for it: " + sh(y))
            if name not in ("ET.insert", "ET.upsert"):
                continue
            for g, k, v in rows(e, args[-1]):
                if not is_t(v, "prepare"):
                    continue
                for x in forms(e, v.a[3]):
                    entry_seed(c, e, meth, e.where(site), x)
    c.floor("uses of the generator", 3)
    c.floor("entries written", 4)


def entry_seed(c, e, meth, w, x):
    parts = [z for r, y in (parts_of(e, x) or ()) for z in forms(e, y)] or [x]
    fr = [t for z in parts for t in e.subterms(z, through_phi=False) if is_t(t, "fresh")]
    kept = [z for z in parts if is_t(z, "slice") and is_t(z.a[1], "resolve")]
    c.count("entries written")
    if not fr and not kept and not is_t(x, "resolve"):
        c.viol("%s:chain seed" % meth, w, "an entry is written whose chain seed is neither drawn nor the previous one: " + sh(x))
    for t in fr:
        own = set(x for x in t.a[4]) if len(t.a) > 4 else set()
        if not own:
            c.viol("%s:shared seed" % meth, w, "the chain seed is drawn once for several entries: " + sh(t))


# =============================================================================================
# P14  what reaches the backend
# =============================================================================================
@rule("P14")
def only_ciphertexts(c):
    """tokens are keyed hashes, values are encryptions of the whole plaintext under the value key"""
    for name, ms in tables(c):
        tk, vk = set(), set()
        m = Trace()
        e, res = c.run(ms.get("tokenize"), m)
        for val in m.rets:
            for v in forms(e, val):
                c.count("tokens")
                if not (is_t(v, "hash") and is_t(v.a[1], "kmac256")):
                    c.viol("%s:token" % name, "-", "a token is not a keyed hash: " + sh(v))
                elif not (is_t(v.a[1].a[1], "fld") and is_t(v.a[1].a[1].a[1], "param")):
                    c.viol("%s:token key" % name, "-", "a token is not hashed under the secret key of the table: " + sh(v))
                else:
                    tk.add(v.a[1].a[1].a[1:])
                    c.ob("%s: token %s" % (name, sh(v)))
        m = Trace()
        e, res = c.run(ms.get("prepare"), m)
        for val in m.rets:
            if not is_ok(val):
                continue
            for v in forms(e, val.a[2][0]):
                c.count("encrypted values")
                vk |= stored(c, e, name, v)
        if set(x[2] for x in tk) & set(x[2] for x in vk):
            c.viol("%s:one key" % name, "-", "tokens and values of this table use the same key: the token function reveals the encryption key's uses")
    c.floor("tokens", 2)
    c.floor("encrypted values", 2)


def stored(c, e, name, v):
    if v.k != "agg":
        c.viol("%s:value" % name, "-", "what is stored is not a ciphertext: " + sh(v))
        return set()
    enc = [t for f in v.a[2] for t in [f] if is_t(t, "enc")]
    tag = [f for f in v.a[2] if is_t(f, "mactag")]
    rest = [f for f in v.a[2] if f not in enc and f not in tag]
    if not enc:
        c.viol("%s:value" % name, "-", "what is stored has no ciphertext: " + sh(v))
        return set()
    n = enc[0].a[2]
    if not tag:
        c.viol("%s:tag" % name, "-", "what is stored has no authentication tag: " + sh(v))
    elif tag[0].a[1:4] != enc[0].a[1:4]:
        c.viol("%s:tag" % name, "-", "the authentication tag is not the one of the ciphertext: " + sh(tag[0]))
    if any(f is not n for f in rest):
        c.viol("%s:other" % name, "-", "what is stored holds something else than the ciphertext, its tag and its nonce: " + sh([f for f in rest if f is not n][0]))
    if not rest:
        c.viol("%s:nonce lost" % name, "-", "the nonce of the encryption is not stored: " + sh(v))
    k, p = enc[0].a[1], enc[0].a[3]
    if not (is_t(k, "aead") and is_t(k.a[2], "fld") and is_t(k.a[2].a[1], "param")):
        c.viol("%s:value key" % name, "-", "the value is not encrypted under the secret key of the table: " + sh(k))
    if not is_t(p, "param"):
        c.viol("%s:plaintext" % name, "-", "what is encrypted is not the whole value: " + sh(p))
    c.ob("%s: stores %s" % (name, sh(enc[0])))
    return {k.a[2].a[1:]} if is_t(k, "aead") and is_t(k.a[2], "fld") else set()


@rule("P14")
def rows_are_encrypted(c):
    """every row sent to a table is keyed by a token of this table and holds the encryption of the row under this table's keys"""
    for meth, m, e in multimap(c):
        for name, args, site, facts in m.events:
            if name.split(".")[0] not in ("ET", "CT") or not args:
                continue
            X, op = name.split(".")
            w = e.where(site)
            if op in ("get", "delete"):
                for g, z in members(e, args[0]):
                    c.count("tokens sent")
                    if not token_of(e, z, X):
                        c.viol("%s:%s:token" % (meth, name), w, "%s is called with something which is not a token of this table: %s" % (name, sh(z)))
                continue
            for i, a in enumerate(args):
                for g, k, v in rows(e, a):
                    c.count("rows sent")
                    if not token_of(e, k, X):
                        c.viol("%s:%s:key" % (meth, name), w, "%s stores a row under something which is not a token of this table: %s" % (name, sh(k)))
                    if is_t(v, "prepare"):
                        if v.a[1] != X:
                            c.viol("%s:%s:table" % (meth, name), w, "%s stores a row encrypted for the other table: %s" % (name, sh(v)))
                        if not key_of_table(e, v.a[2], X):
                            c.viol("%s:%s:value key" % (meth, name), w, "%s stores a row encrypted under a key which is not one of this table: %s" % (name, sh(v.a[2])))
                    elif not (op == "upsert" and i == 0 and read_value(e, v, X)):
                        c.viol("%s:%s:plain" % (meth, name), w, "%s stores a row which is not encrypted: %s" % (name, sh(v)))
    c.floor("tokens sent", 4)
    c.floor("rows sent", 6)


def token_of(e, z, X, seen=None):
    seen = set() if seen is None else seen
    if z in seen:
        return True
    seen.add(z)
    r = forms(e, z)
    if r != [z]:
        return all(token_of(e, y, X, seen) for y in r)
    if is_t(z, "tok"):
        return z.a[1] == X and key_of_table(e, z.a[2], X)
    if is_t(z, "fld") and is_t(z.a[1], "elem"):
        return z.a[3] == 0 and all(is_t(l, "resp") and l.a[1].split(".")[0] == X for l in [y for y in forms(e, z.a[1].a[1])])
    if is_t(z, "elem"):
        s = z.a[1]
        while is_t(s, "slice"):
            s = s.a[1]
        if is_t(s, "resp"):
            return s.a[1].split(".")[0] == X
        return all(token_of(e, y, X, seen) for g, y in members(e, s) if y is not s) and bool(members(e, s)) and s.k in ("coll", "t") and not is_t(s, "param")
    if z.k == "coll":
        return all(token_of(e, y, X, seen) for g, y in elements(z))
    if z.k == "agg" and z.a[0] == "tuple":
        return token_of(e, z.a[2][0], X, seen)
    return False


def key_of_table(e, k, X):
    ok_ = True
    for y in forms(e, k):
        if is_t(y, "dkeys"):
            ok_ &= y.a[1] == X
        elif is_t(y, "param"):
            ok_ &= X == "ET"            # the key handed over by the layer above
        else:
            ok_ = False
    return ok_


def read_value(e, v, X):
    return all(is_t(l, "resp") and l.a[1].split(".")[0] == X or is_t(l, "elem") for l in e.leaves(v))


# =============================================================================================
# P15  authenticated decryption
# =============================================================================================
@rule("P15")
def authenticated(c):
    """a plaintext is only obtained from the successful authenticated decryption of the whole stored row"""
    for name, ms in tables(c):
        m = Trace()
        e, res = c.run(ms.get("resolve"), m)
        fail = 0
        for val in m.rets:
            if is_ok(val):
                for v in forms(e, val.a[2][0]):
                    c.count("plaintexts")
                    if not is_t(v, "dec"):
                        c.viol("%s:unauthenticated" % name, "-", "resolve may return something else than an authenticated plaintext: " + sh(v))
                        continue
                    k, n, ct, tag = v.a[1:5]
                    if not (is_t(k, "aead") and is_t(k.a[2], "fld") and is_t(k.a[2].a[1], "param")):
                        c.viol("%s:key" % name, "-", "the row is not decrypted under the secret key of the table: " + sh(k))
                    ps = [x.a[1] if is_t(x, "fld") else None for x in (n, ct, tag)]
                    if None in ps or len(set(ps)) != 1 or len(set(x.a[3] for x in (n, ct, tag))) != 3:
                        c.viol("%s:parts" % name, "-", "nonce, ciphertext and tag are not the three parts of the row: %s" % sh(v))
                    c.ob("%s: %s" % (name, sh(v)))
            elif any(is_t(t, "err") and t.a[1] == "decrypt" for t in e.subterms(val)):
                fail += 1
        if not fail:
            c.viol("%s:accepts" % name, "-", "a row which is not authentic does not make resolve fail")
        keys_agree(c, name, ms)
    c.floor("plaintexts", 2)


def keys_agree(c, name, ms):
    """prepare and resolve use the same half of the key and the same fields of the stored value"""
    m1, m2 = Trace(), Trace()
    e1, _ = c.run(ms.get("prepare"), m1)
    e2, _ = c.run(ms.get("resolve"), m2)
    enc = [x[1] for x in m1.calls if x[0] == "aead#encrypt"]
    dec = [x[1] for x in m2.calls if x[0] == "aead#decrypt"]
    if not enc or not dec:
        c.viol("coverage:%s:aead" % name, "-", "no authenticated encryption is reachable from prepare or resolve: the rule lost its subject")
        return
    f = lambda v: (v.a[1], v.a[2].a[3]) if is_t(v, "aead") and is_t(v.a[2], "fld") else None
    if f(enc[0][0]) != f(dec[0][0]):
        c.viol("%s:keys" % name, "-", "rows are encrypted and decrypted under different keys or ciphers: %s, %s" % (sh(enc[0][0]), sh(dec[0][0])))
    if enc[0][3] is not dec[0][4]:
        c.viol("%s:aad" % name, "-", "rows are encrypted and decrypted with different authenticated data: %s, %s" % (sh(enc[0][3]), sh(dec[0][4])))
    for v in m1.rets:
        if is_ok(v) and v.a[2][0].k == "agg":
            pos = {}
            for i, x in enumerate(v.a[2][0].a[2]):
                pos["ct" if is_t(x, "enc") else "tag" if is_t(x, "mactag") else "nonce"] = i
            for part, x in (("nonce", dec[0][1]), ("ct", dec[0][2]), ("tag", dec[0][3])):
                if is_t(x, "fld") and pos.get(part) != x.a[3]:
                    c.viol("%s:%s" % (name, part), "-", "the %s of a row is written in field %s and read in field %s" % (part, pos.get(part), x.a[3]))


@rule("P15")
def rows_are_decrypted(c):
    """rows are decrypted under the key they were encrypted with: the caller's for entries, the entry's own for its chain"""
    for meth, m, e in multimap(c):
        n = 0
        for call, args, site in m.calls:
            if not call.endswith(".resolve"):
                continue
            X = call.split(".")[0]
            n += 1
            c.count("decryptions")
            w = e.where(site)
            if X == "ET":
                for k in forms(e, args[0]):
                    if not (is_t(k, "param") or is_t(k, "dkeys") and k.a[1] == "ET" and is_t(k.a[2], "param")):
                        c.viol("%s:entry key" % meth, w, "an entry is decrypted under a key which is not the caller's: " + sh(k))
            else:
                for k in forms(e, args[0]):
                    # the key derived from the seed of an entry
                    if not (is_t(k, "dkeys") and k.a[1] == "CT" and any(is_t(t, "resolve") for t in e.subterms(k.a[2]))):
                        c.viol("%s:chain key" % meth, w, "a chain row is decrypted under a key which does not come from its entry: " + sh(k))
            bad = [l for l in e.leaves(args[1]) if l.a[0] == "resp" and l.a[1].split(".")[0] != X]
            if bad and not [l for l in e.leaves(args[1]) if l.a[0] == "resp" and l.a[1].split(".")[0] == X]:
                c.viol("%s:other table" % meth, w, "a row of the other table is decrypted: " + sh(args[1]))
        if not n:
            c.viol("coverage:%s:resolve" % meth, "-", "nothing is decrypted by %s: the rule lost its subject" % meth)
    c.floor("decryptions", 3)


@rule("P15")
def failures_are_reported(c):
    """a row which cannot be decrypted makes the operation fail: it is neither skipped nor replaced"""
    for meth in ("search", "add", "delete", "compact"):
        m = Errors()
        e, res = c.run(c.root("Index", meth), m)
        n = 0
        for er, val in m.rets:
            if er is None or not er[0].endswith(".resolve"):
                continue
            n += 1
            c.count("failed decryptions")
            if not is_err(val):
                c.viol("%s:%s:skipped" % (meth, er[0]), "-", "%s may succeed although a row could not be decrypted" % meth)
        if not n:
            c.viol("%s:no outcome" % meth, "-", "no outcome of %s accounts for a row which cannot be decrypted" % meth)
    c.floor("failed decryptions", 4)


# =============================================================================================
# P16  key derivation
# =============================================================================================
@rule("P16")
def key_separation(c):
    """token and value keys of both tables are derived from the whole seed, each under a context of its own"""
    ctx = {}
    for name, ms in tables(c):
        m = Trace()
        e, res = c.run(ms.get("derive_keys"), m)
        for val in m.rets:
            if val.k != "agg":
                c.viol("%s:keys" % name, "-", "the derived keys are unknown: " + sh(val))
                continue
            for i, k in enumerate(val.a[2]):
                c.count("derived keys")
                if not (is_t(k, "hash") and isinstance(k.a[1], V)):
                    c.viol("%s:key %d" % (name, i), "-", "a key is not derived by a key derivation function: " + sh(k))
                    continue
                parts = hashed(k)
                seed = [x for x in parts if is_t(x, "param")]
                if not seed:
                    c.viol("%s:seed %d" % (name, i), "-", "a key is not derived from the whole seed: " + sh(k))
                cst = tuple(sh(x, 200) for x in parts if not is_t(x, "param"))
                if is_int(k.a[2]) and k.a[2].a[1] < 32 if len(k.a) > 2 and isinstance(k.a[2], V) else False:
                    c.viol("%s:length %d" % (name, i), "-", "a derived key is too short: " + sh(k))
                ctx.setdefault(cst, []).append("%s key %d" % (name, i))
                c.ob("%s key %d derived from the seed under %s" % (name, i, cst))
    for cst, ks in sorted(ctx.items()):
        if len(ks) > 1:
            c.viol("shared:%s" % "/".join(ks), "-", "the keys %s are the same for a given seed: both are derived under %s" % (", ".join(ks), cst))
    c.floor("derived keys", 4)
    for meth in ("search", "add", "delete", "compact"):
        from rules2 import GX
        m = Trace()
        e, res = c.run(c.root("Index", meth), m, opaque=GX)
        for name, args, site, facts in m.events:
            if not name.startswith("GX."):
                continue
            for k in args:
                for y in forms(e, k):
                    if is_t(y, "dkeys"):
                        c.count("derivations from a user key")
                        if not is_t(y.a[2], "param"):
                            c.viol("%s:user key" % meth, e.where(site), "the keys are not derived from the whole user key: " + sh(y))
    c.floor("derivations from a user key", 3)


def hashed(k):
    """The parts hashed by a hash term."""
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, V):
            if x.k == "agg" and x.a[0] in ("array", "tuple"):
                for y in x.a[2]:
                    go(y)
            else:
                out.append(x)
    h = k.a[1]
    for x in h.a[1:]:
        go(x)
    return out


# =============================================================================================
# P17  entry tokens
# =============================================================================================
def tag_hash_of(e, v):
    """The keyword hashed when v is the hash of an entire keyword, None otherwise."""
    r = None
    for x in forms(e, v):
        if not (is_t(x, "hash") and isinstance(x.a[1], V) and is_t(x.a[1], "sha3_256")):
            return None
        parts = hashed(x)
        if len(parts) != 1:
            return None
        r = parts[0]
    return r


@rule("P17")
def entry_tokens(c):
    """search and update look a keyword up under the keyed hash of the whole keyword and of the label"""
    seen = {}
    for meth in ("get", "insert"):
        m = Trace()
        k = c.root("MmEnc", meth)
        e, res = c.run(k, m)
        for name, args, site, facts in m.events:
            if name not in ("ET.get", "ET.upsert"):
                continue
            w = e.where(site)
            toks = [z for g, z in members(e, args[0])] if name == "ET.get" else [k2 for g, k2, v in rows(e, args[1])]
            if not toks:
                c.viol("coverage:%s:%s" % (meth, name), w, "the tokens of %s are unknown: %s" % (name, sh(args[0])))
            for z in toks:
                c.count("entry tokens")
                if not is_t(z, "tok"):
                    c.viol("%s:%s:token" % (meth, name), w, "an entry is accessed under something else than the token of a keyword: " + sh(z))
                    continue
                tag = tag_hash_of(e, z.a[3])
                if tag is None or not (is_t(tag, "elem") or is_t(tag, "fld") and is_t(tag.a[1], "elem")) or not leaves_of(e, tag, "param"):
                    c.viol("%s:%s:keyword" % (meth, name), w, "an entry token does not depend on exactly the whole keyword: " + sh(z.a[3]))
                if not is_t(z.a[2], "param"):
                    c.viol("%s:%s:key" % (meth, name), w, "an entry token does not use the caller's key: " + sh(z.a[2]))
                lb = z.a[4]
                if not (lb.k == "agg" and lb.a[0] == "Option" and lb.a[1] == 1 and is_t(lb.a[2][0], "param")):
                    c.viol("%s:%s:label" % (meth, name), w, "an entry token does not depend on the label: " + sh(lb))
                seen.setdefault(meth, set()).add(sh(z.a[3].a[1].a[0] if isinstance(z.a[3].a[1], V) else z.a[3], 40))
                c.ob("%s %s: %s" % (meth, name, sh(z)))
    c.floor("entry tokens", 3)
    # the label and the key are the ones given by the user, in each layer
    from rules2 import GX, MM
    for root, opq, names in ((("Index", "search"), GX, ("GX.get",)), (("Index", "add"), GX, ("GX.insert",)), (("Index", "delete"), GX, ("GX.insert",)),
                             (("GxEnc", "get"), MM, ("MM.get",)), (("GxEnc", "insert"), MM, ("MM.insert",))):
        m = Trace()
        e, res = c.run(c.root(*root), m, opaque=opq)
        for name, args, site, facts in m.events:
            if name not in names:
                continue
            c.count("layer calls")
            lab = args[2] if name.endswith("get") else args[3]
            key = args[0] if name.endswith("get") else args[1]
            if not is_t(lab, "param"):
                c.viol("%s:%s:label" % root, e.where(site), "the label handed over is not the given one: " + sh(lab))
            if not (is_t(key, "param") or is_t(key, "dkeys") and key.a[1] == "ET" and is_t(key.a[2], "param")):
                c.viol("%s:%s:key" % root, e.where(site), "the key handed over is not the given one: " + sh(key))
    c.floor("layer calls", 5)


@rule("P17")
def token_function(c):
    """the token of an entry hashes, under the token key, all the given bytes and the label"""
    n = 0
    for name, ms in tables(c):
        m = Trace()
        e, res = c.run(ms.get("tokenize"), m)
        for val in m.rets:
            for v in forms(e, val):
                if not is_t(v, "hash"):
                    continue
                n += 1
                parts = hashed(v)[1:]
                if not any(is_t(x, "param") and "bytes" in str(x.a[1]) or is_t(x, "param") for x in parts):
                    c.viol("%s:bytes" % name, "-", "the token does not depend on all the given bytes: " + sh(v))
                ln = v.a[2]
                if is_int(ln) and ln.a[1] < 32:
                    c.viol("%s:length" % name, "-", "the token is a truncated hash (%d bytes): distinct keywords may collide" % ln.a[1])
        if "entry" in name.lower():
            lab = [v for val in m.rets for v in forms(e, val) if is_t(v, "hash") and any(is_t(x, "fld") and is_t(x.a[1], "param") for x in hashed(v)[2:])
                   or is_t(v, "hash") and len([x for x in hashed(v)[1:] if is_t(x, "param")]) > 1]
            c.count("tokens with a label", len(lab))
    c.floor("tokens with a label", 1)


# =============================================================================================
# P18  readers, writers and compaction walk the same chain
# =============================================================================================
class Layout(object):
    """Where the parts of an entry are, as used by the operations."""

    def __init__(self):
        self.seed, self.hash, self.last = {}, {}, {}

    def use(self, part, r, who):
        getattr(self, part).setdefault(r, who)


def region(v):
    """(row term, (lo, hi)) of a part of a decrypted entry, else None."""
    if is_t(v, "slice") and is_t(v.a[1], "resolve") and v.a[1].a[1] == "ET":
        return v.a[1], (v.a[2], v.a[3])
    return None


def same_region(a, b):
    return a is not None and b is not None and a[0] is b[0] and a[1] == b[1]


def is_zero(v):
    return is_t(v, "rep") and is_int(v.a[1]) and v.a[1].a[1] == 0


def nothing_written(t):
    """The region compared with zeroes by a fact, None if the fact is something else."""
    if is_t(t, "eq"):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_zero(a):
                return region(b)
    return None


def chain_walk(c, e, who, w, g, z, lay, writer):
    """Checks one token of a chain: which key, which start, under which condition."""
    if not is_t(z, "tok") or z.a[1] != "CT":
        return None
    keys = [k for k in forms(e, z.a[2])]
    kind = None
    for k in keys:
        if not is_t(k, "dkeys"):
            c.viol("%s:key" % who, w, "a chain token is not derived from a key of the chain table: " + sh(k))
            continue
        for sd in forms(e, k.a[2]):
            r = region(sd)
            if r:
                lay.use("seed", r[1], who)
            elif not (writer and is_fresh(sd)):
                c.viol("%s:seed" % who, w, "the key of a chain does not come from the seed of its entry: " + sh(sd))
                continue
            start = z.a[3]
            s = region(start)
            if s is None and tag_hash_of(e, start) is None and all(is_t(y, "tok") or region(y) or tag_hash_of(e, y) is not None for y in forms(e, start)):
                kind = kind or "next"
                continue
            if s is None:
                if not (writer and not r and tag_hash_of(e, start) is not None):
                    c.viol("%s:start" % who, w, "a chain starts from something else than its entry: " + sh(start))
                continue
            if r and s[0] is not r[0]:
                c.viol("%s:other entry" % who, w, "a chain starts from the data of another entry: %s" % sh(z))
            kind = ("start", s)
    if z.a[4].k == "agg" and z.a[4].a[1] == 1:
        c.viol("%s:label" % who, w, "a chain token depends on a label: only some operations would find it: " + sh(z))
    return kind


def nexts(e, z):
    """The previous tokens a token is derived from."""
    out = []
    for x in forms(e, z.a[3]):
        out.append(x)
    return out


REORDER = {"Iterator::rev", "slice::reverse", "Vec::reverse", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key",
           "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::rotate_left", "slice::rotate_right", "slice::swap", "Vec::swap",
           "Vec::swap_remove"}


def in_order(c, e, meth, m):
    """The tokens of a chain and the links stored at them are walked together, in order."""
    for name, args, site in m.calls:
        if name in REORDER and args:
            v = args[0]
            while v.k == "iter":
                v = v.a[0]
            for x in forms(e, v) if v.k in ("t", "coll", "alt") else ():
                for g, y in elements(x) if x.k == "coll" else ():
                    if any(is_t(z, "tok") and z.a[1] == "CT" or is_t(z, "resolve") and z.a[1] == "CT" or z.k == "segs" for z in forms(e, y)):
                        c.viol("%s:order" % meth, e.where(site), "the tokens or the links of a chain are not walked in order (%s)" % name)


@rule("P18")
def same_chain(c):
    """tokens of a chain: the first from the tag hash, each next from the previous one, up to the last token of the entry"""
    lay = Layout()
    for meth, m, e in multimap(c):
        in_order(c, e, meth, m)
        if meth != "insert":
            walks(c, e, meth, m, lay)
        for name, args, site, facts in m.events:
            w = e.where(site)
            if name == "CT.get":
                reader(c, e, meth, w, members(e, args[0]), lay)
            if name == "CT.insert":
                for g, k, v in rows(e, args[0]):
                    c.count("rows written")
                    writer(c, e, meth, w, g, k, v, lay)
    agree(c, lay)
    c.floor("tokens read", 4)
    c.floor("rows written", 4)


def ungen(v):
    """v about one element, whichever iteration it belongs to."""
    for _ in range(4):
        m = {a: T("elem", a.a[1]) for a in v.at if is_t(a, "elem") and len(a.a) > 2}
        m.update({a: T(*a.a[:3]) for a in v.at if is_t(a, "phi") and len(a.a) > 3})
        if not m:
            return v
        v = VL.subst(v, m)
    return v


def same_row(a, b):
    return a is b or ungen(a) is ungen(b)


def reader(c, e, meth, w, ms, lay):
    who = "%s:read" % meth
    kinds = set()
    for g, z in ms:
        c.count("tokens read")
        if not is_t(z, "tok"):
            c.viol("%s:token" % who, w, "a chain is read at something which is not a chain token: " + sh(z))
            continue
        kind = chain_walk(c, e, who, w, g, z, lay, False)
        c.ob("%s: %s" % (who, sh(z)))
        for t, b in g:
            if nothing_written(t) is not None and b == 0 or is_t(t, "contains") or is_t(t, "discr") and is_t(t.a[1], "prev"):
                continue
            if stop_of(t) and b == 0:
                continue
            c.viol("%s:condition" % who, w, "a row of a chain is only read when %s is %s" % (sh(t), b))
        if kind == "next" or is_t(z.a[3], "tok"):
            kinds.add("next")
            for y in nexts(e, z):
                if not (is_t(y, "tok") or region(y)):
                    c.viol("%s:next" % who, w, "a chain token is derived from something else than the previous token: " + sh(y))
                if region(y):
                    kinds.add("first")
        elif kind:
            kinds.add("first")
    if ms and kinds != {"first", "next"}:
        c.viol("%s:partial" % who, w, "only the %s tokens of a chain are read" % "/".join(sorted(kinds)))


def walks(c, e, meth, m, lay):
    """The conditions under which the tokens of a chain are computed by a reader."""
    who = "%s:walk" % meth
    for (name, args, site), facts in zip(m.calls, m.facts):
        if name != "CT.tokenize":
            continue
        row = [r for k in forms(e, args[0]) if is_t(k, "dkeys") for r in [region(k.a[2])] if r]
        if not row:
            continue
        w = e.where(site)
        c.count("walked tokens")
        x = args[1]
        first = region(x)
        if first:
            lay.use("hash", first[1], who)
            z = [(nothing_written(t), b) for t, b in facts.items() if nothing_written(t)]
            z = [(r, b) for r, b in z if same_row(r[0], row[0][0])]
            if not z or any(b != 0 for r, b in z):
                c.viol("%s:empty" % who, w, "a chain is walked without checking that its entry has one: the walk may never end")
            for r, b in z:
                lay.use("last", r[1], who)
            continue
        stops = [(stop_of(t), b) for t, b in facts.items() if stop_of(t)]
        stops = [(r, b) for r, b in stops if r[1] is x and same_row(r[0][0], row[0][0])]
        if not stops or any(b != 0 for r, b in stops):
            c.viol("%s:end" % who, w, "the walk of a chain does not stop exactly at the last token of its entry")
        for r, b in stops:
            lay.use("last", r[0][1], who)


def stop_of(t):
    """(region of the entry, token) compared by a fact."""
    if is_t(t, "eq"):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            r = region(a)
            if r and (is_t(b, "tok") or is_t(b, "phi")):
                return r, b
    return None


def direct_rows(e, k):
    return [t for t in e.subterms(k, through_phi=False) if is_t(t, "resolve") and t.a[1] == "ET"]


def writer(c, e, meth, w, g, k, v, lay):
    who = "%s:write" % meth
    if not is_t(k, "tok"):
        c.viol("%s:token" % who, w, "a chain row is written at something which is not a chain token: " + sh(k))
        return
    c.ob("%s: %s" % (who, sh(k)))
    kind = chain_walk(c, e, who, w, g, k, lay, True)
    fresh = any(is_fresh(t) for t in e.subterms(k.a[2], through_phi=False))
    if kind == "next" or kind is None:
        for y in nexts(e, k):
            ok_ = is_t(y, "tok") and y.a[1] == "CT" or region(y) or tag_hash_of(e, y) is not None
            if not ok_:
                c.viol("%s:next" % who, w, "a chain token is derived from something else than the previous token: " + sh(y))
    elif fresh:
        lay.use("hash", kind[1][1], who)           # a new chain starts at the tag hash of its entry
    else:
        lay.__dict__.setdefault("starts", set()).add(kind[1][1])
    if is_t(v, "prepare"):
        ks = {ungen(y) for y in forms(e, k.a[2])}
        vs = {ungen(y) for y in forms(e, v.a[2])}
        if not (ks & vs):
            c.viol("%s:row key" % who, w, "a chain row is encrypted under another key than the one its token is derived from: %s" % sh(v.a[2]))


def agree(c, lay):
    """The parts of an entry are the same for all the operations."""
    for part in ("seed", "hash", "last"):
        d = getattr(lay, part)
        if not d:
            c.viol("layout:%s" % part, "-", "no operation reads the %s of an entry: the rule lost its subject" % part)
        if len(d) > 1:
            c.viol("layout:%s" % part, "-", "the operations do not agree on where the %s of an entry is: %s"
                   % (part, ", ".join("%s..%s (%s)" % (sh(r[0]), sh(r[1]), o) for r, o in sorted(d.items(), key=lambda x: x[1]))))
    st = getattr(lay, "starts", set())
    bad = st - set(lay.hash) - set(lay.last)
    if bad:
        c.viol("layout:start", "-", "an update continues a chain from another part of the entry than its last token or its tag hash")
    if st and not (st & set(lay.last)):
        c.viol("layout:continue", "-", "an update never continues a chain from its last token")


@rule("P18")
def continues_chain(c):
    """an update starts a chain at the tag hash only when the entry has none, and otherwise continues after its last token"""
    m = Trace()
    e, res = c.run(c.root("MmEnc", "insert"), m)
    for (name, args, site), facts in zip(m.calls, m.facts):
        if name != "CT.tokenize":
            continue
        for x in (args[1],) if not is_t(args[1], "phi") else ():
            r = region(x)
            if r is None:
                continue
            c.count("chain continuations")
            zero = [b for t, b in facts.items() if nothing_written(t) and nothing_written(t)[0] is r[0]]
            cmp_ = [nothing_written(t)[1] for t, b in facts.items() if nothing_written(t) and nothing_written(t)[0] is r[0]]
            w = e.where(site)
            if not zero:
                c.viol("insert:unchecked", w, "a chain is continued from %s without checking that the entry has a chain" % sh(x))
            elif r[1] in cmp_ and zero[0] != 0:
                c.viol("insert:zero", w, "a chain is continued from the last token of an entry which has none")
            elif r[1] not in cmp_ and zero[0] != 1:
                c.viol("insert:restart", w, "an update starts again from the beginning of an existing chain: its rows would collide")
    c.floor("chain continuations", 2)


# =============================================================================================
# P19  entries
# =============================================================================================
def parts_of(e, v):
    """[((lo, hi), value)] of an encoded entry."""
    if v.k != "segs":
        return None
    out = flat_segs(v, 0)
    out.sort(key=lambda x: x[0][0])
    if all(is_zero(y) for y in forms(e, v.a[0])):            # a zeroed buffer: what is not written is zero
        pos, full = 0, []
        n = forms(e, v.a[0])[0].a[2]
        for r, x in out + ([((n.a[1], n.a[1]), None)] if is_int(n) else []):
            if r[0] > pos:
                full.append(((pos, r[0]), T("rep", C(0), C(r[0] - pos))))
            if x is not None:
                full.append((r, x))
            pos = r[1]
        out = full
    return [((C(a), C(b)), x) for (a, b), x in out]


def flat_segs(v, off):
    out = []
    for l, h, x in v.a[1]:
        if not (is_int(l) and is_int(h)):
            return []
        if x.k == "segs" and flat_segs(x, 0):
            out += flat_segs(x, off + l.a[1])
        else:
            out.append(((off + l.a[1], off + h.a[1]), x))
    return out


@rule("P19")
def entry_updates(c):
    """an update keeps the seed and the tag hash of an entry and records the last token of its chain"""
    offs = set()
    for meth, root in (("insert", ("MmEnc", "insert")), ("compact", ("Index", "compact"))):
        m = Trace()
        e, res = c.run(c.root(*root), m)
        read = set(region(x)[1] for n, a, site in m.calls if n == "CT.derive_keys" for x in forms(e, a[0]) if region(x))
        for (name, args, site), facts in zip(m.calls, m.facts):
            if name != "ET.prepare":
                continue
            c.count("entries encoded")
            w = e.where(site)
            for v in forms(e, args[2]):
                ps = parts_of(e, v)
                if ps is None:
                    if not (meth == "compact" and is_t(v, "resolve")):
                        c.viol("%s:encoding" % meth, w, "what is stored is not an encoded entry: " + sh(v))
                    continue
                if any(x.k == "c" or is_zero(x) for r, x in ps[1:]) or len(ps) != 3:
                    c.viol("%s:encoding" % meth, w, "an encoded entry has not exactly its three parts: " + sh(v))
                    continue
                offs.add(tuple(r for r, x in ps))
                entry(c, e, meth, w, ps, facts)
                for r, x in ps:
                    if any(is_fresh(y) for y in forms(e, x)) and r not in read:
                        c.viol("%s:seed place" % meth, w, "the seed is stored where it is not read from: %s..%s" % (sh(r[0]), sh(r[1])))
    if len(offs) > 1:
        c.viol("layout", "-", "entries are not always encoded with the same layout")
    c.floor("entries encoded", 6)


def entry(c, e, meth, w, ps, facts):
    (lr, lastv), rest = ps[0], ps[1:]
    for (r, x) in ps:
        c.ob("%s: %s..%s = %s" % (meth, sh(r[0]), sh(r[1]), sh(x, 80)))
    # classify the parts by what they hold
    seedp = [(r, x) for r, x in ps if any(is_fresh(y) for y in forms(e, x))]
    old = [(r, region(x)) for r, x in ps if region(x)]
    for r, o in old:
        if o[1] != r:
            c.viol("%s:moved" % meth, w, "a part of an entry is stored at %s..%s but read from %s..%s" % (sh(r[0]), sh(r[1]), sh(o[1][0]), sh(o[1][1])))
    es = set(o[0] for r, o in old)
    if len(es) > 1:
        c.viol("%s:mixed" % meth, w, "an entry mixes the parts of several entries")
    if not seedp and not [r for r, o in old if r != lr]:
        c.viol("%s:seed" % meth, w, "the seed of an entry is neither kept nor drawn: %s" % ", ".join(sh(x, 60) for r, x in ps))
    news = [x for r, x in ps if tag_hash_of(e, x) is not None]
    if meth == "insert":
        if not news and len([r for r, o in old if r != lr]) < 2:
            c.viol("%s:kept" % meth, w, "an update does not keep the seed and the tag hash of the entry: %s" % ", ".join(sh(x, 60) for r, x in ps))
        if es and seedp:
            c.viol("%s:new seed" % meth, w, "an update changes the seed of an existing entry: its chain cannot be read any more")
    if meth == "compact" and not [r for r, o in old if r != lr]:
        c.viol("%s:tag hash" % meth, w, "the compaction does not keep the tag hash of the entry: %s" % ", ".join(sh(x, 60) for r, x in ps))
    last_token(c, e, meth, w, lastv, seedp, old, lr, facts)


def last_token(c, e, meth, w, x, seedp, old, lr, facts):
    if region(x) is not None:
        if meth == "insert":
            toks = [t for t, b in facts.items() if is_t(t, "isempty") and b == 1 and holds_tokens(e, t.a[1])]
            if not toks:
                c.viol("insert:stale", w, "the entry keeps its previous last token although rows are added to its chain")
        elif seedp:
            c.viol("compact:stale", w, "the entry keeps the last token of the previous chain with a new seed")
        return
    if is_zero(x):
        ok_ = [t for t, b in facts.items() if is_t(t, "isempty") and b == 1 and holds_tokens(e, t.a[1])]
        kept = meth == "compact" and [t for t, b in facts.items() if nothing_written(t) and b == 1]
        if not ok_ and not kept and not (meth == "compact"):
            c.viol("%s:forgotten" % meth, w, "an entry is stored without last token although rows are added to its chain")
        return
    if is_t(x, "phi") and x.a[2][-1:] == ("last",) or is_t(x, "tok") or is_t(x, "phi"):
        for y in forms(e, x):
            if not (is_t(y, "tok") and y.a[1] == "CT" or is_zero(y) or region(y)):
                c.viol("%s:last token" % meth, w, "the recorded last token is not a chain token: " + sh(y))
        if is_t(x, "phi") and x.a[2][-1:] != ("last",):
            # followed by the loop which derives the tokens, and not one of them
            ts = [y for y in forms(e, x) if is_t(y, "tok")]
            loops = set(p.a[1] for y in ts for p in e.subterms(y.a[3], through_phi=False) if is_t(p, "phi"))
            if loops and x.a[1] not in loops:
                c.viol("%s:last token" % meth, w, "the recorded last token may be another token of the chain: " + sh(x))
        return
    c.viol("%s:last token" % meth, w, "the recorded last token is not the last token of the chain: " + sh(x))


def holds_tokens(e, v):
    return any(is_t(t, "tok") and t.a[1] == "CT" for x in forms(e, v) for t in ([y for g, y in elements(x)] if x.k == "coll" else []))

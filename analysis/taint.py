"""Where the bytes of keys and seeds go, body by body: from the types holding them, through references, copies and accessors."""
import re

STD = re.compile(r"^(std|core|alloc|hashbrown)::")
KEYS = ("SymmetricKey", "Secret", "R25519PrivateKey")
PASS = re.compile(r"^(as_|to_|into|from|try_|deref|borrow|clone|cloned|copied|iter|collect|map|unwrap|expect|ok|err|concat|join|encode|get|index|new|format|"
                  r"slice|split|chunks|first|last|take|skip|rev|chain|zip|enumerate|next|copy|default_|leak|read|write|lossy|utf8|hex|display|must_use|inspect|and_then|wrapping|iter_mut|escape_ascii|concat|repeat)")
STOP = ("tokenize", "derive_keys", "encrypt", "finalize", "prepare", "resolve", "kdf", "derive")
INTO = ("copy_from_slice", "clone_from_slice", "extend", "extend_from_slice", "push_str", "push", "append", "insert", "update_with", "write_all", "write_fmt", "write_str", "copy_within", "swap_with_slice", "clone_from", "copy_nonoverlapping")


class Types:
    """Which types hold keys or seeds, and which are plain bytes."""

    def __init__(self, P):
        self.P, self.memo = P, {}
        self.wiped = {P.types[im["self"]].get("adt") for im in P.impls if (im.get("trait") or "").split("<")[0].endswith("ZeroizeOnDrop")}

    def secret(self, i, d=0):
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = False
        r = self.memo[i] = self.secret_(self.P.types[i], d)
        return r

    def secret_(self, t, d):
        k = t["k"]
        if d > 8:
            return False
        if k in ("ref", "ptr", "array", "slice"):
            return self.secret(t["t"], d + 1)
        if k == "tuple":
            return any(self.secret(x, d + 1) for x in t["ts"])
        if k == "alias":
            return t["def"].split("::")[-1] in ("Seed", "Key")
        if k == "adt":
            n = t["adt"]
            if n.split("::")[-1] in KEYS or n in self.wiped:
                return True
            a = self.P.adts.get(n)
            if a and a.get("local"):
                return any(self.secret(f["t"], d + 1) for v in a["variants"] for f in v["f"] if not self.table(f["t"]))
            if STD.match(n) or n.startswith("zeroize"):
                return any("t" in x and self.secret(x["t"], d + 1) for x in t.get("args", []))
        return False

    def table(self, i):
        return self.P.types[i]["k"] == "param"

    def bytes(self, i, d=0):
        """Text or bytes, owned or borrowed, maybe within a standard container or iterator."""
        t = self.P.types[i]
        k = t["k"]
        if d > 8:
            return False
        if k == "str":
            return True
        if k == "prim":
            return t["s"] == "u8" and d > 0
        if k in ("ref", "ptr", "array", "slice"):
            return self.bytes(t["t"], d + 1)
        if k == "tuple":
            return any(self.bytes(x, d + 1) for x in t["ts"])
        if k == "adt":
            n = t["adt"]
            if n.endswith("::String"):
                return True
            a = self.P.adts.get(n)
            if a and a.get("local"):
                return False
            return bool(STD.match(n)) and any("t" in x and self.bytes(x["t"], d + 1) for x in t.get("args", []))
        if k == "closure":
            return False
        return False

    def owned(self, i):
        t = self.P.types[i]
        if t["k"] == "array":
            return self.bytes(i)
        if t["k"] == "adt" and t["adt"].split("::")[-1] in ("Vec", "String", "Box", "Cow", "VecDeque", "Arc", "Rc"):
            return self.bytes(i)
        return False


def places(x):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] in ("cp", "mv"):
            yield x[1]
        elif len(x) == 3 and x[0] == "ref":
            yield x[2]
        else:
            for y in x:
                if isinstance(y, (list, tuple)):
                    yield from places(y)


class Taint:
    """Locals of a body which hold bytes of keys or seeds (flow-insensitive)."""

    def __init__(self, T, body, captured=(), params=(), rets=()):
        self.T, self.b = T, body
        P = T.P
        self.locals = body["locals"]
        self.hot = {}
        self.origin = {}
        for n, l in enumerate(self.locals):
            if T.secret(l["t"]):
                self.hot[n] = "secret"
        self.captured = set(captured)
        for n in params:
            if n not in self.hot:
                self.hot[n] = "bytes"
        todo = True
        while todo:
            todo = False
            for bl in body["blocks"]:
                if bl["cleanup"]:
                    continue
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    d = s[1]
                    src = [p for p in places(s[2])]
                    if s[2][0] == "ref" and d[0] not in self.origin:
                        self.origin[d[0]] = s[2][2][0]
                        todo = True
                    elif s[2][0] in ("use", "cast") and src and d[0] not in self.origin:
                        self.origin[d[0]] = src[0][0]
                        todo = True
                    if s[2][0] in ("discr", "bin", "un", "len"):
                        continue
                    if any(self.tainted(p) for p in src) and self.carries(d):
                        todo |= self.heat(d[0])
                t = bl["t"]
                if t["k"] != "call":
                    continue
                n = name(t)
                args = [p for p in places(t["a"])]
                if t.get("d") is not None and args and d_ref(P, self.locals, t["d"]) and t["d"][0] not in self.origin:
                    self.origin[t["d"][0]] = args[0][0]
                    todo = True
                hot = [p for p in args if self.tainted(p)]
                if not hot:
                    continue
                if n in INTO:
                    if any(self.tainted(p) for p in args[1:]):
                        todo |= self.heat_base(args[0][0])
                    continue
                if callee(t) in rets and self.carries(t["d"]):
                    todo |= self.heat(t["d"][0])
                if n in STOP or local(t) or not PASS.match(n):
                    continue
                if self.carries(t["d"]):
                    todo |= self.heat(t["d"][0])
                # what is written through a reference of bytes lands in its referent

    def carries(self, place):
        """Can the place written hold bytes (or references to them)?"""
        t = self.locals[place[0]]["t"]
        return self.T.bytes(t) or self.T.secret(t)

    def heat(self, n):
        if n in self.hot:
            return False
        self.hot[n] = "bytes"
        return True

    def heat_base(self, n):
        r, seen = False, set()
        while n is not None and n not in seen:
            seen.add(n)
            if self.carries([n, []]):
                r |= self.heat(n)
            n = self.origin.get(n)
        return r

    def tainted(self, place):
        n = place[0]
        if n == 1 and place[1] and self.captured:
            for e in place[1]:
                if e[0] == "f" and e[1] in self.captured:
                    return True
        if n not in self.hot:
            return False
        if self.hot[n] == "bytes":
            return True
        return self.proj(place)

    def proj(self, place):
        """Is the part of a local holding a secret a secret too?"""
        P = self.T.P
        i = self.locals[place[0]]["t"]
        for e in place[1]:
            t = P.types[i]
            if e[0] == "*":
                i = t["t"] if "t" in t else None
            elif e[0] == "f":
                if t["k"] == "tuple":
                    i = t["ts"][e[1]]
                elif t["k"] == "adt":
                    a = P.adts.get(t["adt"])
                    if not a or not a.get("local"):
                        return True
                    i = None
                    for v in a["variants"]:
                        for f in v["f"]:
                            if f["n"] == e[3]:
                                i = f["t"]
                    if t["adt"] in self.T.wiped:
                        return True
                else:
                    return True
            elif e[0] == "d":
                continue
            else:
                return True
            if i is None:
                return True
        return self.T.secret(i)


def d_ref(P, locals_, place):
    return P.types[locals_[place[0]]["t"]]["k"] in ("ref", "ptr")


def fn(t):
    f = t["f"]
    return f[1].get("fn", {}) if f[0] == "c" else {}


def name(t):
    f = fn(t)
    return f.get("method") or f.get("path", "").split("::")[-1]


def local(t):
    r = fn(t).get("res") or {}
    return "key" in r and not r.get("derived") or "key" in fn(t) and not fn(t).get("trait")


def callee(t):
    f = fn(t)
    r = f.get("res") or {}
    return r.get("key") or (f.get("key") if not f.get("trait") else None)

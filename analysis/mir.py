"""Loader and pretty printer for the MIR dump written by /verif/driver."""
import json, re


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        m = d["main"]
        self.crate = m["crate"]
        self.types = m["types"]
        self.adts = m["adts"]
        self.files = m["files"]
        self.skipped = m["skipped"]
        self.impls = m["impls"]
        self.consts = m["consts"]
        self.bodies = {b["key"]: b for b in m["bodies"]}
        self.witnesses = {w["key"]: w for w in d["post"]["witnesses"]}
        self.post_files = d["post"]["files"]
        self.lengths = {}
        self.tables = {}
        for x, n in (("ET", "ENTRY_LENGTH"), ("CT", "LINK_LENGTH")):
            c = self.constint(n)
            self.tables[n] = x
            if c is not None:
                self.lengths[x] = c
                self.tables[str(c)] = x
        self.children = {}
        for b in self.bodies.values():
            p = b.get("parent")
            if p:
                self.children.setdefault(p, []).append(b["key"])

    def constint(self, name):
        for c in self.consts:
            if c["key"].endswith("::" + name) and "int" in c:
                return int(c["int"])
        return None

    # ---- types -------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def adt_of(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["t"]]
        return t.get("adt")

    def loc(self, sp):
        if not sp:
            return "?"
        return "%s:%d" % (self.files[sp[0]], sp[1])

    # ---- printing ----------------------------------------------------------
    def pplace(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            k = e[0]
            if k == "*":
                s = "(*%s)" % s
            elif k == "f":
                s = "%s.%s" % (s, e[3]) + ("!" if e[2] else "")
            elif k == "d":
                s = "(%s as %s)" % (s, e[2])
            elif k == "i":
                s = "%s[_%d]" % (s, e[1])
            else:
                s = "%s<%s>" % (s, ",".join(map(str, e)))
        return s

    def pfn(self, f):
        s = f["path"]
        if "trait" in f and "self" in f:
            s = "<%s as %s>::%s" % (self.tystr(f["self"]), f["trait"], f["method"])
        r = f.get("res")
        if r:
            if "key" in r:
                s += " => " + r["key"]
            elif r["path"] != f["path"]:
                s += " -> " + r["path"]
            if r["nested"]:
                s += " N" + ";".join(self.pnest(n) for n in r["nested"])
        return s

    def pnest(self, n):
        if "impl" in n:
            return "%s:%s" % (n["trait"].split("::")[-1], n["impl"])
        return "%s via(%s)" % (n["trait"].split("::")[-1], ",".join(self.pnest(x) for x in n["nested"]))

    def pop(self, o):
        if o[0] == "cp":
            return self.pplace(o[1])
        if o[0] == "mv":
            return "move " + self.pplace(o[1])
        if o[0] == "c":
            c = o[1]
            if "fn" in c:
                return "fn{" + self.pfn(c["fn"]) + "}"
            for k in ("int", "param", "item"):
                if k in c:
                    return "const %s" % c[k]
            if "bytes" in c:
                try:
                    return "const b%r" % bytes(c["bytes"])
                except ValueError:
                    return "const bytes"
            return "const " + self.tystr(c["ty"])
        return str(o)

    def prv(self, r):
        k = r[0]
        if k == "use":
            return self.pop(r[1])
        if k == "ref":
            return "&%s %s" % (r[1], self.pplace(r[2]))
        if k == "agg":
            return "%s(%s)" % (r[1], ", ".join(self.pop(x) for x in r[2]))
        if k == "bin":
            return "%s(%s, %s)" % (r[1], self.pop(r[2]), self.pop(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], self.pop(r[2]))
        if k == "discr":
            return "discr(%s)" % self.pplace(r[1])
        if k == "cast":
            return "cast[%s](%s)" % (r[1], self.pop(r[2]))
        if k == "rep":
            return "[%s; %s]" % (self.pop(r[1]), r[2])
        return str(r)

    def show(self, key):
        b = self.bodies[key]
        out = ["fn %s  [%s] %s" % (b["key"], b["kind"], self.loc(b["span"]))]
        for i, l in enumerate(b["locals"]):
            out.append("  let _%d%s: %s" % (i, " (%s)" % l["n"] if "n" in l else "", self.tystr(l["t"])))
        for n, p in b["dbg"]:
            out.append("  dbg %s = %s" % (n, self.pplace(p)))
        for i, bl in enumerate(b["blocks"]):
            if bl["cleanup"]:
                continue
            out.append(" bb%d:" % i)
            for s in bl["s"]:
                if s[0] == "=":
                    out.append("    %s = %s" % (self.pplace(s[1]), self.prv(s[2])))
                elif s[0] in ("dead", "live"):
                    pass
                else:
                    out.append("    %s" % s)
            t = bl["t"]
            k = t["k"]
            if k == "call":
                x = "%s = call %s(%s) -> %s" % (self.pplace(t["d"]), self.pop(t["f"]), ", ".join(self.pop(a) for a in t["a"]), t["t"])
            elif k == "switch":
                x = "switch %s %s else %s" % (self.pop(t["op"]), t["v"], t["o"])
            elif k == "drop":
                x = "drop %s -> %s" % (self.pplace(t["p"]), t["t"])
            elif k == "assert":
                x = "assert %s == %s (%s) -> %s" % (self.pop(t["c"]), t["e"], t["m"][0], t["t"])
            else:
                x = "%s %s" % (k, t.get("t", ""))
            out.append("    %s   @%s" % (x, self.loc(bl["sp"])))
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    if len(sys.argv) == 2:
        for k, b in sorted(p.bodies.items()):
            print(k, b["kind"], b["path"])
    else:
        for k in sorted(p.bodies):
            if sys.argv[2] in k or sys.argv[2] in p.bodies[k]["path"]:
                print(p.show(k))

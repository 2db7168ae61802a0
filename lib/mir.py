"""Loaded MIR dumps: bodies, types, ADTs, item inventory; and a pretty printer."""


class Crate:
    def __init__(self, name, d):
        self.name = name
        self.dump = d
        self.fns = d["fns"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.items = d["items"]["fns"]
        self.impls = d["items"]["impls"]
        for k, f in self.fns.items():
            f["key"] = k
            f["_c"] = self
            f["_loops"] = None

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    # ---- inventory -----------------------------------------------------
    def self_name(self, it):
        if "self" not in it:
            return None
        return head_name(self.ts(it["self"]))

    def find(self, name, selfty=None, trait=None, local=True, module=None, selfre=None):
        """items.fns by function name, head name of Self and trait path suffix"""
        out = []
        for it in self.items:
            if it["name"] != name:
                continue
            if selfty is not None and self.self_name(it) != selfty:
                continue
            t = it.get("trait") or it.get("deftrait")
            if trait is None:
                if it.get("trait") and selfty is not None and trait != "":
                    pass
            if trait == "":
                if t:
                    continue
            elif trait is not None:
                if not t or head_name(t) != trait:
                    continue
            if module is not None and module not in it["path"]:
                continue
            out.append(it)
        return out


def head_name(s):
    """last path segment of the head of a type string: `&'a foo::Bar<T>` -> `Bar`"""
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    depth = 0
    out = []
    was = ""
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= was != "-"
        elif depth == 0:
            out.append(ch)
        was = ch
    s = "".join(out)
    return s.split("::")[-1].strip()


# ---- pretty printer ------------------------------------------------------
def pplace(c, p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "d":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "v":
            s += "@%d" % e[1]
        else:
            s += str(e)
    return s


def pconst(c, k):
    if "fn" in k:
        return "fn " + k["fn"]["path"]
    if "v" in k:
        v = k["v"]
        return str(v)[:80]
    return "const(%s%s)" % (c.ts(k["t"])[:40], " body %s" % k["body"] if "body" in k else "")


def pop(c, o):
    if o[0] == "k":
        return pconst(c, o[1])
    return ("move " if o[0] == "m" else "") + pplace(c, o[1])


def prv(c, r):
    k = r[0]
    if k == "use":
        return pop(c, r[1])
    if k == "ref":
        return "&%s %s" % (r[1], pplace(c, r[2]))
    if k == "reb":
        return "reb " + str(r[1:])
    if k == "cast":
        return "cast %s %s -> %s" % (r[1], pop(c, r[2]), c.ts(r[4])[:40])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], pop(c, r[2]), pop(c, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], pop(c, r[2]))
    if k == "discr":
        return "discr %s" % pplace(c, r[1])
    if k == "agg":
        return "agg %s [%s]" % (r[1], ", ".join(pop(c, x) for x in r[2]))
    return str(r)


def pfn(f):
    c = f["_c"]
    out = ["== %s [%s] key %s argc %s targs %s parent %s" % (f["name"], f["kind"], f["key"], f["argc"], [c.ts(t)[:40] if isinstance(t, int) else t for t in f.get("targs", [])], f.get("parent"))]
    for i, l in enumerate(f["locals"]):
        out.append("  _%d: %s %s" % (i, c.ts(l["t"])[:90], l.get("n", "")))
    for bi, b in enumerate(f["blocks"]):
        if not b:
            continue
        out.append(" bb%d:" % bi)
        for s in b[0]:
            if s[0] == "a":
                out.append("    %s = %s" % (pplace(c, s[1]), prv(c, s[2])))
            else:
                out.append("    " + str(s))
        t = b[1]
        if t[0] == "call":
            fn = t[1]
            if fn[0] == "k" and "fn" in fn[1]:
                x = fn[1]["fn"]
                nm = x["path"] + (" res=%s" % x["res"] if "res" in x else "") + " " + str(x.get("reskind")) + (" key=%s" % x["key"] if "key" in x else "") + (" default=%s" % x["default"] if "default" in x else "") + (" self=" + c.ts(x["self"])[:50] if "self" in x else "") + " targs=" + str([c.ts(a)[:30] if isinstance(a, int) else a for a in x.get("targs", [])])
            else:
                nm = pop(c, fn)
            out.append("    %s = call %s (%s) -> %s" % (pplace(c, t[3]), nm, ", ".join(pop(c, a) for a in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (pop(c, t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("    drop %s -> %s" % (pplace(c, t[1]), t[2]))
        else:
            out.append("    " + str(t)[:300])
    return "\n".join(out)


def load(dumps):
    return {n: Crate(n, d) for n, d in dumps.items()}


if __name__ == "__main__":
    import json, sys, os
    B = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build/dump/")
    P = load({n: json.load(open(B + n + ".json")) for n in ["ucan", "ucan_key_support"]})
    pat = sys.argv[1]
    for c in P.values():
        for k, f in c.fns.items():
            if f["name"].endswith(pat) or f["full"].endswith(pat) or k == pat:
                print(pfn(f))
                print()

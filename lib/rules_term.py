"""C35: loops and recursion."""
from rule import *
from terms import *
from engine import Budget
from rules_token import rule
from rules_api import entries, visitors, drained, unconstrained, heavy

ENDLESS = ("repeat", "cycle", "successors", "from_fn", "repeat_with", "iterate")


def endless(d):
    """the domain of iteration contains an iterator without end"""
    for t in subterms((d,)):
        if t.k == "inf" or t.k == "call" and t.a[0].split("<")[0].split("::")[-1] in ENDLESS:
            return True
    return False


def shrunk(x, h):
    """x is h without at least one of its elements"""
    gone = False
    while True:
        if x is h:
            return gone
        if x.k == "poprest":
            gone = True
            x = x.a[0]
        elif x.k in ("updel", "updall"):
            x = x.a[0]
        elif x.k == "coll" and len(x.a[1]) == 1 and isinstance(x.a[1][0], tuple) and x.a[1][0][0] == "all":
            x = x.a[1][0][1]
        else:
            return False


def ends(e, info):
    """why the loop ends, or None"""
    d = info.get("dom")
    if not info["alts"]:
        return "it runs once"
    if d is not None and not (d.k == "dom" and d.a[0] == "unknown"):
        return None if endless(d) else "it runs over %s" % show(d)[:60]
    for pid, (k, base, head) in info["pos"].items():
        vals = [e.get_at(st.cells.get(pid[0]), pid) for f, st in info["alts"]]
        if all(shrunk(v, head) for v in vals):
            return "each round takes an element from a list and adds none"
    for names in (("MapAccess::next_key", "MapAccess::next_entry", "SeqAccess::next_element"),):
        if all(any(t.k == "call" and t.a[0] in names and vs == frozenset(["Ok"]) for f in fs if f[0] == "var" for t, vs in ((f[1], f[2]),)) for fs, st in info["alts"]):
            return "each round consumes an entry of the input"
    return None


def smaller(R, inner, outer, cited):
    """the inner call is about a strict part of what the outer one is about, or about a token the outer one cites"""
    for a, b in zip(inner, outer):
        if a.k == "cor" and b.k == "cor":
            if smaller(R, [x for x in a.a[2]], [x for x in b.a[2]], cited):
                return True
            continue
        if a is b:
            continue
        if part_of(a, b):
            return True
        for t in subterms((a,)):
            c = elem_of(t)
            # (also of a list made of its citations)
            if c is not None and any(cited(y) and any(x is b for x in subterms((y,))) for y in subterms((c,))):
                return True
    return False


def elem_of(t):
    return t.a[0] if t.k in ("at", "elem", "idx0", "mval") else None


def part_of(a, b):
    """a is strictly inside b"""
    n = False
    while a is not b:
        if a.k in ("fld", "at", "elem", "mval") and isinstance(a.a[0], T):
            a, n = a.a[0], True
        else:
            return False
    return n


@rule("C35")
def c35(R):
    """every loop and every re-entry met while running each reachable function on unconstrained arguments"""
    u = S("?")
    prf = proj_field(R.pf(u, "prf"), "Some", "0")

    def cited(c):
        x, y = c, prf
        while y is not u:
            if x.k != y.k or x.k != "fld" or x.a[1:] != y.a[1:]:
                return False
            x, y = x.a[0], y.a[0]
        return True

    nl = nr = 0
    seen = set()
    for c, it, fn in list(entries(R)) + list(visitors(R)):
        R.now = fn
        st, args = unconstrained(c, it)
        w = R.where(fn)

        def fresh(b):
            e = R.engine(None, b)
            e.recs = []
            return e
        try:
            e = fresh(60000)
            drained(R, R.run(fn, args, st=st.copy(), eng=e))
        except Budget:
            e = fresh(600000)
            drained(R, R.run(fn, args, [x for x in heavy(R) if x[1] != "ProofChain::from_ucan"], st=st.copy(), eng=e))
        bad = {}
        for L, info in e.loops.items():
            nl += 1
            why = ends(e, info)
            if why is None:
                bad.setdefault(info["fn"], []).append(show(info.get("dom"))[:80] if info.get("dom") is not None else "no bound found")
        for f, outer, inner, s in e.recs:
            nr += 1
            if not smaller(R, inner, outer, cited):
                bad.setdefault(f["name"], []).append("calls itself with %s" % ", ".join(kt(x) for x in inner))
            seen.add(f["name"].split("::{closure")[0])
        R.ob("ends: %s" % it["path"], not bad, "%s may not end: %s" % (w, "; ".join("%s: %s" % (k, v[0]) for k, v in sorted(bad.items()))))
    R.ob("loops and re-entries were found", nl >= 8 and nr >= 2, "%d loops, %d re-entries" % (nl, nr))
    R.notes.append("%d loop instances, %d re-entries (%s)" % (nl, nr, ", ".join(sorted(seen))))

"""Reduction: C12, C13"""
from rule import *
from match import *
from engine import proj_index
from emit import emit, nest, in_range, assume, siblings, Unknown
from rules_token import rule, RULES
from rules_chain import Chain
from rules_cap import truth

ENABLES = "CapabilityView::enables"
FIELDS = ("originators", "not_before", "expires_at", "capability")


def F(x, n):
    return proj_field(x, "", n)


class Reduction(object):
    def __init__(self, R):
        self.R = R
        self.C = Chain(R)
        self.chain, self.sem = S("chain"), S("semantics")
        self.fn = R.P.fn("reduce_capabilities", "ProofChain")
        self.w = R.where(self.fn)
        self.ucan = self.C.get(self.chain, "ucan")
        self.proofs = self.C.get(self.chain, "proofs")
        self.redel = self.C.get(self.chain, "redelegations")
        self.caps = call("Capabilities::iter", R.pf(self.ucan, "cap"))
        self.iss, self.nbf, self.exp = (R.pf(self.ucan, n) for n in ("iss", "nbf", "exp"))
        self.rets = R.run(self.fn, [self.chain, self.sem], [R.cut("Capabilities::iter"), R.cut(ENABLES)])
        self.eng = R.last

    def reduced(self, p):
        return call("ProofChain::reduce_capabilities", p, self.sem)

    def enables(self, st, a, b):
        return truth(st, call(ENABLES, a, b))

    def is_redel(self, st, i):
        return truth(st, call("contains", self.redel, i))

    # ---- the merge loop ------------------------------------------------------
    def merge(self, v):
        """(L, info, position of the worklist, pool, star) when v is what a worklist loop kept"""
        segs = segs_of(v)
        if len(segs) == 1 and segs[0][0] == "star" and segs[0][2].k == "dom" and segs[0][2].a[0] == "unknown":
            L = segs[0][1]
            info = self.eng.loops.get(L)
            for pid, (k, b, h) in (info or {}).get("pos", {}).items():
                if k == "phi" and (b.k == "coll" or b.k == "arr") and contains(segs[0], lambda t: t.k == "popped" and t.a[0] is h):
                    return L, info, pid, b, segs[0]
        return None

    # ---- what the pool holds -----------------------------------------------------
    def entries(self, pool):
        """[(kind, loops, state, element)]"""
        out = []
        for loops, s, x in emit(segs_of(pool)):
            if loops and loops[0][0] is self.caps:
                out.append(("claim", loops, s, x))
            elif loops and loops[0][0] in (self.redel, self.proofs):
                out.append(("redel", loops, s, x))
            else:
                out.append(("other", loops, s, x))
        return out

    def parsed(self, loops):
        return call("CapabilitySemantics::parse_capability", self.sem, proj_index(self.caps, loops[0][1]))

    def proof_of(self, s, loops):
        """(the proof visited, known to be redelegated: True/False/None)"""
        c, ix = loops[0]
        if c is self.redel:
            return proj_index(self.proofs, proj_index(self.redel, ix)), True
        return proj_index(self.proofs, ix), self.is_redel(s, ix)


def pool_of(r, v):
    m = r.merge(v)
    return m[3] if m is not None else v


@rule("C12")
def c12(R):
    r = Reduction(R)
    w = r.w
    nclaim = nredel = 0
    for st, v in r.rets:
        m = r.merge(v)
        pool = m[3] if m else v
        if m:
            check_merge(R, r, st, m)
        R.ob("the pool is a sequence", pool.k in ("coll", "arr"), "%s: the result is %s" % (w, kt(pool)))
        R.ob("each source contributes one at a time", not siblings(segs_of(pool)), "%s reports several capabilities for one" % w)
        seen = set()
        for kind, loops, s, x in r.entries(pool):
            seen.add(kind)
            if kind == "other" or x is Unknown or isinstance(x, tuple):
                R.ob("every reported capability is claimed or redelegated", False, "%s reports %s from %s" % (w, kt(x) if isinstance(x, T) else x, ", ".join(kt(d) for d, _ in loops)))
                continue
            if kind == "claim":
                p = r.parsed(loops)
                if x is None:
                    R.ob("only capabilities not understood are passed over", is_variant(s, p, "None"), "%s passes over a claimed capability that may be understood; path: %s" % (w, R.short(s, 700)))
                    continue
                nclaim += 1
                R.ob("a claim is reported as the semantics understands it", len(loops) == 1 and is_variant(s, p, "Some") and F(x, "capability") is proj_field(p, "Some", "0"), "%s reports %s for a claim" % (w, kt(F(x, "capability"))))
            else:
                p, known = r.proof_of(s, loops)
                red = r.reduced(p)
                if x is None:
                    g = known is False or (len(loops) == 1 and s.ival(length(red)) == (0, 0))
                    # that every redelegation is the index of a proof is proved on the constructor (C08, C26)
                    g = g or (loops[0][0] is r.redel and "<" not in s.possible(proj_index(r.redel, loops[0][1]), length(r.proofs)))
                    R.ob("nothing a redelegated proof reports is left out", g, "%s leaves out what a redelegated proof may report; path: %s" % (w, R.short(s, 700)))
                    continue
                nredel += 1
                R.ob("only redelegated proofs report through", known is True, "%s reports the capabilities of a proof not known to be redelegated; path: %s" % (w, R.short(s, 700)))
                g = len(loops) == 2 and loops[1][0] is red and F(x, "capability") is F(proj_index(red, loops[1][1]), "capability")
                R.ob("a redelegated capability is reported as the proof reports it", g, "%s reports %s" % (w, kt(x)))
            R.ob("reported not-before is the token's own", F(x, "not_before") is r.nbf, "%s reports the not-before %s" % (w, kt(F(x, "not_before"))))
            R.ob("reported expiry is the token's own", F(x, "expires_at") is r.exp, "%s reports the expiry %s" % (w, kt(F(x, "expires_at"))))
        R.ob("claims are reported", "claim" in seen, "%s: on some path the claimed capabilities are not looked at; path: %s" % (w, R.short(st, 300)))
        R.ob("redelegated proofs are reported", "redel" in seen or st.ival(length(r.proofs)) == (0, 0) or st.ival(length(r.redel)) == (0, 0), "%s: on some path the redelegated proofs are not looked at; path: %s" % (w, R.short(st, 300)))
        R.ob("each source once", len([s for s in segs_of(pool)]) <= 2, "%s: the pool has %d parts" % (w, len(segs_of(pool))))
    R.ob("claims and redelegations examined", nclaim >= 1 and nredel >= 1, "%s: %d/%d" % (w, nclaim, nredel))


def taken(h, star):
    """the element that is taken from the worklist h (from whichever end), and what is left of it"""
    for t in subterms((star,)):
        if t.k == "popped" and t.a[0] is h:
            return t, mk("poprest", *t.a)
    return mk("popped", h), mk("poprest", h)


def check_merge(R, r, st, m):
    L, info, pid, pool, star = m
    w = r.w
    k, b, h = info["pos"][pid]
    x, rest = taken(h, star)
    empty_at_end = any(t.k == "acc" and t.a[0] == L and st.ival(length(t)) == (0, 0) for t in subterms(tuple(st.iv)))
    R.ob("merging ends only when nothing is left", empty_at_end, "%s stops merging while capabilities may be left; path: %s" % (w, R.short(st, 300)))
    # contribution and worklist of every iteration
    for f, c in info["alts"]:
        s = assume(St(), f)
        if s is None:
            continue
        nxt = r.eng.get_at(c.cells.get(pid[0], h), pid)
        kept = None
        for f2, g in star[3]:
            if f2 == f:
                kept = g
        if kept is None:
            R.ob("merging understood", False, "%s: an iteration of the merge loop could not be matched" % w)
            continue
        if nxt is h:
            R.ob("merging takes one capability at a time", False, "%s: the worklist does not shrink; path: %s" % (w, R.short(s, 300)))
            continue
        good, grown = worklist(r, s, nxt, rest, x)
        R.ob("the rest of the worklist stays as it is, but for shared originators", good, "%s changes the remaining capabilities to %s; path: %s" % (w, show(nxt, 5)[:300], R.short(s, 500)))
        if kept:
            y = kept[0][1] if len(kept) == 1 and kept[0][0] == "one" else None
            same = y is not None and all(F(y, n) is F(x, n) for n in FIELDS)
            R.ob("what is kept is kept unchanged", same, "%s keeps %s" % (w, ", ".join(show_seg(g)[:200] for g in kept)))
            continue
        R.ob("left out only for another that enables it and has all its originators", covered(r, s, rest, x, grown), "%s drops a capability without a remaining one that enables it and has all of its originators; path: %s" % (w, R.short(s, 900)))


def worklist(r, s, nxt, rest, x):
    """(acceptable, [(kept item, its originators grew by x's)])"""
    if nxt is rest:
        return True, []
    if nxt.k == "updel" and nxt.a[0] is rest:
        i, new = nxt.a[1], nxt.a[2]
        old = proj_index(rest, i)
        if not all(F(new, n) is F(old, n) for n in FIELDS if n != "originators"):
            return False, []
        o = F(new, "originators")
        if o is F(old, "originators"):
            return True, []
        want = [("all", F(old, "originators")), ("all", F(x, "originators"))]
        if sorted(map(repr, segs_of(o))) != sorted(map(repr, want)):
            return False, []
        # crediting what it already has changes nothing
        return r.enables(s, F(x, "capability"), F(old, "capability")) is True or subset(s, x, old), [old]
    return False, []


def subset(s, x, y):
    x, y = F(x, "originators"), F(y, "originators")
    return truth(s, call("is_subset", x, y)) is True or truth(s, call("is_superset", y, x)) is True


def covered(r, s, rest, x, grown):
    cands = {t for t in subterms(tuple(s.bl) + tuple(s.rel) + tuple(grown)) if t.k == "at" and t.a[0] is rest}
    for y in cands:
        if r.enables(s, F(y, "capability"), F(x, "capability")) is not True or "<" != s.possible(y.a[1], length(rest)):
            continue
        if y in grown or subset(s, x, y):
            return True
    return False


# ---- C13 ----------------------------------------------------------------------------------
def contributions(r, o, st):
    """[(loops, state, 'issuer' | item | None | Unknown)] -- whose originators o is made of"""
    out = []
    if o.k == "acc":
        L, pid, base, ch = o.a
        out += contributions(r, base, st)
        h = mk("phi", L, pid)
        dom = (r.eng.loops.get(L) or {}).get("dom")
        if dom is None:
            return out + [((), st, Unknown)]
        for nl, nf, _ in nest(dom, L, 0):
            s0 = assume(st, nf)
            s0 = in_range(s0, nl) if s0 is not None else None
            if s0 is None:
                continue
            for f, v in ch:
                s = assume(s0, f)
                if s is None:
                    continue
                if v is h:
                    out.append((nl, s, None))
                    continue
                segs = list(segs_of(v))
                if ("all", h) not in segs:
                    out.append((nl, s, Unknown))
                    continue
                segs.remove(("all", h))
                out += [(nl + l, s3, x) for l, s3, x in of_segs(r, segs, s)]
        return out
    return of_segs(r, segs_of(o), st) if o.k in ("coll", "arr") else [((), st, whose(r, o))]


def whose(r, t):
    if t.k == "fld" and t.a[2] == "originators":
        return t.a[0]
    return Unknown


def of_segs(r, segs, st):
    out = []
    for g in segs:
        if g[0] == "one":
            out.append(((), st, "issuer" if g[1] is r.iss else Unknown))
        elif g[0] == "all":
            out += contributions(r, g[1], st) if g[1].k in ("acc", "coll", "arr") else [((), st, whose(r, g[1]))]
        elif g[0] == "star":
            for loops, s, x in emit((g,), st):
                if x is None:
                    out.append((loops, s, None))
                elif isinstance(x, T) and loops and loops[-1][0].k == "fld" and x is proj_index(loops[-1][0], loops[-1][1]):
                    out.append((loops[:-1], s, whose(r, loops[-1][0])))
                else:
                    out.append((loops, s, Unknown))
        else:
            out.append(((), st, Unknown))
    return out


def ancestor(r, s, loops, x):
    """x is what a non-redelegated proof reports"""
    if len(loops) != 2 or loops[0][0] is not r.proofs:
        return False
    i = loops[0][1]
    red = r.reduced(proj_index(r.proofs, i))
    return loops[1][0] is red and x is proj_index(red, loops[1][1]) and r.is_redel(s, i) is False


def irrelevant(r, s, loops, cap):
    """nothing was to be credited at this place"""
    if not loops or loops[0][0] is not r.proofs:
        return False
    i = loops[0][1]
    if r.is_redel(s, i) is True:
        return True
    red = r.reduced(proj_index(r.proofs, i))
    if len(loops) == 1:
        return s.ival(length(red)) == (0, 0)
    return loops[1][0] is red and r.enables(s, F(proj_index(red, loops[1][1]), "capability"), cap) is False


def none_enables(r, s, cap):
    """no non-redelegated proof provides an enabling capability, as far as s knows"""
    if s.ival(length(r.proofs)) == (0, 0):
        return True
    for b in s.big:
        if b[0] != "all":
            continue
        good = some = False
        for nl, nf, _ in nest(b[2], b[1], 0):
            s0 = assume(s, nf)
            s0 = in_range(s0, nl) if s0 is not None else None
            if s0 is None:
                continue
            for alt in b[3]:
                s1 = assume(s0, alt)
                if s1 is None:
                    continue
                some = True
                if not irrelevant(r, s1, nl, cap):
                    good = None
        if some and good is False:
            return True
    return False


@rule("C13")
def c13(R):
    r = Reduction(R)
    w = r.w
    own = credited = 0
    for st, v in r.rets:
        m = r.merge(v)
        if m:
            L, info, pid, pool, star = m
            h = info["pos"][pid][2]
            x, rest = taken(h, star)
            for f, c in info["alts"]:
                s = assume(St(), f)
                if s is None:
                    continue
                good, grown = worklist(r, s, r.eng.get_at(c.cells.get(pid[0], h), pid), rest, x)
                R.ob("merging credits only originators of a capability that enables the one kept", good, "%s changes the remaining capabilities without knowing that the dropped one enables them; path: %s" % (w, R.short(s, 900)))
                if any(f2 == f and not g for f2, g in star[3]):
                    R.ob("no originator is lost in merging", covered(r, s, rest, x, grown), "%s drops a capability without a remaining one that enables it and has all of its originators; path: %s" % (w, R.short(s, 900)))
            for f2, g in star[3]:
                for y in g:
                    R.ob("merging keeps originators as they are", y[0] == "one" and F(y[1], "originators") is F(x, "originators"), "%s keeps %s" % (w, show_seg(y)[:200]))
        else:
            pool = v
        for kind, loops, s, x in r.entries(pool):
            if x is None:
                continue
            if kind == "other" or x is Unknown or isinstance(x, tuple):
                R.ob("origin of a reported capability", False, "%s reports something of unknown origin" % w)
                continue
            s = assume(s, st.delta(St())) or s
            o = F(x, "originators")
            if kind == "redel":
                p, known = r.proof_of(s, loops)
                g = len(loops) == 2 and o is F(proj_index(r.reduced(p), loops[1][1]), "originators")
                R.ob("a redelegated capability keeps the originators its proof reports", g, "%s reports the originators %s" % (w, kt(o)))
                continue
            cap = F(x, "capability")
            cs = contributions(r, o, s)
            only_iss = True
            for nl, s2, y in cs:
                if y is None:
                    R.ob("originators of every enabling capability are reported", irrelevant(r, s2, nl, cap), "%s leaves out the originators of a capability that may enable the claim; path: %s" % (w, R.short(s2, 900)))
                elif y == "issuer":
                    own += 1
                    none = none_enables(r, s2, cap) or any(s2.ival(length(g)) == (0, 0) and exhaustive(r, g, s2, cap) for g in provided(o) + emptied(s2))
                    R.ob("the issuer is the originator only where no proof provides the capability", none, "%s credits the issuer although a proof may provide an enabling capability; path: %s" % (w, R.short(s2, 900)))
                elif y is Unknown:
                    R.ob("every originator comes from a proof or is the issuer", False, "%s reports originators %s" % (w, kt(o)))
                else:
                    only_iss = False
                    credited += 1
                    R.ob("only originators of non-redelegated proofs' capabilities are credited", ancestor(r, s2, nl, y), "%s credits the originators of %s; path: %s" % (w, kt(y), R.short(s2, 600)))
                    R.ob("only originators of capabilities that enable the claim are credited", r.enables(s2, F(y, "capability"), cap) is True, "%s credits the originators of a capability not known to enable the claim; path: %s" % (w, R.short(s2, 900)))
            if only_iss:
                R.ob("proofs are looked at", any(y == "issuer" for _, _, y in cs), "%s reports no originator" % w)
            else:
                some = any(g[0] == "one" for g in segs_of(o)) or s.ival(length(o))[0] >= 1
                R.ob("the set of originators is never empty", some, "%s may report no originator; path: %s" % (w, R.short(s, 600)))
    R.ob("claims with and without enabling proofs examined", own >= 1 and credited >= 1, "%s: %d/%d" % (w, own, credited))


def provided(o):
    """the part of a set of originators that is not the issuer"""
    out = [g[1] for g in segs_of(o) if g[0] == "all" and g[1].k == "acc"]
    rest = tuple(g for g in segs_of(o) if g[0] != "one")
    if o.k == "coll" and rest and len(rest) < len(segs_of(o)):
        out.append(coll(o.a[0], rest))
    return out


def emptied(s):
    """collections known to be empty"""
    return [t.a[0] for t, n in s.iv.items() if n == (0, 0) and t.k == "len" and t.a[0].k in ("coll", "acc")]


def exhaustive(r, acc, s, cap):
    """the accumulated set is empty only if nothing enables: everything enabling was added"""
    some = False
    for nl, s2, y in contributions(r, acc, s):
        if y is None and not irrelevant(r, s2, nl, cap):
            return False
        if y is Unknown or y == "issuer":
            return False
        some = some or (bool(nl) and nl[0][0] is r.proofs)
    return some

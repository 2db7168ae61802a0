"""What a collection built by loops consists of, loop nest by loop nest.

emit(segs) -> [(loops, state, element | None)]
  loops: ((collection, position), ...) outermost first; the collection is a `dom` term
         when not every element of it is visited in turn
  element None: this alternative contributes nothing"""
from terms import *
from engine import St, Subst, proj_index, length, rel
from iters import IdxMap, IDX


class Unknown(object):
    pass


def assume(st, facts):
    s = st.copy()
    for f in facts:
        if not s.assume(f):
            return None
    return s


def in_range(st, loops):
    s = st.copy()
    for c, ix in loops:
        if c.k == "dom":
            continue
        if not s.assume_bool(rel(ix, "<", length(c)), True) or not s.assume(("iv", ix, 0, 1 << 200)):
            return None
    return s


def nest(dom, L, d):
    """[(loops, facts, next depth)]"""
    k = dom.a[0] if dom.k == "dom" else None
    if k in ("all", "rev"):
        c = dom.a[1]
        if c.k == "coll" and c.a[0] == "vec" or c.k == "arr":
            return nest_segs(segs_of(c), L, d) or [((), (), d)]
        return [(((c, IDX(L, d)),), (), d + 1)]
    if k == "flat":
        out = []
        for l1, f1, d1 in nest(dom.a[1], L, d):
            for f, inner in dom.a[2]:
                for l2, f2, d2 in nest(inner, L, max(d + 1, d1)):
                    out.append((l1 + l2, f1 + tuple(f) + f2, d2))
        return out
    if k in ("opt", "none"):
        return [((), (), d + 1)]
    return [(((dom, IDX(L, d)),), (), d + 1)]


def nest_segs(segs, L, d):
    out = []
    for s in segs:
        if s[0] in ("one", "kv"):
            out.append(((), (), d))
        elif s[0] == "all":
            out.append((((s[1], IDX(L, d)),), (), d + 1))
        elif s[0] == "star":
            sb = Subst(tm=IdxMap(s[1], L, d))
            for l1, f1, d1 in nest(sb.any(s[2]), L, d):
                for f, g in s[3]:
                    f2 = tuple(sb.fact(x) for x in f)
                    if not g:
                        out.append((l1, f1 + f2, d1))
                    for l3, f3, d3 in nest_segs(tuple(sb.any(x) for x in g), L, d1):
                        out.append((l1 + l3, f1 + f2 + f3, d3))
        else:
            out.append((((mk("dom", "unknown", INT(L)), IDX(L, d)),), (), d + 1))
    return out


def emit(segs, st=None, loops=()):
    st = st if st is not None else St()
    out = []
    for s in segs:
        if s[0] == "one":
            out.append((loops, st, s[1]))
        elif s[0] == "kv":
            out.append((loops, st, ("kv", s[1], s[2])))
        elif s[0] == "all":
            ix = mk("idx", ("all", len(loops)))
            s2 = in_range(st, ((s[1], ix),))
            if s2 is not None:
                out.append((loops + ((s[1], ix),), s2, proj_index(s[1], ix)))
        elif s[0] == "star":
            for nl, nf, _ in nest(s[2], s[1], 0):
                s0 = assume(st, nf)
                s0 = in_range(s0, nl) if s0 is not None else None
                if s0 is None:
                    continue
                for f, g in s[3]:
                    s2 = assume(s0, f)
                    if s2 is None:
                        continue
                    if not g:
                        out.append((loops + nl, s2, None))
                    out.extend(emit(g, s2, loops + nl))
        else:
            out.append((loops, st, Unknown))
    return out


def siblings(segs):
    """some alternative of a loop contributes more than one thing"""
    for s in segs:
        if s[0] == "star":
            for f, g in s[3]:
                if len(g) > 1 or siblings(g):
                    return True
    return False

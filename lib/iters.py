"""Iterators: one abstract step, concrete or at a generic position of a loop."""
from terms import *
from engine import *
import mir

IDX = lambda L, d=0: mk("idx", (L,) if d == 0 else (L, d))


def split_bool(eng, st, t):
    """-> [(truth, state)] for a boolean term"""
    x = st.truth(t)
    if x is not None:
        return [(x, st)]
    a, b = st.copy(), st
    out = []
    if a.assume_bool(t, True):
        out.append((True, a))
    if b.assume_bool(t, False):
        out.append((False, b))
    return out


def split_var(eng, st, x, name):
    if x.k == "adt":
        if x.a[0] != name and x.a[0] in ("Option", "Result", "ControlFlow", "Poll"):
            raise Unsupported("%s where a %s is expected" % (x.a[0], name))
        return [(x.a[1], st)]
    while x.k == "with":
        x = x.a[0]
        if x.k == "adt":
            return [(x.a[1], st)]
    al = eng.allv(name)
    cur = st.var.get(x, al) & al
    out = []
    for v in sorted(cur):
        s = st.copy() if len(cur) > 1 else st
        if s.assume(("var", x, frozenset([v]))):
            out.append((v, s))
    return out


def split_opt(eng, st, x):
    """-> [(payload or None, state)]"""
    return [(proj_field(x, "Some", "0") if v == "Some" else None, s) for v, s in split_var(eng, st, x, "Option")]


# ---- making iterators ---------------------------------------------------------
def lst(items):
    return mk("it", "list", tuple(items))


EMPTY = mk("it", "empty")


def is_maptype(ty):
    h = mir.head_name(ty) if ty else ""
    return h in ("BTreeMap", "HashMap", "Map", "IndexMap")


def pairs(segs):
    return [tup(s[1], s[2]) for s in segs]


def distinct(segs):
    """no two of these entries of a map have the same key"""
    if len(segs) != 1:
        return False
    s = segs[0]
    if s[0] in ("all", "kv"):
        return True
    if s[0] != "star" or s[2].k != "dom" or s[2].a[0] != "all":
        return False
    return all(len(g) <= 1 and all(e[0] == "kv" and e[1] is mk("mkey", s[2].a[1], mk("idx", (s[1],))) for e in g) for f, g in s[3])


def ascending(segs):
    """the positions of a domain, or some of them, in order"""
    if len(segs) != 1 or segs[0][0] != "star":
        return False
    ix = mk("idx", (segs[0][1],))
    return segs[0][2].k == "dom" and segs[0][2].a[0] in ("all", "range") and all(len(g) <= 1 and all(e[0] == "one" and (e[1] is ix or e[1].k == "add" and e[1].a[0] is ix and e[1].a[1].k == "int") for e in g) for f, g in segs[0][3])


def setlike(v, ordered=False):
    """the elements of a set (map) as a sequence: not the ones put in, one by one -- some may be equal, and the order is the set's"""
    if v.k != "coll" or v.a[0] not in ("set", "map") or not v.a[1]:
        return v
    segs = v.a[1]
    if v.a[0] == "map":
        return v if distinct(segs) else mk("setof", v)
    if len(segs) == 1 and (segs[0][0] == "one" or segs[0][0] == "all" and is_set(segs[0][1]) or ordered and ascending(segs)):
        return v
    return mk("setof", v)


def to_iter(eng, st, v, ty=None, form=None):
    """iterator over value v of (printed) type ty"""
    if v.k == "it":
        return v
    if v.k != "ref" and ty and mir.head_name(ty) in ("BTreeSet", "HashSet") and v.k not in ("coll", "adt", "int"):
        SETTERMS.add(v.id)
    w = setlike(v, mir.head_name(ty or "") == "BTreeSet")
    if w is not v:
        return mk("it", "all", w, form or ("map" if v.a[0] == "map" else "val"), 0, None)
    if v.k == "ref":
        c = eng.deref(st, v)
        if c.k == "it":
            return mk("it", "byref", v)
        if setlike(c) is not c:
            return to_iter(eng, st, c, ty, form)
        if ty and mir.head_name(ty) in ("BTreeSet", "HashSet"):
            if c.k not in ("coll", "adt", "int"):
                SETTERMS.add(c.id)
        n = v
        while True:
            x = eng.rd(st, n.a[0], n.a[1])
            if x.k != "ref":
                break
            n = x
        if is_maptype(ty) or (c.k == "coll" and c.a[0] == "map"):
            return mk("it", "all", c, "mapmut", 0, n)
        k = concrete_len(c)
        if k is not None:
            return lst(mk("ref", n.a[0], n.a[1] + (("i", INT(i)),)) for i in range(k))
        return mk("it", "all", c, "mut", 0, n)
    if v.k == "adt":
        if v.a[0] in ("Range", "RangeInclusive"):
            lo, hi = v.a[3][0], add(v.a[3][1], INT(0 if v.a[0] == "Range" else 1))
            n = sub(hi, lo)
            if n.k == "int" and n.a[0] <= 4 and lo.k != "int":
                return lst(add(lo, INT(i)) for i in range(n.a[0]))
            return mk("it", "range", lo, hi)
        if v.a[0] == "RangeFrom":
            return mk("it", "range", v.a[3][0], mk("inf"))
        if v.a[0] in ("Option", "Result"):
            return lst(v.a[3] if v.a[1] in ("Some", "Ok") else ())
    h = mir.head_name(ty) if ty else ""
    if h in ("Option", "Result"):
        ok = "Some" if h == "Option" else "Ok"
        return mk("it", "opt", v, h, ok)
    if form is None:
        form = "map" if (is_maptype(ty) or (v.k == "coll" and v.a[0] == "map")) else "val"
    if v.k == "coll" or v.k == "arr":
        segs = segs_of(v)
        if all(s[0] == "one" for s in segs):
            return lst(s[1] for s in segs)
        if v.k == "coll" and v.a[0] == "map" and all(s[0] == "kv" for s in segs) and len(segs) <= 1:
            return lst(shape(form, s[1], s[2]) for s in segs)
        return mk("it", "segs", v, form)
    return mk("it", "all", v, form, 0, None)


def shape(form, k, v):
    return tup(k, v) if form == "map" else k if form == "keys" else v if form == "values" else k


def concrete_len(c):
    n = length(c)
    return n.a[0] if n.k == "int" and n.a[0] <= 16 else None


def element(eng, st, it, i):
    """element at position term i of an 'all' iterator"""
    c, form, start, r = it.a[1], it.a[2], it.a[3], it.a[4]
    j = add(i, INT(start))
    if form == "mut":
        return mk("ref", r.a[0], r.a[1] + (("i", j),))
    if form == "mapmut":
        k = mk("mkey", c, j)
        return tup(k, mk("ref", r.a[0], r.a[1] + (("key", k),)))
    if form == "map":
        return tup(mk("mkey", c, j), mk("mval", c, j))
    if form == "keys":
        return mk("mkey", c, j)
    if form == "values":
        return mk("mval", c, j)
    if form == "rev":
        return mk("at", mk("rev", c), j)
    return proj_index(c, j)


# ---- one step -------------------------------------------------------------------
# outcomes: ('item', st, it', x) ('none', st, it', None) ('skip', st, it', None) ('out', st, None, raw)
def step(eng, st, it):
    """concrete step"""
    k = it.a[0]
    if k == "empty":
        return [("none", st, it, None)]
    if k == "gen":
        return gen_step(eng, st, it)
    if k in ("genu",):
        # a second step within one iteration of a loop: outside what is modelled
        raise Unsupported("iterator advanced twice in one loop iteration")
    if k == "list":
        xs = it.a[1]
        if not xs:
            return [("none", st, EMPTY, None)]
        return [("item", st, lst(xs[1:]), xs[0])]
    if k == "opt":
        out = []
        for v, s in split_var(eng, st, it.a[1], it.a[2]):
            if v == it.a[3]:
                out.append(("item", s, EMPTY, proj_field(it.a[1], v, "0")))
            else:
                out.append(("none", s, EMPTY, None))
        return out
    if k == "all":
        c, n = it.a[1], it.a[3]
        out = []
        st.symn = True
        for t, s in split_bool(eng, st, rel(length(c), ">", INT(n))):
            if t:
                out.append(("item", s, mk("it", "all", c, it.a[2], n + 1, it.a[4]), element(eng, s, it, INT(0))))
            else:
                out.append(("none", s, EMPTY, None))
        return out
    if k == "segs":
        v, form = it.a[1], it.a[2]
        segs = v.a[1]
        if not segs:
            return [("none", st, EMPTY, None)]
        rest = mk("it", "segs", mk("coll", v.a[0], segs[1:]), form)
        s0 = segs[0]
        if s0[0] == "one":
            return [("item", st, rest, s0[1])]
        if s0[0] == "kv":
            return [("item", st, rest, shape(form, s0[1], s0[2]))]
        st.symn = True
        out = []
        for t, s in split_bool(eng, st, rel(length(v), ">", INT(0))):
            if t:
                out.append(("item", s, mk("it", "opaque", mk("tail", v)), mk("first", v)))
            else:
                out.append(("none", s, EMPTY, None))
        return out
    if k == "range":
        lo, hi = it.a[1], it.a[2]
        if hi.k == "inf":
            return [("item", st, mk("it", "range", add(lo, INT(1)), hi), lo)]
        out = []
        if not (lo.k == "int" and hi.k == "int"):
            st.symn = True
        for t, s in split_bool(eng, st, rel(lo, "<", hi)):
            if t:
                out.append(("item", s, mk("it", "range", add(lo, INT(1)), hi), lo))
            else:
                out.append(("none", s, EMPTY, None))
        return out
    if k == "byref":
        r = it.a[1]
        out = []
        for o in step(eng, st, eng.deref(st, r)):
            if o[0] in ("item", "none", "skip"):
                eng.store(o[1], r, o[2])
                out.append((o[0], o[1], it, o[3]))
            else:
                out.append(o)
        return out
    if k == "map":
        out = []
        for o in step(eng, st, it.a[1]):
            if o[0] == "item":
                out.extend(apply1(eng, o[1], it.a[2], [o[3]], lambda s, v, o=o: [("item", s, mk("it", "map", o[2], it.a[2]), v)]))
            else:
                out.append(rewrap(o, lambda i: mk("it", "map", i, it.a[2])))
        return out
    if k in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
        out = []
        work = [(st, it.a[1])]
        n = 0
        while work:
            n += 1
            s, inner = work.pop()
            if n > 3 and s.symn or n > 200:
                if eng.approx:
                    eng.approx_hit = True
                    break
                raise NeedWiden("filter does not settle")
            for o in step(eng, s, inner):
                if o[0] != "item":
                    out.append(rewrap(o, lambda i: mk("it", k, i, it.a[2])))
                    continue
                for o2 in pass_item(eng, o[1], k, it.a[2], o[3]):
                    if o2[0] == "yes":
                        nit = mk("it", k, o[2], it.a[2]) if k != "skip_while" else o[2]
                        out.append(("item", o2[1], nit, o2[2]))
                    elif o2[0] == "no":
                        work.append((o2[1], o[2]))
                    elif o2[0] == "stop":
                        out.append(("none", o2[1], EMPTY, None))
                    else:
                        out.append(("out", o2[1], None, o2))
        return out
    if k == "flat_map":
        inner, f, cur, ty = it.a[1:5]
        out = []
        work = [(st, inner, cur)]
        n = 0
        while work:
            n += 1
            s, inn, cu = work.pop()
            if n > 6 and s.symn or n > 200:
                if eng.approx:
                    eng.approx_hit = True
                    break
                raise NeedWiden("flat_map does not settle")
            if cu is not None:
                for o in step(eng, s, cu):
                    if o[0] == "item":
                        out.append(("item", o[1], mk("it", "flat_map", inn, f, o[2], ty), o[3]))
                    elif o[0] == "none":
                        work.append((o[1], inn, None))
                    else:
                        out.append(o)
                continue
            for o in step(eng, s, inn):
                if o[0] == "item":
                    for kind, s2, v in apply_flat(eng, o[1], f, o[3]):
                        if kind == "ret":
                            work.append((s2, o[2], to_iter(eng, s2, v, flat_ty(eng, f, ty))))
                        else:
                            out.append(("out", s2, None, (kind, s2, v)))
                else:
                    out.append(rewrap(o, lambda i: EMPTY))
        return out
    if k == "enumerate":
        inner, n = it.a[1], it.a[2]
        out = []
        for o in step(eng, st, inner):
            if o[0] == "item":
                out.append(("item", o[1], mk("it", "enumerate", o[2], add(n, INT(1))), tup(n, o[3])))
            else:
                out.append(rewrap(o, lambda i: mk("it", "enumerate", i, n)))
        return out
    if k == "take":
        inner, n = it.a[1], it.a[2]
        if n.k == "int" and n.a[0] == 0:
            return [("none", st, EMPTY, None)]
        was = st.symn
        out = []
        for o in step(eng, st, inner):
            if n.k == "int" and n.a[0] <= 8:
                o[1].symn = was
            if o[0] == "item":
                out.append(("item", o[1], mk("it", "take", o[2], sub(n, INT(1))), o[3]))
            else:
                out.append(rewrap(o, lambda i: mk("it", "take", i, n)))
        if n.k != "int":
            st.symn = True
        return out
    if k == "skip":
        inner, n = it.a[1], it.a[2]
        if n.k == "int" and n.a[0] == 0:
            return step(eng, st, inner)
        if n.k == "int":
            out = []
            for o in step(eng, st, inner):
                if o[0] == "item":
                    out.extend(step(eng, o[1], mk("it", "skip", o[2], sub(n, INT(1)))))
                else:
                    out.append(rewrap(o, lambda i: mk("it", "skip", i, n)))
            return out
    if k == "chain":
        a, b = it.a[1], it.a[2]
        out = []
        for o in step(eng, st, a):
            if o[0] == "none":
                out.extend(step(eng, o[1], b))
            elif o[0] == "item":
                out.append(("item", o[1], mk("it", "chain", o[2], b), o[3]))
            else:
                out.append(rewrap(o, lambda i: mk("it", "chain", i, b)))
        return out
    if k == "zip":
        a, b = it.a[1], it.a[2]
        out = []
        for o in step(eng, st, a):
            if o[0] == "item":
                for p in step(eng, o[1], b):
                    if p[0] == "item":
                        out.append(("item", p[1], mk("it", "zip", o[2], p[2]), tup(o[3], p[3])))
                    else:
                        out.append(rewrap(p, lambda i: EMPTY))
            else:
                out.append(rewrap(o, lambda i: EMPTY))
        return out
    if k == "peek":
        inner, buf = it.a[1], it.a[2]
        if buf is not None:
            if buf.k == "adt" and buf.a[1] == "None":
                return [("none", st, EMPTY, None)]
            return [("item", st, mk("it", "peek", inner, None), proj_field(buf, "Some", "0"))]
        return [rewrap(o, lambda i: mk("it", "peek", i, None)) for o in step(eng, st, inner)]
    if k == "opaque":
        st.symn = True
        st.seq += 1
        t = icall("Iterator::next", st.seq, it.a[1])
        out = []
        for p, s in split_opt(eng, st, t):
            if p is None:
                out.append(("none", s, EMPTY, None))
            else:
                out.append(("item", s, it, p))
        return out
    # 'adv' or unknown
    st.symn = True
    raise Unsupported("iterator " + k)


def rewrap(o, f):
    if o[0] in ("item", "none", "skip"):
        return (o[0], o[1], f(o[2]) if o[2] is not None else None, o[3])
    return o


def apply1(eng, st, f, args, k):
    out = []
    for kind, s, v in eng.call_value(st, f, args):
        if kind == "ret":
            out.extend(k(s, v))
        else:
            out.append(("out", s, None, (kind, s, v)))
    return out


def apply_flat(eng, st, f, x):
    if f is None:
        return [("ret", st, x)]
    return eng.call_value(st, f, [x])


def closure_retty(eng, f):
    if f is not None and f.k == "clo":
        c = eng.crates[f.a[0]]
        fn = c.fns[f.a[1]]
        return c.ts(fn["locals"][0]["t"])
    if f is not None and f.k == "fnref":
        c, callee = eng.callees[f.a[0]]
        if "key" in callee and str(callee["key"]) in c.fns:
            return c.ts(c.fns[str(callee["key"])]["locals"][0]["t"])
    return None


def flat_ty(eng, f, ty):
    return closure_retty(eng, f) or ty


def pass_item(eng, st, k, f, x):
    """filtering decision: ('yes',st,item) ('no',st) ('stop',st) or raw outcome"""
    out = []
    for kind, s, v in eng.call_value(st, f, [x]):
        if kind != "ret":
            out.append((kind, s, v))
            continue
        if k in ("filter_map", "map_while"):
            for p, s2 in split_opt(eng, s, v):
                if p is not None:
                    out.append(("yes", s2, p))
                else:
                    out.append(("no" if k == "filter_map" else "stop", s2))
        else:
            for t, s2 in split_bool(eng, s, v):
                if k == "skip_while":
                    t = not t
                if t:
                    out.append(("yes", s2, x))
                else:
                    out.append(("no" if k in ("filter", "skip_while") else "stop", s2))
    return out


def first_item(eng, st, it):
    """the first element of a filtered sequence of unknown length: consume-outcomes, 'brk' carrying it"""
    layers = []
    while it.k == "it" and it.a[0] in ("filter", "filter_map", "map"):
        layers.append((it.a[0], it.a[2]))
        it = it.a[1]

    def through(s, x, n):
        if n < 0:
            return [("brk", s, x)]
        k, f = layers[n]
        out = []
        if k == "map":
            for o in eng.call_value(s, f, [x]):
                out.extend(through(o[1], o[2], n - 1) if o[0] == "ret" else [o])
            return out
        for o in pass_item(eng, s, k, f, x):
            out.extend(through(o[1], o[2], n - 1) if o[0] == "yes" else [("cont", o[1], None)] if o[0] == "no" else [o])
        return out
    return consume(eng, st, it, lambda s, x: through(s, x, len(layers) - 1))


# ---- generic position of a widened loop -------------------------------------------
def gen_step(eng, st, g):
    L, pid, inner = g.a[1], g.a[2], g.a[3]
    used = mk("it", "genu", L, pid, inner)
    none = st.copy()
    none.exh = none.exh | frozenset([L])
    outs, dom = gen(eng, st, inner, L, 0)
    old = eng.loopdom.get(L)
    if old is not None and old is not dom and not (old.a[0] == "flat" and dom.a[0] == "flat"):
        raise Unsupported("two iterators drive one loop")
    eng.loopdom[L] = dom
    res = [("none", none, g, None)]
    for o in outs:
        if o[0] == "item":
            res.append(("item", o[1], used, o[2]))
        elif o[0] == "skip":
            res.append(("skip", o[1], used, L))
        elif o[0] == "stop":
            res.append(("none", o[1], used, None))
        else:
            res.append(("out", o[2][1], None, o[2]))
    return res


def nonneg(st, i):
    return st.assume(("iv", i, 0, BIG))


def gen(eng, st, it, L, d):
    """-> ([('item',st,x) | ('skip',st) | ('stop',st) | ('out',st,raw)], dom)"""
    k = it.a[0]
    i = IDX(L, d)
    if k in ("empty",):
        return [], mk("dom", "none")
    if k == "list":
        return [("item", st.copy(), x) for x in it.a[1]], mk("dom", "all", coll("vec", [("one", x) for x in it.a[1]]))
    if k == "all":
        c = it.a[1]
        s = st
        dom = mk("dom", "all", c) if it.a[3] == 0 else mk("dom", "from", c, INT(it.a[3]))
        if it.a[2] == "rev":
            dom = mk("dom", "rev", c)
        if not s.assume_bool(rel(add(i, INT(it.a[3])), "<", length(c)), True):
            return [], dom
        return [("item", s, element(eng, s, it, i))], dom
    if k == "opt":
        outs = []
        for v, s in split_var(eng, st, it.a[1], it.a[2]):
            if v == it.a[3]:
                outs.append(("item", s, proj_field(it.a[1], v, "0")))
            elif d > 0:
                outs.append(("skip", s))
        return outs, mk("dom", "opt", it.a[1])
    if k == "segs":
        v, form = it.a[1], it.a[2]
        outs = []
        for n, s0 in enumerate(v.a[1]):
            outs.extend(gen_seg(eng, st.copy(), s0, L, d, form, v))
        s0 = v.a[1][0] if len(v.a[1]) == 1 else None
        if s0 is not None and s0[0] == "star" and s0[2].k == "dom" and s0[2].a[0] == "all" and all(len(g) <= 1 and all(e[0] in ("one", "kv") for e in g) for f, g in s0[3]):
            # one element at most for each element of what was collected from: a loop over that
            return outs, s0[2]
        return outs, mk("dom", "all", v)
    if k == "range":
        lo, hi = it.a[1], it.a[2]
        dom = rangedom(lo, hi)
        if hi.k != "inf" and not st.assume_bool(rel(add(lo, i), "<", hi), True):
            return [], dom
        return [("item", st, add(lo, i))], dom
    if k == "map":
        outs, dom = gen(eng, st, it.a[1], L, d)
        res = []
        for o in outs:
            if o[0] == "item":
                for kind, s, v in eng.call_value(o[1], it.a[2], [o[2]]):
                    res.append(("item", s, v) if kind == "ret" else ("out", s, (kind, s, v)))
            else:
                res.append(o)
        return res, dom
    if k in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
        outs, dom = gen(eng, st, it.a[1], L, d)
        res = []
        for o in outs:
            if o[0] == "item":
                for p in pass_item(eng, o[1], k, it.a[2], o[2]):
                    if p[0] == "yes":
                        res.append(("item", p[1], p[2]))
                    elif p[0] == "no":
                        res.append(("skip", p[1]))
                    elif p[0] == "stop":
                        res.append(("stop", p[1]))
                    else:
                        res.append(("out", p[1], p))
                if k == "skip_while":
                    # later elements are not tested at all
                    res.append(("item", o[1].copy(), o[2]))
            else:
                res.append(o)
        return res, dom
    if k == "flat_map":
        inner, f, cur, ty = it.a[1:5]
        outs, dom = gen(eng, st, inner, L, d)
        res, doms = [], []
        base = st.copy()
        if cur is not None:
            o2, d2 = gen(eng, st.copy(), cur, L, d + 1)
            res.extend(o2)
            doms.append(((), d2))
        for o in outs:
            if o[0] != "item":
                res.append(o)
                continue
            for kind, s, v in apply_flat(eng, o[1], f, o[2]):
                if kind != "ret":
                    res.append(("out", s, (kind, s, v)))
                    continue
                inner2 = to_iter(eng, s, v, flat_ty(eng, f, ty))
                fs = s.delta(base)
                dd = max([d + 1] + [1 + (t.a[0][1] if len(t.a[0]) > 1 else 0) for t in subterms((o[2], tuple(o[1].delta(base)))) if t.k == "idx" and t.a[0][0] == L])
                o2, d2 = gen(eng, s.copy(), inner2, L, dd)
                doms.append((fs, d2))
                if d2.a[0] == "none" or (d2.a[0] == "all" and concrete_len(d2.a[1]) == 0):
                    res.append(("skip", s))
                res.extend(o2)
        return res, mk("dom", "flat", dom, tuple(doms))
    if k == "enumerate":
        outs, dom = gen(eng, st, it.a[1], L, d)
        pure = dense(it.a[1])
        n = add(it.a[2], i) if pure else mk("count", INT(L), it.a[2])
        return [("item", o[1], tup(n, o[2])) if o[0] == "item" else o for o in outs], dom
    if k == "take":
        outs, dom = gen(eng, st, it.a[1], L, d)
        res = []
        for o in outs:
            if o[0] == "item" and dense(it.a[1]):
                if o[1].assume_bool(rel(i, "<", it.a[2]), True):
                    res.append(o)
            else:
                res.append(o)
        return res, mk("dom", "take", dom, it.a[2])
    if k == "skip":
        inner, n = it.a[1], it.a[2]
        if inner.a[0] == "all" and n.k == "int":
            return gen(eng, st, mk("it", "all", inner.a[1], inner.a[2], inner.a[3] + n.a[0], inner.a[4]), L, d)
        outs, dom = gen(eng, st, inner, L, d)
        return outs, mk("dom", "skip", dom, n)
    if k == "chain":
        o1, d1 = gen(eng, st.copy(), it.a[1], L, d)
        o2, d2 = gen(eng, st, it.a[2], L, d)
        return o1 + o2, mk("dom", "chain", d1, d2)
    if k == "zip":
        o1, d1 = gen(eng, st, it.a[1], L, d)
        res = []
        d2 = mk("dom", "none")
        if not (dense(it.a[1]) and dense(it.a[2])):
            raise Unsupported("zip of filtered iterators")
        for o in o1:
            if o[0] != "item":
                res.append(o)
                continue
            o2, d2 = gen(eng, o[1], it.a[2], L, d)
            for p in o2:
                res.append(("item", p[1], tup(o[2], p[2])) if p[0] == "item" else p)
        for x, y in ((d1, d2), (d2, d1)):
            if x.a[0] == "range" and x.a[2].k == "inf":
                # only counts the elements of the other one
                return res, y
        return res, mk("dom", "zip", d1, d2)
    if k == "byref":
        raise Unsupported("loop over a borrowed iterator")
    if k == "peek":
        if it.a[2] is None:
            return gen(eng, st, it.a[1], L, d)
    if k == "opaque":
        return [("item", st, mk("item", it.a[1], i))], mk("dom", "opaque", it.a[1])
    raise Unsupported("loop over iterator " + k)


def rangedom(lo, hi):
    if lo is INT(0) and hi.k == "len":
        # the positions of a collection
        return mk("dom", "all", hi.a[0])
    if lo is INT(0) and hi.k == "nparts":
        return mk("dom", "all", mk("parts", *hi.a))
    return mk("dom", "range", lo, hi)


def dense(it):
    return it.a[0] in ("all", "range", "list") and (it.a[0] != "list") or (it.a[0] in ("map", "enumerate") and dense(it.a[1])) or (it.a[0] == "segs" and dense_segs(it.a[1]))


def dense_segs(v):
    s = v.a[1]
    return len(s) == 1 and s[0][0] == "star" and star_is_map(s[0][3]) and s[0][2].k == "dom" and s[0][2].a[0] == "all"


def gen_seg(eng, st, seg, L, d, form, v):
    """element of one segment of a collection, at a generic position"""
    i = IDX(L, d)
    if seg[0] == "one":
        return [("item", st, seg[1])]
    if seg[0] == "kv":
        return [("item", st, shape(form, seg[1], seg[2]))]
    if seg[0] == "all":
        c = seg[1]
        if not st.assume_bool(rel(i, "<", length(c)), True):
            return []
        return [("item", st, element(eng, st, mk("it", "all", c, form, 0, None), i))]
    if seg[0] == "star":
        L1 = seg[1]
        res = []
        for fs, segs in seg[3]:
            s = st.copy()
            # the generic position of the collecting loop becomes that of this one
            sb = Subst(tm=IdxMap(L1, L, d))
            ok = True
            for f in fs:
                ok = ok and s.assume(sb.fact(f))
            if not ok:
                continue
            if not segs:
                res.append(("skip", s))
                continue
            depth = d + 1 + max([0] + [t.a[0][1] for t in subterms((fs, segs)) if t.k == "idx" and t.a[0][0] == L1 and len(t.a[0]) > 1])
            for g in segs:
                res.extend(gen_seg(eng, s.copy(), sb.any(g), L, depth, form, v))
        return res
    if seg[0] == "mod":
        return [("item", st, shape(form, seg[1], seg[2]))]
    if seg[0] == "hole":
        h = mk("holeitem", INT(seg[1]), v, i)
        return [("item", st, h)]
    raise Unsupported("segment " + seg[0])


class IdxMap(object):
    """substitution idx(L1[,e]) -> idx(L, d+e)"""

    def __init__(self, L1, L, d):
        self.L1, self.L, self.d = L1, L, d

    def get(self, t):
        if t.k == "idx" and t.a[0][0] == self.L1:
            e = t.a[0][1] if len(t.a[0]) > 1 else 0
            return IDX(self.L, self.d + e)
        return None


# ---- consumers ----------------------------------------------------------------------
def consume(eng, st, it, onitem):
    """run a loop over `it`; onitem(st, x) -> outcomes ('cont'|'brk'|...).
    exits: ('done', st, None), ('brk', st, val), raw"""
    cell = eng.temp(st, it)

    def body(s0):
        def once(s):
            outs = []
            for o in step(eng, s, s.cells[cell]):
                if o[0] == "item":
                    o[1].cells[cell] = o[2]
                    outs.extend(onitem(o[1], o[3]))
                elif o[0] == "none":
                    o[1].cells[cell] = o[2]
                    outs.append(("done", o[1], None))
                elif o[0] == "skip":
                    o[1].cells[cell] = o[2]
                    outs.append(("skip", o[1], o[3]))
                else:
                    outs.append(o[3])
            return outs
        return eng.forks(s0, once)
    outs = eng.run_loop(st, body)
    for o in outs:
        o[1].cells.pop(cell, None)
    return outs


def identity_iter(it):
    """collection this iterator runs over unchanged, or None"""
    if it.a[0] == "all" and it.a[2] in ("val", "map") and it.a[3] == 0:
        return it.a[1]
    if it.a[0] == "segs" and it.a[2] in ("val", "map"):
        return it.a[1]
    return None

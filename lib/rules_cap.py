"""Capabilities: C09-C11, C14-C16"""
from rule import *
from match import *
from engine import TRUE, FALSE, proj_index, add
from rules_token import rule, RULES, trait_default


# ---- oracles over the facts of a path ------------------------------------------------
def truth(st, t):
    return st.truth(t)


def eq3(st, a, b):
    o = st.possible(a, b)
    return True if o == "=" else False if "=" not in o else None


def one_variant(st, t, vs):
    """the only variant of vs that t can have, or None"""
    if t.k == "adt":
        return t.a[1]
    c = st.var.get(t)
    c = frozenset(vs) & c if c is not None else frozenset(vs)
    return list(c)[0] if len(c) == 1 else None


def may(st, t, vs):
    if t.k == "adt":
        return {t.a[1]}
    c = st.var.get(t)
    return set(vs) & set(c) if c is not None else set(vs)


URI = ("Scoped", "Unscoped")
KINDS = ("Resource", "My", "As")


def uri_contains(st, a, b, scope):
    """what ResourceUri::contains must answer on this path"""
    x = one_variant(st, a, URI)
    if x == "Unscoped":
        return True
    y = one_variant(st, b, URI)
    if x == "Scoped" and y == "Unscoped":
        return False
    if x == "Scoped" and y == "Scoped":
        return scope(st, proj_field(a, "Scoped", "0"), proj_field(b, "Scoped", "0"))
    return None


def scope_call(st, x, y):
    return truth(st, call("Scope::contains", x, y))


def resource_contains(st, a, b, scope=scope_call):
    x, y = may(st, a, KINDS), may(st, b, KINDS)
    if not (x & y):
        return False
    if len(x) == 1 and len(y) == 1:
        v = list(x)[0]
        if v == "As":
            e = eq3(st, proj_field(a, v, "did"), proj_field(b, v, "did"))
            if e is False:
                return False
            k = uri_contains(st, proj_field(a, v, "kind"), proj_field(b, v, "kind"), scope)
            return k if e or k is False else None
        return uri_contains(st, proj_field(a, v, "kind"), proj_field(b, v, "kind"), scope)
    # different variants possible: decided only if no combination contains
    ks = [uri_contains(st, proj_field(a, v, "kind"), proj_field(b, v, "kind"), scope) for v in x & y]
    return False if all(k is False for k in ks) else None


def map_enables(st, a, b):
    """every field of map a is present in map b with an equal value"""
    la, lb = st.ival(length(a)), st.ival(length(b))
    if st.possible(length(a), length(b)) == ">":
        return False  # the keys of a are distinct, so one of them is not in b
    if la == (0, 0):
        return True
    if eq3(st, a, b):
        return True
    if la[0] >= 1 and lb == (0, 0):
        return False
    for f in st.big:
        if f[0] == "all" and f[2].k == "dom" and f[2].a[0] == "all" and f[2].a[1] is a:
            ix = mk("idx", (f[1],))
            got = call_mget(b, mk("mkey", a, ix))
            if f[3] and all(entry_enabled(st, alt, a, ix, got) for alt in f[3]):
                return True
        if f[0] == "ex" and f[2].k == "dom" and f[2].a[0] == "all" and f[2].a[1] is a:
            ix = mk("idx", (f[1],))
            got = call_mget(b, mk("mkey", a, ix))
            if all(entry_refused(st, alt, a, ix, got) for alt in f[3]):
                return False
    # a field that is missing or differs
    for t, c in st.var.items():
        if t.k == "mget" and t.a[0] is b and c <= {"None"} and t.a[1].k == "mkey" and t.a[1].a[0] is a:
            return False
    for (x, y), o in st.rel.items():
        if "=" in o:
            continue
        for p, q in ((x, y), (y, x)):
            if p.k == "mval" and p.a[0] is a:
                g = call_mget(b, mk("mkey", a, p.a[1]))
                if q is proj_field(g, "Some", "0") and is_variant(st, g, "Some"):
                    return False
    return None


def entry_enabled(st, alt, a, ix, got):
    s = fstate(alt, st)
    if s is None:
        return True
    return is_variant(s, got, "Some") and eq3(s, mk("mval", a, ix), proj_field(got, "Some", "0")) is True


def entry_refused(st, alt, a, ix, got):
    s = fstate(alt, st)
    if s is None:
        return True
    return is_variant(s, got, "None") or is_variant(s, got, "Some") and eq3(s, mk("mval", a, ix), proj_field(got, "Some", "0")) is False


def call_mget(m, k):
    return mk("mget", m, k)


def fstate(facts, base=None):
    st = base.copy() if base is not None else St()
    for f in facts:
        if not st.assume(f):
            return None
    return st


def decide(R, fn, args, want, what, cuts=()):
    """every exit of a predicate answers what the oracle says"""
    seen = set()
    for st, val in R.bools(R.run(fn, args, cuts)):
        seen.add(val)
        w = want(st)
        R.ob("%s: answers %s only where it holds" % (what, val), w == val,
             "%s answers %s on a path where the rule %s; path: %s" % (R.where(fn), val, "does not decide it" if w is None else "says %s" % w, R.short(st, 900)))
    R.ob("%s: takes both values" % what, seen == {True, False}, "%s only ever answers %s" % (R.where(fn), sorted(seen)))


# ---- C09 --------------------------------------------------------------------------------
def of_json(c, it):
    return c.ts(it["in"][0]).endswith("Value")


def caveat_of(R, v):
    """(the caveat made from JSON value v, state) on the successful exits"""
    fn = [c.fns[str(it["key"])] for c, it in R.P.items("try_from", "Caveat", "TryFrom") if str(it["key"]) in c.fns and of_json(c, it)]
    if not fn:
        raise Missing("Caveat: TryFrom<Value>")
    out = {x for s, x in R.oks(R.run(fn[0], [v]))}
    if len(out) != 1:
        raise Missing("Caveat::try_from has %d successful values" % len(out))
    return out.pop()


VALUES = ("Null", "Bool", "Number", "String", "Array", "Object")


def and3(*xs):
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


@rule("C09")
def c09(R):
    fn = R.P.fn("enables", "CapabilityView")
    a, b = S("one"), S("other")
    ca, cb = (proj_field(x, "", "caveat") for x in (a, b))
    ta, tb = caveat_of(R, ca), caveat_of(R, cb)

    def want(st):
        ra, rb = proj_field(a, "", "resource"), proj_field(b, "", "resource")
        r = truth(st, call("Resource::contains", ra, rb))
        if r is None:
            r = resource_contains(st, ra, rb)
        o = st.possible(proj_field(a, "", "ability"), proj_field(b, "", "ability"))
        ab = True if all(c in "=>" for c in o) else False if o == "<" else None
        cv = truth(st, call("Caveat::enables", ta, tb))
        if cv is None:
            cv = map_enables(st, proj_field(ca, "Object", "0"), proj_field(cb, "Object", "0"))
        oa, ob = may(st, ca, VALUES), may(st, cb, VALUES)
        obj = True if oa == ob == {"Object"} else False if "Object" not in oa or "Object" not in ob else None
        return and3(r, ab, cv, obj)
    decide(R, fn, [a, b], want, "CapabilityView::enables", [R.cut("Resource::contains"), R.cut("Caveat::enables")])
    own_abilities(R, a, b)


def own_abilities(R, a, b):
    """an ability of the libraries' own is at least itself: equal variants compare as equal"""
    n = 0
    for c, it in R.P.items("cmp", None, "Ord"):
        ty = c.self_name(it)
        if not any(i.get("trait") and i["trait"].split("::")[-1] == "Ability" and c.ts(i["self"]).split("::")[-1] == ty for i in c.impls):
            continue
        n += 1
        for name, tr in (("cmp", "Ord"), ("partial_cmp", "PartialOrd")):
            f = R.P.fn(name, ty, tr)
            if any(i["derived"] for _, i in R.P.items(name, ty, tr)):
                continue  # by declaration order
            names = {x["n"] for k, d in c.adts.items() if k.split("::")[-1] == ty for x in d["variants"]}
            for st, v in R.run(f, [a, b]):
                k = v if name == "cmp" else proj_field(v, "Some", "0")
                x, y = may(st, a, names), may(st, b, names)
                g = one_variant(st, k, ("Less", "Equal", "Greater")) == "Equal" or not x & y
                R.ob("%s::%s: an ability is at least itself" % (ty, name), g, "%s answers %s where both may be the same ability; path: %s" % (R.where(f), kt(v), R.short(st)))
        for name in ("ge", "gt", "le", "lt", "max", "min", "clamp"):
            R.ob("%s: comparisons follow from the order" % ty, not R.P.items(name, ty, "PartialOrd") and not R.P.items(name, ty, "Ord"), "%s has its own %s" % (ty, name))
    R.ob("own abilities examined", n >= 1, "no ability found")


# ---- C10 --------------------------------------------------------------------------------
@rule("C10")
def c10(R):
    a, b = S("one"), S("other")
    decide(R, R.P.fn("contains", "Resource"), [a, b], lambda st: resource_contains(st, a, b), "Resource::contains")
    decide(R, R.P.fn("contains", "ResourceUri"), [a, b], lambda st: uri_contains(st, a, b, scope_call), "ResourceUri::contains")

    def sel(st):
        x = one_variant(st, a, ("All", "Index"))
        if x == "All":
            return True
        y = one_variant(st, b, ("All", "Index"))
        if x == "Index" and y == "All":
            return False
        if x == "Index" and y == "Index":
            return eq3(st, proj_field(a, "Index", "0"), proj_field(b, "Index", "0"))
        if eq3(st, a, b):
            return True
        return None
    decide(R, R.P.fn("contains", "ProofSelection", "Scope"), [a, b], sel, "ProofSelection::contains")


# ---- C11 --------------------------------------------------------------------------------
@rule("C11")
def c11(R):
    a, b = S("one"), S("other")
    e = R.engine()
    # what a caveat holds: the parts of the type
    v = S("value")
    made = caveat_of(R, v)
    obj = proj_field(v, "Object", "0")
    held = None
    if made.k == "adt":
        for n, x in zip(made.a[2], made.a[3]):
            if x is obj:
                held = n
    R.ob("a caveat holds the object it was made from, unchanged", held is not None and len(made.a[3]) == 1, "the caveat made from object v is %s" % kt(made))
    if held is None:
        return
    n = 0
    for c, it in R.P.items("try_from", "Caveat", "TryFrom"):
        f = c.fns.get(str(it["key"]))
        if f is None or not of_json(c, it):
            continue
        n += 1
        good = 0
        for vn, st, x in R.results(R.run(f, [v])):
            isobj = may(st, v, VALUES)
            if vn == "Ok":
                good += 1
                R.ob("only an object makes a caveat", isobj == {"Object"}, "%s accepts a value not known to be an object; path: %s" % (R.where(f), R.short(st)))
                R.ob("the caveat is that object", x is made, "%s yields %s" % (R.where(f), kt(x)))
            else:
                R.ob("every object makes a caveat", "Object" not in isobj, "%s rejects a value that may be an object; path: %s" % (R.where(f), R.short(st)))
        R.ob("objects are accepted", good >= 1, "%s accepts nothing" % R.where(f))
    R.ob("conversions examined", n >= 2, "%d conversions into Caveat found" % n)
    from rules_chain import producers, is_copy
    for c, it in producers(R, "Caveat"):
        if is_copy(it) or it["name"] == "try_from" and of_json(c, it):
            continue
        f = c.fns[str(it["key"])]
        args = [S("in%d" % i) for i in range(len(it["in"]))]
        for st, v in R.run(f, args):
            for t in [v] + list(subterms((v,))):
                if t.k != "adt" or t.a[0].split("::")[-1] != "Caveat":
                    continue
                x = proj_field(t, "", held)
                g = any(x is a or x is proj_field(a, "", held) for a in args) or any(x is proj_field(t, "Object", "0") and may(st, t, VALUES) == {"Object"} for t in subterms((x,)))
                R.ob("%s: the caveat is the object given" % it["name"], g, "%s makes a caveat of %s; path: %s" % (R.where(f), kt(x), R.short(st)))
    ma, mb = proj_field(a, "", held), proj_field(b, "", held)
    decide(R, R.P.fn("enables", "Caveat"), [a, b], lambda st: map_enables(st, ma, mb), "Caveat::enables")


# ---- C16 --------------------------------------------------------------------------------
def sem(name, *a):
    return call("CapabilitySemantics::" + name, *a)


@rule("C16")
def c16(R):
    me = S("semantics")
    TR = "CapabilitySemantics"
    # the resource within a URI
    u = S("uri")
    fn = trait_default(R.P, "parse_resource", TR)
    n = set()
    for vn, st, v in R.options(R.run(fn, [me, u])):
        wild = eq3(st, call("Url::path", u), STR("*"))
        sc = sem("parse_scope", me, u)
        if vn == "Some":
            k = one_variant(st, v, URI)
            n.add(k)
            R.ob("parse_resource: the wildcard exactly for the path *", wild is not None and k == ("Unscoped" if wild else "Scoped"),
                 "%s yields %s for %s; path: %s" % (R.where(fn), kt(v), "*" if wild else "a path other than *" if wild is False else "a path not compared with *", R.short(st)))
            if k == "Scoped":
                R.ob("parse_resource: the scope the semantics gives that URI", proj_field(v, "Scoped", "0") is proj_field(sc, "Some", "0") and is_variant(st, sc, "Some"), "%s yields the scope %s" % (R.where(fn), kt(v)))
        else:
            R.ob("parse_resource: refused only where the semantics refuses the scope", wild is False and is_variant(st, sc, "None"), "%s yields nothing; path: %s" % (R.where(fn), R.short(st)))
    R.ob("parse_resource: both kinds", n == {"Scoped", "Unscoped"}, "%s only yields %s" % (R.where(fn), n))
    # scope, ability, caveat
    for name, label, arg in (("parse_scope", "TryFrom<S>", u), ("parse_action", "TryFrom<A>", S("text"))):
        fn = trait_default(R.P, name, TR)
        t = call(label, arg)
        for vn, st, v in R.options(R.run(fn, [me, arg])):
            R.ob("%s: what the type makes of exactly that input" % name, (v is ok(t) and is_variant(st, t, "Ok")) if vn == "Some" else is_variant(st, t, "Err"),
                 "%s yields %s; path: %s" % (R.where(fn), kt(v) if v is not None else "nothing", R.short(st)))
    c = S("caveat")
    for fn in [trait_default(R.P, "parse_caveat", TR)] + [k.fns[str(i["key"])] for k, i in R.P.items("parse_caveat", None, TR) if i.get("trait") and str(i["key"]) in k.fns]:
      for st, v in R.run(fn, [me, c]):
        if is_variant(st, c, "Some"):
            g = v is proj_field(c, "Some", "0")
        else:
            g = is_variant(st, c, "None") and v.k == "adt" and v.a[1] == "Object" and empty(v.a[3][0])
        R.ob("parse_caveat: the given caveat, {} if absent", g, "%s yields %s; path: %s" % (R.where(fn), kt(v), R.short(st)))
    # did:key:<value>:<rest>
    fn = trait_default(R.P, "extract_did", TR)
    p = S("path")
    some = 0
    for vn, st, v in R.options(R.run(fn, [me, p])):
        if vn == "Some":
            some += 1
            g = did_ok(st, p) is True
            R.ob("extract_did: only from did:key:<value>", g, "%s accepts a path not known to start with did:key:<value>; path: %s" % (R.where(fn), R.short(st)))
            d, r = proj_field(v, "", "0"), proj_field(v, "", "1")
            R.ob("extract_did: the DID named first and all that follows it", is_did(st, d, p) and is_rest(st, r, p), "%s yields %s" % (R.where(fn), kt(v)))
        else:
            R.ob("extract_did: refuses only other paths", did_ok(st, p) is False, "%s refuses a path that may start with did:key:<value>; path: %s" % (R.where(fn), R.short(st)))
    R.ob("extract_did: some path accepted", some >= 1, "%s accepts nothing" % R.where(fn))
    # the whole
    fn = trait_default(R.P, "parse", TR)
    x, ab, cv = S("resource"), S("ability"), S("caveat")
    url = call("Url::parse", x)
    uri = ok(url)
    scheme = call("Url::scheme", uri)
    act = sem("parse_action", me, ab)
    pr = sem("parse_resource", me, uri)
    pths = [call("Url[..]", uri, adt("RangeFrom", "RangeFrom", ("start",), (mk("const", "BeforePath"),)))]
    kinds = {}
    for vn, st, v in R.options(R.run(fn, [me, x, ab, cv])):
        my, as_ = eq3(st, scheme, STR("my")), eq3(st, scheme, STR("as"))
        kind = "My" if my else "As" if as_ else "Resource" if my is False and as_ is False else None
        before = [t for t in subterms(tuple(st.var)) if t.k == "call" and t.a[0] == "Url[..]" and t.a[1][0] is uri and "BeforePath" in show(t.a[1][1]) and "RangeFrom" in show(t.a[1][1])]
        pa = before[0] if before else None
        ed = sem("extract_did", me, pa) if pa is not None else None
        did, rest, parts_ok = as_parts(st, ed, pa)
        if vn == "None":
            why = is_variant(st, url, "Err") or is_variant(st, act, "None")
            if as_ is False:
                why = why or is_variant(st, pr, "None")
            if kind == "As":
                why = why or parts_ok is False
                if rest is not None and eq3(st, rest, STR("*")) is False:
                    u2 = call("Url::parse", rest)
                    why = why or is_variant(st, u2, "Err") or is_variant(st, sem("parse_resource", me, ok(u2)), "None")
            R.ob("parse: refuses only what is not understood", why, "%s yields nothing although no part was refused; path: %s" % (R.where(fn), R.short(st, 900)))
            continue
        R.ob("parse: every part was understood", is_variant(st, url, "Ok") and is_variant(st, act, "Some"), "%s yields a capability; path: %s" % (R.where(fn), R.short(st, 900)))
        r = proj_field(v, "", "resource")
        R.ob("parse: the kind of resource follows the scheme", kind is not None and r.k == "adt" and r.a[1] == kind, "%s yields %s for a scheme known to be %s" % (R.where(fn), kt(r), kind))
        R.ob("parse: the ability given", proj_field(v, "", "ability") is proj_field(act, "Some", "0"), "%s yields the ability %s" % (R.where(fn), kt(proj_field(v, "", "ability"))))
        R.ob("parse: the caveat given", proj_field(v, "", "caveat") is sem("parse_caveat", me, cv), "%s yields the caveat %s" % (R.where(fn), kt(proj_field(v, "", "caveat"))))
        if r.k != "adt" or r.a[1] != kind:
            continue
        k = proj_field(r, kind, "kind")
        if kind != "As":
            kinds[kind] = 1
            R.ob("parse: what the semantics makes of the URI", k is proj_field(pr, "Some", "0") and is_variant(st, pr, "Some"), "%s yields %s" % (R.where(fn), kt(r)))
            continue
        R.ob("parse: as: names the DID of its own path", did is not None and parts_ok is True and did(proj_field(r, "As", "did")), "%s yields %s; path: %s" % (R.where(fn), kt(r), R.short(st, 600)))
        if rest is None:
            continue
        w = eq3(st, rest, STR("*"))
        if w:
            kinds["As*"] = 1
            R.ob("parse: as:<did>:* is the wildcard", one_variant(st, k, URI) == "Unscoped", "%s yields %s" % (R.where(fn), kt(r)))
        else:
            kinds["As"] = 1
            u2 = call("Url::parse", rest)
            q = sem("parse_resource", me, ok(u2))
            g = k is proj_field(q, "Some", "0") and is_variant(st, q, "Some") and is_variant(st, u2, "Ok") and w is False
            R.ob("parse: as:<did>:<resource> is what the semantics makes of that resource", g, "%s yields %s; path: %s" % (R.where(fn), kt(r), R.short(st, 600)))
    R.ob("parse: every kind is produced", set(kinds) == {"My", "Resource", "As", "As*"}, "%s only produces %s" % (R.where(fn), sorted(kinds)))
    fn = trait_default(R.P, "parse_capability", TR)
    c = S("cap")
    f = lambda n: proj_field(c, "", n)
    for st, v in R.run(fn, [me, c]):
        R.ob("parse_capability: parses all three parts", v is sem("parse", me, f("resource"), f("ability"), Some(f("caveat"))), "%s yields %s" % (R.where(fn), kt(v)))


COLON = STR(":")


def did_bases(st, p):
    """[(text, index of the DID's value among its parts, known to be there: True/False/None)]"""
    n = mk("nparts", p, COLON)
    q = mk("parts", p, COLON)
    lo, hi = st.ival(n)
    a = eq3(st, proj_index(q, INT(0)), STR("did")) if hi >= 1 else False
    b = eq3(st, proj_index(q, INT(1)), STR("key")) if hi >= 2 else False
    out = [(p, 2, and3(a, b, True if lo >= 3 else False if hi < 3 else None))]
    out.append((mk("strip", p, STR("did:key:")), 0, truth(st, call("starts_with", p, STR("did:key:")))))
    return out


def did_ok(st, p):
    """True/False/None: p is known (not) to start with did:key:<value>"""
    for t, i, k in did_bases(st, p):
        if k is not None:
            return k
    for pre in ("did:", "did:key"):  # nothing comes after the beginning
        x = mk("strip", p, STR(pre))
        if truth(st, call("starts_with", p, STR(pre))) is True and (st.ival(length(x)) == (0, 0) or x in st.eqc and st.eqc[x] is STR("")):
            return False
    return None


def is_did(st, d, p):
    """did:key: and the value named in p"""
    if d.k == "cat":
        d = cat([st.eqc.get(x, x) for x in d.a[0]])
    if d.k != "cat" or not d.a[0] or d.a[0][0] is not STR("did:key:"):
        return False
    y = cat(d.a[0][1:])
    return any(y is proj_index(mk("parts", t, COLON), INT(i)) or (i == 0 and (y is call("before_first", t, COLON) or y is t and st.ival(mk("nparts", t, COLON)) == (1, 1)))
               for t, i, k in did_bases(st, p) if k)


def is_rest(st, r, p):
    """everything after the DID, empty if there is nothing"""
    for t, i, k in did_bases(st, p):
        if not k:
            continue
        ps = mk("parts", t, COLON)
        lo, hi = st.ival(mk("nparts", t, COLON))
        m = i + 1
        if lo == hi:
            w = [proj_index(ps, INT(x)) for x in range(m, hi)]
            z = []
            for x in w:
                z += ([COLON] if z else []) + [x]
            if r is (cat(z) if z else STR("")) or not z and empty(r):
                return True
        if lo > m and (r is call("rest_after", t, COLON, INT(m)) or m == 1 and r is call("after_first", t, COLON)):
            return True
        if lo >= m and r is call("join", mk("slice", ps, INT(m), length(ps)), COLON):
            return True
        if r.k == "call" and r.a[0] == "join" and r.a[1][1] is COLON and r.a[1][0].k == "coll" and len(r.a[1][0].a[1]) == 1:
            s = r.a[1][0].a[1][0]
            if s[0] == "star" and s[2] is mk("dom", "from", ps, INT(m)) and all(len(g) == 1 and g[0] == ("one", proj_index(ps, add(mk("idx", (s[1],)), INT(m)))) for f, g in s[3]):
                return True
    return False


def as_parts(st, ed, pa):
    """(predicate for the DID, the rest, whether both are there) of an as: path"""
    if ed is None:
        return None, None, None
    if is_variant(st, ed, "Some"):
        x = proj_field(ed, "Some", "0")
        return (lambda d: d is proj_field(x, "", "0")), proj_field(x, "", "1"), True
    if is_variant(st, ed, "None"):
        return None, None, False
    return (lambda d: is_did(st, d, pa)), None, did_ok(st, pa)


# ---- C14: capability sets are well formed -------------------------------------------------
from emit import emit, nest, in_range, assume, siblings, Unknown
import json as _json


def bodies_building(P, name):
    """bodies that construct a value of type `name` field by field"""
    out = []
    for c in P.crates.values():
        if c.name == "std":
            continue
        for f in c.fns.values():
            s = _json.dumps(f["blocks"])
            for m in ('["adt", "%s", ' % p for p in adt_paths(P, name)):
                if '["agg", ' + m in s:
                    out.append((c, f))
                    break
            else:
                for p in adt_paths(P, name):
                    if '"fn": {"path": "%s"' % p in s:
                        out.append((c, f))
                        break
    return out


def adt_paths(P, name):
    out = []
    for c in P.crates.values():
        for a in c.adts:
            if a.split("::")[-1] == name:
                out.append(a)
                out.append("%s::%s" % (c.name, a))
    return out


def child(cur, ix, lev):
    return proj_index(cur, ix) if lev == 2 else mk("mval", cur, ix)


def bigs(st, c):
    """[(loops, state)] for every loop over c that ran to its end, one list per loop"""
    for b in st.big:
        if b[0] != "all":
            continue
        out = []
        for loops, f, _ in nest(b[2], b[1], 0):
            if not loops or loops[0][0] is not c:
                out = None
                break
            s0 = assume(st, f)
            s0 = in_range(s0, loops) if s0 is not None else None
            if s0 is None:
                continue
            for alt in b[3]:
                s = assume(s0, alt)
                if s is not None:
                    out.append((loops, s))
        if out:
            yield out


def objects(st, c, lev, depth=0):
    """everything below c (0: abilities by resource, 1: caveats by ability, 2: caveats) is an object"""
    if lev == 3:
        return is_variant(st, c, "Object")
    if st.ival(length(c)) == (0, 0):
        return True
    if c.k == "coll":
        for loops, s, x in emit(segs_of(c), st):
            if x is Unknown:
                return False
            if x is None:
                continue
            if not objects(s, x[2] if isinstance(x, tuple) else x, lev + 1, depth):
                return False
        return True
    if depth > 4:
        return False
    for cases in bigs(st, c):
        good = True
        for loops, s in cases:
            cur, l = c, lev
            for d, ix in loops:
                if d is not cur or l > 2:
                    good = False
                    break
                cur, l = child(cur, ix, l), l + 1
            good = good and objects(s, cur, l, depth + 1)
            if not good:
                break
        if good:
            return True
    return False


def nonempty(st, m):
    if st.ival(length(m)) == (0, 0):
        return True
    if m.k == "coll":
        for loops, s, x in emit(segs_of(m), st):
            if x is Unknown or (x is not None and s.ival(length(x[2] if isinstance(x, tuple) else x))[0] < 1):
                return False
        return True
    for cases in bigs(st, m):
        if all(len(l) >= 1 and s.ival(length(mk("mval", m, l[0][1])))[0] >= 1 for l, s in cases):
            return True
    return False


def caps_checked(R):
    xs = [(c, c.fns[str(it["key"])]) for c, it in R.P.items("try_from", "Capabilities", "TryFrom") if "BTreeMap" in c.ts(it["in"][0]) and str(it["key"]) in c.fns]
    if len(xs) != 1:
        raise Missing("TryFrom<map> for Capabilities: %d candidates" % len(xs))
    return xs[0][1]


def caps_inner(R):
    d = R.engine().adtidx["Capabilities"]["variants"][0]["f"]
    if len(d) != 1:
        raise Missing("Capabilities has %d fields" % len(d))
    return d[0]["n"]


CHECKED = "Capabilities::checked"


@rule("C14")
def c14(R):
    from rules_chain import producers
    chk = caps_checked(R)
    inner = caps_inner(R)
    m = S("map")
    n = 0
    for vn, st, v in R.results(R.run(chk, [m])):
        if vn == "Ok":
            n += 1
            x = proj_field(v, "", inner)
            R.ob("checked: every resource has an ability", nonempty(st, x), "%s accepts a map without having established that every resource has an ability; path: %s" % (R.where(chk), R.short(st, 900)))
            R.ob("checked: every caveat is an object", objects(st, x, 0), "%s accepts a map without having established that every caveat is an object; path: %s" % (R.where(chk), R.short(st, 900)))
        else:
            R.ob("checked: refused only for a resource without abilities or a caveat that is no object", refusal(st, m, None), "%s refuses a map for another reason; path: %s" % (R.where(chk), R.short(st, 900)))
    R.ob("checked: some map is accepted", n >= 1, "%s accepts nothing" % R.where(chk))
    k = 0
    for c, it in producers(R, "Capabilities"):
        f = c.fns[str(it["key"])]
        if f is chk:
            continue
        k += 1
        args = [S("in%d" % i) for i in range(len(it["in"]))]
        own = [a for a, i in zip(args, it["in"]) if c.ts(i).endswith("Capabilities")]
        label = "%s(%s)" % (it["name"], ", ".join(c.ts(i)[:40] for i in it["in"]))
        rets = R.run(f, args, [(chk, CHECKED)])
        vals = []
        for st, v in rets:
            if "Result<" in c.ts(it["out"]):
                vals += [(s, x) for vn, s, x in R.split([(st, v)], "Result") if vn == "Ok" for x in [proj_field(x, "Ok", "0")]]
            else:
                vals.append((st, v))
        for st, v in vals:
            x = payload_of(v)
            good = x is not None and the_call(x, CHECKED) and is_variant(st, x, "Ok")
            good = good or any(v is a or proj_field(v, "", inner) is proj_field(a, "", inner) for a in own)
            if not good:
                y = proj_field(v, "", inner)
                good = y.k != "fld" and nonempty(st, y) and objects(st, y, 0)
            R.ob("%s: yields only checked sets" % label, good, "%s yields a capability set that was not checked: %s; path: %s" % (R.where(f), kt(v), R.short(st, 600)))
        if it["name"] == "try_from":
            for vn, st, v in R.results(rets):
                if vn == "Err":
                    R.ob("%s: refuses only ill-formed input" % label, refusal(st, args[0], CHECKED), "%s refuses input for another reason; path: %s" % (R.where(f), R.short(st, 900)))
    R.ob("all ways to make a capability set examined", k >= 4, "only %d found" % k)
    from rules_api import sealed
    nf, ns = sealed(R, ["Capabilities"])
    R.ob("what is done to a set afterwards was examined", nf >= 1 and ns >= 6, "%d fields, %d signatures" % (nf, ns))
    for c, f in bodies_building(R.P, "Capabilities"):
        R.ob("sets are built only where they are checked", any(n == f["name"] for _, n in R.fns), "%s builds a capability set outside the examined conversions" % R.where(f))


# where a value must be an object or array: JSON sets, resources, lists of caveats and caveats, caveats in maps, caveats in lists
NEEDED = ([], ["obj"], ["obj", "obj"], ["obj", "obj", "arr"], ["val", "val", "arr"], ["arr", "cav"])
NEEDED_KIND = lambda d: "Array" if d == ["obj", "obj"] else "Object"


def refusal(st, root, checked):
    """a reason to refuse: the checked conversion refused, something is not an object or
    array where one is needed, or a resource has no abilities"""
    for t, c in st.var.items():
        if checked and t.k == "call" and t.a[0] == checked and c <= {"Err"}:
            return True
        d = descent(t, root)
        # a list of caveats is an array, everything else an object
        if d in NEEDED and NEEDED_KIND(d) not in c and c <= set(VALUES):
            return True
    for t, (lo, hi) in list(st.iv.items()):
        if t.k == "len" and (lo, hi) == (0, 0):
            d = descent(t.a[0], root)
            if d in (["val"], ["obj"]) and t.a[0].k in ("mval", "fld"):
                return True
    return False


def descent(t, root):
    """how t hangs below root: mval steps ('obj' through a JSON object), 'arr' for array elements, 'cav' for a listed capability's caveat"""
    out = []
    while t is not root:
        if t.k == "mval":
            t = t.a[0]
            if t.k == "fld" and t.a[1] == "Object":
                t = t.a[0]
                out.append("obj")
            else:
                out.append("val")
        elif t.k == "at":
            t = t.a[0]
            if t.k == "fld" and t.a[1] == "Array":
                t = t.a[0]
            out.append("arr")
        elif t.k == "fld" and t.a[1] == "Object":
            t = t.a[0]
            continue
        elif t.k == "fld" and t.a[2] == "caveat":
            t = t.a[0]
            out.append("cav")
        else:
            return None
    return out[::-1]


# ---- C15: capability sets are kept whole -----------------------------------------------------
@rule("C15")
def c15(R):
    import models
    inner = caps_inner(R)
    c = S("set")
    m = proj_field(c, "", inner)
    fn = R.P.fn("iter", "Capabilities")
    n = 0
    for st, it in R.run(fn, [c]):
        R.last.stack.append(fn)
        outs = models.collect(R.last, st, it, "vec") if it.k == "it" else [("ret", st, it)]
        R.last.stack.pop()
        for k, s, v in outs:
            R.ob("iter: yields a sequence", k == "ret" and (v.k == "coll" or v.k == "arr"), "%s: %s" % (R.where(fn), kt(v) if v is not None else k))
            if k != "ret":
                continue
            R.ob("iter: one capability at a time", not siblings(segs_of(v)), "%s yields several capabilities for one caveat: %s" % (R.where(fn), show(v)[:300]))
            R.ob("iter: one pass", len(segs_of(v)) == 1, "%s: %s" % (R.where(fn), show(v)[:300]))
            for loops, s2, x in emit(segs_of(v)):
                cur, ok_ = m, True
                for lev, (d, ix) in enumerate(loops):
                    ok_ = ok_ and d is cur and lev <= 2
                    cur = child(cur, ix, lev) if ok_ else cur
                if x is None:
                    lev = len(loops)
                    R.ob("iter: nothing is left out", ok_ and s2.ival(length(cur)) == (0, 0), "%s yields nothing for a resource, ability or caveat it visits; path: %s" % (R.where(fn), R.short(s2, 700)))
                    continue
                n += 1
                R.ob("iter: visits every caveat of every ability of every resource", ok_ and len(loops) == 3, "%s visits %s" % (R.where(fn), ", ".join(kt(d) for d, _ in loops)))
                if not (ok_ and len(loops) == 3) or x is Unknown or isinstance(x, tuple):
                    R.ob("iter: the element is understood", False, "%s" % R.where(fn))
                    continue
                i, j = loops[0][1], loops[1][1]
                ab = mk("mval", m, i)
                for f, want in (("resource", mk("mkey", m, i)), ("ability", mk("mkey", ab, j)), ("caveat", cur)):
                    R.ob("iter: the %s as stored" % f, proj_field(x, "", f) is want, "%s yields the %s %s" % (R.where(fn), f, kt(proj_field(x, "", f))))
    R.ob("iter: something is yielded", n >= 1, "%s yields nothing" % R.where(fn))
    chk = caps_checked(R)
    mm = S("map")
    for st, v in R.oks(R.run(chk, [mm])):
        R.ob("from a map: kept as it is", proj_field(v, "", inner) is mm, "%s yields %s" % (R.where(chk), kt(v)))
    k = 0
    for cr, it in R.P.items("try_from", "Capabilities", "TryFrom"):
        f = cr.fns.get(str(it["key"]))
        if f is None or f is chk:
            continue
        t = cr.ts(it["in"][0])
        src = S("input")
        got = 0
        for st, v in R.oks(R.run(f, [src], [(chk, CHECKED)])):
            x = payload_of(v)
            x = x.a[1][0] if x is not None and the_call(x, CHECKED) else proj_field(v, "", inner)
            if st.possible(length(x), INT(0)) == "=":
                continue
            got += 1
            if "Capability" in t and "Vec<" in t:
                R.ob("from a list: every entry is filed", listed(R, f, src, x, st), "%s builds %s" % (R.where(f), show(x)[:600]))
            else:
                R.ob("from JSON: every entry is filed", from_json(R, f, src, x), "%s builds %s" % (R.where(f), show(x)[:600]))
        k += 1
        R.ob("%s: a set is built" % t[:40], got >= 1, "%s builds nothing" % R.where(f))
    R.ob("conversions examined", k >= 2, "%d" % k)


def only_stars(x):
    return x.k == "coll" and len(x.a[1]) == 1


def from_json(R, f, src, x):
    """{resource: {ability: [caveats]}} copied entry by entry"""
    root = proj_field(src, "Object", "0")
    if not only_stars(x) or siblings(segs_of(x)):
        return x is root
    for loops, s, e in emit(segs_of(x)):
        if not isinstance(e, tuple) or len(loops) != 1 or loops[0][0] is not root:
            return False
        i = loops[0][1]
        v = mk("mval", root, i)
        if e[1] is not mk("mkey", root, i) or not is_variant(s, v, "Object"):
            return False
        ab = proj_field(v, "Object", "0")
        sub = e[2]
        if s.ival(length(ab)) == (0, 0) and length(sub) is INT(0):
            continue
        if not only_stars(sub):
            return False
        for l2, s2, e2 in emit(segs_of(sub), s):
            if not isinstance(e2, tuple) or len(l2) != 1 or l2[0][0] is not ab:
                return False
            j = l2[0][1]
            w = mk("mval", ab, j)
            if e2[1] is not mk("mkey", ab, j):
                return False
            arr = proj_field(w, "Array", "0")
            if e2[2] is not arr:
                if s2.ival(length(arr)) == (0, 0) and length(e2[2]) is INT(0):
                    continue
                if not only_stars(e2[2]):
                    return False
                for l3, s3, e3 in emit(segs_of(e2[2]), s2):
                    if len(l3) != 1 or l3[0][0] is not arr or e3 is not proj_index(arr, l3[0][1]):
                        return False
    return True


def listed(R, f, src, x, st):
    """every listed capability is added under its resource and ability"""
    if not only_stars(x):
        return False
    s0 = segs_of(x)[0]
    if s0[0] != "star" or s0[2] is not mk("dom", "all", src):
        return False
    L = s0[1]
    c = proj_index(src, mk("idx", (L,)))
    r, a, v = (proj_field(c, "", n) for n in ("resource", "ability", "caveat"))
    if not s0[3]:
        return False
    for fs, segs in s0[3]:
        s = fstate(fs)
        if s is None:
            continue
        if len(segs) != 1:
            return False
        g = segs[0]
        old = None
        for t in subterms((fs, segs)):
            if t.k == "mget" and t.a[1] is r and t.a[0].k == "coll":
                old = t
        if old is None:
            return False
        if g[0] == "kv":
            # a new resource
            if g[1] is not r or not is_variant(s, old, "None") or not adds(s, g[2], None, a, v):
                return False
        elif g[0] == "mod":
            was = proj_field(old, "Some", "0")
            if g[1] is not r or not is_variant(s, old, "Some") or g[3] is not was or not adds(s, g[2], was, a, v):
                return False
        else:
            return False
    return True


def adds(s, new, was, a, v):
    """`new` is the ability map `was` with v added under a"""
    segs = list(segs_of(new))
    if was is not None:
        if not segs or segs[0] != ("all", was):
            return False
        segs = segs[1:]
    if len(segs) != 1:
        return False
    g = segs[0]
    if g[0] not in ("kv", "mod") or g[1] is not a:
        return False
    if g[0] == "kv":
        if was is not None and not is_variant(s, mk("mget", was, a), "None"):
            return False
        return segs_of(g[2]) == (("one", v),)
    b = proj_field(mk("mget", was, a), "Some", "0") if was is not None else None
    if b is None or g[3] is not b or not is_variant(s, mk("mget", was, a), "Some"):
        return False
    xs = list(segs_of(g[2]))
    return xs == [("all", b), ("one", v)]

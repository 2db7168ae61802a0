"""C33, C34: what decoding takes from where; text forms."""
from terms import *
from engine import St, proj_field, proj_index, cat, Unsupported
from rule import Rule, is_variant, kt, S
from prog import Missing
from match import *
from rules_token import rule
from rules_build import failed
from rules_api import written
from rules_key import texts

# type -> {key: required}
DECODED = {
    "UcanHeader": {"alg": True, "typ": True},
    "UcanPayload": {"ucv": True, "iss": True, "aud": True, "exp": False, "nbf": False, "nnc": False, "cap": True, "fct": False, "prf": False},
    "UcanIpld": {"v": True, "iss": True, "aud": True, "s": True, "cap": True, "prf": False, "exp": False, "fct": False, "nnc": False, "nbf": False},
}


def one(R, m, path):
    out = [f for f in R.P.ucan.fns.values() if f["name"].endswith("::" + m) and path in f["name"]]
    if len(out) > 1:
        raise Missing("decoder (%s of %s)" % (m, path))
    return out[0] if out else None


def decoder(R, ty):
    """how values of ty are decoded: (visit_map of the visitor handed to the format, field of ty -> field of what
    that yields, method that tells the keys apart | None when the keys are compared as text)"""
    fn = R.P.fn("deserialize", ty, "Deserialize")
    w = R.where(fn)
    X, same = None, None

    def visits(c):
        return c is not None and c.k == "call" and c.a[0] in ("Deserializer::deserialize_struct", "Deserializer::deserialize_map") and c.a[1][-1].k == "adt"
    for st, v in R.run(fn, [S("d")]):
        if visits(v):
            x, m = v, None
        elif v.k == "adt" and v.a[1] == "Err":
            c = payload_of(v.a[3][0], "Err")
            R.ob("%s: refused only if decoding fails" % ty, visits(c) and is_variant(st, c, "Err"), "%s fails with %s; path: %s" % (w, kt(v), R.short(st)))
            continue
        elif v.k == "adt" and v.a[1] == "Ok" and v.a[3][0].k == "adt":
            m = {}
            xs = set()
            for f, y in zip(v.a[3][0].a[2], v.a[3][0].a[3]):
                c = payload_of(y.a[0]) if y.k == "fld" else None
                if not visits(c):
                    raise Unsupported("%s sets %s to %s" % (w, f, kt(y)))
                m[f] = y.a[2]
                xs.add(c)
            if len(xs) != 1 or not is_variant(st, list(xs)[0], "Ok"):
                raise Unsupported("%s yields %s" % (w, kt(v)))
            x = xs.pop()
        else:
            raise Unsupported("%s yields %s" % (w, kt(v)))
        if X not in (None, x) or same not in (None, m):
            raise Unsupported("%s decodes in more than one way" % w)
        X, same = x, m
    if X is None:
        raise Missing("decoder of %s" % ty)
    V = X.a[1][-1]
    if V.a[0] == "__Visitor":
        path = "::%s>::deserialize::" % X.a[1][1].a[0] if X.a[1][1].k == "str" else "?"
        vm, vs = one(R, "visit_map", path + "__Visitor"), one(R, "visit_str", path + "__FieldVisitor")
    else:
        vm, vs = R.P.fn("visit_map", V.a[0], "Visitor"), None
    if vm is None:
        raise Missing("decoder of %s" % ty)
    # values decoded through a function of one's own
    for f in R.P.ucan.fns.values():
        if f["name"].startswith("<" + vm["name"] + "::") and f["name"].endswith("Deserialize<'de>>::deserialize"):
            for st, v in R.run(f, [S("d")]):
                good = v.k == "adt" and v.a[1] == "Err" and failed(st)
                if v.k == "adt" and v.a[1] == "Ok":
                    c = payload_of(proj_field(v.a[3][0], "", "value"))
                    good = c is not None and c.k == "call" and c.a[0] == "Deserialize::deserialize" and c.a[1][0] is S("d") and is_variant(st, c, "Ok")
                R.ob("%s: a value is what is decoded" % ty, good, "%s yields %s; path: %s" % (R.where(f), kt(v), R.short(st)))
    return vm, same, vs


@rule("C33")
def c33(R):
    """exits and loops of the map visitors of header, payload and IPLD form"""
    for ty, keys in sorted(DECODED.items()):
        # which key is which
        vm, same, fn = decoder(R, ty)
        by = None
        if fn is not None:
            w = R.where(fn)
            key = S("key")
            name = {}
            for vn, st, v in R.results(R.run(fn, [S("self"), key])):
                R.ob("%s: an unknown key is not an error" % ty, vn == "Ok", "%s refuses a key; path: %s" % (w, R.short(st)))
                if vn != "Ok" or v.k != "adt":
                    R.ob("%s: keys are told apart" % ty, False, "%s yields %s" % (w, kt(v)))
                    continue
                known = [k for k in keys if st.possible(key, STR(k)) == "="]
                if known:
                    R.ob("%s: one field per key" % ty, name.get(known[0], v.a[1]) == v.a[1] and v.a[1] not in [x for k, x in name.items() if k != known[0]], "%s takes %s for the field of another key" % (w, known[0]))
                    name[known[0]] = v.a[1]
                else:
                    name.setdefault(None, set()).add(v.a[1])
            other = name.pop(None, set())
            for k in keys:
                R.ob("%s: the key %s is recognised" % (ty, k), k in name and name[k] not in other, "%s does not recognise %s" % (w, k))
            if any(k not in name for k in keys):
                continue
            by = {v: k for k, v in name.items()}
        # what is done with it
        fn = vm
        w = R.where(fn)
        rs = R.run(fn, [S("self"), S("map")])
        R.ob("%s: does not panic" % ty, not R.panics, "%s may panic" % w)
        e = R.last
        if len(e.loops) != 1:
            raise Unsupported("%d loops in %s" % (len(e.loops), w))
        (L, info), = e.loops.items()
        holds = {}       # field of the result -> position
        rs = R.results(rs)
        for vn, st, v in sorted(rs, key=lambda r: r[0] == "Err"):
            if vn == "Err":
                end = any(t.k == "call" and t.a[0] == "MapAccess::next_key" and is_variant(st, t, "Ok") and is_variant(st, ok(t), "None") for t in st.var)
                if end and any(keys.get(f) and is_variant(st, info["pos"][pid][2], "None") for f, pid in holds.items()):
                    continue
                R.ob("%s: refused only if a step fails, a key is repeated or a required one is missing" % ty,
                     failed(st) or v.k == "call" and v.a[0] == "Error::duplicate_field", "%s fails with %s; path: %s" % (w, kt(v), R.short(st)))
                continue
            if v.k != "adt":
                raise Unsupported("%s yields %s" % (w, kt(v)))
            R.ob("%s: a failing step is not ignored" % ty, not failed(st), "%s succeeds although a step failed; path: %s" % (w, R.short(st)))
            for f, x in zip(v.a[2], v.a[3]) if same is None else [(f, proj_field(v, "", g)) for f, g in same.items()]:
                miss = missing(x)
                if miss is not None:
                    R.ob("%s.%s: absent only if its key is absent" % (ty, f), miss == f, "%s treats %s as %s" % (w, f, miss))
                    continue
                p = payload_of(x, "Some")
                if p is None and is_variant(st, x, "None") or is_none(x):
                    # an optional field whose key did not occur
                    R.ob("%s.%s: may be absent" % (ty, f), not keys.get(f, True), "%s leaves %s absent" % (w, f))
                    continue
                if p is None:
                    p = x
                pid = [i for i, c in info["pos"].items() if c[2] is p]
                R.ob("%s.%s: comes from the map" % (ty, f), len(pid) == 1, "%s sets %s to %s; path: %s" % (w, f, kt(x), R.short(st, 200)))
                if len(pid) == 1:
                    R.ob("%s.%s: one source" % (ty, f), holds.setdefault(f, pid[0]) == pid[0], "%s takes %s from different places" % (w, f))
        for k in keys:
            R.ob("%s.%s: is decoded" % (ty, k), k in holds, "%s never takes %s from the map" % (w, k))
        # each round of the loop
        nk = None
        filled = set()
        for facts, st in info["alts"]:
            st = st.copy()
            for f in facts:
                st.assume(f)
            var = None
            for t, vs in st.var.items():
                if t.k == "fld" and len(vs) == 1 and (t.a[1], t.a[2]) == ("Some", "0"):
                    c = payload_of(t.a[0])
                    if c is not None and c.k == "call" and c.a[0] == "MapAccess::next_key" and by is not None:
                        var, nk = list(vs)[0], c
            if by is None:
                for t in st.var:
                    if t.k == "call" and t.a[0] == "MapAccess::next_key" and is_variant(st, t, "Ok"):
                        k = proj_field(ok(t), "Some", "0")
                        nk = t
                        var = next((x for x in keys if st.possible(k, STR(x)) == "="), "?")
            R.ob("%s: each round is about one key" % ty, var is not None, "%s: round with path %s" % (w, R.short(st)))
            for f, pid in holds.items():
                base, head = info["pos"][pid][1:]
                new = e.get_at(st.cells.get(pid[0]), pid)
                if new is head:
                    continue
                g = (by or {k: k for k in keys}).get(var) == f
                R.ob("%s.%s: set for its own key only" % (ty, f), g, "%s sets %s on the key %s" % (w, f, (by or {}).get(var, var)))
                src = payload_of(new, "Some") if new.k != "adt" else (new.a[3][0] if new.a[1] == "Some" else None)
                src = src if src is not None else new
                if src.k == "fld" and src.a[1:] == ("", "value"):
                    src = src.a[0]
                c = payload_of(src)
                good = c is not None and c.k == "call" and c.a[0] == "MapAccess::next_value" and c.a[1][0].k == "after" and c.a[1][0].a[0] is nk
                R.ob("%s.%s: is the value of that key" % (ty, f), good, "%s sets %s to %s" % (w, f, kt(new)))
                R.ob("%s.%s: no key is taken twice" % (ty, f), is_variant(st, head, "None"), "%s overwrites %s; path: %s" % (w, f, R.short(st)))
                if good:
                    filled.add(f)
        for f, pid in holds.items():
            R.ob("%s.%s: unset at first" % (ty, f), is_none(info["pos"][pid][1]), "%s starts with %s" % (w, kt(info["pos"][pid][1])))
            R.ob("%s.%s: filled from its key" % (ty, f), f in filled, "%s has no round that takes %s" % (w, f))
    # the IPLD form is written under the same names
    x = S("value")
    ty, keys = "UcanIpld", DECODED["UcanIpld"]
    fn = R.P.fn("serialize", ty, "Serialize")
    w = R.where(fn)
    for vn, st, v in R.results(R.run(fn, [x, S("serializer")])):
        if vn == "Err":
            R.ob("%s: encoding fails only if the encoder fails" % ty, failed(st), "%s fails; path: %s" % (w, R.short(st)))
            continue
        R.ob("%s: a failing step of encoding is not ignored" % ty, not failed(st), "%s succeeds although a step failed; path: %s" % (w, R.short(st)))
        got = {}
        for k, val in written(st):
            k = k.a[0] if k.k == "str" else kt(k)
            R.ob("%s: each key once" % ty, k not in got, "%s writes %s twice" % (w, k))
            got[k] = val
        R.ob("%s: only the specified keys" % ty, set(got) <= set(keys), "%s writes the keys %s" % (w, sorted(got)))
        for k, need in sorted(keys.items()):
            f = proj_field(x, "", k)
            if k in got:
                R.ob("%s: %s is encoded under its own key" % (ty, k), got[k] is f, "%s writes %s under %s" % (w, kt(got[k]), k))
            else:
                R.ob("%s: %s is left out only if absent" % (ty, k), not need and is_variant(st, f, "None"), "%s leaves out %s; path: %s" % (w, k, R.short(st)))


def is_none(x):
    return x.k == "adt" and x.a[1] == "None"


def missing(x):
    """key when x is what serde yields for an absent key"""
    c = payload_of(x)
    if c is not None and c.k == "call" and c.a[0].endswith("missing_field") and c.a[1] and c.a[1][-1].k == "str":
        return c.a[1][-1].a[0]
    return None


# ---- C34 ---------------------------------------------------------------------------------
def text_uri(x):
    """possible texts of a ResourceUri x: variant -> text"""
    return {"Unscoped": STR("*"), "Scoped": call("ToString::to_string", proj_field(x, "Scoped", "0"))}


def text_resource(st, x):
    """text of Resource x on a path on which its variant is known"""
    for vn, pre in (("Resource", []), ("My", [STR("my:")]), ("As", [STR("as:"), proj_field(x, "As", "did"), STR(":")])):
        if is_variant(st, x, vn):
            k = proj_field(x, vn, "kind")
            for un, t in text_uri(k).items():
                if is_variant(st, k, un):
                    return cat(pre + [t]), (vn, un)
            # the kind's own text
            return cat(pre + [call("ToString::to_string", k)]), (vn, "any")
    return None, None


def same_text(st, v, want):
    return v is want or v.k == "str" and want.k == "str" and v.a == want.a or st.possible(v, want) == "="


@rule("C34")
def c34(R):
    """exits of the text forms and of the capability conversions"""
    x = S("x")
    fn, rs = texts(R, "ResourceUri")
    n = set()
    for st, v in rs:
        for un, t in text_uri(x).items():
            if is_variant(st, x, un):
                n.add(un)
                R.ob("resource path %s: its text" % un, same_text(st, v, t), "%s writes %s as %s" % (R.where(fn), un, kt(v)))
    R.ob("both forms of a resource path are written", n == {"Scoped", "Unscoped"} and not R.panics, "%s: %s" % (R.where(fn), sorted(n)))
    fn, rs = texts(R, "Resource")
    resources(R, fn, rs, x, lambda v: v)
    # capability views
    fns = [(c.fns[str(it["key"])], c.ts(it["in"][0])) for c, it in R.P.items("from", "Capability", "From") if str(it["key"]) in c.fns]
    seen = set()
    for fn, ty in fns:
        w = R.where(fn)
        if "CapabilityView" in ty:
            seen.add("&view" if ty.startswith("&") else "view")
            resources(R, fn, R.run(fn, [x]), proj_field(x, "", "resource"), lambda v: proj_field(v, "", "resource"))
            for st, v in R.run(fn, [x]):
                R.ob("view to capability: ability", proj_field(v, "", "ability") is call("ToString::to_string", proj_field(x, "", "ability")), "%s takes the ability from %s" % (w, kt(proj_field(v, "", "ability"))))
                R.ob("view to capability: caveat", proj_field(v, "", "caveat") is proj_field(x, "", "caveat"), "%s takes the caveat from %s" % (w, kt(proj_field(v, "", "caveat"))))
        else:
            tup = "(" in ty
            seen.add("tuple" if tup else "&capability")
            rs = R.run(fn, [x])
            R.ob("conversion to a capability always works", len(rs) >= 1 and not R.panics, "%s may panic" % w)
            for st, v in rs:
                for f, i in (("resource", 0), ("ability", 1), ("caveat", 2)):
                    want = proj_index_field(x, i) if tup else proj_field(x, "", f)
                    R.ob("conversion to a capability: %s" % f, proj_field(v, "", f) is want, "%s takes the %s from %s" % (w, f, kt(proj_field(v, "", f))))
    R.ob("all conversions to a capability were examined", {"view", "&view", "tuple", "&capability"} <= seen, str(sorted(seen)))
    tups = [(c, c.fns[str(it["key"])]) for c, it in R.P.items("from", None, "From") if str(it["key"]) in c.fns and "data::Capability" in c.ts(it["in"][0]) and c.ts(it["out"]).startswith("(")]
    R.ob("a capability can be taken apart", len(tups) >= 1, "no such conversion")
    for c, fn in tups:
        for st, v in R.run(fn, [x]):
            for i, f in enumerate(("resource", "ability", "caveat")):
                R.ob("taking a capability apart: %s" % f, proj_index_field(v, i) is proj_field(x, "", f), "%s puts %s at place %d" % (R.where(fn), kt(proj_index_field(v, i)), i))
    # proof selections and actions: the text is the one that parses back
    fn, rs = texts(R, "ProofSelection")
    w = R.where(fn)
    n = set()
    for st, v in rs:
        if is_variant(st, x, "All"):
            n.add("All")
            R.ob("all proofs: prf:*", same_text(st, v, STR("prf:*")), "%s writes it as %s" % (w, kt(v)))
        elif is_variant(st, x, "Index"):
            n.add("Index")
            i = proj_field(x, "Index", "0")
            R.ob("one proof: prf:<n>", v is cat([STR("prf:"), mk("disp", i)]), "%s writes it as %s" % (w, kt(v)))
    R.ob("both proof selections are written", n == {"All", "Index"} and not R.panics, "%s: %s" % (w, sorted(n)))
    for c, it in R.P.items("try_from", "ProofSelection", "TryFrom"):
        if str(it["key"]) not in c.fns:
            continue
        fn = c.fns[str(it["key"])]
        w = R.where(fn)
        uri = "Url" in c.ts(it["in"][0])
        path = call("Url::path", x) if uri else x
        num = call("parse:usize", path)
        m = set()
        for vn, st, v in R.results(R.run(fn, [x])):
            star = st.possible(path, STR("*"))
            sch = st.possible(call("Url::scheme", x), STR("prf")) if uri else "="
            if vn == "Ok":
                R.ob("only prf: names proofs", sch == "=", "%s accepts another scheme; path: %s" % (w, R.short(st)))
                if is_variant(st, v, "All"):
                    m.add("All")
                    R.ob("* names all proofs", star == "=", "%s; path: %s" % (w, R.short(st)))
                else:
                    m.add("Index")
                    R.ob("a number names that proof", is_variant(st, v, "Index") and proj_field(v, "Index", "0") is ok(num) and is_variant(st, num, "Ok") and "=" not in star, "%s yields %s; path: %s" % (w, kt(v), R.short(st)))
            else:
                R.ob("refused only if it is neither * nor a number", "=" not in sch or "=" not in star and is_variant(st, num, "Err"), "%s refuses; path: %s" % (w, R.short(st)))
        R.ob("proof selections parse", m == {"All", "Index"} and not R.panics, w)
    fn, rs = texts(R, "ProofAction")
    R.ob("the proof action is ucan/DELEGATE", len(rs) == 1 and rs[0][1] is STR("ucan/DELEGATE"), "%s writes %s" % (R.where(fn), [kt(v) for s, v in rs]))
    for c, it in R.P.items("try_from", "ProofAction", "TryFrom"):
        if str(it["key"]) not in c.fns:
            continue
        fn = c.fns[str(it["key"])]
        m = set()
        for vn, st, v in R.results(R.run(fn, [x])):
            m.add(vn)
            p = st.possible(x, STR("ucan/DELEGATE"))
            R.ob("exactly ucan/DELEGATE is the proof action", p == "=" if vn == "Ok" else "=" not in p, "%s: %s; path: %s" % (R.where(fn), vn, R.short(st)))
        R.ob("the proof action parses", m == {"Ok", "Err"} and not R.panics, R.where(fn))


def resources(R, fn, rs, x, get):
    w = R.where(fn)
    n = set()
    for st, v in rs:
        v = get(v)
        t, k = text_resource(st, x)
        if t is None:
            t, k = call("ToString::to_string", x), ("any", "any")
        n.add(k[0])
        R.ob("resource %s/%s: its text" % k, same_text(st, v, t), "%s writes it as %s; path: %s" % (w, kt(v), R.short(st, 200)))
    R.ob("every kind of resource is written", ("any" in n or n == {"Resource", "My", "As"}) and not R.panics, "%s: %s" % (w, sorted(n)))


def proj_index_field(x, i):
    return proj_field(x, "", str(i))

"""Building, converting and storing tokens: C19-C22, C25"""
import mir
from rule import *
from match import *
from engine import proj_index, segs_of, length, add
from emit import emit, assume
from rules_token import rule, RULES
from rules_cap import eq3, truth, one_variant, may
from rules_key import mutable, fields_of, varint, displayed


def caps_cut(R):
    fs = [c.fns[str(it["key"])] for c, it in R.P.items("try_from", "Capabilities", "TryFrom") if "Vec<" in c.ts(it["in"][0]) and "BTreeMap" not in c.ts(it["in"][0]) and str(it["key"]) in c.fns]
    if len(fs) != 1:
        raise Missing("Capabilities: TryFrom<Vec<Capability>>")
    return (fs[0], "Capabilities::try_from")


def failed(st, *names):
    """some step known to have failed (of these names, if given)"""
    return any(t.k == "call" and vs == frozenset(["Err"]) and (not names or t.a[0] in names) for t, vs in st.var.items())


def same_opt(st, a, b):
    if a is b:
        return True
    if is_variant(st, b, "None"):
        return is_variant(st, a, "None")
    if is_variant(st, b, "Some"):
        return a.k == "adt" and a.a[1] == "Some" and a.a[3][0] is proj_field(b, "Some", "0")
    return False


def jwt_part(t, x, need):
    """t is the unpadded base64url text of x's canonical DAG-JSON"""
    if t.k != "call" or t.a[0] != "Engine::encode" or t.a[1][0] is not B64:
        return False
    v = to_dagjson(t.a[1][1], need)
    return v is x


def signs_itself(R, st, u):
    """u's signed bytes are the encoding of its own header and payload"""
    d = R.uf(u, "signed_data")
    need = []
    if d.k != "cat" or len(d.a[0]) != 3 or d.a[0][1] is not STR("."):
        return False
    return jwt_part(d.a[0][0], R.uf(u, "header"), need) and jwt_part(d.a[0][2], R.uf(u, "payload"), need) and all_ok(st, need)


# ---- C19 ---------------------------------------------------------------------------------
class Builder(object):
    """which field of the builder becomes which part of the token, from build()"""

    def __init__(self, R):
        self.R = R
        self.fn = R.P.fn("build", "UcanBuilder")
        self.w = R.where(self.fn)
        b = self.b = S("builder")
        self.rs = R.results(R.run(self.fn, [b]))
        self.panics = list(R.panics)
        self.role = {}
        for vn, st, v in self.rs:
            if vn != "Ok":
                continue
            for n in ("audience", "issuer", "capabilities", "facts", "proofs", "not_before", "add_nonce"):
                f = self.root(proj_field(v, "", n))
                if f:
                    self.role.setdefault(n, set()).add(f)
            e = proj_field(v, "", "expiration")
            for x in (e,) if e.k != "adt" else e.a[3]:
                if self.root(x):
                    self.role.setdefault("expiration", set()).add(self.root(x))
                for y in subterms(x):
                    if y is not x and y.k == "fld" and self.root(y) and y.a[0] is not b:
                        self.role.setdefault("lifetime", set()).add(self.root(y))
        for n in list(self.role):
            if len(self.role[n]) != 1:
                R.ob("each part of the token is set from one place", False, "%s: %s comes from %s" % (self.w, n, sorted(self.role[n])))
            self.role[n] = sorted(self.role[n])[0]
        want = {"audience", "issuer", "capabilities", "facts", "proofs", "not_before", "add_nonce", "expiration", "lifetime"}
        missing = want - set(self.role)
        R.ob("every part of the token is set from the builder", not missing, "%s does not take from the builder: %s" % (self.w, sorted(missing)))
        self.ok = not missing
        R.ob("no part of the builder stands for two parts of the token", len(set(self.role.values())) == len(self.role), "%s: %s" % (self.w, self.role))

    def root(self, t):
        """the builder's field t is read from"""
        while t.k == "fld":
            if t.a[0] is self.b:
                return t.a[2]
            if t.a[1] not in ("Some",):
                return None
            t = t.a[0]
        return None

    def get(self, b, n):
        return proj_field(b, "", self.role[n])

    def rest_same(self, key, st, v, old, changed, w):
        for n in self.role:
            if n not in changed:
                x, y = self.get(v, n), self.get(old, n)
                self.R.ob("setting one part leaves the others", x is y, "%s also changes %s to %s" % (w, n, kt(x)))


def some_of(st, v, x):
    return v.k == "adt" and v.a[1] == "Some" and v.a[3][0] is x


@rule("C19")
def c19(R):
    P = R.P
    B = Builder(R)
    if not B.ok:
        return
    b = B.b
    exits = 0
    for vn, st, v in B.rs:
        iss, aud = B.get(b, "issuer"), B.get(b, "audience")
        if vn == "Err":
            R.ob("building fails only without issuer or audience", is_variant(st, iss, "None") or is_variant(st, aud, "None"), "%s fails; path: %s" % (B.w, R.short(st)))
            continue
        exits += 1
        R.ob("building needs an issuer and an audience", is_variant(st, iss, "Some") and is_variant(st, aud, "Some"), "%s succeeds without; path: %s" % (B.w, R.short(st)))
        for n in ("issuer", "audience"):
            R.ob("issuer and audience are those given", proj_field(v, "", n) is proj_field(B.get(b, n), "Some", "0"), "%s: %s is %s" % (B.w, n, kt(proj_field(v, "", n))))
        for n in ("capabilities", "facts", "proofs", "not_before", "add_nonce"):
            x, y = proj_field(v, "", n), B.get(b, n)
            R.ob("capabilities, facts, proofs, not-before and nonce choice are those given", x is y or n == "not_before" and same_opt(st, x, y), "%s: %s is %s; path: %s" % (B.w, n, kt(x), R.short(st)))
        e, exp, life = proj_field(v, "", "expiration"), B.get(b, "expiration"), B.get(b, "lifetime")
        if is_variant(st, exp, "Some"):
            g = same_opt(st, e, exp)
        elif is_variant(st, exp, "None") and is_variant(st, life, "Some"):
            g = e.k == "adt" and e.a[1] == "Some" and saturated(st, e.a[3][0], proj_field(life, "Some", "0"))
        elif is_variant(st, exp, "None") and is_variant(st, life, "None"):
            g = is_variant(st, e, "None")
        else:
            g = False
        R.ob("the expiry is the explicit one, or now plus the lifetime without wrapping, or absent", g, "%s: the expiry is %s; path: %s" % (B.w, kt(e), R.short(st)))
    R.ob("building can succeed", exits >= 1, B.w)
    for st, p in B.panics:
        R.ob("building does not panic but for a clock before the epoch", clock_only(st), "%s may panic: %s; path: %s" % (B.w, str(p)[:100], R.short(st)))
    # a new builder
    for c, it in P.items("default", "UcanBuilder", "Default"):
        fn = c.fns[str(it["key"])]
        for st, v in R.run(fn, []):
            for n in B.role:
                x = B.get(v, n)
                g = is_variant(st, x, "None") or empty(x) or x is BOOL(False)
                R.ob("a new builder has nothing set", g, "%s sets %s to %s" % (R.where(fn), n, kt(x)))
    # the setters
    a = S("given")
    for m, n, kind in (("issued_by", "issuer", "some"), ("for_audience", "audience", "some"), ("with_lifetime", "lifetime", "some"), ("with_expiration", "expiration", "some"),
                       ("not_before", "not_before", "some"), ("with_nonce", "add_nonce", "true"), ("claiming_capability", "capabilities", "push"), ("claiming_capabilities", "capabilities", "extend")):
        fn = P.fn(m, "UcanBuilder")
        w = R.where(fn)
        rs = R.run(fn, [b] if kind == "true" else [b, a])
        R.ob("a setter always sets", len(rs) >= 1, w)
        for st, v in rs:
            x, old = B.get(v, n), B.get(b, n)
            if kind == "some":
                g = some_of(st, x, a)
            elif kind == "true":
                g = st.truth(x) is True
            elif kind == "push":
                g = appended(x, old) == [as_cap(a)]
            else:
                g = extended(st, x, old, a)
            R.ob("what is given is what is set", g, "%s sets %s to %s; path: %s" % (w, n, show(x)[:300], R.short(st, 300)))
            B.rest_same(m, st, v, b, {n}, w)
        R.ob("setting does not panic", not R.panics, "%s may panic" % w)
    fn = P.fn("with_fact", "UcanBuilder")
    w = R.where(fn)
    k, f = S("key"), S("fact")
    val = call("serde_json::to_value", f)
    n = 0
    for st, v in R.run(fn, [b, k, f]):
        x, old = B.get(v, "facts"), B.get(b, "facts")
        if is_variant(st, val, "Ok"):
            n += 1
            segs = segs_of(x)
            R.ob("a fact is added under its key", len(segs) == 2 and segs[0] == ("all", old) and segs[1] == ("kv", k, ok(val)), "%s sets the facts to %s" % (w, show(x)[:300]))
        else:
            R.ob("a fact is left out only if it has no JSON form", is_variant(st, val, "Err") and x is old, "%s sets the facts to %s; path: %s" % (w, show(x)[:200], R.short(st)))
        B.rest_same("with_fact", st, v, b, {"facts"}, w)
    R.ob("facts can be added", n >= 1, w)
    # the payload
    s = S("signable")
    G = lambda n: proj_field(s, "", n)
    conv, did = call("Capabilities::try_from", G("capabilities")), call("KeyMaterial::get_did", G("issuer"))
    own = [x for f in P.ucan.fns.values() if f["name"].split("::")[-1] == "UCAN_VERSION" for _, x in R.run(f, [])]
    for m in ("ucan_payload", "sign"):  # on its own, and as part of a signed token
        fn = P.fn(m, "Signable")
        w = R.where(fn)
        seen = set()
        for vn, st, v in R.results(R.run(fn, [s], [caps_cut(R)])):
            if vn == "Err":
                if m == "ucan_payload":
                    R.ob("producing the payload fails only with the issuer's DID or the capabilities", is_variant(st, conv, "Err") or is_variant(st, did, "Err"), "%s fails; path: %s" % (w, R.short(st)))
                continue
            v = R.uf(v, "payload") if m == "sign" else v
            p = lambda n: proj_field(v, "", n)
            R.ob("payload: the version is the library's", p("ucv").k == "str" and (not own or p("ucv") in own), "%s: version %s" % (w, kt(p("ucv"))))
            R.ob("payload: audience, expiry and not-before as asked", p("aud") is G("audience") and same_opt(st, p("exp"), G("expiration")) and same_opt(st, p("nbf"), G("not_before")), "%s: %s, %s, %s" % (w, kt(p("aud")), kt(p("exp")), kt(p("nbf"))))
            R.ob("payload: the issuer is the issuer key's DID", p("iss") is ok(did) and is_variant(st, did, "Ok"), "%s: issuer %s" % (w, kt(p("iss"))))
            R.ob("payload: the capabilities as asked", p("cap") is ok(conv) and is_variant(st, conv, "Ok"), "%s: capabilities %s" % (w, kt(p("cap"))))
            for f, n in (("fct", "facts"), ("prf", "proofs")):
                lo, hi = st.ival(length(G(n))) or (0, 1 << 64)
                x = p(f)
                seen.add((f, hi == 0))
                g = is_variant(st, x, "None") if hi == 0 else lo >= 1 and some_of(st, x, G(n))
                R.ob("payload: facts and proofs as asked, omitted exactly when empty", g, "%s: %s is %s for a number of %s in [%s,%s]" % (w, f, kt(x), n, lo, hi))
            q = st.truth(G("add_nonce"))
            x = p("nnc")
            if q is True:
                seen.add("nonce")
                g = x.k == "adt" and x.a[1] == "Some" and fresh(x.a[3][0])
            else:
                g = q is False and is_variant(st, x, "None")
            R.ob("payload: a fresh random nonce exactly when asked", g, "%s: the nonce is %s; path: %s" % (w, kt(x), R.short(st)))
        R.ob("payloads with and without facts, proofs and nonce", len(seen) == 5, "%s: %s" % (w, sorted(map(str, seen))))
        R.ob("producing the payload does not panic", not R.panics, "%s may panic" % w)
    copies(R, ["UcanBuilder"])


def copies(R, types=None):
    """whatever these types say a copy is, it has the same parts (types: those whose copies are made by hand are looked at; None: every copy of every type)"""
    out = set()
    for c in R.P.crates.values():
        for it in c.items:
            if it["name"] not in ("clone", "clone_from") or types is not None and (it.get("derived") or c.self_name(it) not in types) or not it.get("trait") or mir.head_name(it["trait"]) != "Clone" or str(it["key"]) not in c.fns:
                continue
            fn = c.fns[str(it["key"])]
            me = c.self_name(it)
            if it["name"] == "clone_from":
                R.ob("a copy made in place is the same: %s" % me, False, "%s overrides how a copy is made in place, for which there is no rule" % R.where(fn))
                continue
            x = S("original")
            rs = R.run(fn, [x])
            for st, v in rs:
                R.ob("a copy is the same: %s" % me, same_parts(st, v, x, R.P.engine()), "%s makes %s; path: %s" % (R.where(fn), show(v)[:300], R.short(st, 200)))
            R.ob("copying yields a copy: %s" % me, rs and not R.panics, "%s may panic" % R.where(fn))
            out.add(me)
    return out


def same_parts(st, v, x, e):
    if v is x or st.possible(v, x) == "=" or same_opt(st, v, x):
        return True
    if v.k == "adt":
        if v.a[1] and not is_variant(st, x, v.a[1]) and not (v.a[0] in e.adtidx and e.allv(v.a[0]) == {v.a[1]}):
            return False
        return all(same_parts(st, y, proj_field(x, v.a[1], n), e) for n, y in zip(v.a[2], v.a[3]))
    return False


def clock_only(st):
    return any(t.k == "call" and t.a[0] == "SystemTime::duration_since" and vs == frozenset(["Err"]) for t, vs in st.var.items())


def saturated(st, t, life):
    """now + life, at most the largest number"""
    if t.k == "call" and t.a[0] == "saturating_add":
        a, b = t.a[1]
        return (a is life and wallclock(b)) or (b is life and wallclock(a))
    # spelled out as checked_add(..).unwrap_or(MAX)
    if t.k == "int" and t.a[0] == (1 << 64) - 1:
        return any(x.k == "call" and x.a[0].endswith("checked_add") and vs == frozenset(["None"]) and sumof(x, life) for x, vs in st.var.items()) or \
            any(b and x.k == "call" and x.a[0] == "overflow" and sumof(x, life) for x, b in st.bl.items())
    if t.k == "add" or t.k == "bin":
        return any(b is False and x.k == "call" and x.a[0] == "overflow" and sumof(x, life) and add(*x.a[1]) is t for x, b in st.bl.items())
    if t.k == "fld" and t.a[1] == "Some" and t.a[0].k == "call" and t.a[0].a[0].endswith("checked_add"):
        return is_variant(st, t.a[0], "Some") and sumof(t.a[0], life)
    return False


def sumof(x, life):
    a, b = x.a[1]
    return (a is life and wallclock(b)) or (b is life and wallclock(a))


def as_cap(x):
    return call("From<Capability>", x)


def appended(x, old):
    """what x has after old, or None"""
    segs = list(segs_of(x)) if x.k in ("coll", "arr") else []
    if not segs or segs[0] != ("all", old):
        return None
    return [s[1] if s[0] == "one" else None for s in segs[1:]]


def extended(st, x, old, given):
    segs = list(segs_of(x)) if x.k == "coll" else []
    if not segs or segs[0] != ("all", old):
        return False
    rest = segs[1:]
    if not rest:
        return st.ival(length(given)) == (0, 0)
    if len(rest) == 1 and rest[0][0] == "star":
        n = 0
        for loops, s, e in emit(rest):
            if len(loops) != 1 or loops[0][0] is not given or e is not as_cap(proj_index(given, loops[0][1])):
                return False
            n += 1
        return n >= 1
    # a known number of elements
    return [s[1] for s in rest if s[0] == "one"] == [as_cap(proj_index(given, INT(i))) for i in range(len(rest))] and st.ival(length(given)) == (len(rest), len(rest))


def filled(x):
    """the number of bytes of a buffer that a random number generator has filled"""
    if x.k == "after" and x.a[1].k == "int" and x.a[1].a[0] == 1 and x.a[0].k == "call" and x.a[0].a[0] in ("Rng::fill", "RngCore::fill_bytes") and x.a[0].a[1][0].k == "sym" and x.a[0].a[1][0].a[0] == "thread_rng":
        if x.a[2].k == "repeat":
            n = x.a[2].a[1].split("_")[0]
            return int(n) if n.isdigit() else 0
        n = x.a[2].a[1][1] if x.a[2].k == "call" and x.a[2].a[0] == "vec::from_elem" else length(x.a[2])
        return n.a[0] if n.k == "int" else 0
    return 0


def fresh(t):
    return strength(t) >= 8


# what loses nothing of what it is given
FAITHFUL = ("Engine::encode", "jwt_base64_encode", "to_be_bytes", "to_le_bytes", "to_ne_bytes", "Digest::digest", "MultihashDigest::digest", "Multihash::to_bytes", "encode", "to_vec", "from_utf8")


def strength(t):
    """a lower bound of the number of random bytes that decide t (0: unknown)"""
    import re
    n = filled(t)
    if n:
        return n
    k = t.k
    if k == "icall" and t.a[0] == "random":
        ty = " ".join(str(y) for y in t.a)
        m = re.search(r"\[u8; (\d+)\]", ty)
        return int(m.group(1)) if m else 16 if "u128" in ty else 8 if "u64" in ty else 4 if "u32" in ty else 0
    if k == "call" and (t.a[0] in FAITHFUL or t.a[0].split("::")[-1] in FAITHFUL):
        return max([strength(x) for x in t.a[1]], default=0)
    if k == "cat":
        return sum({x: strength(x) for x in t.a[0]}.values()) if len(t.a[0]) < 40 else 0
    if k in ("disp", "fmtspec"):
        return strength(t.a[0])
    if k == "fld" and t.a[1] in ("Ok", "Some"):
        return strength(t.a[0])
    if k == "after" and t.a[0].k == "call" and t.a[0].a[0] in ("Engine::encode_string",):
        return strength(t.a[0].a[1][1])
    if k == "coll" and len(t.a[1]) == 1 and t.a[1][0][0] == "star":
        # something of every byte, one by one
        es = list(emit(t.a[1]))
        if len(es) == 1 and len(es[0][0]) == 1:
            src, i = es[0][0][0][:2]
            e = es[0][2]
            while e.k in ("disp", "fmtspec"):
                e = e.a[0]
            if e is proj_index(src, i):
                return strength(src)
            # or as many numbers, drawn one by one
            if e.k == "icall" and e.a[0] == "random" and e.a[1] >= 1000 * t.a[1][0][1]:
                m = re.search(r"'u(8|16|32|64|128)'", " ".join(str(y) for y in e.a))
                n = src.a[2] if src.k == "dom" and src.a[0] == "range" and src.a[1] == INT(0) else length(src)
                return int(m.group(1)) // 8 * n.a[0] if m and n.k == "int" else 0
    return 0


# ---- C20 ---------------------------------------------------------------------------------
@rule("C20")
def c20(R):
    P = R.P
    s = S("signable")
    iss = proj_field(s, "", "issuer")
    alg, did = call("KeyMaterial::get_jwt_algorithm_name", iss), call("KeyMaterial::get_did", iss)
    fn = P.fn("ucan_header", "Signable")
    for st, v in R.run(fn, [s]):
        R.ob("the header has the type JWT", typed(v), "%s: %s" % (R.where(fn), kt(v)))
        R.ob("the header names the issuer key's algorithm", proj_field(v, "", "alg") is alg, "%s: %s" % (R.where(fn), kt(v)))
    fn = P.fn("sign", "Signable")
    w = R.where(fn)
    n = 0
    for vn, st, v in R.results(R.run(fn, [s], [caps_cut(R)])):
        if vn == "Err":
            R.ob("signing fails only if a step failed", failed(st), "%s fails; path: %s" % (w, R.short(st)))
            continue
        n += 1
        h, p, d = R.uf(v, "header"), R.uf(v, "payload"), R.uf(v, "signed_data")
        R.ob("a failure is returned as an error", not failed(st), "%s succeeds although a step failed; path: %s" % (w, R.short(st)))
        R.ob("the signed token's header has the type JWT", typed(h), "%s: %s" % (w, kt(h)))
        R.ob("the signed token's header names the issuer key's algorithm", proj_field(h, "", "alg") is alg, "%s: %s" % (w, kt(h)))
        R.ob("the signed token's issuer is the issuer key's DID", proj_field(p, "", "iss") is ok(did) and is_variant(st, did, "Ok"), "%s: %s" % (w, kt(proj_field(p, "", "iss"))))
        R.ob("the signed bytes are the encoding of the token's header and payload", signs_itself(R, st, v), "%s: signed bytes %s" % (w, show(d)[:300]))
        sig = call("KeyMaterial::sign", iss, d)
        R.ob("the signature is the issuer key's over the signed bytes", R.uf(v, "signature") is ok(sig) and is_variant(st, sig, "Ok"), "%s: signature %s" % (w, kt(R.uf(v, "signature"))))
    R.ob("signing can succeed", n >= 1, w)
    R.ob("signing does not panic", not R.panics, "%s may panic" % w)
    encoder(R)


def typed(h):
    return proj_field(h, "", "typ") is STR("JWT")


def encoder(R):
    """the default encoding of any value"""
    from rules_token import trait_default
    P = R.P
    x = S("value")
    for m, trait in (("jwt_base64_encode", "Base64Encode"), ("to_dag_json", "DagJson")):
        fn = trait_default(P, m, trait)
        n = 0
        for vn, st, v in R.results(R.run(fn, [x])):
            if vn == "Err":
                R.ob("encoding fails only if a step failed", failed(st), "%s fails; path: %s" % (R.where(fn), R.short(st)))
                continue
            n += 1
            need = []
            if m.startswith("jwt"):
                # (for a type parameter, the DAG-JSON encoding stays a call: the default of it is checked on its own)
                inner = call("DagJson::to_dag_json", x)
                g = v is call("Engine::encode", B64, ok(inner)) and is_variant(st, inner, "Ok") or jwt_part(v, x, need)
            else:
                g = to_dagjson(v, need) is x
            R.ob("values are encoded as canonical DAG-JSON", g and all_ok(st, need), "%s yields %s" % (R.where(fn), kt(v)))
        R.ob("encoding can succeed", n >= 1, R.where(fn))


# ---- C21 ---------------------------------------------------------------------------------
@rule("C21")
def c21(R):
    P = R.P
    B = Builder(R)
    if not B.ok:
        return
    b, u, h = B.b, S("proof"), S("hasher")
    fn = P.fn("default_hasher", "UcanBuilder")
    for st, v in R.run(fn, []):
        R.ob("the default hash function is Blake3-256", v.k == "adt" and v.a[1] == "Blake3_256", "%s is %s" % (R.where(fn), kt(v)))
    for m in ("witnessed_by", "delegating_from"):
        fn = P.fn(m, "UcanBuilder")
        w = R.where(fn)
        n = {True: 0, False: 0}
        for st, v in R.run(fn, [b, u, h], [R.cut("Ucan::to_cid")]):
            op, oc = B.get(b, "proofs"), B.get(b, "capabilities")
            xp, xc = B.get(v, "proofs"), B.get(v, "capabilities")
            B.rest_same(m, st, v, b, {"proofs", "capabilities"}, w)
            if is_variant(st, h, "Some"):
                hs = proj_field(h, "Some", "0")
            elif is_variant(st, h, "None"):
                hs = None
            else:
                R.ob("%s: the hash function asked for is looked at" % m, False, "%s ignores the hash function; path: %s" % (w, R.short(st)))
                continue
            cids = [t for t in st.var if t.k == "call" and t.a[0] == "Ucan::to_cid" and t.a[1][0] is u and (t.a[1][1] is hs if hs is not None else t.a[1][1].k == "adt" and t.a[1][1].a[1] == "Blake3_256")]
            if len(cids) == 1 and is_variant(st, cids[0], "Ok"):
                n[hs is not None] += 1
                R.ob("%s: the proof's CID is cited last" % m, appended(xp, op) == [mk("disp", ok(cids[0]))], "%s: the proofs become %s" % (w, show(xp)[:300]))
                if m == "witnessed_by":
                    R.ob("witnessing adds no capability", xc is oc, "%s: the capabilities become %s" % (w, show(xc)[:300]))
                    continue
                new = appended(xc, oc)
                g = new is not None and len(new) == 1 and new[0] is not None
                R.ob("delegating adds one capability", g, "%s: the capabilities become %s; path: %s" % (w, show(xc)[:300], R.short(st)))
                if g:
                    F = lambda k: proj_field(new[0], "", k)
                    R.ob("delegation is of the proof just cited", F("resource") is mk("cat", (STR("prf:"), mk("disp", length(op)))), "%s delegates %s" % (w, kt(F("resource"))))
                    R.ob("delegation is ucan/DELEGATE without restriction", F("ability") is STR("ucan/DELEGATE") and F("caveat").k == "adt" and F("caveat").a[1] == "Object" and empty(F("caveat").a[3][0]), "%s: %s %s" % (w, kt(F("ability")), kt(F("caveat"))))
            else:
                R.ob("%s: a proof is left out only if it has no CID" % m, len(cids) == 1 and is_variant(st, cids[0], "Err") and xp is op and xc is oc, "%s: proofs %s; path: %s" % (w, kt(xp), R.short(st)))
        R.ob("%s: both with and without a hash function" % m, min(n.values()) >= 1, "%s: %s" % (w, n))
        R.ob("%s: does not panic" % m, not R.panics, "%s may panic: %s" % (w, [str(p[1])[:80] for p in R.panics][:2]))


# ---- C22 ---------------------------------------------------------------------------------
@rule("C22")
def c22(R):
    P = R.P
    e = R.engine()
    algs = sorted(e.allv("JwtSignatureAlgorithm"))
    sigs = [c.fns[str(it["key"])] for c, it in P.items("try_from", "Signature", "TryFrom") if str(it["key"]) in c.fns]
    if len(sigs) != 1:
        raise Missing("Signature: TryFrom<(JwtSignatureAlgorithm, T)>")
    cuts = [R.cut("Principle::from_str", "from_str", "Principle", "FromStr"), R.cut("Signature::decode"), (sigs[0], "Signature::try_from")]
    P1 = lambda x: call("Principle::from_str", x)
    fns = [c.fns[str(it["key"])] for c, it in P.items("try_from", "UcanIpld", "TryFrom") if str(it["key"]) in c.fns]
    R.ob("a token converts to its IPLD form", len(fns) == 1, "%d conversions" % len(fns))
    u = S("token")
    for fn in fns:
        w = R.where(fn)
        seen, n = set(), 0
        alg = proj_field(R.uf(u, "header"), "", "alg")
        for vn, st, v in R.results(R.run(fn, [u], cuts)):
            named = [j for j in algs if eq3(st, alg, STR(j))]
            if vn == "Err":
                unk = all(eq3(st, alg, STR(j)) is False for j in algs)
                R.ob("conversion fails only for a field without counterpart", failed(st) or unk, "%s fails; path: %s" % (w, R.short(st)))
                continue
            n += 1
            g = lambda k: proj_field(v, "", k)
            R.ob("version carried over", g("v") is R.pf(u, "ucv"), "%s: %s" % (w, kt(g("v"))))
            for f in ("iss", "aud"):
                want = P1(R.pf(u, f))
                R.ob("issuer and audience carried over", g(f) is ok(want) and is_variant(st, want, "Ok"), "%s: %s is %s" % (w, f, kt(g(f))))
            R.ob("capabilities carried over", g("cap") is R.pf(u, "cap"), "%s: %s" % (w, kt(g("cap"))))
            for f in ("exp", "nbf", "nnc", "fct"):
                R.ob("expiry, not-before, nonce and facts carried over", same_opt(st, g(f), R.pf(u, f)), "%s: %s is %s; path: %s" % (w, f, kt(g(f)), R.short(st, 300)))
            c = payload_of(g("s"))
            good = c is not None and c.k == "call" and c.a[0] == "Signature::try_from" and is_variant(st, c, "Ok")
            if good:
                a, b = proj_field(c.a[1][0], "", "0"), proj_field(c.a[1][0], "", "1")
                good = len(named) == 1 and one_variant(st, a, algs) == named[0] and b is R.uf(u, "signature")
                seen |= set(named)
            R.ob("algorithm and signature carried over", good, "%s: %s" % (w, kt(g("s"))))
            prf = R.pf(u, "prf")
            lst, x = proj_field(prf, "Some", "0"), g("prf")
            if is_variant(st, prf, "None"):
                pg = is_variant(st, x, "None")
            elif st.ival(length(lst)) == (0, 0):
                pg = is_variant(st, x, "None") or some_empty(x)
            else:
                pg = x.k == "adt" and x.a[1] == "Some" and each(st, x.a[3][0], lst, lambda s, t, y: t is ok(call("TryFrom<CidGeneric>", y)) and is_variant(s, call("TryFrom<CidGeneric>", y), "Ok"))
            R.ob("proofs carried over in order", pg, "%s: the proofs are %s; path: %s" % (w, show(x)[:300], R.short(st, 300)))
        R.ob("tokens of every algorithm convert", seen == set(algs), "%s: only %s" % (w, sorted(seen)))
        R.ob("conversion does not panic", not R.panics, "%s may panic" % w)
    fns = [c.fns[str(it["key"])] for c, it in P.items("try_from", "Ucan", "TryFrom") if "UcanIpld" in c.ts(it["in"][0]) and str(it["key"]) in c.fns]
    R.ob("an IPLD form converts to a token", len(fns) == 1, "%d conversions" % len(fns))
    x = S("ipld")
    G = lambda k: proj_field(x, "", k)
    for fn in fns:
        w = R.where(fn)
        n = 0
        dec = call("Signature::decode", G("s"))
        for vn, st, v in R.results(R.run(fn, [x], cuts)):
            if vn == "Err":
                R.ob("conversion fails only for a field without counterpart", failed(st), "%s fails; path: %s" % (w, R.short(st)))
                continue
            n += 1
            h = R.uf(v, "header")
            R.ob("the converted token has the type JWT", typed(h), "%s: %s" % (w, kt(h)))
            R.ob("the algorithm's name is carried over", proj_field(h, "", "alg") is mk("disp", proj_field(ok(dec), "", "0")) and is_variant(st, dec, "Ok"), "%s: %s" % (w, kt(h)))
            R.ob("the signature is carried over", R.uf(v, "signature") is proj_field(ok(dec), "", "1"), "%s: %s" % (w, kt(R.uf(v, "signature"))))
            R.ob("version carried over", R.pf(v, "ucv") is G("v"), "%s: %s" % (w, kt(R.pf(v, "ucv"))))
            for f in ("iss", "aud"):
                R.ob("issuer and audience carried over", R.pf(v, f) is mk("disp", G(f)), "%s: %s is %s" % (w, f, kt(R.pf(v, f))))
            R.ob("capabilities carried over", R.pf(v, "cap") is G("cap"), "%s: %s" % (w, kt(R.pf(v, "cap"))))
            for f in ("exp", "nbf", "nnc", "fct"):
                R.ob("expiry, not-before, nonce and facts carried over", same_opt(st, R.pf(v, f), G(f)), "%s: %s is %s; path: %s" % (w, f, kt(R.pf(v, f)), R.short(st, 300)))
            prf, y = G("prf"), R.pf(v, "prf")
            lst = proj_field(prf, "Some", "0")
            if is_variant(st, prf, "None"):
                pg = is_variant(st, y, "None")
            elif st.ival(length(lst)) == (0, 0):
                pg = is_variant(st, y, "None") or some_empty(y)
            else:
                pg = y.k == "adt" and y.a[1] == "Some" and each(st, y.a[3][0], lst, lambda s, t, z: t is mk("disp", z))
            R.ob("proofs carried over in order", pg, "%s: the proofs are %s; path: %s" % (w, show(y)[:300], R.short(st, 300)))
            R.ob("the signed bytes are the encoding of the token's header and payload", signs_itself(R, st, v), "%s: signed bytes %s" % (w, show(R.uf(v, "signed_data"))[:300]))
        R.ob("IPLD forms convert", n >= 1, w)
        R.ob("conversion does not panic", not R.panics, "%s may panic" % w)
    # names
    disp = P.fn("fmt", "JwtSignatureAlgorithm", "Display")
    for j in algs:
        for st, t in displayed(R, disp, adt("JwtSignatureAlgorithm", j, (), ())):
            R.ob("an algorithm is displayed by its name", t is STR(j), "%s displays %s as %s" % (R.where(disp), j, kt(t) if t is not None else "an error"))


def some_empty(x):
    return x.k == "adt" and x.a[1] == "Some" and empty(x.a[3][0])


def each(st, t, lst, good):
    """t has exactly one element for each of lst, in order, satisfying good(state, element, source)"""
    if t.k == "arr":
        return st.ival(length(lst)) == (len(t.a[0]),) * 2 and all(good(st, x, proj_index(lst, INT(i))) for i, x in enumerate(t.a[0]))
    if t.k != "coll":
        return False
    segs = segs_of(t)
    if segs and all(s[0] == "one" for s in segs):
        return st.ival(length(lst)) == (len(segs),) * 2 and all(good(st, s[1], proj_index(lst, INT(i))) for i, s in enumerate(segs))
    if len(segs) != 1 or segs[0][0] != "star" or segs[0][2] is not mk("dom", "all", lst):
        return False
    n = 0
    for f, g in segs[0][3]:
        s = assume(st, f)
        if s is None:
            continue
        n += 1
        if len(g) != 1 or g[0][0] != "one" or not good(s, g[0][1], proj_index(lst, mk("idx", (segs[0][1],)))):
            return False
    return n >= 1


# ---- C25 ---------------------------------------------------------------------------------
def raw_cid_codec(st, cid):
    """True / False / None: cid's codec is raw"""
    c = call("CidGeneric::codec", cid)
    for (a, b), o in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if x is c and raw_codec(y):
                return True if o == "=" else False if "=" not in o else None
    iv = st.ival(c)
    return True if iv == (0x55, 0x55) else None


@rule("C25")
def c25(R):
    P = R.P
    from rules_token import trait_default
    from rules_api import writes, no_late_effects
    no_late_effects(R)
    for impl in ("MemoryStore",):
        cid, token = S("cid"), S("token")
        st0 = St()
        ref, read = mutable(st0, "store")
        fn = P.fn("read", impl, "UcanStore")
        w = R.where(fn)
        n = set()
        for vn, st, v in R.results(R.run(fn, [ref, cid], st=st0)):
            R.ob("reading changes nothing", read(st) is S("store") and not list(writes(st.ev)), "%s changes the store" % w)
            got = [t for t in st.var if t.k == "mget" and t.a[1] is cid and the_store(t.a[0])]
            hit = len(got) == 1
            if vn == "Err":
                R.ob("reading fails only if the lock or the decoding fails", failed(st), "%s fails; path: %s" % (w, R.short(st)))
                continue
            if is_variant(st, v, "None"):
                n.add("none")
                R.ob("nothing is reported only where nothing is filed under the CID", hit and is_variant(st, got[0], "None"), "%s reports nothing; path: %s" % (w, R.short(st)))
            else:
                n.add("some")
                x = payload_of(proj_field(v, "Some", "0"))
                g = hit and is_variant(st, got[0], "Some") and x is not None and x.k == "call" and x.a[0] in ("Decode::decode", "Codec::decode") and is_codec(x.a[1][0], "RawCodec") and is_variant(st, x, "Ok")
                if g:
                    y = x.a[1][1]
                    y = y.a[1][0] if y.k == "call" and y.a[0] == "Cursor::new" else y
                    g = y is proj_field(got[0], "Some", "0")
                R.ob("what is read is the block filed under exactly that CID", g, "%s yields %s; path: %s" % (w, kt(v), R.short(st)))
        R.ob("reading reports both", n == {"none", "some"}, "%s: %s" % (w, sorted(n)))
        R.ob("reading does not panic", not R.panics, "%s may panic" % w)

        fn = P.fn("write", impl, "UcanStore")
        w = R.where(fn)
        st0 = St()
        ref, read = mutable(st0, "store")
        n = 0
        for vn, st, v in R.results(R.run(fn, [ref, token], st=st0)):
            ins = [e for e in st.ev if e[0] in ("minsert", "mremove", "mclear", "extwrite")]
            if vn == "Err":
                R.ob("writing fails only if the lock or the encoding fails", failed(st), "%s fails; path: %s" % (w, R.short(st)))
                R.ob("a failed write files nothing", not ins and read(st) is S("store"), "%s changes the store and fails" % w)
                continue
            n += 1
            p = cid_parts(v)
            d = digest_of(p[1]) if p and raw_codec(p[0]) else None
            good = d is not None and d[0].k == "adt" and d[0].a[1] == "Blake3_256"
            b, need = raw_block(d[1]) if good else (None, [])
            good = good and b is token and bool(need) and all_ok(st, need)
            R.ob("writing returns the block's own CID: v1, raw, Blake3-256", good, "%s yields %s" % (w, show(v)[:300]))
            other = [x for x in writes(st.ev) if not x.endswith("insert")]
            g = len(ins) == 1 and ins[0][0] == "minsert" and the_store(ins[0][1]) and good and ins[0][2] is v and ins[0][3] is d[1]
            # (or something is filed under that CID already: by the same rule, that block)
            g = g or good and not ins and any(t.k == "mget" and the_store(t.a[0]) and t.a[1] is v and is_variant(st, t, "Some") for t in st.var)
            R.ob("writing files exactly the block under exactly the CID it returns", g, "%s files %s" % (w, [[kt(x) for x in e[1:] if isinstance(x, T)] for e in ins]))
            R.ob("writing changes nothing else in the store", not other, "%s also does %s" % (w, other))
        R.ob("writing can succeed", n >= 1, w)
        R.ob("writing does not panic", not R.panics, "%s may panic" % w)
    # the token layer
    store, cid, text = S("store"), S("cid"), S("text")
    got = call("UcanStore::read", store, cid)
    blk = proj_field(ok(got), "Some", "0")
    by = proj_field(blk, "Bytes", "0")
    utf = call("from_utf8", by)
    rt = call("UcanJwtStore::read_token", store, cid)

    def why(st):
        if raw_cid_codec(st, cid) is False or is_variant(st, got, "Err") or is_variant(st, rt, "Err") or is_variant(st, utf, "Err"):
            return True
        if is_variant(st, got, "Ok"):
            return is_variant(st, ok(got), "None") or "Bytes" not in may(st, blk, IPLD)
        return is_variant(st, rt, "Ok") and is_variant(st, ok(rt), "None")

    def found(st, v):
        if v is by:
            return raw_cid_codec(st, cid) is True and all_ok(st, [got, utf]) and is_variant(st, ok(got), "Some") and is_variant(st, blk, "Bytes")
        return v is proj_field(ok(rt), "Some", "0") and is_variant(st, rt, "Ok") and is_variant(st, ok(rt), "Some")
    for m in ("read_token", "require_token"):
        fn = trait_default(P, m, "UcanJwtStore")
        w = R.where(fn)
        n = 0
        for vn, st, v in R.results(R.run(fn, [store, cid])):
            if vn == "Err":
                R.ob("%s fails only for codec, absence, text or store" % m, why(st), "%s fails; path: %s" % (w, R.short(st)))
                continue
            if m == "read_token":
                if is_variant(st, v, "None"):
                    R.ob("no token only where nothing is filed", raw_cid_codec(st, cid) is True and is_variant(st, got, "Ok") and is_variant(st, ok(got), "None"), "%s reports no token; path: %s" % (w, R.short(st)))
                    continue
                v = proj_field(v, "Some", "0")
            n += 1
            R.ob("%s: the token is the text filed under that raw CID" % m, found(st, v) and not (m == "read_token" and v is not by), "%s yields %s; path: %s" % (w, kt(v), R.short(st)))
        R.ob("%s can succeed" % m, n >= 1, w)
        R.ob("%s does not panic" % m, not R.panics, "%s may panic" % w)
    fn = trait_default(P, "write_token", "UcanJwtStore")
    w = R.where(fn)
    want = call("UcanStore::write", store, adt("Ipld", "Bytes", ("0",), (text,)))
    for st, v in R.run(fn, [store, text]):
        g = v is want or (v.k == "adt" and ((v.a[1] == "Ok" and v.a[3][0] is ok(want) and is_variant(st, want, "Ok")) or (v.a[1] == "Err" and is_variant(st, want, "Err"))))
        R.ob("a token is written as its text's bytes", g, "%s yields %s" % (w, kt(v)))


IPLD = ("Null", "Bool", "Integer", "Float", "String", "Bytes", "List", "Map", "Link")


def the_store(t):
    """the locked map of the store"""
    return t.k in ("call", "guard") and S("store") in subterms(t) and (t.k == "guard" or t.a[0] == "guard")

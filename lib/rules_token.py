"""Tokens: C01-C06"""
from rule import *
from match import *
from engine import FALSE, TRUE

RULES = {}


def rule(pid):
    def f(g):
        RULES[pid] = g
        return g
    return f


def trait_default(P, name, trait, crate="ucan"):
    return P.fn(name, None, trait, crate, pick=lambda c, it: "trait" not in it and "deftrait" in it)


# ---- C01 ---------------------------------------------------------------------------
@rule("C01")
def c01(R):
    u, dp, now = S("token"), S("did_parser"), S("now")
    key = call("DidParser::parse", dp, R.pf(u, "iss"))
    ver = lambda k: call("KeyMaterial::verify", k, R.uf(u, "signed_data"), R.uf(u, "signature"))
    good = ver(ok(key))
    for name, args in (("check_signature", [u, dp]), ("validate", [u, now, dp])):
        fn = R.P.fn(name, "Ucan")
        n = 0
        rs = R.results(R.run(fn, args, [R.cut("DidParser::parse")]))
        for vn, st, v in rs:
            if vn == "Ok":
                n += 1
                R.ob("%s: success needs the issuer's key" % name, is_variant(st, key, "Ok"),
                     "%s returns Ok on a path where the caller's parser did not resolve the token's issuer; path: %s" % (R.where(fn), R.short(st)))
                R.ob("%s: success needs that key to accept signature over signed bytes" % name, is_variant(st, good, "Ok"),
                     "%s returns Ok on a path where verify(key of issuer, signed_data, signature) did not succeed; path: %s" % (R.where(fn), R.short(st)))
        R.ob("%s: some path succeeds" % name, n >= 1, "%s never succeeds" % R.where(fn))
        # a token its own key accepts fails only for another stated reason (C02)
        if name == "check_signature":
            for vn, st, v in rs:
                if vn == "Err":
                    R.ob("check_signature: failure only for the key or signature", is_variant(st, key, "Err") or is_variant(st, good, "Err"),
                         "%s fails although the issuer's key was resolved and accepted the signature; path: %s" % (R.where(fn), R.short(st)))


# ---- C02 ---------------------------------------------------------------------------
def now_terms(st, now):
    """the terms standing for the time to compare with, None if not decided"""
    if is_variant(st, now, "Some"):
        w = proj_field(now, "Some", "0")
        return lambda t: t is w
    if is_variant(st, now, "None"):
        return wallclock
    return lambda t: False


def ordered(st, x, ops, isnow):
    """x is known to be in `ops` relation to a term recognised by isnow"""
    for (a, b), o in list(st.rel.items()):
        if a is x and isnow(b) and all(c in ops for c in st.possible(a, b)):
            return True
        if b is x and isnow(a) and all(c in ops for c in flip(st.possible(a, b))):
            return True
    return False


@rule("C02")
def c02(R):
    u, dp, now = S("token"), S("did_parser"), S("now")
    fn = R.P.fn("validate", "Ucan")
    exp, nbf = R.pf(u, "exp"), R.pf(u, "nbf")
    E, B = proj_field(exp, "Some", "0"), proj_field(nbf, "Some", "0")
    rs = R.results(R.run(fn, [u, now, dp], [R.cut("DidParser::parse"), R.cut("Ucan::check_signature")]))
    n = 0
    for vn, st, v in rs:
        isnow = now_terms(st, now)
        if vn == "Ok":
            n += 1
            R.ob("accepted only up to the expiry", is_variant(st, exp, "None") or (is_variant(st, exp, "Some") and ordered(st, E, "=>", isnow)),
                 "%s accepts a token without having established that its expiry is absent or at least the time to check; path: %s" % (R.where(fn), R.short(st)))
            R.ob("accepted only from not-before on", is_variant(st, nbf, "None") or (is_variant(st, nbf, "Some") and ordered(st, B, "<=", isnow)),
                 "%s accepts a token without having established that its not-before is absent or at most the time to check; path: %s" % (R.where(fn), R.short(st)))
        else:
            bad = (is_variant(st, exp, "Some") and ordered(st, E, "<", isnow)) or (is_variant(st, nbf, "Some") and ordered(st, B, ">", isnow))
            sig = any(t.k == "call" and t.a[0] in ("DidParser::parse", "Ucan::check_signature", "KeyMaterial::verify") and vs == frozenset(["Err"]) for t, vs in st.var.items())
            R.ob("refused only for its time or its signature", bad or sig,
                 "%s refuses a token on a path where neither its time bounds nor its signature are wrong; path: %s" % (R.where(fn), R.short(st)))
    R.ob("some path accepts", n >= 1, "validate never succeeds")


# ---- C03 ---------------------------------------------------------------------------
@rule("C03")
def c03(R):
    P = R.P
    tok = S("text")
    dot = STR(".")
    parts = mk("parts", tok, dot)
    p = [proj_index_(parts, i) for i in range(3)]
    entries = [P.fn("from_str", "Ucan", "FromStr")]
    for c, it in P.items("try_from", "Ucan", "TryFrom", "ucan"):
        ty = c.ts(it["in"][0])
        if "UcanIpld" in ty:
            continue
        entries.append(c.fns[str(it["key"])])
    R.ob("entry points found", len(entries) >= 3, "expected FromStr and two TryFrom conversions of text")
    for fn in entries:
        n = 0
        w = R.where(fn)
        for vn, st, v in R.results(R.run(fn, [tok])):
            if vn == "Err":
                R.ob("only text not of that form is refused", "=" not in st.possible(mk("nparts", tok, dot), INT(3)) or any(t.k == "call" and t.a[0] in DECODERS and vs == frozenset(["Err"]) for t, vs in st.var.items()),
                     "%s refuses text although it has three segments and no decoding failed; path: %s" % (w, R.short(st)))
                continue
            n += 1
            np = st.ival(mk("nparts", tok, dot))
            R.ob("exactly three segments", np == (3, 3), "%s accepts text without having established that it has exactly three dot-separated segments (known: %s)" % (w, np))
            need = []
            hb = from_dagjson(R.uf(v, "header"), need)
            R.ob("header from the first segment", hb is ok(b64dec(p[0])), "%s: header is %s" % (w, kt(R.uf(v, "header"))))
            pb = from_dagjson(R.uf(v, "payload"), need)
            R.ob("payload from the second segment", pb is ok(b64dec(p[1])), "%s: payload is %s" % (w, kt(R.uf(v, "payload"))))
            R.ob("signature from the third segment", R.uf(v, "signature") is ok(b64dec(p[2])), "%s: signature is %s" % (w, kt(R.uf(v, "signature"))))
            R.ob("signed bytes are the text up to the second dot", R.uf(v, "signed_data") is cat([p[0], dot, p[1]]), "%s: signed bytes are %s" % (w, kt(R.uf(v, "signed_data"))))
            for x in p[:2]:
                R.ob("a segment holds one document and nothing after it", one_document(st, ok(b64dec(x))),
                     "%s accepts a segment without having established that nothing follows its first JSON value (the DAG-JSON decoder stops there); path: %s" % (w, R.short(st)))
            R.ob("every decoding succeeded", all_ok(st, need + [b64dec(x) for x in p]), "%s: accepts although a decoding failed; path: %s" % (w, R.short(st)))
        R.ob("some text is accepted", n >= 1, "%s never succeeds" % R.where(fn))


DECODERS = ("Deserialize::deserialize", "String::from_utf8", "str::from_utf8", "Engine::decode", "Decode::decode", "Codec::decode", "serde::from_ipld", "serde_json::from_slice", "serde_json::from_str", "Deserializer::end")
WHOLE = ("serde_json::from_slice", "serde_json::from_str", "Deserializer::end")


def one_document(st, bs):
    """some parser that refuses what follows the first value accepted the bytes"""
    return any(t.k == "call" and t.a[0] in WHOLE and vs == frozenset(["Ok"]) and whole(t.a[1][0], bs) for t, vs in st.var.items())


READERS = ("from_slice", "from_str", "from_reader", "new", "from_utf8", "as_bytes", "as_slice", "as_ref", "to_vec", "deref")


def whole(x, bs):
    """x is all of these bytes, or a reader of all of them"""
    while x is not bs:
        if x.k == "fld" and x.a[1] in ("Ok", "Some"):
            x = x.a[0]
        elif x.k == "after":
            x = x.a[2]
        elif x.k == "call" and x.a[0].split("::")[-1] in READERS and x.a[1]:
            x = x.a[1][0]
        else:
            return False
    return True


def proj_index_(c, i):
    from engine import proj_index
    return proj_index(c, INT(i))


def failed(st):
    return any(t.k == "call" and vs == frozenset(["Err"]) for t, vs in st.var.items())


# ---- C04 ---------------------------------------------------------------------------
@rule("C04")
def c04(R):
    P = R.P
    u, h = S("token"), S("hasher")
    fn = P.fn("encode", "Ucan")
    rs = R.run(fn, [u])
    for vn, st, v in R.results(rs):
        R.ob("encode fails only if the signed bytes are not text", vn == "Ok" or failed(st), "%s fails although no step failed; path: %s" % (R.where(fn), R.short(st)))
    rs = R.oks(rs)
    for st, v in rs:
        R.ob("encode is signed bytes, dot, signature", v is encoded(R, u), "%s yields %s" % (R.where(fn), kt(v)))
    R.ob("encode succeeds on some path", len(rs) >= 1, "encode never succeeds")
    fn = P.fn("to_cid", "Ucan")
    rs = R.run(fn, [u, h])
    for vn, st, v in R.results(rs):
        R.ob("to_cid fails only if encoding fails", vn == "Ok" or failed(st), "%s fails although no step failed; path: %s" % (R.where(fn), R.short(st)))
    rs = R.oks(rs)
    for st, v in rs:
        R.ob("CID is v1, raw, over the encoded token, with the given hash", token_cid(R, v, u) is h, "%s yields %s" % (R.where(fn), kt(v)))
    R.ob("to_cid succeeds on some path", len(rs) >= 1, "to_cid never succeeds")



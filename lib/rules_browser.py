"""The browser's key: C32 (over the source as it is compiled for browsers)"""
import extract
from rule import *
from rules_token import rule
from rules_build import failed
from rules_key import b58of, DIDKEY, npan

KIND = "WebCryptoRsaKeyMaterial"
SCHEME, MAGIC = "RSASSA-PKCS1-v1_5", b"\x85\x24"


def made(name):
    """a constructor of JavaScript objects: each call gives another one"""
    def m(eng, st, a, cx):
        st = st.copy()
        t = call(name, *a, INT(sum(1 for e in st.ev if e[0] == "call" and e[1] == name)))
        st.ev = st.ev + (("call", name, tuple(a)),)
        return [("ret", st, t)]
    return m


OBJECTS = ("Object::new", "Array::new", "Map::new")
MODS = {n: made(n) for n in OBJECTS}
# what passes a JavaScript value or its bytes on as they are
SAME = ("JsCast::unchecked_into", "JsCast::unchecked_ref", "JsValue::from_str", "JsValue::from_bool", "JsValue::from_f64", "Uint8Array::new", "Uint8Array::view", "Uint8Array::to_vec",
        "Uint8Array::new_from_slice", "as_ref", "AsRef::as_ref", "to_vec", "Uint8Array::buffer", "TypedArray::to_vec")
SOUND = ("JsCast::dyn_into", "JsCast::dyn_ref")


def js(t):
    """the value that t is handed over as"""
    while True:
        if t.k == "call" and len(t.a[1]) == 1 and (t.a[0] in SAME or t.a[0].startswith(("From<", "Into<")) and t.a[0] != "From<JsFuture>"):
            t = t.a[1][0]
            continue
        if t.k == "fld" and t.a[1] in ("Ok", "Some") and t.a[0].k == "call" and t.a[0].a[0] in SOUND:
            t = t.a[0].a[1][0]
            continue
        return t


def awaited(t):
    """the call whose promise t is the result of"""
    t = js(t)
    if t.k == "fld" and t.a[1] == "Ok" and t.a[0].k == "call" and t.a[0].a[0] == "From<JsFuture>":
        t = t.a[0].a[1][0]
        if t.k == "fld" and t.a[1] == "Ok" and t.a[0].k == "call" and t.a[0].a[0].startswith("SubtleCrypto::"):
            return t.a[0]
    return None


def members(st, t, use):
    """{name: value} of a JavaScript object at the time of the call `use`"""
    t = js(t)
    if t.k == "str":
        return {"name": t}
    out = {}
    for e in st.ev:
        if e[0] != "call":
            continue
        if e[1] == use.a[0] and tuple(e[2]) == use.a[1]:
            return out
        if e[1] == "Reflect::set" and js(e[2][0]) is t:
            k = js(e[2][1])
            s = call("Reflect::set", *e[2])
            out[k.a[0] if k.k == "str" else k] = js(e[2][2]) if is_variant(st, s, "Ok") else None
    return out


def items(st, t, use):
    """the elements of a JavaScript array at the time of the call `use`"""
    t = js(t)
    out = []
    if t.k == "call" and t.a[0].startswith("Array::"):
        if t.a[0] != "Array::new":
            out = [js(x) for x in t.a[1]]
        for e in st.ev:
            if e[0] == "call" and e[1] == use.a[0] and tuple(e[2]) == use.a[1]:
                break
            if e[0] == "call" and e[1] == "Array::push" and js(e[2][0]) is t:
                out.append(js(e[2][1]))
    elif t.k in ("arr", "coll"):
        out = [js(x) for x in (t.a[0] if t.k == "arr" else [s[1] for s in t.a[1]])]
    return {x.a[0] for x in out if x.k == "str"}


def content(st, t, use):
    """the bytes of a JavaScript byte array at the time of the call `use`"""
    for e in st.ev:
        if e[0] == "call" and e[1] == use.a[0] and tuple(e[2]) == use.a[1]:
            break
        if e[0] == "call" and e[1] == "Uint8Array::copy_from" and js(e[2][0]) is js(t):
            return js(e[2][1])
    return js(t)


def numbers(t):
    if t.k == "bytes":
        return list(t.a[0])
    xs = t.a[0] if t.k == "arr" else [s[1] for s in t.a[1]] if t.k == "coll" and all(s[0] == "one" for s in t.a[1]) else []
    return [x.a[0] if x.k == "int" else None for x in xs]


def subtle(t):
    return t.k == "call" and t.a[0] == "Crypto::subtle"


def scheme(st, t, use):
    m = members(st, t, use)
    return "name" in m and m["name"] is STR(SCHEME)


def verdict(st, key, payload, sig):
    """(the browser's own answers to whether sig is this key's signature over payload, as far as known)"""
    def about(t):
        p = awaited(t)
        return p is not None and p.a[0].startswith("SubtleCrypto::verify_with_") and len(p.a[1]) == 5 and subtle(p.a[1][0]) and scheme(st, p.a[1][1], p) and \
            js(p.a[1][2]) is proj_field(key, "", "0") and js(p.a[1][3]) is sig and js(p.a[1][4]) is payload
    yes = no = False
    for t, b in st.bl.items():
        if t.k == "call" and t.a[0] in ("JsValue::is_truthy", "Boolean::value_of", "JsValue::is_falsy") and about(t.a[1][0]):
            b = b != (t.a[0] == "JsValue::is_falsy")
            yes, no = yes or b, no or not b
        # as_bool() == Some(..)
        if t.k == "fld" and t.a[1] == "Some" and t.a[0].k == "call" and t.a[0].a[0] == "JsValue::as_bool" and about(t.a[0].a[1][0]):
            yes, no = yes or b, no or not b
    for t, vs in st.var.items():
        if t.k == "call" and t.a[0] == "JsValue::as_bool" and about(t.a[1][0]) and vs == frozenset(["None"]):
            no = True
    return yes, no


def exported(st, t, key):
    """t is the RSA public key that the browser gives out for `key`"""
    if t.k != "fld" or t.a[1] != "Ok" or t.a[0].k != "call" or not is_variant(st, t.a[0], "Ok"):
        return False
    n, a = t.a[0].a
    if n.endswith("::from_public_key_der"):
        p = awaited(a[0])
        return p is not None and p.a[0] == "SubtleCrypto::export_key" and subtle(p.a[1][0]) and p.a[1][1] is STR("spki") and js(p.a[1][2]) is proj_field(key, "", "0")
    if n.endswith("::from_pkcs1_der"):
        return pkcs1(st, a[0], lambda k: exported(st, k, key))
    return False


def pkcs1(st, t, of):
    """t is the PKCS#1 DER text of a key for which `of` holds"""
    while t.k == "call" and len(t.a[1]) == 1 and (t.a[0] in ("Document::as_bytes", "Document::to_vec", "Document::into_vec", "as_ref", "to_vec") or t.a[0].startswith(("From<Vec", "Into<Vec"))):
        t = t.a[1][0]
    return t.k == "fld" and t.a[1] == "Ok" and t.a[0].k == "call" and t.a[0].a[0].endswith("::to_pkcs1_der") and is_variant(st, t.a[0], "Ok") and of(t.a[0].a[1][0])


@rule("C32")
def c32(R):
    """exits of the browser key's operations in the browser build; JavaScript objects are followed through what is set on them before the browser is called"""
    try:
        R.P = P = R.P.browser()
    except extract.ExtractError as e:
        # a tree that does not compile for browsers has no browser keys
        R.ob("there is no browser build to decide", True, str(e))
        R.notes.append("the tree does not compile for browsers: " + str(e)[-400:])
        return
    key, payload, sig = S("key"), S("payload"), S("signature")

    def run(fn, args):
        return R.results(R.run(fn, args, eng=P.engine(None, 600000, MODS)))
    T = "KeyMaterial"
    n = 0
    fn = P.fn("verify", KIND, T)
    w = R.where(fn)
    for vn, st, v in run(fn, [key, payload, sig]):
        yes, no = verdict(st, key, payload, sig)
        if vn == "Ok":
            n += 1
            R.ob("verification succeeds only if the browser says so", yes and not no, "%s succeeds although the browser did not confirm exactly this signature over this payload; path: %s" % (w, R.short(st, 600)))
        else:
            R.ob("what the browser confirms is accepted", no or failed(st), "%s fails; path: %s" % (w, R.short(st, 600)))
    R.ob("verification can succeed", n >= 1, w)
    npan(R, w)

    n = 0
    fn = P.fn("sign", KIND, T)
    w = R.where(fn)
    prv = proj_field(key, "", "1")
    for vn, st, v in run(fn, [key, payload]):
        if vn == "Ok":
            n += 1
            p = awaited(v)
            g = p is not None and p.a[0].startswith("SubtleCrypto::sign_with_") and len(p.a[1]) == 4 and subtle(p.a[1][0]) and scheme(st, p.a[1][1], p) and \
                js(p.a[1][2]) is proj_field(prv, "Some", "0") and js(p.a[1][3]) is payload
            R.ob("the signature is the browser's, with the private half, over exactly the payload", g and is_variant(st, prv, "Some"), "%s yields %s; path: %s" % (w, kt(v), R.short(st, 300)))
        else:
            R.ob("signing fails only without a private key or in the browser", is_variant(st, prv, "None") or failed(st), "%s fails; path: %s" % (w, R.short(st)))
    R.ob("signing can succeed", n >= 1, w)
    npan(R, w)

    fn = P.fn("get_jwt_algorithm_name", KIND, T)
    for st, v in R.run(fn, [key]):
        R.ob("the algorithm is the native RSA key's", v is STR("RS256"), "%s names %s" % (R.where(fn), kt(v)))
    npan(R, R.where(fn))

    n = 0
    fn = P.fn("get_did", KIND, T)
    w = R.where(fn)
    for vn, st, v in run(fn, [key]):
        if vn == "Err":
            R.ob("naming a key fails only if the browser or its encoding fails", failed(st), "%s fails; path: %s" % (w, R.short(st)))
            continue
        n += 1
        g = False
        if v.k == "cat" and len(v.a[0]) == 2 and v.a[0][0] is DIDKEY:
            b = b58of(v.a[0][1])
            if b is not None and b.k == "cat" and len(b.a[0]) == 2:
                m, e = b.a[0]
                g = m is mk("bytes", MAGIC) and pkcs1(st, e, lambda k: exported(st, k, key))
        R.ob("the DID is that of the public key the browser exports", g, "%s yields %s" % (w, show(v)[:400]))
    R.ob("keys are named", n >= 1, w)
    npan(R, w)

    n = 0
    fn = P.fn("generate", KIND)
    w = R.where(fn)
    size = S("size")
    for vn, st, v in run(fn, [size]):
        if vn == "Err":
            R.ob("making a key fails only in the browser", failed(st), "%s fails; path: %s" % (w, R.short(st)))
            continue
        n += 1
        pub, own = js(proj_field(v, "", "0")), js(proj_field(proj_field(v, "", "1"), "Some", "0"))
        ps = []
        for t, half in ((pub, "publicKey"), (own, "privateKey")):
            ok_ = t.k == "fld" and t.a[1] == "Ok" and t.a[0].k == "call" and t.a[0].a[0] == "Reflect::get" and js(t.a[0].a[1][1]) is STR(half)
            p = awaited(t.a[0].a[1][0]) if ok_ else None
            R.ob("each half is taken from the browser's pair", p is not None and p.a[0].startswith("SubtleCrypto::generate_key_with_"), "%s takes %s as the %s" % (w, kt(t), half))
            ps.append(p)
        p = ps[0]
        if p is None or p is not ps[1] or len(p.a[1]) != 4:
            R.ob("both halves are of one pair", False, w)
            continue
        m = members(st, p.a[1][1], p)
        h = m.get("hash")
        h = h if h is None or h.k == "str" else members(st, h, p).get("name")
        R.ob("keys are made for the scheme they sign with", m.get("name") is STR(SCHEME) and h is STR("SHA-256"), "%s asks for %s" % (w, {k: kt(x) for k, x in m.items() if x is not None}))
        bits = m.get("modulusLength")
        want = proj_field(size, "Some", "0") if is_variant(st, size, "Some") else INT(2048) if is_variant(st, size, "None") else None
        R.ob("keys have the size asked for, or 2048 bits", bits is not None and bits is want, "%s asks for %s bits; path: %s" % (w, bits and kt(bits), R.short(st, 200)))
        e = m.get("publicExponent")
        R.ob("the public exponent is 65537", e is not None and numbers(content(st, e, p)) == [1, 0, 1], "%s asks for the exponent %s" % (w, e and kt(content(st, e, p))))
        R.ob("the private half cannot be extracted", st.truth(p.a[1][2]) is False, "%s makes it extractable: %s" % (w, kt(p.a[1][2])))
        R.ob("the pair signs and verifies", items(st, p.a[1][3], p) == {"sign", "verify"}, "%s asks for the uses %s" % (w, items(st, p.a[1][3], p)))
    R.ob("keys can be made", n >= 1, w)
    npan(R, w)

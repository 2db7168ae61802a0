"""Keys, DIDs, principals, signature codes: C17, C18, C23, C24"""
from rule import *
from match import *
from engine import proj_index, segs_of, update
from iters import split_var
from models import norm_bytes
from rules_token import rule, RULES
from rules_cap import one_variant, eq3, truth, may

DIDKEY, DID = STR("did:key:z"), STR("did:")


def b58dec(x):
    return call("DecodeBuilder::into_vec", call("bs58::decode", x))


def b58of(t):
    """y when t is base58btc(y)"""
    if t.k == "call" and t.a[0] == "EncodeBuilder::into_string":
        t = t.a[1][0]
        if t.k == "call" and t.a[0] == "bs58::encode":
            return t.a[1][0]
    return None


def strip(x, p):
    return mk("strip", x, p)


def starts(st, x, p):
    return truth(st, call("starts_with", x, p))


def mutable(st, name):
    """(state with a cell holding the symbol, reference to it, reader)"""
    cell = ("x", name)
    st.cells[cell] = S(name)
    return mk("ref", cell, ()), (lambda s: s.cells[cell])


# ---- C17 ---------------------------------------------------------------------------------
@rule("C17")
def c17(R):
    P = R.P
    fn = P.fn("new", "DidParser")
    table = S("table")
    roles = {}
    rs = R.run(fn, [table])
    for st, v in rs:
        if v.k != "adt":
            raise Missing("DidParser::new does not build the parser")
        for n, x in zip(v.a[2], v.a[3]):
            segs = segs_of(x) if x.k == "coll" else None
            if segs == () or segs == []:
                roles.setdefault(n, "empty")
            elif segs is not None and reads(x, table):
                roles[n] = "ctors"
                R.ob("every key type is registered under the given prefix", registered(x, table), "%s: the constructors are %s" % (R.where(fn), show(x)[:300]))
    R.ob("one table of constructors", list(roles.values()).count("ctors") == 1, "%s: fields %s" % (R.where(fn), roles))
    if list(roles.values()).count("ctors") != 1:
        return
    fc = [n for n, k in roles.items() if k == "ctors"][0]
    caches = [n for n, k in roles.items() if k == "empty"]

    fn = P.fn("parse", "DidParser")
    w = R.where(fn)
    st0 = St()
    ref, read = mutable(st0, "parser")
    p, did = S("parser"), S("did")
    ctors = proj_field(p, "", fc)
    raw = b58dec(strip(did, DIDKEY))
    B = ok(raw)
    got = mk("mget", ctors, mk("slice", B, INT(0), INT(2)))
    built = call("apply", proj_field(got, "Some", "0"), mk("slice", B, INT(2), length(B)))
    hits = {mk("mget", proj_field(p, "", n), did): n for n in caches}
    nb = nc = 0
    for vn, st, v in R.results(R.run(fn, [ref, did], st=st0)):
        key = None
        if vn == "Ok":
            hit = [h for h in hits if v is proj_field(h, "Some", "0") and is_variant(st, h, "Some")]
            # what is remembered for a DID was built for it, so such a DID passed this test before
            R.ob("keys only for did:key DIDs in base58btc", starts(st, did, DIDKEY) is True or (hit and starts(st, did, DIDKEY) is not False), "%s yields a key for a DID not known to start with did:key:z; path: %s" % (w, R.short(st)))
            if hit:
                nc += 1
            else:
                nb += 1
                R.ob("the key comes from the registered constructor on exactly the remaining bytes", v is ok(built), "%s yields the key %s; path: %s" % (w, show(v)[:300], R.short(st)))
                R.ob("every step succeeded", all_ok(st, [raw, built]) and is_variant(st, got, "Some"), "%s yields a key although a step failed; path: %s" % (w, R.short(st)))
                R.ob("two bytes are there", st.ival(length(B))[0] >= 2, "%s does not check that two bytes are there" % w)
                key = v
        else:
            why = starts(st, did, DIDKEY) is False or is_variant(st, raw, "Err") or is_variant(st, got, "None") or is_variant(st, built, "Err") or (is_variant(st, raw, "Ok") and st.ival(length(B))[1] <= 1)
            R.ob("a DID is refused only for its form, key type or constructor", why, "%s refuses a DID without such a reason; path: %s" % (w, R.short(st, 900)))
        # what is remembered
        after = read(st)
        for n in set(roles) | set(fields_of(R, "DidParser")):
            x, old = proj_field(after, "", n), proj_field(p, "", n)
            if n not in caches:
                if n == fc:
                    R.ob("constructors stay as registered", x is old, "%s changes the constructors" % w)
                continue
            if x is old:
                continue
            good = remembered(x, old, did, key)
            R.ob("only keys built on this path are remembered, for the same DID", good, "%s leaves in its cache %s; path: %s" % (w, show(x)[:400], R.short(st, 500)))
    R.ob("keys are built", nb >= 1, "%s never builds a key" % w)
    # the key types this library publishes
    for f in R.P.ucan.fns.values():
        code = MULTICODEC.get(f["name"].split("::")[-1])
        if code is None:
            continue
        for st, v in R.run(f, []):
            while v.k == "ref" and v.a[0] in st.cells and not v.a[1]:
                v = st.cells[v.a[0]]
            R.ob("published key types have their multicodec prefix", norm_bytes(v) is norm_bytes(mk("arr", tuple(INT(b) for b in code))), "%s is %s" % (R.where(f), show(v)))


# unsigned varints of the codes in the multicodec table
MULTICODEC = {"ED25519_MAGIC_BYTES": (0xED, 0x01), "RSA_MAGIC_BYTES": (0x85, 0x24), "BLS12381G1_MAGIC_BYTES": (0xEA, 0x01), "BLS12381G2_MAGIC_BYTES": (0xEB, 0x01),
              "P256_MAGIC_BYTES": (0x80, 0x24), "SECP256K1_MAGIC_BYTES": (0xE7, 0x01)}


def fields_of(R, adt):
    d = R.engine().adtidx.get(adt)
    return [x["n"] for x in d["variants"][0]["f"]] if d else []


def reads(x, t):
    return any(s is t for s in subterms(x))


def registered(x, table):
    segs = segs_of(x)
    if len(segs) != 1 or segs[0][0] != "star":
        return False
    from emit import emit
    for loops, s, e in emit(segs):
        if len(loops) != 1 or loops[0][0] is not table or not isinstance(e, tuple) or e[0] != "kv":
            return False
        i = loops[0][1]
        el = proj_index(table, i)
        if e[1] is not proj_field(el, "", "0") or e[2] is not proj_field(el, "", "1"):
            return False
    return True


def remembered(x, old, did, key):
    """x is old, less some entries, plus at most did -> key"""
    if x.k != "coll":
        return False
    for s in segs_of(x):
        if s[0] == "all" and s[1] is old:
            continue
        if s[0] == "kv" and s[1] is did and key is not None and s[2] is key:
            continue
        return False
    return True


# ---- C18 ---------------------------------------------------------------------------------
KEYS = {
    # type: algorithm, DID prefix, constructor, constructor step
    "Ed25519KeyMaterial": ("EdDSA", b"\xed\x01", "bytes_to_ed25519_key", ("TryFrom<VerificationKey>",)),
    "P256KeyMaterial": ("ES256", b"\x80\x24", "bytes_to_p256_key", ("TryFrom<VerifyingKey>", "VerifyingKey::from_sec1_bytes")),
    "RsaKeyMaterial": ("RS256", b"\x85\x24", "bytes_to_rsa_key", ("DecodeRsaPublicKey::from_pkcs1_der",)),
}
PLAIN = ("as_ref", "From<array>", "Into<array>", "Signature::to_vec", "Signature::to_bytes", "to_vec", "to_bytes", "as_slice", "Signature::into", "AsRef::as_ref",
         "VerificationKey::into", "From<GenericArray>", "GenericArray::to_vec", "GenericArray::as_slice", "SignatureEncoding::to_vec", "SignatureEncoding::to_bytes")


def plain(t):
    """the value whose plain bytes t is"""
    while t.k == "call" and len(t.a[1]) == 1 and (t.a[0] in PLAIN or t.a[0].startswith("From<")):
        t = t.a[1][0]
    return t


def sha256_of(t):
    """bytes hashed with SHA-256 to give t"""
    t = plain(t)
    if t.k != "call" or not t.a[0].startswith("Digest::") or "OidSha256" not in t.a[0]:
        return None
    n, a = t.a[0].split("<")[0], t.a[1]
    if n == "Digest::digest":
        return a[0]
    if n != "Digest::finalize":
        return None
    h = a[0]
    if h.k == "after" and h.a[0].k == "call" and h.a[1] is INT(0):
        u = h.a[0]
        if u.a[0].startswith("Digest::update<") and fresh_sha(u.a[1][0]):
            return u.a[1][1]
    if h.k == "call" and h.a[0].startswith("Digest::chain_update<") and fresh_sha(h.a[1][0]):
        return h.a[1][1]
    if h.k == "call" and h.a[0].startswith("Digest::new_with_prefix<"):
        return h.a[1][0]
    return None


def fresh_sha(t):
    return t.k == "call" and not t.a[1] and t.a[0].startswith(("Digest::new<", "Default::default<")) and "OidSha256" in t.a[0]


def pkcs_sha256(t):
    return t.k == "call" and t.a[0].startswith("Pkcs1v15Sign::new<") and "OidSha256" in t.a[0]


def accepted(kind, t, key, payload, sig, st):
    """t is the underlying algorithm's verdict on exactly (key, payload, sig)"""
    if t.k != "call":
        return False
    n, a = t.a
    pub = proj_field(key, "", "0")
    if kind == "RsaKeyMaterial":
        return n in ("RsaPublicKey::verify",) and len(a) == 4 and a[0] is pub and pkcs_sha256(a[1]) and sha256_of(a[2]) is payload and a[3] is sig
    s = lambda x: payload_of(x) is not None and payload_of(x).k == "call" and payload_of(x).a[0] in SIGPARSE and payload_of(x).a[1] == (sig,) and is_variant(st, payload_of(x), "Ok")
    if len(a) != 3 or a[0] is not pub:
        return False
    if kind == "Ed25519KeyMaterial":
        return n == "VerificationKey::verify" and s(a[1]) and a[2] is payload
    return n in ("Verifier::verify", "VerifyingKey::verify") and a[1] is payload and s(a[2])


SIGPARSE = ("TryFrom<Signature>", "Signature::from_slice", "Signature::try_from", "Signature::from_bytes")


def signed(kind, t, key, payload):
    """t is the algorithm's signature (or its result) by the private half over exactly payload"""
    priv = proj_field(proj_field(key, "", "1"), "Some", "0")
    if t.k != "call":
        return False
    n, a = t.a
    if kind == "RsaKeyMaterial":
        return n == "RsaPrivateKey::sign" and len(a) == 3 and a[0] is priv and pkcs_sha256(a[1]) and sha256_of(a[2]) is payload
    return n in ("SigningKey::sign", "Signer::sign", "Signer::try_sign") and tuple(a) == (priv, payload)


def pub_encoding(kind, t, key, st):
    pub = proj_field(key, "", "0")
    if kind == "Ed25519KeyMaterial":
        return plain(t) is pub
    if t.k != "call":
        return False
    n, a = t.a
    if kind == "P256KeyMaterial":
        return n in ("EncodedPoint::to_bytes", "EncodedPoint::as_bytes") and a[0].k == "call" and a[0].a[0].endswith("::to_encoded_point") and a[0].a[1][0] is pub and st.truth(a[0].a[1][1]) is True
    d = payload_of(a[0]) if n in ("Document::as_bytes", "Document::to_vec", "Document::into_vec") else None
    return d is not None and d.k == "call" and d.a[0].endswith("::to_pkcs1_der") and d.a[1][0] is pub and is_variant(st, d, "Ok")


@rule("C18")
def c18(R):
    P = R.P
    key, payload, sig = S("key"), S("payload"), S("signature")
    T = "KeyMaterial"
    prv = proj_field(key, "", "1")
    for kind, (alg, magic, ctor, step) in sorted(KEYS.items()):
        n = 0
        fn = P.fn("verify", kind, T)
        w = R.where(fn)
        for vn, st, v in R.results(R.run(fn, [key, payload, sig])):
            verdicts = [t for t in st.var if accepted(kind, t, key, payload, sig, st)]
            if vn == "Ok":
                n += 1
                R.ob("verification succeeds only if the algorithm accepted", any(is_variant(st, t, "Ok") for t in verdicts), "%s succeeds although %s did not accept exactly this signature over this payload; path: %s" % (w, alg, R.short(st, 600)))
            else:
                bad = any(is_variant(st, t, "Err") for t in verdicts) or any(t.k == "call" and t.a[0] in SIGPARSE and t.a[1] == (sig,) and is_variant(st, t, "Err") for t in st.var)
                R.ob("what the algorithm accepts is accepted", bad, "%s fails although the algorithm did not reject; path: %s" % (w, R.short(st, 600)))
        R.ob("verification can succeed", n >= 1, w)
        npan(R, w)

        n = 0
        fn = P.fn("sign", kind, T)
        w = R.where(fn)
        for vn, st, v in R.results(R.run(fn, [key, payload])):
            if vn == "Ok":
                n += 1
                x = plain(v)
                r = payload_of(x)
                g = signed(kind, x, key, payload) or (r is not None and signed(kind, r, key, payload) and is_variant(st, r, "Ok"))
                R.ob("the signature is the private half's over exactly the payload", g and is_variant(st, prv, "Some"), "%s yields %s; path: %s" % (w, kt(v), R.short(st, 300)))
            else:
                bad = is_variant(st, prv, "None") or any(signed(kind, t, key, payload) and is_variant(st, t, "Err") for t in st.var)
                R.ob("signing fails only without a private key or by the algorithm", bad, "%s fails; path: %s" % (w, R.short(st)))
        R.ob("signing can succeed", n >= 1, w)
        npan(R, w)

        fn = P.fn("get_jwt_algorithm_name", kind, T)
        for st, v in R.run(fn, [key]):
            R.ob("the algorithm name is the key type's", v is STR(alg), "%s names %s" % (R.where(fn), kt(v)))
        npan(R, R.where(fn))

        n = 0
        fn = P.fn("get_did", kind, T)
        w = R.where(fn)
        for vn, st, v in R.results(R.run(fn, [key])):
            if vn == "Err":
                bad = any(t.k == "call" and t.a[0].split("::")[-1].startswith("to_") and key in subterms(t) and is_variant(st, t, "Err") for t in st.var)
                R.ob("naming a key fails only if its encoding fails", bad, "%s fails; path: %s" % (w, R.short(st)))
                continue
            n += 1
            g = False
            if v.k == "cat" and len(v.a[0]) == 2 and v.a[0][0] is DIDKEY:
                b = b58of(v.a[0][1])
                if b is not None and b.k == "cat" and len(b.a[0]) == 2:
                    m, e = b.a[0]
                    g = m is mk("bytes", magic) and pub_encoding(kind, e, key, st)
            R.ob("the DID is the key type's prefix and the encoded public key, in base58btc", g, "%s yields %s" % (w, show(v)[:300]))
        R.ob("keys are named", n >= 1, w)
        npan(R, w)

        b = S("bytes")
        fn = P.fn(ctor)
        w = R.where(fn)
        n = 0
        for vn, st, v in R.results(R.run(fn, [b])):
            made = [t for t in list(st.var) if t.k == "call" and t.a[0] in step and t.a[1] == (b,)]
            if vn == "Err":
                R.ob("a key is refused only if its bytes do not decode", any(is_variant(st, t, "Err") for t in made), "%s fails; path: %s" % (w, R.short(st)))
                continue
            n += 1
            g = v.k == "adt" and v.a[0] == kind and is_variant(st, proj_field(v, "", "1"), "None") and any(proj_field(v, "", "0") is ok(t) and is_variant(st, t, "Ok") for t in made)
            R.ob("the key from a DID is the one its bytes encode, without a private half", g, "%s yields %s; path: %s" % (w, kt(v), R.short(st, 300)))
        R.ob("keys can be made", n >= 1, w)
        npan(R, w)

    for kind in ("Box", "Arc"):
        for m, a in (("get_jwt_algorithm_name", []), ("get_did", []), ("sign", [payload]), ("verify", [payload, sig])):
            fn = P.fn(m, kind, T)
            want = call("KeyMaterial::" + m, key, *a)
            for st, v in R.run(fn, [key] + a):
                g = v is want
                if not g and v.k == "adt" and v.a[0] == "Result":
                    if v.a[1] == "Ok":
                        g = is_variant(st, want, "Ok") and (v.a[3][0] is ok(want) or m == "verify")
                    else:
                        g = is_variant(st, want, "Err")
                R.ob("a wrapped key behaves as the key it holds", g, "%s yields %s" % (R.where(fn), kt(v)))
            npan(R, R.where(fn))


def npan(R, w):
    R.ob("no failure is a panic", not R.panics, "%s may panic: %s" % (w, [str(v)[:120] for s, v in R.panics][:2]))


# ---- C24 ---------------------------------------------------------------------------------
MARK = mk("bytes", b"\x9d\x1a")


def as_text(st, t):
    """t with inverse encodings cancelled"""
    y = b58of(t)
    if y is not None:
        z = payload_of(y)
        if z is not None and z.k == "call" and z.a[0] == "DecodeBuilder::into_vec" and z.a[1][0].k == "call" and z.a[1][0].a[0] == "bs58::decode" and is_variant(st, z, "Ok"):
            return as_text(st, z.a[1][0].a[1][0])
    if t.k == "cat":
        ps = [as_text(st, p) for p in t.a[0]]
        if len(ps) == 2 and ps[1].k == "strip" and ps[1].a[1] is ps[0] and starts(st, ps[1].a[0], ps[0]) is True:
            return ps[1].a[0]
        from engine import cat
        return cat(ps)
    return t


def principal_bytes(R):
    d = fields_of(R, "Principle")
    if len(d) != 1:
        raise Missing("Principle is not a single value")
    return d[0]


def displayed(R, fn, x, st0=None):
    """[(state, text | None when display fails)]"""
    st0 = st0.copy() if st0 is not None else St()
    cell = ("x", "formatter")
    st0.cells[cell] = mk("fmtbuf", STR(""))
    out = []
    for st, v in R.run(fn, [x, mk("ref", cell, ())], st=st0):
        buf = st.cells[cell]
        if buf.k != "fmtbuf":
            raise Unsupported("display through %s" % show(buf)[:100])
        if v.k == "adt":
            out.append((st, buf.a[0] if v.a[1] == "Ok" else None))
            continue
        for vn, s2 in split_var(R.engine(), st, v, "Result"):
            out.append((s2, buf.a[0] if vn == "Ok" else None))
    return out


def texts(R, ty):
    """(function, [(state, text)]): what values of the type are written as, by ToString or Display"""
    try:
        fn = R.P.fn("to_string", ty, "ToString")
    except Missing:
        fn = R.P.fn("fmt", ty, "Display")
        x = S("x")
        rs = displayed(R, fn, x)
        R.ob("%s can always be written" % ty, all(t is not None for s, t in rs), "%s may fail" % R.where(fn))
        return fn, [(s, t) for s, t in rs if t is not None]
    return fn, R.run(fn, [S("x")])


@rule("C24")
def c24(R):
    P = R.P
    fb = principal_bytes(R)
    x = S("text")
    disp = P.fn("fmt", "Principle", "Display")
    fn = P.fn("from_str", "Principle", "FromStr")
    w = R.where(fn)
    key = generic = 0
    dec = b58dec(strip(x, DIDKEY))
    for vn, st, v in R.results(R.run(fn, [x])):
        k, d = starts(st, x, DIDKEY), starts(st, x, DID)
        if vn == "Err":
            clash = starts(st, ok(dec), MARK) is True
            R.ob("text is refused only if it is no DID, not base58, or would be shown as another DID", d is False or (k is False and d is not True) or is_variant(st, dec, "Err") or clash, "%s refuses text; path: %s" % (w, R.short(st)))
            continue
        b = proj_field(v, "", fb)
        if k is True:
            key += 1
            R.ob("a did:key DID is its base58-decoded bytes", b is ok(dec) and is_variant(st, dec, "Ok"), "%s makes %s of a did:key DID" % (w, kt(b)))
        else:
            generic += 1
            R.ob("another DID is marked as such", k is False and d is True and b is mk("cat", (MARK, strip(x, DID))), "%s makes %s; path: %s" % (w, kt(b), R.short(st)))
        s2 = st.copy()
        if b.k == "cat" and b.a[0][0] is MARK:
            s2.assume(("var", call("from_utf8", strip(x, DID)), frozenset(["Ok"])))
        for s3, t in displayed(R, disp, v, s2):
            R.ob("displayed as the DID it was made from", t is not None and as_text(s3, t) is x, "a principal made from text x is displayed as %s; path: %s" % (kt(t) if t is not None else "an error", R.short(s3)))
    R.ob("both kinds of DID are accepted", key >= 1 and generic >= 1, "%s: %d/%d" % (w, key, generic))
    # any principal
    p = S("principal")
    B = proj_field(p, "", fb)
    utf = call("from_utf8", strip(B, MARK))
    n = 0
    for st, t in displayed(R, disp, p):
        m = starts(st, B, MARK)
        if t is None:
            R.ob("display fails only for a marked principal that is not text", m is True and is_variant(st, utf, "Err"), "%s fails; path: %s" % (R.where(disp), R.short(st)))
            continue
        n += 1
        if m is True:
            g = t is mk("cat", (DID, strip(B, MARK)))
        else:
            g = m is False and t.k == "cat" and len(t.a[0]) == 2 and t.a[0][0] is DIDKEY and b58of(t.a[0][1]) is B
        R.ob("a principal is displayed by its kind", g, "%s displays %s; path: %s" % (R.where(disp), kt(t), R.short(st)))
    R.ob("principals are displayed", n >= 2, R.where(disp))
    # from bytes
    for name, trait in (("try_from", "TryFrom"), ("deserialize", "Deserialize")):
        for c, it in P.items(name, "Principle", trait):
            fn = c.fns.get(str(it["key"]))
            if fn is None:
                continue
            w = R.where(fn)
            src = S("bytes")
            n = 0
            for vn, st, v in R.results(R.run(fn, [src])):
                if vn == "Err":
                    bad = any(is_variant(st, t, "Err") and (t.k == "call" and t.a[0] in ("from_utf8", "Deserialize::deserialize")) for t in st.var)
                    R.ob("bytes are refused only if they do not decode or cannot be displayed", bad, "%s refuses bytes; path: %s" % (w, R.short(st)))
                    continue
                n += 1
                b = proj_field(v, "", fb)
                whole = b is src or b is ok(call("Deserialize::deserialize", src))
                R.ob("bytes are kept as they are", whole, "%s keeps %s" % (w, kt(b)))
                m = starts(st, b, MARK)
                R.ob("bytes marked as a generic DID can be displayed", m is False or (m is True and is_variant(st, call("from_utf8", strip(b, MARK)), "Ok")), "%s accepts bytes that may be marked as a DID without being text; path: %s" % (w, R.short(st)))
            R.ob("bytes are accepted", n >= 1, w)


# ---- C23 ---------------------------------------------------------------------------------
# the signature codes of <https://github.com/ucan-wg/ucan-ipld#25-signature>
CODES = {"NonStandard": 0xD000, "ES256K": 0xD0E7, "BLS12381G1": 0xD0EA, "BLS12381G2": 0xD0EB, "EdDSA": 0xD0ED, "ES256": 0xD01200, "ES384": 0xD01201,
         "ES512": 0xD01202, "RS256": 0xD01205, "EIP191": 0xD191}


@rule("C23")
def c23(R):
    P = R.P
    e = R.engine()
    jwt = sorted(e.allv("JwtSignatureAlgorithm"))
    vs = sorted(e.allv("VarsigPrefix"))
    V = lambda a, n: adt(a, n, (), ())

    def conv(name, selfty, trait, arg):
        out = []
        for c, it in P.items(name, selfty, trait):
            t = c.ts(it["in"][0])
            if t.split("::")[-1] == arg or (arg == "str" and t.startswith("&") and t.endswith("str")):
                if str(it["key"]) in c.fns:
                    out.append(c.fns[str(it["key"])])
        if len(out) != 1:
            raise Missing("%s for %s from %s: %d found" % (trait, selfty, arg, len(out)))
        return out[0]

    def const(fn, x, plainv=False):
        """the single result on a constant"""
        rs = R.run(fn, [x])
        if plainv:
            return rs[0][1] if len(rs) == 1 else None
        rs = R.results(rs)
        if len(rs) != 1:
            return None
        return rs[0][2] if rs[0][0] == "Ok" else False
    to_u64, of_u64 = conv("from", "u64", "From", "VarsigPrefix"), conv("try_from", "VarsigPrefix", "TryFrom", "u64")
    j2v, v2j = conv("try_from", "VarsigPrefix", "TryFrom", "JwtSignatureAlgorithm"), conv("try_from", "JwtSignatureAlgorithm", "TryFrom", "VarsigPrefix")
    v_of_str = P.fn("from_str", "VarsigPrefix", "FromStr")
    code = {}
    for v in vs:
        c = const(to_u64, V("VarsigPrefix", v), True)
        code[v] = c.a[0] if c is not None and c.k == "int" else None
        R.ob("every algorithm has a code", code[v] is not None, "%s gives %s the code %s" % (R.where(to_u64), v, c))
        if code[v] is None:
            continue
        if v in CODES:
            R.ob("an algorithm has the code the specification gives it", code[v] == CODES[v], "%s gives %s the code %#x instead of %#x" % (R.where(to_u64), v, code[v], CODES[v]))
        back = const(of_u64, INT(code[v]))
        R.ob("a code converts back to its algorithm", is_named(back, v), "%s has the code %#x, which %s converts to %s" % (v, code[v], R.where(of_u64), back))
    R.ob("distinct algorithms have distinct codes", len(set(code.values())) == len(vs), "%s: two algorithms share a code: %s" % (R.where(to_u64), code))
    x = S("code")
    for vn, st, v in R.results(R.run(of_u64, [x])):
        if vn == "Ok":
            k = one_variant(st, v, vs)
            R.ob("only an algorithm's own code converts to it", k is not None and st.ival(x) == (code.get(k), code.get(k)), "%s converts %s to %s" % (R.where(of_u64), st.ival(x), k))
    for j in jwt:
        a = const(j2v, V("JwtSignatureAlgorithm", j))
        R.ob("a JWT algorithm maps to the varsig algorithm of its name", is_named(a, j), "%s maps %s to %s" % (R.where(j2v), j, a))
        a = const(v2j, V("VarsigPrefix", j)) if j in vs else None
        R.ob("a varsig algorithm maps to the JWT algorithm of its name", is_named(a, j), "%s maps %s to %s" % (R.where(v2j), j, a))
        a = const(v_of_str, STR(j))
        R.ob("the name of a JWT algorithm parses as the varsig algorithm of its name", is_named(a, j), "%s parses %s as %s" % (R.where(v_of_str), j, a))
    for v in vs:
        if v not in jwt:
            a = const(v2j, V("VarsigPrefix", v))
            R.ob("other varsig algorithms are no JWT algorithm", a is False, "%s maps %s to %s" % (R.where(v2j), v, a))
    # the envelope
    fld = fields_of(R, "Signature")
    if len(fld) != 1:
        raise Missing("Signature is not a single value")
    t = S("pair")
    alg, sig = proj_field(t, "", "0"), proj_field(t, "", "1")
    fns = [c.fns[str(it["key"])] for c, it in P.items("try_from", "Signature", "TryFrom") if str(it["key"]) in c.fns]
    R.ob("one way to make an envelope", len(fns) == 1, "%d conversions into Signature" % len(fns))
    seen = set()
    for fn in fns:
        w = R.where(fn)
        for vn, st, v in R.results(R.run(fn, [t])):
            if vn == "Err":
                R.ob("every algorithm can be enveloped", False, "%s fails; path: %s" % (w, R.short(st)))
                continue
            for j in may(st, alg, jwt):
                seen.add(j)
                b = proj_field(v, "", fld[0])
                ps = b.a[0] if b.k == "cat" else (b,)
                g = len(ps) == 3 and varint(ps[0], "u64", INT(code.get(j) or 0)) and (varint(ps[1], "usize", length(sig)) or varint(ps[1], "u64", length(sig))) and ps[2] is sig
                R.ob("the envelope is the code, the length and the signature", g, "%s makes %s for %s" % (w, show(b)[:300], j))
    R.ob("every algorithm is enveloped", seen == set(jwt), "only %s" % sorted(seen))
    fn = P.fn("decode", "Signature")
    w = R.where(fn)
    s = S("signature")
    B = proj_field(s, "", fld[0])
    d1 = call("decode::u64", B)
    p1, r1 = proj_field(ok(d1), "", "0"), proj_field(ok(d1), "", "1")
    d2 = call("decode::usize", r1)
    n2, r2 = proj_field(ok(d2), "", "0"), proj_field(ok(d2), "", "1")
    seen = set()
    for vn, st, v in R.results(R.run(fn, [s])):
        lo, hi = st.ival(p1)
        if vn == "Err":
            codes = [code[j] for j in jwt if code.get(j) is not None]
            unk = is_variant(st, d1, "Ok") and all("=" not in st.possible(p1, INT(c)) for c in codes)
            short = is_variant(st, d2, "Ok") and st.possible(n2, length(r2)) == ">"
            R.ob("an envelope is refused only if it is cut short or its algorithm unknown", is_variant(st, d1, "Err") or is_variant(st, d2, "Err") or unk or short, "%s refuses an envelope; path: %s" % (w, R.short(st, 600)))
            continue
        R.ob("an envelope is decoded step by step", all_ok(st, [d1, d2]), "%s; path: %s" % (w, R.short(st)))
        j = one_variant(st, proj_field(v, "", "0"), jwt)
        seen.add(j)
        R.ob("the algorithm is the one the code names", j is not None and (lo, hi) == (code.get(j), code.get(j)), "%s decodes the code %s to %s" % (w, (lo, hi), j))
        R.ob("the signature is exactly the stated number of bytes", proj_field(v, "", "1") is mk("slice", r2, INT(0), n2) and ">" not in st.possible(n2, length(r2)), "%s yields %s" % (w, show(proj_field(v, "", "1"))[:300]))
    R.ob("every algorithm is decoded", seen == set(jwt), "%s decodes only %s" % (w, sorted(map(str, seen))))


def varint(t, ty, n):
    return t.k == "call" and t.a[0] == "encode::" + ty and t.a[1][0] is n


def is_named(v, n):
    return v not in (None, False) and v.k == "adt" and v.a[1] == n

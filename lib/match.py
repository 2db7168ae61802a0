"""Recognising values: which term is 'the decoding of x', 'the CID of u', ..."""
from terms import *
from engine import proj_field, cat, length
from rule import is_variant

B64 = mk("named", "URL_SAFE_NO_PAD")


def ok(t):
    return proj_field(t, "Ok", "0")


def b64dec(x):
    return call("Engine::decode", B64, x)


def b64enc(x):
    return call("Engine::encode", B64, x)


def is_codec(t, name):
    return t.k == "adt" and t.a[0] == name or (t.k in ("named", "const") and t.a[0].split("::")[-1] == name)


def payload_of(t, vn="Ok"):
    """x when t is the payload of x's variant vn"""
    if t.k == "fld" and t.a[1] == vn and t.a[2] == "0":
        return t.a[0]
    return None


def from_dagjson(t, need):
    """bytes decoded as DAG-JSON to give t; every step's success is added to `need`"""
    x = payload_of(t)
    if x is None or x.k != "call":
        return None
    need.append(x)
    n, a = x.a
    if n == "serde::from_ipld":
        y = payload_of(a[0])
        if y is None or y.k != "call":
            return None
        need.append(y)
        n, a = y.a
        if n in ("Decode::decode", "Codec::decode") and is_codec(a[0], "DagJsonCodec"):
            z = a[1]
            if z.k == "call" and z.a[0] == "Cursor::new":
                z = z.a[1][0]
            return z
    return None


def to_dagjson(t, need):
    """the value whose DAG-JSON encoding t is"""
    x = payload_of(t)
    if x is None:
        # an encoding written into a fresh buffer
        if t.k == "after" and t.a[0].k == "call" and t.a[0].a[0] == "Encode::encode":
            c = t.a[0].a[1]
            if is_codec(c[1], "DagJsonCodec") and empty(c[2]):
                need.append(t.a[0])
                v = payload_of(c[0])
                if v is not None and v.k == "call" and v.a[0] == "serde::to_ipld":
                    need.append(v)
                    return v.a[1][0]
        return None
    if x.k != "call":
        return None
    need.append(x)
    n, a = x.a
    if n == "Codec::encode" and is_codec(a[0], "DagJsonCodec"):
        v = payload_of(a[1])
        if v is not None and v.k == "call" and v.a[0] == "serde::to_ipld":
            need.append(v)
            return v.a[1][0]
    return None


def empty(t):
    return (t.k == "coll" and not t.a[1]) or (t.k == "str" and t.a[0] == "") or (t.k == "arr" and not t.a[0]) or (t.k == "bytes" and not t.a[0])


def raw_block(t):
    """bytes of a raw-codec block (the codec is the identity on bytes)"""
    x = payload_of(t)
    if x is not None and x.k == "call" and x.a[0] == "Codec::encode" and is_codec(x.a[1][0], "RawCodec"):
        return x.a[1][1], [x]
    return t, []


def cid_parts(t):
    """(codec, multihash) of a version-1 CID"""
    if t.k == "call" and t.a[0] in ("CidGeneric::new_v1", "Cid::new_v1"):
        return t.a[1]
    x = payload_of(t)
    if x is not None and x.k == "call" and x.a[0] in ("CidGeneric::new", "Cid::new") and x.a[1][0].k == "adt" and x.a[1][0].a[1] == "V1":
        return x.a[1][1:]
    return None


def raw_codec(t):
    if t.k == "int":
        return t.a[0] == 0x55
    return t.k == "call" and t.a[0] in ("From<u64>", "u64::from") and is_codec(t.a[1][0], "RawCodec")


def digest_of(t):
    """(hash function, bytes)"""
    if t.k == "call" and t.a[0] == "MultihashDigest::digest":
        return t.a[1]
    return None


def encoded(R, u):
    """the text of token u: signed bytes, dot, signature"""
    return cat([R.uf(u, "signed_data"), STR("."), b64enc(R.uf(u, "signature"))])


def token_cid(R, t, u):
    """hash function of t when t is u's CID: v1, raw, over the encoded token"""
    p = cid_parts(t)
    if p is None or not raw_codec(p[0]):
        return None
    d = digest_of(p[1])
    if d is None:
        return None
    b, _ = raw_block(d[1])
    if b is not encoded(R, u):
        return None
    return d[0]


def all_ok(st, terms):
    return all(is_variant(st, t, "Ok") for t in terms)


def counts(d, n):
    """does the domain have exactly the positions 0..n?"""
    return d.k == "dom" and (d.a[0] == "range" and d.a[1] is INT(0) and d.a[2] is n or d.a[0] == "all" and length(d.a[1]) is n)

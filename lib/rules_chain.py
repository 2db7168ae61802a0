"""Proof chains: C05-C08"""
from rule import *
from match import *
from engine import Subst, proj_index, add
from rules_token import rule, RULES


# ---- shared ----------------------------------------------------------------------------
def fstate(facts, base=None):
    """a state that knows `facts`; None if they contradict"""
    st = base.copy() if base is not None else St()
    for f in facts:
        if not st.assume(f):
            return None
    return st


def star_cases(exit_st, seg):
    """[(state, segs)] for the generic element of a batch: every way it can have come
    about, with what every other loop over the same domain established about it"""
    _, L, dom, alts = seg
    out = []
    for f, g in alts:
        st = fstate(f)
        if st is not None:
            out.append((st, g))
    for b in exit_st.big:
        if b[0] != "all" or b[1] == L:
            continue
        d2 = b[2]
        if d2 is not dom and not (d2.a[0] == "all" and d2.a[1].k == "coll" and segs_of(d2.a[1]) == (seg,)):
            continue
        sb = Subst(ren={b[1]: L})
        nxt = []
        for st, g in out:
            for alt in b[3]:
                s2 = fstate(sb.facts(alt), st)
                if s2 is not None:
                    nxt.append((s2, g))
        if len(nxt) <= 400:
            out = nxt
    return out


CHAIN = ["from_ucan", "from_cid", "try_from_token_string"]


class Chain(object):
    """names of ProofChain's parts, from its accessors"""

    def __init__(self, R):
        e = R.engine()
        self.f = {}
        for n in ("ucan", "proofs"):
            outs = e.run_fn(St(), R.P.fn(n, "ProofChain"), [S("c")])
            v = outs[0][2] if len(outs) == 1 else None
            if v is None or v.k != "fld":
                raise Missing("ProofChain::%s is not an accessor" % n)
            self.f[n] = v.a[2]
        d = e.adtidx["ProofChain"]["variants"][0]["f"]
        rest = [x["n"] for x in d if x["n"] not in self.f.values()]
        if len(rest) != 1:
            raise Missing("ProofChain has %d further fields, expected the redelegations only" % len(rest))
        self.f["redelegations"] = rest[0]
        # a wrapper of its own around the set is looked through
        self.path = [rest[0]]
        cr = next(c for c in e.crates.values() if any(a.split("::")[-1] == "ProofChain" for a in c.adts))
        f = next(x for x in d if x["n"] == rest[0])
        while len(self.path) < 6:
            t = cr.types[f["t"]]
            w = cr.adts.get(t.get("p")) if t["k"] == "adt" and t.get("local") else None
            if w is None or w["kind"] != "struct" or len(w["variants"][0]["f"]) != 1:
                break
            f = w["variants"][0]["f"][0]
            self.path.append(f["n"])

    def get(self, c, n):
        if n != "redelegations":
            return proj_field(c, "", self.f[n])
        for x in self.path:
            c = proj_field(c, "", x)
        return c

    def redelegations_of(self, t):
        """the chain whose redelegations t is"""
        for x in reversed(self.path):
            if t.k != "fld" or t.a[2] != x:
                return None
            t = t.a[0]
        return t


def chain_cuts(R, validate=True):
    cs = [R.cut("ProofChain::from_ucan"), R.cut("Ucan::parse", "from_str", "Ucan", "FromStr"), R.cut("Capabilities::iter"),
          R.cut("require_token", "require_token", None, "UcanJwtStore")]
    if validate:
        cs.append(R.cut("Ucan::validate"))
    return cs


def reqtok(store, cid):
    return call("UcanJwtStore::require_token", store, cid)


def parse_tok(t):
    return call("Ucan::parse", t)


def cid_of_text(s):
    return call("TryFrom<CidGeneric>", s)


def chain_call(u, now, dp, store):
    return call("ProofChain::from_ucan", u, now, dp, store)


def chain_exits(R):
    ucan, now, dp, store = S("ucan"), S("now"), S("did_parser"), S("store")
    fn = R.P.fn("from_ucan", "ProofChain")
    rs = R.results(R.run(fn, [ucan, now, dp, store], chain_cuts(R)))
    return fn, (ucan, now, dp, store), [(s, v) for vn, s, v in rs if vn == "Ok"]


def proof_elems(R, C, st, v):
    """[(seg, [(state, segs)])] describing the proofs of a produced chain"""
    ps = C.get(v, "proofs")
    return [(s, star_cases(st, s) if s[0] == "star" else None) for s in segs_of(ps)]


def chain_elem(x, now, dp, store):
    """u when x is the chain made from u under the same time, parser and store"""
    c = payload_of(x)
    if c is None or c.k != "call" or c.a[0] != "ProofChain::from_ucan":
        return None, None
    u, n, d, s = c.a[1]
    if n is not now or d is not dp or s is not store:
        return None, c
    return u, c


# ---- C05 ---------------------------------------------------------------------------------
@rule("C05")
def c05(R):
    C = Chain(R)
    fn, (ucan, now, dp, store), oks = chain_exits(R)
    w = R.where(fn)
    val = call("Ucan::validate", ucan, now, dp)
    R.ob("some chain is produced", len(oks) >= 2, "%s: %d successful exits" % (w, len(oks)))
    np = 0
    for st, v in oks:
        R.ob("the token itself validated", is_variant(st, val, "Ok"),
             "%s produces a chain on a path where validate(token, caller's time, caller's DID parser) did not succeed; path: %s" % (w, R.short(st)))
        R.ob("the chain is of that token", C.get(v, "ucan") is ucan, "%s: the chain's token is %s" % (w, kt(C.get(v, "ucan"))))
        for seg, cases in proof_elems(R, C, st, v):
            if cases is None:
                R.ob("proofs are chains of validated tokens", False, "%s: a proof of unknown origin: %s" % (w, show_seg(seg)[:300]))
                continue
            for s2, segs in cases:
                for g in segs:
                    x = g[1] if g[0] == "one" else None
                    u, c = chain_elem(x, now, dp, store) if x is not None else (None, None)
                    np += 1
                    R.ob("proof chains built under the same time, parser and store", u is not None, "%s: proof is %s" % (w, kt(x) if x is not None else show_seg(g)[:200]))
                    if u is not None:
                        R.ob("proof chain construction succeeded", is_variant(s2, c, "Ok"), "%s: a proof is used although its chain was not produced; path: %s" % (w, R.short(s2)))
    R.ob("proofs are examined", np >= 1, "%s: no proof element found" % w)
    # the other ways to obtain a chain
    prods = []
    for c, it in producers(R, "ProofChain"):
        if it["name"] == "from_ucan" and c.self_name(it) == "ProofChain" or is_copy(it):
            continue
        prods.append(it["name"])
        f = c.fns[str(it["key"])]
        args = named_args(c, it)
        rs = R.oks(R.run(f, args, chain_cuts(R)))
        for st, v in rs:
            nw = [a for a in args if a.a[0] == "now"]
            x = payload_of(v)
            good = x is not None and x.k == "call" and x.a[0] == "ProofChain::from_ucan" and is_variant(st, x, "Ok") and \
                len(nw) == 1 and x.a[1][1] is nw[0] and x.a[1][2] is S("did_parser") and x.a[1][3] is S("store")
            R.ob("%s: only what from_ucan produced under the caller's time, parser and store" % it["name"], good, "%s yields %s" % (R.where(f), kt(v)))
            if good:
                src = {"from_cid": parse_tok(ok(reqtok(S("store"), S("cid")))), "try_from_token_string": parse_tok(S("text"))}.get(it["name"])
                if src is not None:
                    R.ob("%s: of the token asked for" % it["name"], x.a[1][0] is ok(src) and is_variant(st, src, "Ok"),
                         "%s chains %s" % (R.where(f), kt(x.a[1][0])))
        R.ob("%s: some path succeeds" % it["name"], len(rs) >= 1, "%s never succeeds" % R.where(f))
    R.ob("both other constructors examined", set(prods) >= {"from_cid", "try_from_token_string"}, "found %s" % prods)


def is_copy(it):
    """a Clone impl (that copies are faithful is C37's subject)"""
    return it["name"] == "clone" and (it.get("trait") or "").endswith("clone::Clone")


def producers(R, ty):
    """functions of the tree whose result holds a `ty` by value"""
    import re
    for c in R.P.crates.values():
        for it in c.items:
            o = c.ts(it["out"])
            if re.search(r"\b%s\b" % ty, o) and not o.lstrip().startswith("&") and not re.search(r"&[^,<>]*\b%s\b" % ty, o) and str(it.get("key")) in c.fns and it["reach"]:
                yield c, it


def named_args(c, it):
    out = []
    for i in it["in"]:
        t = c.ts(i)
        if "DidParser" in t:
            out.append(S("did_parser"))
        elif "Option<u64>" in t:
            out.append(S("now"))
        elif "Cid" in t:
            out.append(S("cid"))
        elif t.endswith("str") or t.endswith("String"):
            out.append(S("text"))
        elif t in ("&S", "S") or t.endswith(" S"):
            out.append(S("store"))
        else:
            out.append(S("arg%d" % len(out)))
    return out


# ---- C06 ---------------------------------------------------------------------------------
def begins(R, st, p, u):
    """True/False/None: p starts no later than u, an absent bound being unbounded"""
    a, b = R.pf(p, "nbf"), R.pf(u, "nbf")
    if is_variant(st, a, "None"):
        return True
    if is_variant(st, a, "Some") and is_variant(st, b, "None"):
        return False
    if is_variant(st, a, "Some") and is_variant(st, b, "Some"):
        o = st.possible(proj_field(a, "Some", "0"), proj_field(b, "Some", "0"))
        return True if all(c in "<=" for c in o) else False if o == ">" else None
    return None


def ends(R, st, p, u):
    a, b = R.pf(p, "exp"), R.pf(u, "exp")
    if is_variant(st, a, "None"):
        return True
    if is_variant(st, a, "Some") and is_variant(st, b, "None"):
        return False
    if is_variant(st, a, "Some") and is_variant(st, b, "Some"):
        o = st.possible(proj_field(a, "Some", "0"), proj_field(b, "Some", "0"))
        return True if all(c in "=>" for c in o) else False if o == "<" else None
    return None


def both(x, y):
    if x is False or y is False:
        return False
    return True if x and y else None


@rule("C06")
def c06(R):
    C = Chain(R)
    a, b = S("one"), S("other")
    for name, want in (("lifetime_begins_before", lambda st: begins(R, st, a, b)), ("lifetime_ends_after", lambda st: ends(R, st, a, b)),
                       ("lifetime_encompasses", lambda st: both(begins(R, st, a, b), ends(R, st, a, b)))):
        fn = R.P.fn(name, "Ucan")
        seen = set()
        for st, val in R.bools(R.run(fn, [a, b])):
            seen.add(val)
            R.ob("%s agrees with unbounded-interval inclusion" % name, want(st) == val, "%s answers %s where the bounds say %s; path: %s" % (R.where(fn), val, want(st), R.short(st)))
        R.ob("%s takes both values" % name, seen == {True, False}, "%s only ever answers %s" % (R.where(fn), seen))
    fn, (ucan, now, dp, store), oks = chain_exits(R)
    w = R.where(fn)
    n = 0
    for st, v in oks:
        for seg, cases in proof_elems(R, C, st, v):
            for s2, segs in cases or []:
                for g in segs:
                    if g[0] != "one":
                        R.ob("link", False, "%s: proof of unknown origin" % w)
                        continue
                    n += 1
                    p = C.get(g[1], "ucan")
                    R.ob("proof's audience is the citing token's issuer", s2.possible(R.pf(p, "aud"), R.pf(ucan, "iss")) == "=",
                         "%s accepts a proof without having established that its audience equals the token's issuer; path: %s" % (w, R.short(s2, 900)))
                    R.ob("proof starts no later than the citing token", begins(R, s2, p, ucan) is True,
                         "%s accepts a proof without having established that it starts no later than the token; path: %s" % (w, R.short(s2, 900)))
                    R.ob("proof ends no earlier than the citing token", ends(R, s2, p, ucan) is True,
                         "%s accepts a proof without having established that it ends no earlier than the token; path: %s" % (w, R.short(s2, 900)))
            if cases is None:
                R.ob("link", False, "%s: proof of unknown origin %s" % (w, show_seg(seg)[:200]))
    R.ob("links examined", n >= 1, "%s: no proof element found" % w)


# ---- C07 ---------------------------------------------------------------------------------
@rule("C07")
def c07(R):
    C = Chain(R)
    fn, (ucan, now, dp, store), oks = chain_exits(R)
    w = R.where(fn)
    prf = R.pf(ucan, "prf")
    cited = proj_field(prf, "Some", "0")
    some = none = 0
    for st, v in oks:
        ps = C.get(v, "proofs")
        if is_variant(st, prf, "None") or st.ival(length(cited)) == (0, 0):
            none += 1
            R.ob("no citations, no proofs", length(ps) is INT(0), "%s: proofs without citations: %s" % (w, kt(ps)))
            continue
        R.ob("whether proofs are cited was looked at", is_variant(st, prf, "Some"), "%s accepts without having looked at the cited proofs; path: %s" % (w, R.short(st)))
        some += 1
        segs = segs_of(ps)
        good = len(segs) == 1 and segs[0][0] == "star" and segs[0][2].k == "dom" and segs[0][2].a[0] == "all" and segs[0][2].a[1] is cited
        R.ob("one proof per citation, in order", good, "%s: the proofs are %s" % (w, " ++ ".join(show_seg(s, 2)[:200] for s in segs)))
        if not good:
            continue
        L = segs[0][1]
        s = proj_index(cited, mk("idx", (L,)))
        cid = cid_of_text(s)
        tok = reqtok(store, ok(cid))
        ptok = parse_tok(ok(tok))
        cc = chain_call(ok(ptok), now, dp, store)
        for s2, g in star_cases(st, segs[0]):
            R.ob("no citation is skipped", len(g) == 1 and g[0][0] == "one", "%s passes over a cited proof; path: %s" % (w, R.short(s2, 900)))
            for y in g:
                R.ob("the proof is the chain of the token stored under the cited CID", y[0] == "one" and same_chain(y[1], s, store),
                     "%s: the proof for citation s is %s" % (w, kt(y[1])))
                if y[0] == "one":
                    steps = chain_steps(y[1])
                    R.ob("every step for a citation succeeded", steps is not None and all_ok(s2, steps), "%s keeps a proof although a step failed; path: %s" % (w, R.short(s2, 900)))
    R.ob("chains with and without citations examined", some >= 1 and none >= 1, "%s: %d/%d" % (w, some, none))


def chain_steps(x):
    """the fallible steps chain <- token <- text <- CID, as call terms"""
    c = payload_of(x)
    if c is None or c.k != "call" or c.a[0] != "ProofChain::from_ucan":
        return None
    p = payload_of(c.a[1][0])
    if p is None or p.k != "call" or p.a[0] != "Ucan::parse":
        return None
    t = payload_of(p.a[1][0])
    if t is None or t.k != "call" or t.a[0] != "UcanJwtStore::require_token":
        return None
    d = payload_of(t.a[1][1])
    if d is None or d.k != "call":
        return None
    return [c, p, t, d]


def same_chain(x, s, store):
    st = chain_steps(x)
    return st is not None and st[2].a[1][0] is store and st[3].a[0] in ("TryFrom<CidGeneric>", "FromStr<CidGeneric>", "parse:CidGeneric", "parse:cid::CidGeneric<64>") and st[3].a[1][-1] is s


# ---- C08 ---------------------------------------------------------------------------------
@rule("C08")
def c08(R):
    C = Chain(R)
    fn, (ucan, now, dp, store), oks = chain_exits(R)
    w = R.where(fn)
    caps = call("Capabilities::iter", R.pf(ucan, "cap"))
    star = STR("*")
    n_all = n_idx = n_none = 0
    for st, v in oks:
        np = length(C.get(v, "proofs"))
        rd = C.get(v, "redelegations")
        segs = [s for s in segs_of(rd)]
        good = len(segs) <= 1 and all(s[0] == "star" and s[2].k == "dom" and s[2].a[0] == "all" and s[2].a[1] is caps for s in segs)
        R.ob("redelegations come from the claimed capabilities, all looked at", good, "%s: redelegations are %s" % (w, " ++ ".join(show_seg(s, 2)[:300] for s in segs)))
        if not good:
            continue
        if not segs:
            # nothing redelegated: every capability must have been looked at and have selected nothing
            ls = [b for b in st.big if b[0] == "all" and b[2].k == "dom" and b[2].a[0] == "all" and b[2].a[1] is caps]
            R.ob("every claimed capability is looked at", len(ls) >= 1, "%s: the claimed capabilities are not all examined" % w)
            segs = [("star", b[1], b[2], tuple((f, ()) for f in b[3])) for b in ls[:1]]
        for seg in segs:
            c = proj_index(caps, mk("idx", (seg[1],)))
            url = call("Url::parse", proj_field(c, "", "resource"))
            scheme, path = call("Url::scheme", ok(url)), call("Url::path", ok(url))
            num = call("parse:usize", path)
            deleg = lambda s: s.possible(proj_field(c, "", "ability"), STR("ucan/DELEGATE"))
            for s2, g in star_cases(st, seg):
                applies = is_variant(s2, url, "Ok") and s2.possible(scheme, STR("prf")) == "=" and deleg(s2) == "="
                isall = s2.possible(path, star)
                if not g:
                    no = is_variant(s2, url, "Err") or "=" not in s2.possible(scheme, STR("prf")) or "=" not in deleg(s2) or ("=" not in isall and is_variant(s2, num, "Err"))
                    if not no and np is INT(0) and isall == "=":
                        no = True
                    n_none += 1
                    R.ob("a capability that redelegates nothing selects nothing", no,
                         "%s redelegates nothing for a capability that may be ucan/DELEGATE on prf:*/prf:<n>; path: %s" % (w, R.short(s2, 900)))
                    continue
                R.ob("only ucan/DELEGATE on prf: redelegates", applies, "%s redelegates for a capability not known to be ucan/DELEGATE on prf:; path: %s" % (w, R.short(s2, 900)))
                for x in g:
                    if x[0] == "one":
                        n_idx += 1
                        R.ob("prf:<n> selects exactly proof n", x[1] is ok(num) and is_variant(s2, num, "Ok"), "%s: selects %s" % (w, kt(x[1])))
                        R.ob("prf:<n> is not the wildcard", "=" not in isall, "%s: a wildcard path selects one proof; path: %s" % (w, R.short(s2, 900)))
                        R.ob("the selected proof is cited", s2.possible(x[1], np) == "<", "%s redelegates an index not known to be below the number of cited proofs; path: %s" % (w, R.short(s2, 900)))
                    elif x[0] == "star":
                        n_all += 1
                        d = x[2]
                        whole = counts(d, np) and all(len(h) == 1 and h[0] == ("one", mk("idx", (x[1],))) for f, h in x[3])
                        R.ob("prf:* selects every cited proof", whole, "%s: selects %s" % (w, show_seg(x, 4)[:300]))
                        R.ob("only prf:* selects all", isall == "=", "%s selects all proofs for a path not known to be *; path: %s" % (w, R.short(s2, 900)))
                    else:
                        R.ob("selection understood", False, "%s: selects %s" % (w, show_seg(x, 3)[:300]))
    R.ob("prf:*, prf:<n> and other capabilities examined", n_all >= 1 and n_idx >= 1 and n_none >= 1, "%s: %d/%d/%d" % (w, n_all, n_idx, n_none))


# ---- C43 ---------------------------------------------------------------------------------
STEPS = ("Ucan::validate", "TryFrom<CidGeneric>", "UcanJwtStore::require_token", "Ucan::parse", "ProofChain::from_ucan")


@rule("C43")
def c43(R):
    """each failing exit knows of a reason for which a chain may be refused"""
    C = Chain(R)
    fn = R.P.fn("from_ucan", "ProofChain")
    ucan, now, dp, store = S("ucan"), S("now"), S("did_parser"), S("store")
    w = R.where(fn)
    seen = set()
    for vn, st, v in R.results(R.run(fn, [ucan, now, dp, store], chain_cuts(R))):
        if vn != "Err":
            continue
        why = reason(R, C, st, ucan)
        seen.add(why)
        R.ob("a chain is refused only for a reason", why is not None, "%s fails although no step failed, no link is known to be broken and no capability is known to select a proof that is not cited; known here: %s" % (w, direct(st)))
    R.ob("every reason was met", seen >= {"step", "audience", "lifetime", "selection"}, "%s refuses only for %s" % (w, sorted(x or "?" for x in seen)))
    for c, it in producers(R, "ProofChain"):
        if it["name"] == "from_ucan" and c.self_name(it) == "ProofChain":
            continue
        f = c.fns[str(it["key"])]
        for vn, st, v in R.results(R.run(f, named_args(c, it), chain_cuts(R))):
            if vn == "Err":
                R.ob("%s: fails only with one of its steps" % it["name"], step_failed(st), "%s fails although no step failed; known here: %s" % (R.where(f), direct(st)))


def direct(st):
    return (" & ".join("%s is %s" % (show(t)[-200:], "/".join(sorted(c))) for t, c in st.var.items()) + " & " + " & ".join(show(x)[-160:] for x in st.rel))[:1200]


def step_failed(st):
    return any(t.k == "call" and t.a[0] in STEPS and c == frozenset(["Err"]) for t, c in st.var.items())


def reason(R, C, st, ucan):
    if step_failed(st):
        return "step"
    for t, c in list(st.var.items()):
        if t.k == "call" and t.a[0] == "ProofChain::from_ucan" and c == frozenset(["Ok"]):
            p = C.get(ok(t), "ucan")
            if "=" not in st.possible(R.pf(p, "aud"), R.pf(ucan, "iss")):
                return "audience"
            if both(begins(R, st, p, ucan), ends(R, st, p, ucan)) is False:
                return "lifetime"
    prf = R.pf(ucan, "prf")
    cited = proj_field(prf, "Some", "0")
    np = INT(0) if is_variant(st, prf, "None") else length(cited)
    for t in subterms(tuple(st.var)):
        if t.k == "call" and t.a[0] == "parse:usize" and is_variant(st, t, "Ok") and selects(R, st, ucan, t):
            if "<" not in st.possible(ok(t), np) and (np is INT(0) or is_variant(st, prf, "Some")):
                return "selection"
    return None


def selects(R, st, ucan, num):
    """num is the number in a claimed capability ucan/DELEGATE on prf:<n>"""
    path = num.a[1][0]
    if path.k != "call" or path.a[0] != "Url::path":
        return False
    url = payload_of(path.a[1][0])
    if url is None or url.k != "call" or url.a[0] != "Url::parse":
        return False
    c = url.a[1][0]
    if c.k != "fld" or c.a[2] != "resource":
        return False
    c = c.a[0]
    caps = call("Capabilities::iter", R.pf(ucan, "cap"))
    return any(s is caps for s in subterms(c)) and st.possible(call("Url::scheme", ok(url)), STR("prf")) == "=" and st.possible(proj_field(c, "", "ability"), STR("ucan/DELEGATE")) == "="

"""The whole public interface: C26 - C29, C33"""
import re
import models
import mir
import rules_key
from rule import *
from match import *
from engine import proj_index, Budget
from emit import emit, Unknown
from rules_token import rule, RULES
from rules_chain import Chain, chain_cuts, producers
from rules_cap import bodies_building, adt_paths
from rules_build import clock_only, same_opt, failed, copies


def entries(R):
    """every function a user can reach that has a body here"""
    for c in (R.P.ucan, R.P.ks):
        for it in c.items:
            if it["reach"] and str(it["key"]) in c.fns:
                yield c, it, c.fns[str(it["key"])]


def visitors(R):
    """the bodies through which serde drives decoding"""
    for c in (R.P.ucan, R.P.ks):
        for k, f in c.fns.items():
            if f["local"] and f["kind"] == "fn" and "::deserialize::__" in f["name"] and not f["name"].endswith("::expecting"):
                yield c, {"path": f["name"], "in": [f["locals"][i + 1]["t"] for i in range(f["argc"])]}, f


def drained(R, rets):
    """outcomes of running a lazily evaluated result to its end"""
    out = []
    for st, v in rets:
        if v.k == "it":
            R.last.stack.append(R.now)
            R.last.stack_args.append(())
            try:
                out.extend(models.collect(R.last, st, v, "vec"))
            finally:
                R.last.stack.pop()
                R.last.stack_args.pop()
    return out


def unconstrained(c, it):
    args = []
    st = St()
    for i, t in enumerate(it["in"]):
        if c.ts(t).startswith("&mut ") or re.match(r"&'\w+ mut ", c.ts(t)):
            k = ("x", i)
            st.cells[k] = S("arg%d" % i)
            args.append(mk("ref", k, ()))
        else:
            args.append(S("arg%d" % i))
    return st, args


def heavy(R):
    return chain_cuts(R) + [R.cut("CapabilityView::enables"), R.cut("Capabilities::iter")]


# ---- C26 ---------------------------------------------------------------------------------
def uncited(C, st):
    """the path needs a chain that redelegates a proof it does not have"""
    ps = C.f["proofs"]
    for (a, b), o in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if y.k == "len" and y.a[0].k == "fld" and y.a[0].a[2] == ps:
                el = elem_of(x)
                if el is not None and C.redelegations_of(el) is y.a[0].a[0] and "<" not in st.possible(x, y):
                    return True
    return False


def elem_of(x):
    """c when x is an element of collection c"""
    if x.k in ("at", "elem"):
        return x.a[0]
    return None


@rule("C26")
def c26(R):
    """every function of the two libraries a user can reach, run on unconstrained arguments; one obligation per function: no path ends in a panic"""
    C = Chain(R)
    n = 0
    for c, it, fn in list(entries(R)) + list(visitors(R)):
        st, args = unconstrained(c, it)
        w = R.where(fn)
        R.now = fn
        try:
            rs = R.run(fn, args, st=st.copy(), budget=30000)
        except Budget:
            cuts = heavy(R)
            rs = R.run(fn, args, cuts, st=st.copy())
        n += 1
        bad = []
        for s, v in R.panics + [(s, v) for k, s, v in drained(R, rs) if k == "panic"]:
            if clock_only(s) or uncited(C, s):
                continue
            bad.append((s, v))
        what = it["path"]
        R.ob("no panic: %s" % what, not bad, "%s may panic: %s" % (w, "; ".join("%s when %s" % (" in ".join(str(x) for x in v), R.short(s, 400)) for s, v in bad[:3])))
    R.ob("the public interface is examined", n >= 100, "only %d functions found" % n)
    showable(R)
    # what the second exemption rests on: chains only redelegate proofs they have
    ucan, now, dp, store = S("ucan"), S("now"), S("did_parser"), S("store")
    fn = R.P.fn("from_ucan", "ProofChain")
    rs = R.oks(R.run(fn, [ucan, now, dp, store], chain_cuts(R)))
    seen = set(x for x in R.last.seen_fns)
    for st, v in rs:
        np = length(C.get(v, "proofs"))
        for loops, s, x in emit(segs_of(C.get(v, "redelegations")), st.copy()):
            if x is None:
                continue
            good = x is not Unknown and not isinstance(x, tuple) and (s.possible(x, np) == "<" or any(counts(d, np) and x is ix for d, ix in loops))
            R.ob("a chain only redelegates proofs it has", good, "%s redelegates %s" % (R.where(fn), x if x is Unknown else kt(x)))
    for c, f in bodies_building(R.P, "ProofChain"):
        R.ob("chains are only made by from_ucan", (c.name, f["name"]) in seen or f["name"].split("::{closure")[0].endswith("ProofChain::from_ucan") or f["name"].endswith("ProofChain as std::clone::Clone>::clone"), "%s makes a chain of its own" % f["name"])


def showable(R):
    """what is displayed anywhere is turned into text by the standard library, which panics when a Display
    implementation reports an error: none does, for any value its type's constructors can make"""
    for c in (R.P.ucan, R.P.ks):
        for it in c.items:
            if it["name"] != "fmt" or not it.get("trait") or mir.head_name(it["trait"]) != "Display" or str(it["key"]) not in c.fns:
                continue
            disp = c.fns[str(it["key"])]
            w = R.where(disp)
            x = S("shown")
            fails = [st for st, t in rules_key.displayed(R, disp, x) if t is None]
            if not fails:
                R.ob("displaying it never fails: %s" % c.self_name(it), True, w)
                continue
            # then it rests on how values of the type are made
            ty = c.self_name(it)
            made = set()
            for c2, it2 in [p for c3 in (R.P.ucan, R.P.ks) for p in makers(c3, ty)]:
                fn = c2.fns[str(it2["key"])]
                text = re.match(r"&('\w+ )?str$|std::string::String$|String$", c2.ts(it2["in"][0])) if it2["in"] else None
                args = [S("arg%d" % i) for i in range(len(it2["in"]))]
                rs = R.oks(R.run(fn, args))
                made.update(R.last.seen_fns)
                for st, v in rs:
                    if v.k != "adt":
                        R.ob("what is made can be displayed: %s" % ty, False, "%s makes %s" % (R.where(fn), kt(v)))
                        continue
                    bad = []
                    for s2, t in rules_key.displayed(R, disp, v, st):
                        if t is None and text and any(cut_text(u, args[0]) for u, vs in s2.var.items() if vs == frozenset(["Err"])):
                            continue  # a part of a text is text
                        if t is None:
                            bad.append(s2)
                    R.ob("what is made can be displayed: %s" % ty, not bad, "%s makes a value whose display (%s) fails; path: %s" % (R.where(fn), w, R.short(bad[0], 400) if bad else ""))
            for c2, f in bodies_building(R.P, ty):
                root = f["name"].split("::{closure")[0]
                ok_ = (c2.name, f["name"]) in made or root.endswith("::clone")
                R.ob("values are only made where that is checked: %s" % ty, ok_, "%s makes a %s of its own" % (f["name"], ty))


def makers(c, ty):
    for it in c.items:
        if it["reach"] and str(it["key"]) in c.fns and it["name"] != "clone" and re.search(r"\b%s\b" % ty, c.ts(it["out"])) or it["name"] in ("from_str", "try_from", "deserialize", "from") and c.self_name(it) == ty and str(it["key"]) in c.fns:
            yield c, it


def cut_text(t, x):
    """from_utf8 of a part of the text x, cut off after some of its characters"""
    if t.k != "call" or t.a[0] != "from_utf8":
        return False
    p = t.a[1][0]
    return p.k == "strip" and p.a[0] is x and p.a[1].k == "str"


# ---- C27 ---------------------------------------------------------------------------------
SEALED = {"Ucan": "a token", "ProofChain": "a proof chain", "DidParser": "a parser", "MemoryStore": "a store", "Capabilities": "a capability set", "Caveat": "a caveat"}
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyCell|LazyLock|Mutex|RwLock|Atomic\w+)\b")
MUTOUT = re.compile(r"&('\w+ )?mut |\b(RefMut|MutexGuard|RwLockWriteGuard|IterMut|ValuesMut|OccupiedEntry|VacantEntry|Entry|Drain|Mutex|RwLock|RefCell|Cell)\b|\*mut ")


def mentions(t, ty):
    return re.search(r"\b%s\b" % ty, t) is not None


@rule("C27")
def c27(R):
    """inventory of fields and of public signatures of the sealed types, and effect analysis of every reachable function given exclusive access to one"""
    nf, ns = sealed(R, sorted(SEALED))
    R.ob("the sealed types and their interface are examined", nf >= 10 and ns >= 40, "%d fields, %d signatures" % (nf, ns))


def sealed(R, types):
    """nothing public changes a value of these types"""
    nf = ns = 0
    for ty in types:
        ps = [(c, p) for c in (R.P.ucan, R.P.ks) for p in c.adts if p.split("::")[-1] == ty and (c.name == "ucan" or p.startswith("ucan::"))]
        defs = [R.P.ucan.adts[p] for c, p in ps if c is R.P.ucan]
        if len(defs) != 1:
            raise Missing("type %s" % ty)
        for v in defs[0]["variants"]:
            for f in v["f"]:
                nf += 1
                R.ob("fields are private", not f["pub"], "field %s of %s is public: any program can replace %s's content" % (f["n"], ty, SEALED[ty]))
                t = R.P.ucan.ts(f["t"]) if isinstance(f.get("t"), int) else str(f.get("t"))
                if ty != "MemoryStore":
                    R.ob("no interior mutability", not CELLS.search(t), "field %s of %s has type %s, which can be changed through a shared reference" % (f["n"], ty, t))
    for c, it, fn in entries(R):
        ins = [c.ts(t) for t in it["in"]]
        out = c.ts(it["out"])
        for ty in types:
            shared = [i for i, t in enumerate(ins) if mentions(t, ty) and not_result(t)]
            if not shared:
                continue
            ns += 1
            m = MUTOUT.search(strip_async(out))
            R.ob("nothing mutable is handed out", not m, "%s hands out %s of %s" % (it["path"], out[:120], SEALED[ty]))
            for i in shared:
                if re.match(r"&('\w+ )?mut ", ins[i]) and re.match(r"&('\w+ )?mut ([\w:]*::)?%s\b" % ty, ins[i]):
                    effects(R, c, it, fn, ty, i)
                elif ty == "MemoryStore":
                    effects(R, c, it, fn, ty, i)
    return nf, ns


def not_result(t):
    return True


def strip_async(t):
    """the output without the lifetime-generic wrapper of async functions"""
    return t


def effects(R, c, it, fn, ty, i):
    """what a function given exclusive access may do to the value"""
    args, st = [], St()
    for j, t in enumerate(it["in"]):
        if j == i and re.match(r"&('\w+ )?mut ", c.ts(t)):
            st.cells[("x", j)] = S("sealed")
            args.append(mk("ref", ("x", j), ()))
        else:
            args.append(S("sealed") if j == i else S("arg%d" % j))
    cuts = heavy(R)
    if ty == "DidParser":
        p = R.cut("DidParser::parse")
        if p[0] is fn:
            # parse files what it resolved (C17 states what that is)
            return
        cuts.append(p)
    if ty == "MemoryStore" and it["name"] == "write" and (it.get("trait") or "").split("<")[0].endswith("UcanStore"):
        # C25 states what writing does
        return
    if it["name"] in ("clone_from",) or (it.get("trait") or "").endswith("Drop"):
        return
    rs = R.run(fn, args, cuts, st=st.copy())
    for s, v in rs + R.panics:
        x = s.cells.get(("x", i), S("sealed"))
        R.ob("exclusive access changes nothing", unchanged(x), "%s leaves %s as %s" % (R.where(fn), SEALED[ty], kt(x)))
        for what in writes(s.ev):
            R.ob("no write behind a lock or reference", False, "%s changes %s: %s" % (R.where(fn), SEALED[ty], what))
        R.ob("no write behind a lock or reference", not list(writes(s.ev)), R.where(fn))


READS = ("reserve", "shrink_to_fit", "capacity", "get", "contains_key", "iter", "len", "is_empty", "keys", "values", "clone", "fmt", "eq", "first_key_value", "last_key_value", "range", "lock", "read", "deref", "as_ref", "borrow", "get_key_value", "drop")


def writes(ev):
    """effects other than reading, in a sequence of events (of loops, too)"""
    for e in ev:
        if not isinstance(e, tuple) or not e:
            continue
        if e[0] in ("minsert", "mremove", "mclear", "extwrite"):
            yield e[0]
        elif e[0] == "call" and isinstance(e[1], str):
            if e[1].split("::")[-1] not in READS and any(locked(a) for a in e[2][:1]):
                yield e[1]
        elif isinstance(e[0], (str, tuple)):
            for w in writes([x for x in e if isinstance(x, tuple)]):
                yield w


def locked(t):
    """t is what a lock protects (or a field of it)"""
    while t.k in ("fld", "with", "after") or t.k == "coll" and t.a[1] and t.a[1][0][0] == "all":
        t = t.a[2] if t.k == "after" else t.a[1][0][1] if t.k == "coll" else t.a[0]
    return t.k == "guard" or t.k == "call" and t.a[0] in ("Mutex::lock", "RwLock::write", "RwLock::read", "Mutex::get_mut")


def unchanged(x):
    """the value itself, or what a call to an examined function left of it"""
    while x.k == "after" and x.a[0].k == "call" and x.a[0].a[0] in ("DidParser::parse", "ProofChain::from_ucan", "Ucan::validate", "UcanJwtStore::require_token", "KeyMaterial::verify"):
        x = x.a[2]
    return x is S("sealed")


# ---- C28 ---------------------------------------------------------------------------------
UCAN_ACC = {"algorithm": ("header", "alg"), "issuer": ("payload", "iss"), "audience": ("payload", "aud"), "proofs": ("payload", "prf"), "expires_at": ("payload", "exp"),
            "not_before": ("payload", "nbf"), "nonce": ("payload", "nnc"), "capabilities": ("payload", "cap"), "attenuation": ("payload", "cap"), "facts": ("payload", "fct"),
            "version": ("payload", "ucv"), "signed_data": ("signed_data", None), "signature": ("signature", None)}


@rule("C28")
def c28(R):
    """each accessor's single result is the named part, on every exit"""
    def one(fn, args, want, what):
        rs = R.run(fn, args)
        w = R.where(fn)
        R.ob("%s: does not panic" % what, not R.panics, "%s may panic" % w)
        R.ob("%s: some result" % what, len(rs) >= 1, "%s yields nothing" % w)
        for st, v in rs:
            R.ob("%s: the part it is named after" % what, v is want or same_opt(st, v, want) or st.possible(v, want) == "=", "%s yields %s; path: %s" % (w, kt(v), R.short(st, 200)))
    u = S("token")
    for m, (part, f) in sorted(UCAN_ACC.items()):
        x = R.uf(u, part)
        one(R.P.fn(m, "Ucan"), [u], proj_field(x, "", f) if f else x, "Ucan::%s" % m)
    # chains: the accessor yields what from_ucan put there
    C = Chain(R)
    fn = R.P.fn("from_ucan", "ProofChain")
    rs = R.oks(R.run(fn, [S("ucan"), S("now"), S("did_parser"), S("store")], chain_cuts(R)))
    for st, v in rs:
        R.ob("ProofChain::ucan: the chain's token", C.get(v, "ucan") is S("ucan"), "%s stores %s as the token" % (R.where(fn), kt(C.get(v, "ucan"))))
    c = S("chain")
    one(R.P.fn("ucan", "ProofChain"), [c], C.get(c, "ucan"), "ProofChain::ucan")
    one(R.P.fn("proofs", "ProofChain"), [c], C.get(c, "proofs"), "ProofChain::proofs")
    # capability views
    r, a, cv = S("resource"), S("ability"), S("caveat")
    f1, f2 = R.P.fn("new", "CapabilityView"), R.P.fn("new_with_caveat", "CapabilityView")
    for fn, args in ((f1, [r, a]), (f2, [r, a, cv])):
        for st, v in R.run(fn, args):
            for n, x in (("resource", r), ("ability", a)):
                one(R.P.fn(n, "CapabilityView"), [v], x, "CapabilityView::%s" % n)
            if len(args) == 3:
                one(R.P.fn("caveat", "CapabilityView"), [v], cv, "CapabilityView::caveat")
            else:
                for s2, y in R.run(R.P.fn("caveat", "CapabilityView"), [v]):
                    R.ob("CapabilityView::new: no caveat", empty_caveat(y), "%s starts out with the caveat %s" % (R.where(fn), kt(y)))
    x = S("view")
    for n in ("resource", "ability", "caveat"):
        rs = R.run(R.P.fn(n, "CapabilityView"), [x])
        R.ob("CapabilityView::%s: unmodified" % n, len(rs) == 1 and rs[0][1].k == "fld" and rs[0][1].a[0] is x, "%s yields %s" % (n, kt(rs[0][1]) if rs else "nothing"))
    # capability triples
    t = S("capability")
    fn = R.P.fn("new", "Capability")
    for st, v in R.run(fn, [S("r"), S("a"), S("c")]):
        for n, want in (("resource", S("r")), ("ability", S("a")), ("caveat", S("c"))):
            R.ob("Capability::new: %s" % n, proj_field(v, "", n) is want, "%s stores %s as the %s" % (R.where(fn), kt(proj_field(v, "", n)), n))
    copies(R, ["Ucan", "UcanHeader", "UcanPayload", "Capability", "Capabilities", "CapabilityView", "Resource", "ResourceUri", "Caveat", "ProofChain"])


def empty_caveat(y):
    if y.k == "adt" and len(y.a[3]) == 1:
        y = y.a[3][0]
    return y.k == "coll" and not y.a[1] or y.k == "const" and "default" in str(y.a[0])


# ---- C29 ---------------------------------------------------------------------------------
KEYS = {"UcanHeader": {"alg": True, "typ": True},
        "UcanPayload": {"ucv": True, "iss": True, "aud": True, "exp": True, "nbf": False, "nnc": False, "cap": True, "fct": False, "prf": False}}
UNORDERED = re.compile(r"\b(HashSet|BinaryHeap|IndexSet|LinkedHashMap)\b")


def written(st):
    """[(key, value)] in the order in which a struct's fields were handed to the serializer"""
    return [(e[2][1], e[2][2]) for e in st.ev if e[0] == "call" and e[1] in ("SerializeStruct::serialize_field", "SerializeMap::serialize_entry")]


@rule("C29")
def c29(R):
    """exits of the serializers of header and payload; inventory of the types they contain"""
    x = S("value")
    for ty, keys in sorted(KEYS.items()):
        fn = R.P.fn("serialize", ty, "Serialize")
        w = R.where(fn)
        n = 0
        for vn, st, v in R.results(R.run(fn, [x, S("serializer")])):
            if vn == "Err":
                R.ob("%s: encoding fails only if the encoder fails" % ty, failed(st), "%s fails; path: %s" % (w, R.short(st)))
                continue
            n += 1
            R.ob("%s: a failing step is not ignored" % ty, not failed(st), "%s succeeds although a step failed; path: %s" % (w, R.short(st)))
            got = {}
            for k, val in written(st):
                k = k.a[0] if k.k == "str" else kt(k)
                R.ob("%s: each key once" % ty, k not in got, "%s writes %s twice" % (w, k))
                got[k] = val
            for k in got:
                R.ob("%s: only the specified keys" % ty, k in keys, "%s writes the key %s" % (w, k))
            for k, always in sorted(keys.items()):
                f = proj_field(x, "", k)
                if k in got:
                    R.ob("%s: %s holds the field of that name" % (ty, k), got[k] is f, "%s writes %s under %s" % (w, kt(got[k]), k))
                    if not always:
                        R.ob("%s: %s is written only if present" % (ty, k), is_variant(st, f, "Some"), "%s writes %s although it may be absent; path: %s" % (w, k, R.short(st)))
                else:
                    R.ob("%s: %s is left out only if absent" % (ty, k), not always and is_variant(st, f, "None"), "%s leaves out %s; path: %s" % (w, k, R.short(st)))
        R.ob("%s: can be encoded" % ty, n >= 1, w)
        # what it contains
        seen = set()
        for path, t in contained(R, ty, seen):
            R.ob("no container whose order is arbitrary", not UNORDERED.search(t), "%s has type %s, whose elements come out in arbitrary order" % (path, t))
    # capabilities are encoded as the nested map they are
    fn = R.P.fn("serialize", "Capabilities", "Serialize")
    fs = R.P.ucan.adts[adt_paths1(R, "Capabilities")]["variants"][0]["f"]
    for st, v in R.run(fn, [x, S("serializer")]):
        inner = [proj_field(x, "", f["n"]) for f in fs]
        good = v.k == "call" and v.a[0] in ("Serializer::serialize_newtype_struct", "Serialize::serialize", "Serializer::collect_map") and any(a in inner for a in v.a[1])
        R.ob("a capability set is encoded as its own map", good, "%s yields %s" % (R.where(fn), kt(v)))
    # the encoder they go through (that tokens are made with it: C20, C22)
    from rules_build import encoder
    encoder(R)


def adt_paths1(R, ty):
    ps = [p for p in R.P.ucan.adts if p.split("::")[-1] == ty]
    if len(ps) != 1:
        raise Missing("type " + ty)
    return ps[0]


def contained(R, ty, seen):
    """(path, type) of every field of ty and of the library types in it"""
    if ty in seen:
        return []
    seen.add(ty)
    out = []
    for p in [p for p in R.P.ucan.adts if p.split("::")[-1] == ty]:
        for v in R.P.ucan.adts[p]["variants"]:
            for f in v["f"]:
                t = R.P.ucan.ts(f["t"]) if isinstance(f.get("t"), int) else str(f.get("t"))
                out.append(("%s::%s" % (ty, f["n"]), t))
                for q in R.P.ucan.adts:
                    b = q.split("::")[-1]
                    if re.search(r"\b%s\b" % re.escape(b), t) and q in t:
                        out.extend(contained(R, b, seen))
    return out


# ---- C36 ---------------------------------------------------------------------------------
def equalities(R):
    """every comparison of two values of one type that this code defines"""
    for c in R.P.crates.values():
        for it in c.items:
            if it["name"] in ("eq", "ne") and it.get("trait") and mir.head_name(it["trait"]) == "PartialEq" and str(it["key"]) in c.fns:
                fn = c.fns[str(it["key"])]
                ts = [pointee(c, fn["locals"][i + 1]["t"]) for i in range(2)]
                if ts[0] == ts[1]:
                    yield c, it, fn, ts[0]


def pointee(c, t):
    while c.types[t]["k"] == "ref":
        t = c.types[t]["e"]
    return t


def variants(c, t):
    """{variant: [(field, type)]} of a type whose parts are compared one by one, or nothing"""
    y = c.types[t]
    if y["k"] != "adt":
        return None
    if y["p"] == "std::option::Option":
        return {"None": [], "Some": [("0", y["a"][0])]}
    d = c.adts.get(y["p"])
    if d is None or not d["local"]:
        return None
    if d["kind"] == "enum":
        return {v["n"]: [(f["n"], f["t"]) for f in v["f"]] for v in d["variants"]}
    return {"": [(f["n"], f["t"]) for f in d["variants"][0]["f"]]}


def same(c, st, x, y, t):
    """whether two values of type t are known to be equal (True) or different (False) in some part"""
    if x is y:
        return True
    p = st.possible(x, y)
    if p == "=":
        return True
    if "=" not in p or "=" not in st.possible(length(x), length(y)):
        return False
    if "PhantomData" in c.ts(t):
        return True
    vs = variants(c, t)
    if vs is None:
        return None
    if "" not in vs:
        can = [[v for v in vs if z.k != "adt" and (z not in st.var or v in st.var[z]) or z.k == "adt" and z.a[1] == v] for z in (x, y)]
        if not set(can[0]) & set(can[1]):
            return False
        if len(can[0]) != 1 or can[0] != can[1]:
            return True if len(vs) == 1 and not list(vs.values())[0] else None
        v = can[0][0]
    else:
        v = ""
    got = [same(c, st, proj_field(x, v, n), proj_field(y, v, n), ft) for n, ft in vs[v]]
    return False if False in got else None if None in got else True


@rule("C36")
def c36(R):
    """exits of every comparison the crates define for their own types, against all parts of both values"""
    for c, it, fn, t in equalities(R):
        me = c.self_name(it)
        w = R.where(fn)
        a, b = S("one"), S("other")
        rs = R.run(fn, [a, b])
        R.ob("%s: comparing does not panic" % me, not R.panics, "%s may panic" % w)
        R.ob("%s: comparing answers" % me, rs, w)
        for st, v in rs:
            for want in (True, False):
                s2 = st.copy()
                if not s2.assume_bool(v, want):
                    continue
                eq = want == (it["name"] == "eq")
                got = same(c, s2, a, b, t)
                R.ob("%s: equal only if every part is" % me if eq else "%s: different only if some part is" % me, got is eq,
                     "%s answers %s although %s; path: %s" % (w, want, "not every part is known to be equal" if eq else "no part is known to differ", R.short(s2)))
    R.ob("tokens, capabilities and what grants them can be compared", {"Ucan", "UcanHeader", "UcanPayload", "Capabilities", "Capability", "CapabilityView", "CapabilityInfo", "Resource"} <= {c.self_name(it) for c, it, _, _ in equalities(R)}, "a comparison of tokens or capabilities is missing")


# ---- C37 ---------------------------------------------------------------------------
from engine import SHARED


def no_late_effects(R):
    """what happens when a value is dropped reaches nothing that outlives it"""
    for c, it in R.P.items("drop", None, "Drop"):
        n = c.self_name(it)
        d = [v for k, v in c.adts.items() if k.split("::")[-1] == n]
        held = [c.ts(f["t"]) for a in d for v in a["variants"] for f in v["f"]] if d else ["*mut ?"]
        R.ob("dropping a value changes nothing that outlives it", not any(SHARED.search(t) for t in held), "%s runs when a %s is dropped, and it holds %s" % (it["path"], n, held))


@rule("C37")
def c37(R):
    """every Clone impl the crates define, derived or written, on one symbolic value"""
    got = copies(R)
    no_late_effects(R)
    want = {"Ucan", "UcanHeader", "UcanPayload", "Capability", "Capabilities", "CapabilityView", "Resource", "ResourceUri", "Caveat", "Principle", "UcanBuilder", "MemoryStore", "Ed25519KeyMaterial", "P256KeyMaterial", "RsaKeyMaterial"}
    R.ob("tokens, capabilities, keys and stores can be copied", want <= got, "no Clone found for %s" % sorted(want - got))

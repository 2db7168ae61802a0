"""What the functions outside the dump do to values (standard library and a few
external crates).  Anything without an entry is an uninterpreted call."""
import re
from terms import *
from engine import *
import engine
import mir
from iters import *

M = {}
ERR = SYM("error")


def model(*names):
    def f(fn):
        for n in names:
            M[n] = fn
        return fn
    return f


def ret(st, v):
    return [("ret", st, v)]


def ident(eng, st, a, cx):
    return ret(st, a[0])


def D(eng, st, x):
    return eng.deref(st, x)


def selfhead(cx):
    s = cx.selfty()
    return mir.head_name(s) if s else ""


def is_local_body(eng, cx):
    k = cx.callee.get("key")
    if k is None:
        return False
    fn = cx.c.fns.get(str(k))
    return bool(fn and fn["local"])


SEQ = {"String", "str", "Vec", "Box", "Arc", "Rc", "Cow", "Pin", "slice", "PathBuf", "OsString", "VecDeque", "SmallVec", "Bytes"}
SETS = {"BTreeSet", "HashSet"}
MAPS = {"BTreeMap", "HashMap", "Map", "IndexMap"}


def headt(s):
    if s is None:
        return ""
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    if s.startswith("["):
        return "slice"
    return mir.head_name(s)


def strip_ref(s):
    s = (s or "").strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    return s


def generic_args(s):
    """top-level type arguments of a printed type"""
    s = strip_ref(s)
    i = s.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, []
    for j in range(i, len(s)):
        ch = s[j]
        if ch in "<([":
            d += 1
            if d == 1:
                continue
        elif ch in ">)]" and not (ch == ">" and s[j - 1] == "-"):
            d -= 1
            if d == 0:
                break
        if ch == "," and d == 1:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(ch)
    if cur:
        out.append("".join(cur).strip())
    return [x for x in out if x and not x.startswith("'")]


# ---- identity-like ---------------------------------------------------------------
for n in ("Clone::clone", "ToOwned::to_owned", "Box::new", "Box::pin", "Arc::new", "Rc::new", "Pin::new_unchecked", "Pin::new",
          "IntoFuture::into_future", "hint::must_use", "__private::must_use", "String::as_str", "String::as_bytes", "str::as_bytes",
          "Vec::as_slice", "slice::as_slice", "slice::to_vec", "slice::into_vec", "str::as_str", "str::to_string", "str::to_owned", "str::bytes", "String::into_bytes", "String::into_boxed_str",
          "Vec::into_boxed_slice", "Box::into_pin", "Pin::as_mut", "Pin::get_mut", "Pin::into_inner", "Option::as_ref", "Option::as_deref", "Option::cloned",
          "Option::copied", "Result::as_ref", "Result::as_deref", "Iterator::cloned", "Iterator::copied", "Iterator::by_ref_", "Iterator::fuse",
          "Arc::clone", "Rc::clone", "Arc::as_ref", "Cow::into_owned", "Cow::from", "convert::identity", "Result::cloned", "Result::copied",
          "Box::into_inner", "Pin::as_ref", "str::into_string", "Box::leak", "ManuallyDrop::new", "Vec::into_iter_", "slice::as_ref", "str::as_ref",
          "Arc::make_mut", "Arc::from", "Rc::from", "Pin::new_unchecked", "Box::from", "hint::black_box", "Iterator::inspect"):
    M[n] = ident


def local_item(eng, cx):
    k = cx.callee.get("key")
    if k is None or str(k) not in cx.c.fns or not cx.c.fns[str(k)]["local"]:
        return None
    for it in cx.c.items:
        if str(it.get("key")) == str(k):
            return it
    return None


def eta(v):
    """a struct rebuilt from all of x's own fields is x"""
    if v.k == "adt" and v.a[2]:
        bs = set()
        for n, x in zip(v.a[2], v.a[3]):
            if x.k != "fld" or x.a[2] != n or x.a[1] != v.a[1]:
                return v
            bs.add(x.a[0])
        if len(bs) == 1:
            return bs.pop()
    return v


@model("Clone::clone")
def m_clone(eng, st, a, cx):
    it = local_item(eng, cx)
    if it is not None and not it.get("derived"):
        outs = eng.run_fn(st, cx.c.fns[str(cx.callee["key"])], [D(eng, st, x) for x in a])
        return [(k, s, eta(v) if k == "ret" else v) for k, s, v in outs]
    return ret(st, D(eng, st, a[0]) if a[0].k == "ref" else a[0])


@model("ToOwned::to_owned", "slice::to_vec", "Option::cloned", "Option::copied")
def m_owned(eng, st, a, cx):
    return ret(st, D(eng, st, a[0]))


@model("Vec::into_boxed_slice", "str::to_string")
def m_id(eng, st, a, cx):
    return ret(st, a[0])


@model("Borrow::borrow", "AsRef::as_ref", "Deref::deref", "BorrowMut::borrow_mut", "AsMut::as_mut", "DerefMut::deref_mut", "Vec::as_mut_slice", "slice::as_mut_slice")
def m_deref(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    h = headt(cx.selfty())
    meth = cx.name.split("::")[1]
    if meth in ("deref_mut", "as_mut", "borrow_mut", "as_mut_slice"):
        return ret(st, a[0])
    v = D(eng, st, a[0])
    if h in SEQ or h in ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "Ref") or meth != "as_ref" or len(h) == 1:
        return ret(st, v)
    return ret(st, call("as_ref", v))


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def m_from(eng, st, a, cx):
    meth = cx.name.split("::")[1]
    if "key" in cx.callee and str(cx.callee["key"]) in cx.c.fns:
        fn = cx.c.fns[str(cx.callee["key"])]
        if fn["local"] or meth in ("into", "try_into"):
            return None
    src, dst = (cx.selfty(), cx.targ(1)) if meth in ("into", "try_into") else (cx.selfty(), cx.targ(1))
    if meth in ("into", "try_into"):
        dst, src = cx.targ(1), cx.selfty()
    else:
        dst, src = cx.selfty(), cx.targ(1)
    hd, hs = headt(dst), headt(src)
    v = a[0]
    tr = meth.startswith("try_")
    if hd == "Error" or "dyn" in (dst or "") and "Error" in (dst or ""):
        return ret(st, Ok(ERR) if tr else ERR)
    if strip_ref(dst) == strip_ref(src) and not tr:
        return ret(st, v)
    if not tr:
        if hd in SEQ and (hs in SEQ or hs == "slice"):
            return ret(st, v)
        if hd in INTS and (hs in INTS):
            return ret(st, v)
        if hd in INTS and hs == "bool":
            return ret(st, call("bool_as_int", v))
        if hd == "Option":
            return ret(st, Some(v))
        if hd in MAPS and hs in MAPS:
            return ret(st, v)
        if hd in SETS | MAPS | {"Vec", "VecDeque"}:
            it = to_iter(eng, st, v, src)
            return collect(eng, st, it, "map" if hd in MAPS else "set" if hd in SETS else "vec")
        if hd in ("Mutex", "RwLock", "RefCell", "Cell", "Arc", "Rc", "Box"):
            return ret(st, v)
        if hs == "slice" and hd in ("Argument",):
            return ret(st, v)
        if dst and dst.startswith("[") and len(strip_ref(src)):
            return ret(st, call("From<array>", v))
        if hd == "Value" and hs in ("String", "str", "bool", "Map"):
            vn = {"String": "String", "str": "String", "bool": "Bool", "Map": "Object"}[hs]
            return ret(st, adt("Value", vn, ("0",), (v,)))
        return ret(st, call("From<%s>" % (hd or dst), v))
    if hd in INTS and hs in INTS:
        if v.k == "int":
            return ret(st, Ok(v))
        if WIDTH.get(hd, 0) >= WIDTH.get(hs, 99) and hd[0] == hs[0]:
            return ret(st, Ok(v))
        from engine import INTRANGE
        c = rel(v, "<=", INT(INTRANGE[hd][1]))
        if hs[0] == "u":
            return [("ret", s, Ok(v) if t else Err(ERR)) for t, s in split_bool(eng, st, c)]
        t = call("int_try_from:" + hd, v)
        return [("ret", s, Ok(v) if k == "Ok" else Err(ERR)) for k, s in split_var(eng, st, t, "Result")]
    n = re.match(r"^&?(?:'\w+ )?(?:mut )?\[.*; (\d+)\]$", dst or "")
    if n and hs in ("slice", "Vec", "Box"):
        return [("ret", s, Ok(v) if t else Err(v)) for t, s in split_bool(eng, st, rel(length(D(eng, st, v)), "=", INT(int(n.group(1)))))]
    return ret(st, call("TryFrom<%s>" % hd, v))


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


@model("Default::default")
def m_default(eng, st, a, cx):
    if "key" in cx.callee and str(cx.callee["key"]) in cx.c.fns and cx.c.fns[str(cx.callee["key"])]["local"]:
        return None
    v = default_of(cx.retty() or cx.selfty())
    return ret(st, v)


def default_of(t):
    h = headt(t)
    if h in INTS:
        return INT(0)
    if h in ("String", "str"):
        return STR("")
    if h == "bool":
        return FALSE
    if h == "Option":
        return NONE
    if h in ("Vec", "slice"):
        return mk("coll", "vec", ())
    if h in SETS:
        return mk("coll", "set", ())
    if h in MAPS:
        return mk("coll", "map", ())
    if h in ("Arc", "Box", "Mutex", "Rc", "RwLock"):
        g = generic_args(t)
        return default_of(g[0]) if g else mk("const", t or "?")
    return mk("const", "default " + (t or "?"))


@model("__private::not", "Not::not")
def m_not(eng, st, a, cx):
    v = D(eng, st, a[0])
    if cx.name == "Not::not" and headt(cx.selfty()) != "bool":
        return None
    return [("ret", s, BOOL(not t)) for t, s in split_bool(eng, st, v)]


@model("Range::contains", "RangeInclusive::contains", "RangeBounds::contains")
def m_rangecontains(eng, st, a, cx):
    r, x = D(eng, st, a[0]), D(eng, st, a[1])
    if r.k != "adt" or r.a[0] not in ("Range", "RangeInclusive") or headt(generic_args(cx.selfty())[0]) not in INTS:
        return None
    out = []
    for t, s in split_bool(eng, st, rel(r.a[3][0], "<=", x)):
        if not t:
            out.append(("ret", s, FALSE))
        else:
            out.extend(("ret", s2, BOOL(t2)) for t2, s2 in split_bool(eng, s, rel(x, "<" if r.a[0] == "Range" else "<=", r.a[3][1])))
    return out


@model("iter::once", "iter::empty")
def m_once(eng, st, a, cx):
    return ret(st, lst(a))


# ---- errors, logging ------------------------------------------------------------
@model("__private::format_err", "Error::msg", "Trait::new", "TraitKind::anyhow_kind", "Error::context", "Error::new", "Adhoc::new", "AdhocKind::anyhow_kind",
       "BoxedKind::anyhow_kind", "Boxed::new")
def m_err(eng, st, a, cx):
    return ret(st, ERR)


@model("Context::context", "Context::with_context")
def m_context(eng, st, a, cx):
    out = []
    h = headt(cx.selfty())
    name = "Option" if h == "Option" else "Result"
    for v, s in split_var(eng, st, a[0], name):
        out.append(("ret", s, Ok(proj_field(a[0], v, "0")) if v in ("Some", "Ok") else Err(ERR)))
    return out


@model("__private_api::log", "__private_api::loc", "io::_print", "io::_eprint", "__private_api::enabled")
def m_log(eng, st, a, cx):
    return ret(st, UNIT)


@model("log::max_level")
def m_maxlevel(eng, st, a, cx):
    return ret(st, SYM("max_level"))


# ---- comparisons --------------------------------------------------------------------
OPN = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=", "ne": "<>"}


def compare_eq(eng, st, a, b):
    """[(truth or boolean term, state)]"""
    if a is b:
        return [(TRUE, st)]
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1]:
            return [(FALSE, st)]
        return conj_eq(eng, st, list(zip(a.a[3], b.a[3])))
    if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
        return conj_eq(eng, st, list(zip(a.a[0], b.a[0])))
    if a.k == "arr" and b.k == "arr":
        return conj_eq(eng, st, list(zip(a.a[0], b.a[0]))) if len(a.a[0]) == len(b.a[0]) else [(FALSE, st)]
    x, y = (a, b) if a.k == "adt" else (b, a)
    if x.k == "adt" and x.a[1] in ("Some", "None", "Ok", "Err") and y.k not in ("coll",):
        out = []
        for v, s in split_var(eng, st, y, x.a[0]):
            if v != x.a[1]:
                out.append((FALSE, s))
            elif not x.a[3]:
                out.append((TRUE, s))
            else:
                out.extend(compare_eq(eng, s, x.a[3][0], proj_field(y, v, "0")))
        return out
    if x.k == "adt" and x.a[0] in eng.adtidx and not x.a[3] and eng.adtidx[x.a[0]]["kind"] == "enum":
        return [(eng.isv(y, x.a[0], x.a[1]), st)]
    for p, q in ((a, b), (b, a)):
        if p.k == "coll" and q.k in ("coll", "arr") and all(s[0] == "one" for s in segs_of(p)) and all(s[0] == "one" for s in segs_of(q)):
            if len(segs_of(p)) != len(segs_of(q)):
                return [(FALSE, st)]
            return conj_eq(eng, st, [(s[1], t[1]) for s, t in zip(segs_of(p), segs_of(q))])
        if p.k in ("coll", "arr") and not segs_of(p) and q.k not in ("coll", "arr"):
            return [(rel(length(q), "=", INT(0)), st)]
    if a.k == "str" and a.a[0] == "":
        return [(rel(length(b), "=", INT(0)), st)]
    if b.k == "str" and b.a[0] == "":
        return [(rel(length(a), "=", INT(0)), st)]
    return [(rel(a, "=", b), st)]


def conj_eq(eng, st, pairs):
    work = [(st, 0)]
    out = []
    pairs = [p for p in pairs if p[0] is not p[1]]
    while work:
        s, i = work.pop()
        if i == len(pairs):
            out.append((TRUE, s))
            continue
        for t, s2 in compare_eq(eng, s, *pairs[i]):
            if i == len(pairs) - 1:
                out.append((t, s2))
                continue
            for b, s3 in split_bool(eng, s2, t):
                if b:
                    work.append((s3, i + 1))
                else:
                    out.append((FALSE, s3))
    return out


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    ne = cx.name.endswith("ne")
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    fn = find_impl(eng, headt(cx.selfty()), "eq", "PartialEq")
    if fn is not None and x is not y:
        return [("ret", s, NOT(v)) if k == "ret" and ne else (k, s, v) for k, s, v in eng.run_fn(st, fn, [x, y])]
    return [("ret", s, NOT(t) if ne else t) for t, s in compare_eq(eng, st, x, y)]


def compare3(eng, st, x, y, ty):
    """[(ordering char or None, term pair, state)]"""
    if (x.k == "adt" and x.a[0] == "Option") or (y.k == "adt" and y.a[0] == "Option") or headt(ty) == "Option":
        out = []
        for p, s in split_opt(eng, st, x):
            for q, s2 in split_opt(eng, s, y):
                if p is None or q is None:
                    o = "=" if p is None and q is None else "<" if p is None else ">"
                    out.append((o, None, s2))
                else:
                    out.append((None, (p, q), s2))
        return out
    if x.k == "tup" and y.k == "tup" and len(x.a[0]) == len(y.a[0]) and 1 <= len(x.a[0]) <= 4:
        # field by field, the first that differs decides
        p, q = D(eng, st, x.a[0][0]), D(eng, st, y.a[0][0])
        if len(x.a[0]) == 1:
            return compare3(eng, st, p, q, "")
        out = []
        for o, pq, s in compare3(eng, st, p, q, ""):
            for c in "<=>":
                s2 = s.copy()
                if (o != c) if pq is None else not s2.assume_rel(pq[0], pq[1], c):
                    continue
                out += compare3(eng, s2, mk("tup", x.a[0][1:]), mk("tup", y.a[0][1:]), "") if c == "=" else [(c, None, s2)]
        return out
    if x.k == "int" and y.k == "int":
        return [("<" if x.a[0] < y.a[0] else ">" if x.a[0] > y.a[0] else "=", None, st)]
    return [(None, (x, y), st)]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    ty = cx.selfty() or ""
    if "log::Level" in ty:
        return ret(st, FALSE)
    ops = normops(OPN[cx.name.split("::")[1]])
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if "key" in cx.callee and str(cx.callee["key"]) in cx.c.fns and x.k not in ("adt",) and headt(ty) not in ("Option",):
        pass
    out = []
    for o, pq, s in compare3(eng, st, x, y, ty):
        out.append(("ret", s, BOOL(o in ops) if pq is None else rel(pq[0], ops, pq[1])))
    return out


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    part = cx.name.endswith("partial_cmp")
    out = []
    for o, pq, s in compare3(eng, st, x, y, cx.selfty()):
        for c, n in (("<", "Less"), ("=", "Equal"), (">", "Greater")):
            s2 = s.copy()
            if pq is None:
                if o != c:
                    continue
            elif not s2.assume_rel(pq[0], pq[1], c):
                continue
            v = adt("Ordering", n, (), ())
            out.append(("ret", s2, Some(v) if part else v))
    return out


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def m_maxmin(eng, st, a, cx):
    mx = cx.name.endswith("max")
    out = []
    for o, pq, s in compare3(eng, st, a[0], a[1], cx.selfty() or cx.targ(0)):
        if pq is None:
            first = (o == ">") == mx and o != "="
            out.append(("ret", s, a[0] if first else a[1]))
            continue
        for b, s2 in split_bool(eng, s, rel(pq[0], ">" if mx else "<=", pq[1])):
            out.append(("ret", s2, a[0] if b else a[1]))
    return out


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(eng, st, a, cx):
    v = D(eng, st, a[0])
    t = cx.targ_id(0)
    d = eng.discr(cx.c, v, t)
    if cx.name.startswith("mem") and d.k == "discr" and d.a[1] != "?":
        q = eng.adtdef(d.a[1])
        n = eng.variant_d(st, d.a[0], q)
        d = INT([int(x["d"]) for x in q["variants"] if x["n"] == n][0])
    return ret(st, d)


# ---- futures -------------------------------------------------------------------------
@model("future::get_context", "Context::from_waker")
def m_getctx(eng, st, a, cx):
    return ret(st, SYM("cx"))


@model("Future::poll")
def m_poll(eng, st, a, cx):
    r = a[0]
    f = D(eng, st, r)
    if f.k == "cor":
        c = eng.crates[f.a[0]]
        fn = c.fns.get(f.a[1])
        if fn is None:
            raise Unsupported("coroutine body missing")
        outs = eng.run_fn(st, fn, [f, SYM("cx")])
        return [("ret", s, adt("Poll", "Ready", ("0",), (v,))) if k == "ret" else (k, s, v) for k, s, v in outs]
    if f.k == "ready":
        return ret(st, adt("Poll", "Ready", ("0",), (f.a[0],)))
    return ret(st, adt("Poll", "Ready", ("0",), (f,)))


@model("future::ready")
def m_ready(eng, st, a, cx):
    return ret(st, mk("ready", a[0]))


# ---- text -----------------------------------------------------------------------------
def text_of(eng, st, v, ty):
    """[(state, text term)] of Display of v"""
    h = headt(ty)
    v = D(eng, st, v)
    if h in ("String", "str", "Cow", "Arguments"):
        return [(st, v)]
    if v.k in ("str", "cat"):
        return [(st, v)]
    if v.k == "char":
        return [(st, STR(v.a[0]))]
    if v.k == "int":
        return [(st, STR(str(v.a[0])))]
    if v.k == "adt":
        fn = find_impl(eng, h or v.a[0], "fmt", "Display")
        if fn is not None:
            cell = eng.temp(st, mk("fmtbuf", STR("")))
            out = []
            for k, s, r in eng.run_fn(st, fn, [v, mk("ref", cell, ())]):
                if k == "ret":
                    out.append((s, s.cells[cell].a[0]))
            return out
    return [(st, disp(v))]


def find_impl(eng, tyhead, meth, trait):
    for c in eng.crates.values():
        for it in c.items:
            if it["name"] == meth and it.get("trait") and mir.head_name(it["trait"]) == trait and c.self_name(it) == tyhead:
                k = str(it.get("key"))
                if k in c.fns:
                    return c.fns[k]
    return None


@model("ToString::to_string")
def m_tostring(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    ty = cx.selfty()
    v = D(eng, st, a[0])
    if v.k != "adt" and headt(ty) not in ("String", "str", "Cow"):
        # an impl of ToString itself may exist for a generic type
        if len(headt(ty)) == 1:
            return ret(st, call("ToString::to_string", v))
    return [("ret", s, t) for s, t in text_of(eng, st, v, ty)]


@model("Argument::new_display")
def m_argdisp(eng, st, a, cx):
    return [("ret", s, mk("farg", t)) for s, t in text_of(eng, st, a[0], cx.targ(0) if not (cx.targ(0) or "").startswith("'") else cx.targ(1))]


@model("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary", "Argument::new_lower_exp", "Argument::new_pointer")
def m_argdbg(eng, st, a, cx):
    return ret(st, mk("farg", mk("call", cx.name.split("_", 1)[1], (D(eng, st, a[0]),))))


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def m_argstr(eng, st, a, cx):
    v = a[0]
    if v.k in ("arr",):
        return ret(st, cat(list(v.a[0])))
    return ret(st, v)


def parse_template(b):
    """pieces of a compiled format string: str or ('arg', spec)"""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(b[i:i + ln].decode("utf8", "replace"))
            i += ln
        else:
            spec = {}
            if n & 1:
                spec["flags"] = b[i:i + 4]
                i += 4
            if n & 2:
                spec["width"] = b[i:i + 2]
                i += 2
            if n & 4:
                spec["prec"] = b[i:i + 2]
                i += 2
            if n & 8:
                spec["idx"] = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(("arg", spec))
    return out


@model("Arguments::new")
def m_args(eng, st, a, cx):
    t = D(eng, st, a[0])
    args = D(eng, st, a[1]) if len(a) > 1 else mk("arr", ())
    if t.k != "bytes" and not (t.k == "arr"):
        if t.k == "str":
            b = t.a[0].encode("latin1", "replace")
        else:
            return ret(st, call("format", t, args))
    else:
        b = t.a[0] if t.k == "bytes" else bytes(x.a[0] for x in t.a[0])
    xs = [s[1] for s in segs_of(args)]
    parts, n = [], 0
    for p in parse_template(b):
        if isinstance(p, str):
            parts.append(STR(p))
        else:
            i = p[1].get("idx", n)
            n = i + 1
            x = xs[i] if i < len(xs) else mk("missing")
            x = x.a[0] if x.k == "farg" else x
            if "width" in p[1] or "prec" in p[1]:
                x = mk("fmtspec", x, str(sorted(p[1].items())))
            parts.append(x)
    return ret(st, cat(parts))


@model("fmt::format", "__private::format")
def m_format(eng, st, a, cx):
    return ret(st, a[0])


def fmt_write(eng, st, f, t):
    if f.k == "ref":
        cur = eng.deref(st, f)
        if cur.k == "fmtbuf":
            eng.store(st, f, mk("fmtbuf", cat([cur.a[0], t])))
            return ret(st, Ok(UNIT))
        if headlike_string(cur):
            eng.store(st, f, cat([cur, t]))
            return ret(st, Ok(UNIT))
    return None


def headlike_string(v):
    return v.k in ("str", "cat")


@model("Formatter::pad", "Formatter::write_str", "Formatter::write_fmt", "Write::write_str", "Write::write_fmt", "Formatter::write_char", "Write::write_char")
def m_fmtwrite(eng, st, a, cx):
    t = D(eng, st, a[1])
    if t.k == "char":
        t = STR(t.a[0])
    if cx.name.startswith("Write") and is_local_body(eng, cx):
        return None
    return fmt_write(eng, st, a[0], t)


@model("Display::fmt", "Debug::fmt")
def m_displayfmt(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    if cx.name.startswith("Debug"):
        return fmt_write(eng, st, a[1], call("debug", D(eng, st, a[0])))
    out = []
    for s, t in text_of(eng, st, a[0], cx.selfty()):
        r = fmt_write(eng, s, a[1], t)
        if r is None:
            return None
        out.extend(r)
    return out


@model("String::new", "String::with_capacity")
def m_strnew(eng, st, a, cx):
    return ret(st, STR(""))


def as_text(v):
    return STR(v.a[0]) if v.k == "char" else v


@model("String::push_str", "String::push")
def m_pushstr(eng, st, a, cx):
    eng.store(st, a[0], cat([D(eng, st, a[0]), as_text(D(eng, st, a[1]))]))
    return ret(st, UNIT)


@model("Engine::encode_string")
def m_encstring(eng, st, a, cx):
    eng.store(st, a[2], cat([D(eng, st, a[2]), call("Engine::encode", D(eng, st, a[0]), D(eng, st, a[1]))]))
    return ret(st, UNIT)


@model("String::insert_str")
def m_insstr(eng, st, a, cx):
    if a[1].k == "int" and a[1].a[0] == 0:
        eng.store(st, a[0], cat([D(eng, st, a[2]), D(eng, st, a[0])]))
        return ret(st, UNIT)


@model("Add::add")
def m_add(eng, st, a, cx):
    if headt(cx.selfty()) == "String":
        return ret(st, cat([a[0], D(eng, st, a[1])]))
    return m_arith(eng, st, a, cx)


@model("Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def m_arith(eng, st, a, cx):
    """arithmetic through the operator traits (on references): checked, like the operators"""
    if headt(cx.selfty()) not in INTS:
        return None
    op = cx.name.split("::")[0]
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if op in ("Div", "Rem"):
        return ret(st, eng.binop(None, st, op, x, y))
    r = eng.binop(None, st, op + "WithOverflow", x, y)
    out = []
    for t, s in split_bool(eng, st, proj_field(r, "", "1")):
        out.append(("panic", s, eng.pinfo_top("overflow:" + op)) if t else ("ret", s, proj_field(r, "", "0")))
    return out


@model("AddAssign::add_assign")
def m_addassign(eng, st, a, cx):
    if headt(cx.selfty()) == "String":
        eng.store(st, a[0], cat([D(eng, st, a[0]), D(eng, st, a[1])]))
        return ret(st, UNIT)
    return m_arithassign(eng, st, a, cx)


@model("SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign", "RemAssign::rem_assign")
def m_arithassign(eng, st, a, cx):
    if headt(cx.selfty()) not in INTS:
        return None
    op = cx.name.split("Assign")[0]
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    if op in ("Div", "Rem"):
        eng.store(st, a[0], eng.binop(None, st, op, x, y))
        return ret(st, UNIT)
    r = eng.binop(None, st, op + "WithOverflow", x, y)
    out = []
    for t, s in split_bool(eng, st, proj_field(r, "", "1")):
        if t:
            out.append(("panic", s, eng.pinfo_top("overflow:" + op)))
        else:
            eng.store(s, a[0], proj_field(r, "", "0"))
            out.append(("ret", s, UNIT))
    return out


@model("str::split")
def m_split(eng, st, a, cx):
    sep = as_text(a[1])
    return ret(st, mk("it", "all", mk("parts", a[0], sep), "val", 0, None))


@model("str::matches")
def m_matches(eng, st, a, cx):
    sep = as_text(a[1])
    if sep.k != "str" or len(sep.a[0]) != 1:
        return None
    return ret(st, mk("it", "all", mk("matches", a[0], sep), "val", 0, None))


@model("Engine::decode")
def m_b64decode(eng, st, a, cx):
    x, e = D(eng, st, a[1]), D(eng, st, a[0])
    if e.k != "named" or e.a[0] not in ("URL_SAFE_NO_PAD", "URL_SAFE", "STANDARD", "STANDARD_NO_PAD"):
        return None
    # a dot is not in these alphabets
    n = nparts(x, STR("."))
    if x.k == "cat" and any(p.k == "str" and "." in p.a[0] for p in x.a[0]) or st.truth(rel(n, ">", INT(1))) is True:
        c = call("Engine::decode", e, x)
        return [("ret", st, c)] if st.assume(("var", c, frozenset(["Err"]))) else []
    return None


@model("Engine::decode_vec")
def m_b64decodevec(eng, st, a, cx):
    x, e = D(eng, st, a[1]), D(eng, st, a[0])
    out = []
    c = call("Engine::decode", e, x)
    for vn, s in split_var(eng, st, c, "Result"):
        if vn == "Ok":
            b = D(eng, s, a[2])
            eng.store(s, a[2], cat(([joined(b)] if b.a[1] else []) + [proj_field(c, "Ok", "0")] if b.k == "coll" else [b, proj_field(c, "Ok", "0")]))
            out.append(("ret", s, Ok(UNIT)))
        else:
            # what a failed decoding leaves in the buffer
            eng.store(s, a[2], call("undecoded", D(eng, s, a[2]), c))
            out.append(("ret", s, Err(proj_field(c, "Err", "0"))))
    return out


def nparts(s, sep):
    """(collection of its parts, number of them) of a text"""
    if s.k == "at" and s.a[0].k == "parts" and s.a[0].a[1] is sep:
        return INT(1)
    if s.k == "call" and len(s.a[1]) == 2 and s.a[1][1] is sep:
        if s.a[0] in ("before_last", "after_first"):
            return add(nparts(*s.a[1]), INT(-1))
        if s.a[0] in ("before_first", "after_last"):
            return INT(1)
    if s.k == "call" and s.a[0] == "rest_after" and s.a[1][1] is sep:
        return add(nparts(s.a[1][0], sep), INT(-s.a[1][2].a[0]))
    if s.k == "cat":
        ns = [INT(0) if p is sep else nparts(p, sep) for p in s.a[0]]
        if all(n.k == "int" for n in ns) and sep.k == "str" and all(p is sep or p.k != "str" for p in s.a[0]):
            # texts without the separator, separated by it
            if all(n.a[0] <= 1 for n in ns):
                return INT(1 + sum(1 for p in s.a[0] if p is sep))
    return mk("nparts", s, sep)


def explode(eng, st, s, sep, upto=4):
    """case distinction on the number of parts of s"""
    n = nparts(s, sep)
    if n.k == "int" and n.a[0] <= upto:
        return [(n.a[0], st)]
    out = []
    for k in range(1, upto + 1):
        s2 = st.copy()
        if s2.assume_bool(rel(n, "=", INT(k)), True):
            out.append((k, s2))
    if st.assume_bool(rel(n, ">", INT(upto)), True):
        out.append((None, st))
    return out


def parts_of(s, sep, lo, hi):
    xs = []
    for i in range(lo, hi):
        if xs:
            xs.append(sep)
        xs.append(part(s, sep, i))
    return cat(xs)


def part(s, sep, i):
    n = nparts(s, sep)
    if n is INT(1):
        return s
    if s.k == "cat" and n.k == "int":
        xs = [[]]
        for p in s.a[0]:
            if p is sep:
                xs.append([])
            else:
                xs[-1].append(p)
        return cat(xs[i])
    if s.k == "call" and s.a[0] in ("before_last", "after_first") and s.a[1][1] is sep:
        return part(s.a[1][0], sep, i + (1 if s.a[0] == "after_first" else 0))
    return proj_index(mk("parts", s, sep), INT(i))


@model("str::split_once", "str::rsplit_once")
def m_splitonce(eng, st, a, cx):
    sep = as_text(a[1])
    if sep.k != "str":
        return None
    r = "rsplit" in cx.name
    out = []
    for k, s in explode(eng, st, a[0], sep):
        if k == 1:
            out.append(("ret", s, NONE))
        elif k is None:
            out.append(("ret", s, Some(tup(call(("before_last" if r else "before_first"), a[0], sep), call(("after_last" if r else "after_first"), a[0], sep)))))
        else:
            m = k - 1 if r else 1
            out.append(("ret", s, Some(tup(parts_of(a[0], sep, 0, m), parts_of(a[0], sep, m, k)))))
    return out


@model("str::find", "str::rfind")
def m_strfind(eng, st, a, cx):
    """the offset of a separator is the length of the text before it"""
    c, sep = D(eng, st, a[0]), as_text(D(eng, st, a[1]))
    r = cx.name.endswith("rfind")
    if sep.k != "str" or not sep.a[0] or c.k == "str":
        t = call(cx.name, c, sep)
        out = []
        for k, s in split_var(eng, st, t, "Option"):
            if k == "Some" and (sep.k != "str" or sep.a[0]):
                s.assume(("rel", proj_field(t, "Some", "0"), length(c), "<"))
            out.append(("ret", s, t))
        return out
    out = []
    for k, s in explode(eng, st, c, sep):
        if k == 1:
            out.append(("ret", s, NONE))
            continue
        if k is None:
            b = call("before_last", c, sep) if r else proj_index(mk("parts", c, sep), INT(0))
        else:
            b = parts_of(c, sep, 0, k - 1 if r else 1)
        i = length(b)
        s.assume_bool(rel(i, "<", length(c)), True)
        s.assume_bool(rel(add(i, length(sep)), "<=", length(c)), True)
        s.cutat = dict(s.cutat)
        after = None
        if k is not None:
            after = parts_of(c, sep, k - 1 if r else 1, k)
        else:
            after = call("after_last" if r else "after_first", c, sep)
        if k is None and not r:
            b = call("before_first", c, sep)
        s.cutat[(c, i)] = (b, cat([sep, after]))
        s.cutat[(c, add(i, length(sep)))] = (cat([b, sep]), after)
        out.append(("ret", s, Some(i)))
    return out


@model("str::match_indices")
def m_matchidx(eng, st, a, cx):
    """each match lies right after the parts before it"""
    c, sep = D(eng, st, a[0]), as_text(D(eng, st, a[1]))
    if sep.k != "str" or not sep.a[0]:
        return None
    out = []
    for k, s in explode(eng, st, c, sep):
        xs = []
        s.cutat = dict(s.cutat)
        for j in range(1, 5 if k is None else k):
            b = parts_of(c, sep, 0, j)
            after = call("rest_after", c, sep, INT(j)) if k is None else parts_of(c, sep, j, k)
            i = length(b)
            s.assume_bool(rel(i, "<", length(c)), True)
            s.assume_bool(rel(add(i, length(sep)), "<=", length(c)), True)
            s.cutat[(c, i)] = (b, cat([sep, after]))
            s.cutat[(c, add(i, length(sep)))] = (cat([b, sep]), after)
            xs.append(("one", tup(i, sep)))
        if k is None:
            xs.append(("all", call("later_matches", c, sep)))
        out.append(("ret", s, mk("it", "all", coll("vec", xs), "val", 0, None)))
    return out


@model("str::splitn")
def m_splitn(eng, st, a, cx):
    sep = as_text(a[2])
    if a[1].k != "int" or sep.k != "str":
        return None
    n = a[1].a[0]
    out = []
    for k, s in explode(eng, st, a[0], sep, max(4, n)):
        if k is None:
            xs = [proj_index(mk("parts", a[0], sep), INT(i)) for i in range(n - 1)] + [call("rest_after", a[0], sep, INT(n - 1))]
        elif k <= n:
            xs = [proj_index(mk("parts", a[0], sep), INT(i)) for i in range(k)]
        else:
            xs = [proj_index(mk("parts", a[0], sep), INT(i)) for i in range(n - 1)] + [parts_of(a[0], sep, n - 1, k)]
        out.append(("ret", s, lst(xs)))
    return out


@model("str::starts_with", "slice::starts_with", "str::ends_with", "str::contains", "slice::ends_with")
def m_starts(eng, st, a, cx):
    x, p = D(eng, st, a[0]), as_text(D(eng, st, a[1]))
    if x.k == "str" and p.k == "str":
        m = cx.name.split("::")[1]
        return ret(st, BOOL({"starts_with": x.a[0].startswith, "ends_with": x.a[0].endswith, "contains": x.a[0].__contains__}[m](p.a[0])))
    if cx.name == "str::contains" and p.k == "str" and len(p.a[0]) == 1:
        n = nparts(x, p)
        if n is not mk("nparts", x, p) or n in st.iv:
            return [("ret", s, BOOL(t)) for t, s in split_bool(eng, st, rel(n, ">", INT(1)))]
    h = lit_head(x, norm_bytes(p)) if cx.name.endswith("::starts_with") else None
    if h is not None:
        return ret(st, BOOL(h[0]))
    if cx.name.endswith("::starts_with"):
        x, p = unstrip(x, norm_bytes(p))
    return ret(st, call(cx.name.split("::")[1], x, norm_bytes(p)))


def unstrip(x, p):
    """what comes after one known prefix, then another: both are one prefix of the whole"""
    while x.k == "strip" and x.a[1].k == p.k and p.k in ("str", "bytes"):
        x, p = x.a[0], mk(p.k, x.a[1].a[0] + p.a[0])
    return x, p


def norm_bytes(p):
    if p.k == "arr" and all(x.k == "int" for x in p.a[0]):
        return mk("bytes", bytes(x.a[0] for x in p.a[0]))
    return p


def lit_head(x, p):
    """(whether x starts with p, what follows) when x begins with a known text"""
    if x.k != "cat" or p.k not in ("str", "bytes") or x.a[0][0].k != p.k:
        return None
    h, l = x.a[0][0].a[0], p.a[0]
    if len(h) < len(l):
        return None
    if not h.startswith(l):
        return False, None
    return True, cat(([mk(p.k, h[len(l):])] if len(h) > len(l) else []) + list(x.a[0][1:]))


@model("str::strip_prefix", "slice::strip_prefix", "str::strip_suffix", "slice::strip_suffix")
def m_strip(eng, st, a, cx):
    x, p = D(eng, st, a[0]), norm_bytes(as_text(D(eng, st, a[1])))
    suf = "suffix" in cx.name
    if x.k == "str" and p.k == "str":
        if suf:
            return ret(st, Some(STR(x.a[0][:len(x.a[0]) - len(p.a[0])])) if x.a[0].endswith(p.a[0]) else NONE)
        return ret(st, Some(STR(x.a[0][len(p.a[0]):])) if x.a[0].startswith(p.a[0]) else NONE)
    h = lit_head(x, p) if not suf else None
    if h is not None:
        return ret(st, Some(h[1]) if h[0] else NONE)
    if not suf:
        x, p = unstrip(x, p)
    out = []
    for t, s in split_bool(eng, st, call("ends_with" if suf else "starts_with", x, p)):
        out.append(("ret", s, Some(mk("strip", x, p) if not suf else mk("stripsuf", x, p)) if t else NONE))
    return out


@model("str::is_empty", "String::is_empty", "Vec::is_empty", "slice::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty", "HashMap::is_empty", "HashSet::is_empty", "Map::is_empty")
def m_isempty(eng, st, a, cx):
    return ret(st, rel(length(D(eng, st, a[0])), "=", INT(0)))


@model("str::len", "String::len", "Vec::len", "slice::len", "BTreeMap::len", "BTreeSet::len", "HashMap::len", "HashSet::len", "Map::len")
def m_len(eng, st, a, cx):
    return ret(st, length(D(eng, st, a[0])))


@model("str::from_utf8", "String::from_utf8")
def m_utf8(eng, st, a, cx):
    x = D(eng, st, a[0])
    if is_text(x):
        return ret(st, Ok(x))
    out = []
    for v, s in split_var(eng, st, call("from_utf8", x), "Result"):
        out.append(("ret", s, Ok(x) if v == "Ok" else Err(proj_field(call("from_utf8", x), "Err", "0"))))
    return out


def is_text(x):
    return x.k in ("str", "disp") or (x.k == "cat" and all(is_text(p) or p.k in ("call",) and p.a[0] == "Engine::encode" for p in x.a[0]))


@model("str::parse")
def m_parse(eng, st, a, cx):
    ty = cx.targ(0)
    h = headt(ty)
    fn = find_impl(eng, h, "from_str", "FromStr")
    if fn is not None:
        return eng.run_fn(st, fn, [a[0]])
    if h == "CidGeneric":
        return ret(st, call("TryFrom<CidGeneric>", a[0]))  # (the crate's own definition)
    if h in UINTS and numeral(D(eng, st, a[0])) is not None:
        return ret(st, Ok(numeral(D(eng, st, a[0]))))
    return ret(st, call("parse:" + h, a[0]))


UINTS = ("usize", "u64", "u128")


def numeral(t):
    """n when t is the decimal text of n"""
    if t.k == "disp" and counted(t.a[0]):
        return t.a[0]
    if t.k == "str" and re.fullmatch("0|[1-9][0-9]{0,17}", t.a[0]):
        return INT(int(t.a[0]))
    return None


def simple_url(t):
    """(scheme, path) of the text scheme:path without authority, query or escapes"""
    if t.k == "str":
        m = re.fullmatch(r"([a-z][a-z0-9]*):([A-Za-z0-9*]+)", t.a[0])
        if m and m.group(1) not in SPECIAL:
            return STR(m.group(1)), STR(m.group(2))
    if t.k == "cat" and len(t.a[0]) == 2 and t.a[0][0].k == "str" and numeral(t.a[0][1]) is not None:
        m = re.fullmatch(r"([a-z][a-z0-9]*):", t.a[0][0].a[0])
        if m and m.group(1) not in SPECIAL:
            return STR(m.group(1)), t.a[0][1]
    return None


SPECIAL = ("http", "https", "ws", "wss", "ftp", "file", "blob")


def url_text(t):
    """the simple text that t was parsed from"""
    if t.k == "fld" and t.a[1] == "Ok" and t.a[0].k == "call" and t.a[0].a[0] == "Url::parse":
        return simple_url(t.a[0].a[1][0])
    return None


@model("Url::parse")
def m_urlparse(eng, st, a, cx):
    x = as_text(D(eng, st, a[0]))
    if simple_url(x):
        return ret(st, Ok(proj_field(call("Url::parse", x), "Ok", "0")))


@model("Url::scheme", "Url::path")
def m_urlparts(eng, st, a, cx):
    x = url_text(D(eng, st, a[0]))
    if x:
        return ret(st, x[0] if cx.name.endswith("scheme") else x[1])


@model("FromStr::from_str")
def m_fromstr(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    h = headt(cx.selfty())
    if h == "String":
        return ret(st, Ok(a[0]))
    if h == "CidGeneric":
        return ret(st, call("TryFrom<CidGeneric>", a[0]))
    if h in UINTS and numeral(D(eng, st, a[0])) is not None:
        return ret(st, Ok(numeral(D(eng, st, a[0]))))
    return ret(st, call("parse:" + h, a[0]))


@model("usize::from_str_radix", "u64::from_str_radix")
def m_radix(eng, st, a, cx):
    if a[1].k == "int" and a[1].a[0] == 10:
        return ret(st, call("parse:" + cx.name.split("::")[0], a[0]))


@model("slice::concat", "slice::join", "Concat::concat", "Join::join")
def m_concat(eng, st, a, cx):
    v = D(eng, st, a[0])
    sep = as_text(D(eng, st, a[1])) if cx.name.endswith("join") else None
    if v.k == "parts" and sep is v.a[1]:
        return ret(st, v.a[0])
    segs = segs_of(v)
    if all(s[0] == "one" for s in segs):
        xs = []
        for s in segs:
            if sep is not None and xs:
                xs.append(sep)
            xs.append(norm_bytes(s[1]))
        return ret(st, cat(xs))
    if v.k == "coll" and len(v.a[1]) == 1 and v.a[1][0][0] == "all":
        v = v.a[1][0][1]
    if sep is not None:
        if v.k == "parts" and sep is v.a[1]:
            return ret(st, v.a[0])
        if v.k == "slice" and v.a[0].k == "parts" and v.a[0].a[1] is sep and v.a[1].k == "int" and v.a[2].k == "int":
            t = v.a[0].a[0]
            if st.ival(mk("nparts", t, sep))[0] >= v.a[2].a[0]:
                return ret(st, parts_of(t, sep, v.a[1].a[0], v.a[2].a[0]))
        if v.k == "slice" and v.a[0].k == "parts" and v.a[0].a[1] is sep and v.a[2] is mk("nparts", *v.a[0].a) and v.a[1].k == "int":
            t, m = v.a[0].a[0], v.a[1].a[0]
            lo, hi = st.ival(v.a[2])
            if m == 0:
                return ret(st, t)
            if lo == hi and m <= hi:
                return ret(st, parts_of(t, sep, m, hi) if m < hi else STR(""))
            if lo > m:
                return ret(st, call("rest_after", t, sep, INT(m)))
            if hi <= m:
                return ret(st, STR(""))
            s2 = st.copy()
            out = []
            if s2.assume_bool(rel(v.a[2], "<=", INT(m)), True):
                out.append(("ret", s2, STR("")))
            if st.assume_bool(rel(v.a[2], ">", INT(m)), True):
                out.append(("ret", st, call("rest_after", t, sep, INT(m))))
            return out
        return ret(st, call("join", v, sep))
    return ret(st, call("concat", v))


def is_u8_content(c, ty):
    """a vector/slice of bytes or a string"""
    h = headt(ty)
    if h in ("String", "str"):
        return True
    return bool(re_u8.search(ty or ""))


import re
re_u8 = re.compile(r"(Vec<u8\b|\[u8[;\]])")


# ---- indexing -------------------------------------------------------------------------
def range_of(eng, st, r, c):
    """(lo, hi) terms of a range value over c; None if not a range"""
    if r.k != "adt":
        return None
    n = r.a[0]
    f = dict(zip(r.a[2], r.a[3]))
    if n == "Range":
        return f["start"], f["end"]
    if n == "RangeFrom":
        return f["start"], length(c)
    if n == "RangeTo":
        return INT(0), f["end"]
    if n == "RangeFull":
        return INT(0), length(c)
    if n == "RangeToInclusive":
        return INT(0), add(f["end"], INT(1))
    if n == "RangeInclusive":
        v = r.a[3]
        return v[0], add(v[1], INT(1))
    return None


def spellings(st, c):
    """the ways st knows to take the text c apart, as lists of neighbouring pieces"""
    todo, seen, out = [list(c.a[0]) if c.k == "cat" else [c]], set(), []
    while todo and len(out) < 24:
        ps = todo.pop(0)
        key = tuple(ps)
        if key in seen:
            continue
        seen.add(key)
        out.append(ps)
        for n, x in enumerate(ps):
            if x.k == "str":
                continue
            for t, b in st.bl.items():
                if b and t.k == "call" and t.a[0] == "starts_with" and t.a[1][0] is x and t.a[1][1].k in ("str", "bytes"):
                    todo.append(ps[:n] + [t.a[1][1], mk("strip", x, t.a[1][1])] + ps[n + 1:])
            for t in list(st.iv):
                if t.k == "nparts" and t.a[0] is x:
                    lo, hi = st.ival(t)
                    if lo == hi and 2 <= hi <= 8:
                        z = parts_of(x, t.a[1], 0, hi)
                        todo.append(ps[:n] + (list(z.a[0]) if z.k == "cat" else [z]) + ps[n + 1:])
            for (y, i), (b, r) in st.cutat.items():
                if y is x:
                    todo.append(ps[:n] + [b] + (list(r.a[0]) if r.k == "cat" else [r]) + ps[n + 1:])
    return out


def known_span(st, c, lo, hi):
    """the part of text c from lo to hi when both are known to lie between pieces of it"""
    if c.k == "str" or c.k == "bytes" or (lo.k == "int" and hi.k == "int"):
        return None
    end = hi is length(c)
    l, h = linear(lo), linear(hi)
    head, tail = st.cutat.get((c, lo), (None, None))
    if tail is not None and tail.k == "call" and tail.a[0] == "after_first" and hi is length(call("before_last", *tail.a[1])):
        # from the first to the last of several separators
        return call("before_last", tail, tail.a[1][1])
    for ps in spellings(st, c):
        if len(ps) < 2:
            continue
        at, n, i, j = {}, 0, None, len(ps) if end else None
        for k in range(len(ps) + 1):
            if i is None and (at, n) == l:
                i = k
            if i is not None and j is None and (at, n) == h:
                j = k
            if k < len(ps):
                x, m = linear(length(ps[k]))
                at, n = dict(at), n + m
                for y, v in x.items():
                    at[y] = at.get(y, 0) + v
        if i is not None and j is not None and i <= j:
            return cat(ps[i:j])
    return None


def slice_term(st, c, lo, hi):
    if (c, lo) in st.cutat and hi is length(c):
        return st.cutat[(c, lo)][1]
    if (c, hi) in st.cutat and lo.k == "int" and lo.a[0] == 0:
        return st.cutat[(c, hi)][0]
    if lo.k == "int" and lo.a[0] == 0 and hi is length(c):
        return c
    if c.k == "str" and lo.k == "int" and hi.k == "int":
        try:
            return STR(c.a[0].encode()[lo.a[0]:hi.a[0]].decode())
        except UnicodeDecodeError:
            pass
    if c.k == "bytes" and lo.k == "int" and hi.k == "int":
        return mk("bytes", c.a[0][lo.a[0]:hi.a[0]])
    if hi is length(c) and lo.k == "int":
        for t, b in st.bl.items():
            if b and t.k == "call" and t.a[0] == "starts_with" and t.a[1][0] is c and t.a[1][1].k in ("str", "bytes"):
                if length(t.a[1][1]) is lo:
                    return mk("strip", c, t.a[1][1])
    if tail_at(c) is not None and hi is length(c):
        return slice_of(c, lo, hi)
    if c.k == "slice" and lo.k == "int" and c.a[1].k == "int":
        return mk("slice", c.a[0], add(c.a[1], lo), add(c.a[1], hi) if hi is not length(c) else c.a[2])
    return mk("slice", c, lo, hi)


def known_prefix(st, c, lo):
    """lo is an offset in text c that is known to be within it and a char boundary"""
    if (c, lo) in st.cutat:
        return True
    for t, b in st.bl.items():
        if b and t.k == "call" and t.a[0] == "starts_with" and t.a[1][0] is c and t.a[1][1].k in ("str", "bytes"):
            if length(t.a[1][1]) is lo:
                return True
    return False


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index")
def m_index(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    mut = cx.name.endswith("_mut")
    h = headt(cx.selfty())
    c = D(eng, st, a[0])
    i = a[1]
    if h in MAPS:
        out = []
        for v, s, x in map_lookup(eng, st, c, D(eng, st, i)):
            if v:
                out.append(("ret", s, mk("ref", a[0].a[0], a[0].a[1] + (("key", D(eng, s, i)),)) if mut else x))
            else:
                out.append(("panic", s, eng.pinfo_top("Index::index(map)")))
        return out
    if h == "Url":
        return ret(st, call("Url[..]", c, i))
    if h == "Value":
        return ret(st, call("Value[..]", c, i))
    if h not in ("Vec", "String", "str", "slice", "Box", "Arc"):
        return None
    rg = range_of(eng, st, i, c)
    out = []
    if rg is None:
        for t, s in split_bool(eng, st, rel(i, "<", length(c))):
            if t:
                out.append(("ret", s, mk("ref", a[0].a[0], a[0].a[1] + (("i", i),)) if mut and a[0].k == "ref" else proj_index(c, i)))
            else:
                out.append(("panic", s, eng.pinfo_top("index out of bounds")))
        return out
    lo, hi = rg
    text = h in ("String", "str")
    x = known_span(st, c, lo, hi)
    if x is not None:
        return ret(st, x)
    if not (lo.k == "int" and lo.a[0] <= 0) and hi is length(c) and known_prefix(st, c, lo):
        return ret(st, slice_term(st, c, lo, hi))
    if lo.k == "int" and lo.a[0] == 0 and hi is not length(c) and known_prefix(st, c, hi):
        return ret(st, slice_term(st, c, lo, hi))
    for t, s in split_bool(eng, st, rel(hi, "<=", length(c))):
        if not t:
            out.append(("panic", s, eng.pinfo_top("slice end out of bounds")))
            continue
        for t2, s2 in split_bool(eng, s, rel(lo, "<=", hi)):
            if not t2:
                out.append(("panic", s2, eng.pinfo_top("slice start out of bounds")))
                continue
            if text and not (lo.k == "int" and lo.a[0] == 0 and hi is length(c)):
                s3 = s2.copy()
                s3.assume(("bl", call("char_boundary", c, lo, hi), False))
                out.append(("panic", s3, eng.pinfo_top("not a char boundary")))
                s2.assume(("bl", call("char_boundary", c, lo, hi), True))
            out.append(("ret", s2, slice_term(s2, c, lo, hi)))
    return out


@model("slice::get", "str::get", "Vec::get", "slice::get_mut", "Vec::get_mut")
def m_get(eng, st, a, cx):
    c = D(eng, st, a[0])
    mut = "mut" in cx.name
    i = D(eng, st, a[1])
    rg = range_of(eng, st, i, c)
    out = []
    if rg is None:
        for t, s in split_bool(eng, st, rel(i, "<", length(c))):
            out.append(("ret", s, Some(mk("ref", a[0].a[0], a[0].a[1] + (("i", i),)) if mut and a[0].k == "ref" else proj_index(c, i)) if t else NONE))
        return out
    lo, hi = rg
    x = known_span(st, c, lo, hi)
    if x is not None:
        return ret(st, Some(x))
    for t, s in split_bool(eng, st, rel(hi, "<=", length(c))):
        if not t:
            out.append(("ret", s, NONE))
            continue
        for t2, s2 in split_bool(eng, s, rel(lo, "<=", hi)):
            if t2 and cx.name.startswith("str") and not known_prefix(s2, c, lo):
                for b, s3 in split_bool(eng, s2, call("char_boundary", c, lo, hi)):
                    out.append(("ret", s3, Some(slice_term(s3, c, lo, hi)) if b else NONE))
                continue
            out.append(("ret", s2, Some(slice_term(s2, c, lo, hi)) if t2 else NONE))
    return out


@model("slice::first", "slice::last", "slice::last_mut", "slice::first_mut")
def m_firstlast(eng, st, a, cx):
    c = D(eng, st, a[0])
    i = INT(0) if "first" in cx.name else sub(length(c), INT(1))
    out = []
    for t, s in split_bool(eng, st, rel(length(c), ">", INT(0))):
        x = mk("ref", a[0].a[0], a[0].a[1] + (("i", i),)) if "mut" in cx.name and a[0].k == "ref" else proj_index(c, i)
        out.append(("ret", s, Some(x) if t else NONE))
    return out


@model("slice::split_at", "str::split_at")
def m_splitat(eng, st, a, cx):
    c = D(eng, st, a[0])
    out = []
    if known_prefix(st, c, a[1]):
        return ret(st, tup(slice_term(st, c, INT(0), a[1]), slice_term(st, c, a[1], length(c))))
    for t, s in split_bool(eng, st, rel(a[1], "<=", length(c))):
        if t:
            if cx.name.startswith("str"):
                s3 = s.copy()
                s3.assume(("bl", call("char_boundary", c, a[1]), False))
                out.append(("panic", s3, eng.pinfo_top("not a char boundary")))
            out.append(("ret", s, tup(slice_term(s, c, INT(0), a[1]), slice_term(s, c, a[1], length(c)))))
        else:
            out.append(("panic", s, eng.pinfo_top("split_at out of bounds")))
    return out


@model("Vec::truncate", "String::truncate")
def m_truncate(eng, st, a, cx):
    c, i = D(eng, st, a[0]), D(eng, st, a[1])
    if i is INT(0):
        return m_clear(eng, st, a, cx)
    out = []
    for t, s in split_bool(eng, st, rel(i, "<=", length(c))):
        if t:
            eng.store(s, a[0], slice_term(s, c, INT(0), i))
        out.append(("ret", s, UNIT))
    return out


def as_slice(v):
    """an array of neighbouring elements of one sequence is that part of it"""
    xs = v.a[0] if v.k == "arr" else None
    if v.k == "coll" and v.a[0] == "vec" and all(s[0] == "one" for s in v.a[1]):
        xs = tuple(s[1] for s in v.a[1])
    if xs and len(xs) >= 2 and xs[0].k == "at" and xs[0].a[1].k == "int":
        c, i = xs[0].a[0], xs[0].a[1].a[0]
        if all(x.k == "at" and x.a[0] is c and x.a[1] is INT(i + k) for k, x in enumerate(xs)):
            return mk("slice", c, INT(i), INT(i + len(xs)))
    return v


@model("Vec::split_off")
def m_splitoff(eng, st, a, cx):
    c, i = D(eng, st, a[0]), D(eng, st, a[1])
    out = []
    for t, s in split_bool(eng, st, rel(i, "<=", length(c))):
        if t:
            eng.store(s, a[0], slice_term(s, c, INT(0), i))
            out.append(("ret", s, slice_term(s, c, i, length(c))))
        else:
            out.append(("panic", s, eng.pinfo_top("split_off out of bounds")))
    return out


@model("slice::split_at_checked")
def m_splitatc(eng, st, a, cx):
    c = D(eng, st, a[0])
    out = []
    for t, s in split_bool(eng, st, rel(a[1], "<=", length(c))):
        out.append(("ret", s, Some(tup(slice_term(s, c, INT(0), a[1]), slice_term(s, c, a[1], length(c)))) if t else NONE))
    return out


@model("slice::split_first")
def m_splitfirst(eng, st, a, cx):
    c = D(eng, st, a[0])
    out = []
    for t, s in split_bool(eng, st, rel(length(c), ">", INT(0))):
        out.append(("ret", s, Some(tup(proj_index(c, INT(0)), slice_term(s, c, INT(1), length(c)))) if t else NONE))
    return out


@model("slice::iter", "slice::iter_mut", "BTreeMap::iter", "BTreeMap::iter_mut", "BTreeSet::iter", "HashMap::iter", "HashSet::iter", "Map::iter", "Vec::iter", "Option::iter",
       "IntoIterator::into_iter", "BTreeMap::into_iter", "Vec::drain", "BTreeMap::values_mut", "HashMap::iter_mut")
def m_iter(eng, st, a, cx):
    if is_local_body(eng, cx) and cx.name != "IntoIterator::into_iter":
        return None
    if is_local_body(eng, cx):
        return None
    ty = cx.selfty()
    if ty is None:
        h = cx.name.split("::")[0]
        ty = {"slice": "[T]", "Vec": "Vec<T>", "Option": "Option<T>"}.get(h, h + "<K, V>")
    v = a[0]
    if cx.name == "Vec::drain":
        c = D(eng, st, v)
        rg = range_of(eng, st, a[1], c)
        if rg is None or not (rg[0] is INT(0) and rg[1] is length(c)):
            return None
        eng.store(st, v, mk("coll", "vec", ()))
        return ret(st, to_iter(eng, st, c, ty))
    if cx.name == "BTreeMap::values_mut":
        it = to_iter(eng, st, v, ty)
        return ret(st, mk("it", "map", it, engine_pyfn("snd")))
    if cx.name == "IntoIterator::into_iter" and v.k == "ref" and not (ty or "").strip().startswith("&"):
        v = D(eng, st, v)
    return ret(st, to_iter(eng, st, v, ty))


def engine_pyfn(n, *more):
    return mk("pyfn", n, *more)


@model("BTreeSet::difference", "HashSet::difference", "BTreeSet::intersection", "HashSet::intersection", "BTreeSet::union", "HashSet::union")
def m_setop(eng, st, a, cx):
    """the elements of one set that are (or are not) in another"""
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    ty = cx.selfty() or cx.name.split("::")[0] + "<T>"
    it = to_iter(eng, st, x, ty)
    op = cx.name.split("::")[1]
    if op == "union":
        return ret(st, mk("it", "chain", it, mk("it", "filter", to_iter(eng, st, y, ty), engine_pyfn("in", x, FALSE))))
    return ret(st, mk("it", "filter", it, engine_pyfn("in", y, BOOL(op == "intersection"))))


def py_in(eng, st, args, y, want):
    x = D(eng, st, args[0])
    out = []
    for k, s, v in contained(eng, st, y, x):
        out.append((k, s, v if want is TRUE or k != "ret" else NOT(v)))
    return out


PYFN["in"] = py_in


PYFN["snd"] = lambda eng, st, args: [("ret", st, proj_field(args[0], "", "1"))]
PYFN["fst"] = lambda eng, st, args: [("ret", st, proj_field(args[0], "", "0"))]


@model("BTreeMap::keys", "BTreeMap::values", "HashMap::keys", "HashMap::values", "Map::keys", "Map::values", "BTreeMap::into_values", "BTreeMap::into_keys", "Map::into_values", "HashMap::into_values")
def m_keys(eng, st, a, cx):
    form = "keys" if cx.name.endswith("keys") else "values"
    return ret(st, to_iter(eng, st, D(eng, st, a[0]), "BTreeMap<K, V>", form))


# ---- iterator adapters ----------------------------------------------------------------
def it_of(eng, st, v, cx):
    if v.k == "ref":
        c = D(eng, st, v)
        if c.k == "it":
            return mk("it", "byref", v)
        return mk("it", "byref", v)
    if v.k == "it":
        return v
    return to_iter(eng, st, v, cx.selfty())


def local_iter(eng, cx):
    return is_local_body(eng, cx)


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::map_while", "Iterator::skip_while")
def m_adapt(eng, st, a, cx):
    if local_iter(eng, cx):
        return None
    return ret(st, mk("it", cx.name.split("::")[1], it_of(eng, st, a[0], cx), a[1]))


@model("Iterator::flat_map")
def m_flatmap(eng, st, a, cx):
    return ret(st, mk("it", "flat_map", it_of(eng, st, a[0], cx), a[1], None, None))


@model("Iterator::flatten")
def m_flatten(eng, st, a, cx):
    ty = None
    k = cx.callee.get("key")
    it = it_of(eng, st, a[0], cx)
    # item type: Option/Result are flattened by variant, anything else by element
    rt = cx.retty() or ""
    inner = generic_args(rt)
    src = inner[0] if inner else ""
    ty = item_type(src, eng, it)
    if it.a[0] in ("list", "empty"):
        # a known number of items: one after the other
        xs = it.a[1] if it.a[0] == "list" else ()
        if len(xs) <= 4:
            res = None
            for x in xs:
                y = to_iter(eng, st, x, ty)
                res = y if res is None else mk("it", "chain", res, y)
            return ret(st, res if res is not None else mk("it", "empty"))
    return ret(st, mk("it", "flat_map", it, None, None, ty))


def item_type(src, eng, it):
    if it.a[0] == "map":
        t = closure_retty(eng, it.a[2])
        if t:
            return t
    g = generic_args(src)
    h = headt(src)
    if h in ("Values", "IntoValues", "ValuesMut") and len(g) > 1:
        return g[1]
    if h in ("Iter", "IntoIter", "Keys", "IterMut") and g:
        return g[0]
    return None


@model("Option::into_iter")
def m_optiter(eng, st, a, cx):
    return ret(st, to_iter(eng, st, a[0], "Option<T>"))


@model("Option::flatten_")
def m_none(eng, st, a, cx):
    return None


@model("Iterator::enumerate")
def m_enum(eng, st, a, cx):
    return ret(st, mk("it", "enumerate", it_of(eng, st, a[0], cx), INT(0)))


@model("Iterator::take", "Iterator::skip")
def m_take(eng, st, a, cx):
    return ret(st, mk("it", cx.name.split("::")[1], it_of(eng, st, a[0], cx), a[1]))


@model("Iterator::chain", "Iterator::zip")
def m_chain(eng, st, a, cx):
    b = a[1] if a[1].k == "it" else to_iter(eng, st, a[1], cx.targ(1))
    return ret(st, mk("it", cx.name.split("::")[1], it_of(eng, st, a[0], cx), b))


@model("Iterator::rev")
def m_rev(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    if it.a[0] == "list":
        return ret(st, lst(tuple(reversed(it.a[1]))))
    if it.a[0] == "all" and it.a[2] == "val":
        return ret(st, mk("it", "all", it.a[1], "rev", it.a[3], None))
    return ret(st, mk("it", "opaque", mk("reversed", it)))


@model("Iterator::by_ref")
def m_byref(eng, st, a, cx):
    return ret(st, a[0])


@model("Iterator::peekable")
def m_peekable(eng, st, a, cx):
    return ret(st, mk("it", "peek", it_of(eng, st, a[0], cx), None))


@model("Peekable::peek")
def m_peek(eng, st, a, cx):
    it = D(eng, st, a[0])
    if it.k == "it" and it.a[0] == "peek":
        if it.a[2] is not None:
            return ret(st, it.a[2])
        out = []
        for o in step(eng, st, it.a[1]):
            if o[0] == "item":
                eng.store(o[1], a[0], mk("it", "peek", o[2], Some(o[3])))
                out.append(("ret", o[1], Some(o[3])))
            elif o[0] == "none":
                eng.store(o[1], a[0], mk("it", "peek", o[2], NONE))
                out.append(("ret", o[1], NONE))
            elif o[0] == "skip":
                out.append(("skip", o[1], o[3]))
            else:
                out.append(o[3])
        return out


@model("Iterator::eq", "Iterator::ne", "Iterator::cmp", "Iterator::partial_cmp", "Iterator::lt", "Iterator::le", "Iterator::gt", "Iterator::ge")
def m_itercmp(eng, st, a, cx):
    """element by element"""
    its = [to_iter(eng, st, D(eng, st, x) if x.k == "ref" and D(eng, st, x).k == "it" else x, None) for x in a]
    what = cx.name.split("::")[1]
    if what in ("eq", "ne") and all(i.a[0] == "all" and i.a[3] == 0 and i.a[2] in ("val", "mut", "map", "rev") for i in its) and its[0].a[2] == its[1].a[2]:
        t = rel(its[0].a[1], "=", its[1].a[1])
        return ret(st, NOT(t) if what == "ne" else t)
    t = mk("call", "Iterator::" + ("eq" if what == "ne" else what), tuple(its))
    return ret(st, NOT(t) if what == "ne" else t)


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    r = a[0]
    it = D(eng, st, r)
    if it.k == "adt" and it.a[0] in ("Range",):
        it = to_iter(eng, st, it)
    if it.k != "it":
        it = to_iter(eng, st, it, cx.selfty()) if it.k in ("coll", "arr") else mk("it", "opaque", it)
    if cx.name.endswith("next_back"):
        if it.a[0] == "list":
            xs = it.a[1]
            if not xs:
                return ret(st, NONE)
            eng.store(st, r, lst(xs[:-1]))
            return ret(st, Some(xs[-1]))
        it = mk("it", "opaque", mk("reversed", it))
    out = []
    try:
        outs = step(eng, st.copy(), it)
    except NeedWiden:
        if eng.unrolling or eng.approx:
            raise
        # the first element found in a sequence of unknown length
        fresh = first_item(eng, st, it)
        st.seq += 1
        rest = mk("it", "opaque", mk("rest", mk("int", eng.newL())))
        outs = [("item", s, rest, v) if k == "brk" else ("none", s, EMPTY, None) if k == "done" else ("out", s, None, (k, s, v)) for k, s, v in fresh]
    for o in outs:
        if o[0] == "item":
            if r.k == "ref":
                eng.store(o[1], r, o[2])
            out.append(("ret", o[1], Some(o[3])))
        elif o[0] == "none":
            if r.k == "ref":
                eng.store(o[1], r, o[2])
            out.append(("ret", o[1], NONE))
        elif o[0] == "skip":
            if r.k == "ref":
                eng.store(o[1], r, o[2])
            out.append(("skip", o[1], o[3]))
        else:
            out.append(o[3])
    return out


@model("Iterator::nth")
def m_nth(eng, st, a, cx):
    if a[1].k != "int" or a[1].a[0] > 6:
        return None
    work = [(st, 0)]
    out = []
    n = a[1].a[0]
    while work:
        s, i = work.pop()
        for k, s2, v in m_next(eng, s, a, cx2(cx, "Iterator::next")):
            if k != "ret" or i == n or v is NONE:
                out.append((k, s2, v))
            else:
                work.append((s2, i + 1))
    return out


def cx2(cx, name):
    return Ctx(cx.c, cx.callee, cx.fr, cx.term, name)


def done_val(eng, outs, fin):
    res = []
    for k, s, v in outs:
        if k == "done":
            res.extend(fin(s))
        elif k == "brk":
            res.append(("ret", s, v))
        else:
            res.append((k, s, v))
    return res


@model("Iterator::all", "Iterator::any")
def m_allany(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    al = cx.name.endswith("all")
    it = it_of(eng, st, a[0], cx)
    whole = D(eng, st, a[0]) if it.a[0] == "byref" else it
    c = identity_iter(whole) if whole.k == "it" else None
    if c is not None and c.k != "coll" and whole.a[2] == "val":
        # every element is (one is not) an element of another collection: a subset
        el = mk("sym", "an element")
        outs = eng.call_value(st.copy(), a[1], [el])
        if len(outs) == 1 and outs[0][0] == "ret":
            v = outs[0][2] if al else NOT(outs[0][2])
            if v.k == "call" and v.a[0] == "contains" and v.a[1][1] is el and not mentions(v.a[1][0], el):
                t = call("is_subset", c, v.a[1][0])
                return ret(st, t if al else NOT(t))

    def on(s, x):
        out = []
        for kind, s2, v in eng.call_value(s, a[1], [x]):
            if kind != "ret":
                out.append((kind, s2, v))
                continue
            for t, s3 in split_bool(eng, s2, v):
                out.append(("cont", s3, None) if t == al else ("brk", s3, BOOL(not al)))
        return out
    return done_val(eng, consume(eng, st, it, on), lambda s: ret(s, BOOL(al)))


@model("Iterator::find", "Iterator::find_map", "Iterator::position")
def m_find(eng, st, a, cx):
    if is_local_body(eng, cx):
        return None
    it = it_of(eng, st, a[0], cx)
    m = cx.name.split("::")[1]
    if m == "position" and it.a[0] == "byref":
        it = D(eng, st, a[0])
        if it.k != "it":
            return None
        eng.store(st, a[0], mk("it", "lent"))
    if m == "position":
        it = mk("it", "enumerate", it, INT(0))

    def on(s, x):
        out = []
        y = proj_field(x, "", "1") if m == "position" else x
        for kind, s2, v in eng.call_value(s, a[1], [y]):
            if kind != "ret":
                out.append((kind, s2, v))
                continue
            if m == "find_map":
                for p, s3 in split_opt(eng, s2, v):
                    out.append(("cont", s3, None) if p is None else ("brk", s3, Some(p)))
            else:
                for t, s3 in split_bool(eng, s2, v):
                    out.append(("brk", s3, Some(proj_field(x, "", "0") if m == "position" else x)) if t else ("cont", s3, None))
        return out
    return done_val(eng, consume(eng, st, it, on), lambda s: ret(s, NONE))


@model("Iterator::for_each")
def m_foreach(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)

    def on(s, x):
        return [("cont", s2, None) if k == "ret" else (k, s2, v) for k, s2, v in eng.call_value(s, a[1], [x])]
    return done_val(eng, consume(eng, st, it, on), lambda s: ret(s, UNIT))


TRY = {"Option": ("Some", "None"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break")}


def trying(cx, v):
    """-> (type, variant to go on with, variant to stop with)"""
    h = headt(cx.retty())
    if h not in TRY and v is not None and v.k == "adt":
        h = v.a[0]
    if h not in TRY:
        h = "Result"
    return (h,) + TRY[h]


def make_try(h, vn, x):
    return adt(h, vn, () if vn == "None" else ("0",), () if vn == "None" else (x,))


@model("Iterator::try_for_each")
def m_tryforeach(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    seen = [trying(cx, None)]

    def on(s, x):
        out = []
        for k, s2, v in eng.call_value(s, a[1], [x]):
            if k != "ret":
                out.append((k, s2, v))
                continue
            h, go, stop = seen[0] = trying(cx, v)
            for vn, s3 in split_var(eng, s2, v, h):
                if vn == go:
                    out.append(("cont", s3, None))
                else:
                    out.append(("brk", s3, make_try(h, stop, None if stop == "None" else proj_field(v, stop, "0"))))
        return out
    return done_val(eng, consume(eng, st, it, on), lambda s: ret(s, make_try(seen[0][0], seen[0][1], UNIT)))


@model("Iterator::fold", "Iterator::try_fold")
def m_fold(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    return do_fold(eng, st, it, a[1], a[2], cx, cx.name.endswith("try_fold"))


def do_fold(eng, st, it, init, f, cx, tr=False, wrap=None):
    acc = eng.temp(st, init)
    seen = [trying(cx, None)]

    def on(s, x):
        out = []
        for k, s2, v in eng.call_value(s, f, [s.cells[acc], x]):
            if k != "ret":
                out.append((k, s2, v))
            elif tr:
                h, go, stop = seen[0] = trying(cx, v)
                for vn, s3 in split_var(eng, s2, v, h):
                    if vn == go:
                        s3.cells[acc] = proj_field(v, vn, "0")
                        out.append(("cont", s3, None))
                    else:
                        out.append(("brk", s3, make_try(h, stop, None if stop == "None" else proj_field(v, stop, "0"))))
            else:
                s2.cells[acc] = v
                out.append(("cont", s2, None))
        return out

    def fin(s):
        v = s.cells.pop(acc)
        if tr:
            v = make_try(seen[0][0], seen[0][1], v)
        if wrap:
            v = wrap(v)
        return ret(s, v)
    return done_val(eng, consume(eng, st, it, on), fin)


@model("Iterator::reduce")
def m_reduce(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    out = []
    for o in step(eng, st, it):
        if o[0] == "item":
            out.extend(do_fold(eng, o[1], o[2], o[3], a[1], cx, wrap=Some))
        elif o[0] == "none":
            out.append(("ret", o[1], NONE))
        elif o[0] == "skip":
            out.append(("skip", o[1], o[3]))
        else:
            out.append(o[3])
    return out


@model("Iterator::count")
def m_count(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    c = identity_iter(it)
    if c is not None:
        return ret(st, length(c))
    return collect(eng, st, it, "vec", lambda v: length(v))


@model("Iterator::last")
def m_last(eng, st, a, cx):
    it = it_of(eng, st, a[0], cx)
    c = identity_iter(it)
    if c is not None:
        out = []
        for t, s in split_bool(eng, st, rel(length(c), ">", INT(0))):
            out.append(("ret", s, Some(proj_index(c, sub(length(c), INT(1)))) if t else NONE))
        return out


def collect_kind(ty):
    h = headt(ty)
    if h in SETS:
        return "set"
    if h in MAPS:
        return "map"
    if h in ("Vec", "Box", "slice", "VecDeque", "Arc", "Rc"):
        return "vec"
    if h == "String":
        return "text"
    return None


def push(v, kind, x):
    if kind == "map":
        return mk("coll", "map", segs_of(v) + (("kv", proj_field(x, "", "0"), proj_field(x, "", "1")),)) if v.k == "coll" else mk("coll", "map", (("all", v), ("kv", proj_field(x, "", "0"), proj_field(x, "", "1"))))
    if v.k == "coll" or v.k == "arr":
        return mk("coll", kind if v.k == "arr" else v.a[0], segs_of(v) + (("one", x),))
    return mk("coll", kind, (("all", v), ("one", x)))


def collect(eng, st, it, kind, fin=lambda v: v, base=None, wrapk=None):
    """collect `it`; wrapk: None | 'Result' | 'Option' -- items are wrapped"""
    base = base if base is not None else (STR("") if kind == "text" else mk("coll", kind, ()))
    wrap = {"Result": Ok, "Option": Some, None: lambda v: v}[wrapk]
    if wrapk is None and kind != "text":
        c = identity_iter(it)
        if kind == "set" and c is not None and c.k == "setof":
            c = c.a[0]
        if kind == "map" and c is not None and not (it.a[2] == "map" and c.k != "setof"):
            c = None
        if c is not None:
            segs = segs_of(base) + (segs_of(c) if c.k == "coll" and c.a[0] == kind else (("all", c),))
            return ret(st, fin(coll(kind, segs)))
    if wrapk is None and kind == "vec" and it.a[0] == "take" and it.a[2].k != "int":
        # the first n elements
        c = identity_iter(it.a[1])
        if c is not None and c.k != "coll":
            out = []
            for t, s in split_bool(eng, st, rel(it.a[2], "<=", length(c))):
                x = slice_term(s, c, INT(0), it.a[2]) if t else c
                out.append(("ret", s, fin(coll(kind, segs_of(base) + (("all", x),)))))
            return out
    acc = eng.temp(st, base)

    def put(s, x):
        s.cells[acc] = cat([s.cells[acc], as_text(x)]) if kind == "text" else push(s.cells[acc], kind, x)

    def on(s, x):
        if wrapk is None:
            put(s, x)
            return [("cont", s, None)]
        out = []
        for v, s2 in split_var(eng, s, x, wrapk):
            if v in ("Ok", "Some"):
                put(s2, proj_field(x, v, "0"))
                out.append(("cont", s2, None))
            else:
                out.append(("brk", s2, NONE if wrapk == "Option" else Err(proj_field(x, "Err", "0"))))
        return out
    return done_val(eng, consume(eng, st, it, on), lambda s: ret(s, wrap(fin(s.cells.pop(acc)))))


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(eng, st, a, cx):
    if is_local_body(eng, cx) and not cx.name.startswith("Iterator"):
        return None
    ty = cx.retty() if cx.term is not None and cx.term[0] == "call" else None
    if cx.name == "FromIterator::from_iter":
        ty = cx.selfty() or ty
        it = a[0] if a[0].k == "it" else to_iter(eng, st, D(eng, st, a[0]), cx.targ(2) or cx.targ(1))
    else:
        it = it_of(eng, st, a[0], cx)
        ty = ty or cx.targ(1)
    h = headt(ty)
    wrapk = None
    if h in ("Result", "Option"):
        wrapk = h
        g = generic_args(ty)
        ty = g[0] if g else ""
        if ty in ("()", ""):
            return collect(eng, st, it, "vec", lambda v: UNIT, wrapk=wrapk)
    kind = collect_kind(ty)
    if kind is None:
        fn = find_impl(eng, headt(ty), "from_iter", "FromIterator")
        return None
    return collect(eng, st, it, kind, joined if ty and ty.endswith("Vec<u8>") else (lambda v: v), wrapk=wrapk)


def is_bytevec(cx):
    ts = [cx.targ(i) for i in range(len(cx.callee.get("targs", [])))]
    return "u8" in ts[:2] or (cx.selfty() or "").endswith("Vec<u8>") or any((t or "").endswith("Vec<u8>") for t in ts[:1])


def joined(v):
    """a vector of bytes made of whole texts is their concatenation"""
    if v.k != "coll" or not any(s[0] == "all" for s in v.a[1]):
        return v
    if all(s[0] == "all" or s[0] == "one" and s[1].k == "int" and 0 <= s[1].a[0] < 256 for s in v.a[1]):
        xs = []
        ones = b""
        for s in v.a[1] + (None,):
            if s is not None and s[0] == "one":
                ones += bytes([s[1].a[0]])
                continue
            if ones:
                xs.append(STR(ones.decode()) if all(32 <= b < 127 for b in ones) else mk("bytes", ones))
                ones = b""
            if s is not None:
                xs.append(s[1])
        return cat(xs)
    return v


@model("Extend::extend", "Vec::extend_from_slice", "Vec::append", "BTreeSet::append", "BTreeMap::append")
def m_extend(eng, st, a, cx):
    base = D(eng, st, a[0])
    h = headt(cx.selfty()) if cx.name.startswith("Extend") else cx.name.split("::")[0]
    kind = collect_kind(h) or "vec"
    src = D(eng, st, a[1]) if a[1].k == "ref" else a[1]
    if cx.name.endswith("append"):
        eng.store(st, a[1], mk("coll", kind, ()))
    it = src if src.k == "it" else to_iter(eng, st, src, cx.targ(1) if cx.name.startswith("Extend") else None)
    out = []
    hold = {}

    def fin(v):
        return v
    bytes_ = kind == "vec" and is_bytevec(cx)
    for k, s, v in collect(eng, st, it, kind, base=base):
        if k == "ret":
            if bytes_:
                v = joined(v)
            eng.store(s, a[0], v)
            out.append(("ret", s, UNIT))
        else:
            out.append((k, s, v))
    return out


@model("BitOr::bitor")
def m_bitor(eng, st, a, cx):
    """the union of two sets"""
    if headt(cx.selfty()) not in SETS:
        return None
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    return [(k, s, v) for k, s, v in collect(eng, st, to_iter(eng, st, y), "set", base=x)]


# ---- collections -------------------------------------------------------------------------
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def m_vecnew(eng, st, a, cx):
    return ret(st, mk("coll", "vec", ()))


@model("BTreeSet::new", "HashSet::new", "HashSet::with_capacity")
def m_setnew(eng, st, a, cx):
    return ret(st, mk("coll", "set", ()))


@model("BTreeMap::new", "HashMap::new", "Map::new", "HashMap::with_capacity", "Map::with_capacity")
def m_mapnew(eng, st, a, cx):
    return ret(st, mk("coll", "map", ()))


@model("Box::new_uninit")
def m_uninit(eng, st, a, cx):
    return ret(st, mk("boxuninit"))


@model("boxed::box_assume_init_into_vec_unsafe", "boxed::box_new", "Box::write", "vec::from_elem_")
def m_vecmacro(eng, st, a, cx):
    v = a[0] if len(a) == 1 else a[1]
    v = D(eng, st, v)
    while v.k in ("adt", "with", "clobbered"):
        if v.k == "with":
            v = v.a[3]
        elif v.k == "clobbered":
            v = v.a[1]
        else:
            v = v.a[3][0]
    if v.k == "arr":
        return ret(st, mk("coll", "vec", tuple(("one", x) for x in v.a[0])))
    return ret(st, v)


@model("VecDeque::push_front")
def m_pushfront(eng, st, a, cx):
    eng.store(st, a[0], mk("coll", "vec", (("one", a[1]),) + segs_of(D(eng, st, a[0]))))
    return ret(st, UNIT)


@model("Vec::push", "VecDeque::push_back")
def m_push(eng, st, a, cx):
    eng.store(st, a[0], push(D(eng, st, a[0]), "vec", a[1]))
    return ret(st, UNIT)


@model("Vec::insert")
def m_vinsert(eng, st, a, cx):
    v = D(eng, st, a[0])
    if a[1] is length(v):
        return m_push(eng, st, [a[0], a[2]], cx)
    if a[1] is INT(0):
        eng.store(st, a[0], mk("coll", "vec", (("one", a[2]),) + segs_of(v)))
        return ret(st, UNIT)


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "String::shrink_to_fit", "VecDeque::reserve", "HashMap::reserve", "HashSet::reserve", "HashMap::shrink_to_fit", "HashSet::shrink_to_fit")
def m_reserve(eng, st, a, cx):
    return ret(st, UNIT)


@model("Vec::clear", "BTreeSet::clear", "BTreeMap::clear", "String::clear", "VecDeque::clear")
def m_clear(eng, st, a, cx):
    if cx.name.startswith("String"):
        eng.store(st, a[0], STR(""))
        return ret(st, UNIT)
    k = {"BTreeSet": "set", "BTreeMap": "map"}.get(cx.name.split("::")[0], "vec")
    eng.store(st, a[0], mk("coll", k, ()))
    return ret(st, UNIT)


@model("Vec::pop", "VecDeque::pop_back", "VecDeque::pop_front")
def m_pop(eng, st, a, cx):
    return pop(eng, st, a, cx.name.endswith("pop_front"))


def pop(eng, st, a, front):
    v = D(eng, st, a[0])
    if v.k in ("coll", "arr"):
        segs = segs_of(v)
        if not segs:
            return ret(st, NONE)
        x = segs[0 if front else -1]
        if x[0] == "one":
            eng.store(st, a[0], mk("coll", "vec", segs[1:] if front else segs[:-1]))
            return ret(st, Some(x[1]))
    tag = ("front",) if front else ()
    out = []
    st.symn = True
    for t, s in split_bool(eng, st, rel(length(v), ">", INT(0))):
        if t:
            eng.store(s, a[0], mk("poprest", v, *tag))
            out.append(("ret", s, Some(mk("popped", v, *tag))))
        else:
            if v.k == "phi":
                s.exh = s.exh | frozenset([v.a[0]])
            out.append(("ret", s, NONE))
    return out


@model("Vec::remove", "Vec::swap_remove")
def m_remove(eng, st, a, cx):
    """the last element, or the first one (the index has been checked)"""
    v = D(eng, st, a[0])
    n = length(v)
    if a[1] is sub(n, INT(1)):
        front = False
    elif a[1] is INT(0) and cx.name.endswith("::remove"):
        front = True
    else:
        return None
    out = []
    for k, s, x in pop(eng, st, a, front):
        if k != "ret":
            out.append((k, s, x))
        elif not (x.k == "adt" and x.a[1] == "None"):
            out.append((k, s, proj_field(x, "Some", "0")))
    return out


@model("BTreeSet::insert", "HashSet::insert")
def m_setinsert(eng, st, a, cx):
    v = D(eng, st, a[0])
    eng.store(st, a[0], push(v, "set", D(eng, st, a[1])))
    return ret(st, NOT(call("contains", v, D(eng, st, a[1]))))


@model("BTreeSet::contains", "HashSet::contains", "slice::contains", "Vec::contains")
def m_contains(eng, st, a, cx):
    return contained(eng, st, D(eng, st, a[0]), D(eng, st, a[1]))


def contained(eng, st, v, x):
    if v.k in ("coll", "arr"):
        segs = list(segs_of(v))
        work = [(st, len(segs) - 1)]
        out = []
        while work:
            s, i = work.pop()
            if i < 0:
                out.append(("ret", s, FALSE))
                continue
            g = segs[i]
            if g[0] == "one":
                for t, s2 in compare_eq(eng, s, g[1], x):
                    for b, s3 in split_bool(eng, s2, t):
                        if b:
                            out.append(("ret", s3, TRUE))
                        else:
                            work.append((s3, i - 1))
            else:
                sub_ = coll(v.a[0] if v.k == "coll" else "vec", (g,))
                for b, s3 in split_bool(eng, s, call("contains", sub_, x)):
                    if b:
                        out.append(("ret", s3, TRUE))
                    else:
                        work.append((s3, i - 1))
        return out
    return ret(st, call("contains", v, x))


@model("BTreeSet::is_subset", "HashSet::is_subset")
def m_subset(eng, st, a, cx):
    return ret(st, call("is_subset", D(eng, st, a[0]), D(eng, st, a[1])))


@model("BTreeSet::is_superset", "HashSet::is_superset")
def m_superset(eng, st, a, cx):
    return ret(st, call("is_subset", D(eng, st, a[1]), D(eng, st, a[0])))


def map_lookup(eng, st, m, k):
    """[(present, state, value)]"""
    k = as_slice(k)
    if m.k != "coll":
        t = mk("mget", m, k)
        if k.k == "mkey" and k.a[0] is m:
            return [(True, st, mk("mval", m, k.a[1]))]
        return [(v == "Some", s, mapval(m, k) if v == "Some" else None) for v, s in split_var(eng, st, t, "Option")]
    segs = m.a[1]
    out = []
    work = [(st, len(segs) - 1)]
    while work:
        s, i = work.pop()
        if i < 0:
            out.append((False, s, None))
            continue
        g = segs[i]
        if g[0] in ("kv", "mod"):
            if g[1] is k:
                out.append((True, s, g[2]))
                continue
            for b, s2 in split_bool(eng, s, rel(g[1], "=", k)):
                if b:
                    out.append((True, s2, g[2]))
                else:
                    work.append((s2, i - 1))
            continue
        if g[0] == "all":
            out.extend(map_lookup(eng, s, g[1], k)) if i == 0 else None
            if i > 0:
                for p, s2, v in map_lookup(eng, s, g[1], k):
                    if p:
                        out.append((p, s2, v))
                    else:
                        work.append((s2, i - 1))
            continue
        pre = mk("coll", "map", segs[: i + 1])
        t = mk("mget", pre, k)
        for v, s2 in split_var(eng, s, t, "Option"):
            out.append((v == "Some", s2, proj_field(t, "Some", "0") if v == "Some" else None))
    return out


@model("BTreeMap::get", "HashMap::get", "Map::get")
def m_mapget(eng, st, a, cx):
    m, k = D(eng, st, a[0]), norm_bytes(D(eng, st, a[1]))
    return [("ret", s, Some(v) if p else NONE) for p, s, v in map_lookup(eng, st, m, k)]


@model("BTreeMap::contains_key", "HashMap::contains_key", "Map::contains_key")
def m_haskey(eng, st, a, cx):
    m, k = D(eng, st, a[0]), norm_bytes(D(eng, st, a[1]))
    return [("ret", s, BOOL(p)) for p, s, v in map_lookup(eng, st, m, k)]


@model("BTreeMap::get_mut", "HashMap::get_mut", "Map::get_mut")
def m_mapgetmut(eng, st, a, cx):
    r = base_ref(eng, st, a[0])
    m, k = D(eng, st, a[0]), norm_bytes(D(eng, st, a[1]))
    return [("ret", s, Some(mk("ref", r.a[0], r.a[1] + (("key", k),))) if p else NONE) for p, s, v in map_lookup(eng, st, m, k)]


def base_ref(eng, st, r):
    if r.k != "ref":
        return r
    while True:
        x = eng.rd(st, r.a[0], r.a[1])
        if x.k != "ref":
            return r
        r = x


def put_kv(m, k, v):
    if m.k == "coll":
        return mk("coll", m.a[0], m.a[1] + (("kv", k, v),))
    return mk("coll", "map", (("all", m), ("kv", k, v)))


@model("BTreeMap::insert", "HashMap::insert", "Map::insert")
def m_mapinsert(eng, st, a, cx):
    m = D(eng, st, a[0])
    k = norm_bytes(a[1])
    eng.store(st, a[0], put_kv(m, k, a[2]))
    st.ev = st.ev + (("minsert", m, k, a[2]),)
    if m.k == "coll" and all(s[0] == "kv" and s[1] is not k for s in m.a[1]) and not m.a[1]:
        return ret(st, NONE)
    return ret(st, mk("oldval", m, k))


@model("BTreeMap::entry", "HashMap::entry", "Map::entry")
def m_entry(eng, st, a, cx):
    r, k = base_ref(eng, st, a[0]), a[1]
    if r.k != "ref":
        return None
    return [("ret", s, adt("Entry", "Occupied", ("0",), (mk("entry", r, k),)) if p else adt("Entry", "Vacant", ("0",), (mk("entry", r, k),)))
            for p, s, v in map_lookup(eng, st, D(eng, st, r), k)]


def entry_parts(eng, st, e):
    """(occupied, reference to the map, key)"""
    e = D(eng, st, e)
    if e.k != "adt" or e.a[1] not in ("Occupied", "Vacant") or not e.a[3] or e.a[3][0].k != "entry":
        return None
    return (e.a[1] == "Occupied",) + e.a[3][0].a


def entry_slot(r, k):
    return mk("ref", r.a[0], r.a[1] + (("key", k),))


def put_entry(eng, s, r, k, v):
    m = D(eng, s, r)
    s.ev = s.ev + (("minsert", m, k, v),)
    eng.store(s, r, put_kv(m, k, v))
    return entry_slot(r, k)


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_insert_with_key", "Entry::or_default")
def m_orinsert(eng, st, a, cx):
    e = entry_parts(eng, st, a[0])
    if e is None:
        return None
    there, r, k = e
    if there:
        return ret(st, entry_slot(r, k))
    if cx.name.endswith("or_insert"):
        vals = [("ret", st, a[1])]
    elif cx.name.endswith("with_key"):
        vals = eng.call_value(st, a[1], [eng.temp(st, k)])
    elif cx.name.endswith("with"):
        vals = eng.call_value(st, a[1], [])
    else:
        vals = [("ret", st, default_of(strip_ref(cx.retty())))]
    return [("ret", s, put_entry(eng, s, r, k, v)) if kind == "ret" else (kind, s, v) for kind, s, v in vals]


@model("Entry::and_modify")
def m_andmodify(eng, st, a, cx):
    e = entry_parts(eng, st, a[0])
    if e is None:
        return None
    there, r, k = e
    if not there:
        return ret(st, a[0])
    return [("ret", s, a[0]) if kind == "ret" else (kind, s, v) for kind, s, v in eng.call_value(st, a[1], [entry_slot(r, k)])]


@model("Entry::key")
def m_entrykey(eng, st, a, cx):
    e = entry_parts(eng, st, a[0])
    return None if e is None else ret(st, e[2])


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::key", "VacantEntry::key", "VacantEntry::into_key",
       "OccupiedEntry::insert", "VacantEntry::insert", "OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def m_slotentry(eng, st, a, cx):
    e = D(eng, st, a[0])
    if e.k != "entry":
        return None
    r, k = e.a
    op = cx.name.split("::")[1]
    if "key" in op:
        return ret(st, k)
    if cx.name == "VacantEntry::insert":
        return ret(st, put_entry(eng, st, r, k, a[1]))
    if op == "insert":
        old = eng.deref(st, entry_slot(r, k))
        put_entry(eng, st, r, k, a[1])
        return ret(st, old)
    if op in ("get", "get_mut", "into_mut"):
        return ret(st, entry_slot(r, k))


# ---- serde_json values ----------------------------------------------------------------
@model("Value::is_object", "Value::is_array", "Value::is_string", "Value::is_null", "Value::is_boolean", "Value::is_number")
def m_isval(eng, st, a, cx):
    vn = {"is_object": "Object", "is_array": "Array", "is_string": "String", "is_null": "Null", "is_boolean": "Bool", "is_number": "Number"}[cx.name.split("::")[1]]
    return ret(st, eng.isv(D(eng, st, a[0]), "Value", vn))


@model("Value::as_object", "Value::as_array", "Value::as_str")
def m_asval(eng, st, a, cx):
    vn = {"as_object": "Object", "as_array": "Array", "as_str": "String"}[cx.name.split("::")[1]]
    v = D(eng, st, a[0])
    out = []
    for t, s in split_bool(eng, st, eng.isv(v, "Value", vn)):
        out.append(("ret", s, Some(proj_field(v, vn, "0")) if t else NONE))
    return out


# ---- time, randomness, arithmetic -----------------------------------------------------
@model("SystemTime::elapsed")
def m_elapsed(eng, st, a, cx):
    st.seq += 1
    return ret(st, call("SystemTime::duration_since", icall("clock", st.seq), D(eng, st, a[0])))


@model("Duration::as_secs")
def m_assecs(eng, st, a, cx):
    d = D(eng, st, a[0])
    return ret(st, d.a[1][0] if d.k == "call" and d.a[0] == "Duration::from_secs" else call("Duration::as_secs", d))


@model("SystemTime::now", "Instant::now")
def m_now(eng, st, a, cx):
    st.seq += 1
    return ret(st, icall("clock", st.seq))


@model("rand::thread_rng", "rand::rng")
def m_rng(eng, st, a, cx):
    return ret(st, SYM("thread_rng"))


@model("Rng::gen", "Rng::random", "RngCore::next_u64", "rand::random")
def m_gen(eng, st, a, cx):
    st.seq += 1
    return ret(st, icall("random", st.seq, STR(cx.retty() or "")))


@model("u64::saturating_add", "usize::saturating_add")
def m_satadd(eng, st, a, cx):
    return ret(st, call("saturating_add", *sorted([a[0], a[1]], key=lambda t: t.id)))


@model("u64::checked_add", "usize::checked_add")
def m_chkadd(eng, st, a, cx):
    o = call("overflow", *sorted([a[0], a[1]], key=lambda t: t.id))
    return [("ret", s, NONE if t else Some(add(a[0], a[1]))) for t, s in split_bool(eng, st, o)]


@model("u64::checked_sub", "usize::checked_sub")
def m_chksub(eng, st, a, cx):
    return [("ret", s, Some(sub(a[0], a[1])) if t else NONE) for t, s in split_bool(eng, st, rel(a[0], ">=", a[1]))]


@model("usize::saturating_sub", "u64::saturating_sub")
def m_satsub(eng, st, a, cx):
    return [("ret", s, sub(a[0], a[1]) if t else INT(0)) for t, s in split_bool(eng, st, rel(a[0], ">=", a[1]))]


@model("u64::wrapping_add", "usize::wrapping_add")
def m_wrap(eng, st, a, cx):
    return ret(st, call("wrapping_add", a[0], a[1]))


@model("mem::take")
def m_memtake(eng, st, a, cx):
    v = D(eng, st, a[0])
    eng.store(st, a[0], default_of(cx.retty()))
    return ret(st, v)


@model("mem::replace")
def m_memreplace(eng, st, a, cx):
    v = D(eng, st, a[0])
    eng.store(st, a[0], a[1])
    return ret(st, v)


@model("mem::swap")
def m_memswap(eng, st, a, cx):
    x, y = D(eng, st, a[0]), D(eng, st, a[1])
    eng.store(st, a[0], y)
    eng.store(st, a[1], x)
    return ret(st, UNIT)


@model("mem::drop")
def m_drop(eng, st, a, cx):
    return ret(st, UNIT)


@model("Option::as_mut", "Option::as_deref_mut")
def m_asmut(eng, st, a, cx):
    v = D(eng, st, a[0])
    r = base_ref(eng, st, a[0])
    out = []
    for p, s in split_opt(eng, st, v):
        out.append(("ret", s, NONE if p is None else Some(mk("ref", r.a[0], r.a[1] + (("f", "Some", "0"),)))))
    return out


@model("Mutex::lock", "RwLock::read", "RwLock::write", "RefCell::borrow_")
def m_lock(eng, st, a, cx):
    m = D(eng, st, a[0])
    t = call("lock", m)
    out = []
    for v, s in split_var(eng, st, t, "Result"):
        out.append(("ret", s, Ok(mk("guard", m)) if v == "Ok" else Err(ERR)))
    return out


@model("Mutex::new", "RwLock::new")
def m_mutexnew(eng, st, a, cx):
    return ret(st, a[0])

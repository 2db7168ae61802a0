"""Hash-consed value-provenance terms.

A term names where a value comes from (a parameter, a field of it, the result
of a call on such values, a constructor application ...).  Terms are interned,
so equality is identity.
"""

_tab = {}
_n = [0]


class T(object):
    __slots__ = ("k", "a", "id", "_idx")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._idx = None
        _tab[key] = t
    return t


def INT(v):
    return mk("int", int(v))


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def BOOL(b):
    return TRUE if b else FALSE


def STR(s):
    return mk("str", s)


UNIT = mk("tup", ())


def SYM(n):
    return mk("sym", n)


def tup(*xs):
    return mk("tup", tuple(xs))


OPTION = "Option"
RESULT = "Result"


def adt(path, v, names, vals):
    return mk("adt", path, v, tuple(names), tuple(vals))


def Some(x):
    return adt("Option", "Some", ("0",), (x,))


NONE = adt("Option", "None", (), ())


def Ok(x):
    return adt("Result", "Ok", ("0",), (x,))


def Err(x):
    return adt("Result", "Err", ("0",), (x,))


def call(name, *args):
    return mk("call", name, tuple(args))


def icall(name, n, *args):
    return mk("icall", name, n, tuple(args))


# ---- collections -----------------------------------------------------------
# coll(kind, segs): kind in vec,set,map.  segs:
#   ('one', x) | ('kv', k, v) | ('all', c) | ('star', L, dom, alts) | ('hole', L, pid)
#   | ('mod', key, sub, base) -- the value at `key` changed from `base` to `sub`
# alts: tuple of (facts, segs)
SETTERMS = set()  # terms known to be sets: no element twice, in the order of a set


def is_set(t):
    return t.id in SETTERMS or t.k == "coll" and t.a[0] == "set" or t.k == "setof"


def coll(kind, segs):
    segs = tuple(segs)
    if len(segs) == 1 and segs[0][0] == "all" and (kind != "set" or is_set(segs[0][1])):
        return segs[0][1]
    return mk("coll", kind, segs)


def segs_of(c):
    if c.k == "coll":
        return c.a[1]
    if c.k in ("arr",):
        return tuple(("one", x) for x in c.a[0])
    return (("all", c),)


def arr(xs):
    return mk("arr", tuple(xs))


def iter_children(x):
    if isinstance(x, T):
        for y in x.a:
            yield y
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield y


def subterms(x, seen=None):
    """all T inside x (T or nested tuples), x included"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            if y.id in seen:
                continue
            seen.add(y.id)
            yield y
            st.extend(y.a)
        elif isinstance(y, (tuple, frozenset)):
            st.extend(y)


def contains(x, pred):
    for y in subterms(x):
        if pred(y):
            return True
    return False


def mentions(x, t):
    for y in subterms(x):
        if y is t:
            return True
    return False


# ---- display -----------------------------------------------------------------
SHOWN = {}


def show(t, depth=6):
    if not isinstance(t, T):
        return show_(t, depth)
    x = SHOWN.get((t.id, depth))
    if x is None:
        if len(SHOWN) > 300000:
            SHOWN.clear()
        x = show_(t, depth)
        if len(x) > 4000:
            x = x[:4000] + "…"
        SHOWN[(t.id, depth)] = x
    return x


def show_(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + "|".join(sorted(str(x) for x in t)) + "}"
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return "…"
    k, a = t.k, t.a
    d = depth - 1
    if k in ("int", "bool"):
        return str(a[0])
    if k == "str":
        return repr(a[0])
    if k == "sym":
        return a[0]
    if k == "fld":
        return "%s.%s%s" % (show(a[0], d), (a[1] + ":" if a[1] else ""), a[2])
    if k == "adt":
        n = a[1] if a[1] else a[0]
        if not a[3]:
            return n
        return "%s{%s}" % (n, ", ".join("%s=%s" % (x, show(y, d)) for x, y in zip(a[2], a[3])))
    if k == "tup":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if k == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1]))
    if k == "icall":
        return "%s#%s(%s)" % (a[0], a[1], ", ".join(show(x, d) for x in a[2]))
    if k == "rel":
        return "[%s %s %s]" % (show(a[0], d), a[2], show(a[1], d))
    if k == "cat":
        return "cat(" + " ++ ".join(show(x, d) for x in a[0]) + ")"
    if k == "coll":
        return "%s[%s]" % (a[0], ", ".join(show_seg(s, d) for s in a[1]))
    if k == "idx":
        return "i%s" % (".".join(str(x) for x in a[0]))
    if k == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if k in ("clo", "cor"):
        return "%s#%s" % (k, a[1])
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in a))


def show_seg(s, d=4):
    if d < 0:
        return "…"
    if s[0] == "star":
        return "*L%s over %s {%s}" % (s[1], show(s[2], d), " | ".join("%s => %s" % (show_facts(f, d), [show_seg(x, d) for x in g]) for f, g in s[3]))
    return s[0] + ":" + ",".join(show(x, d) for x in s[1:])


def show_facts(fs, d=4):
    if d < 0:
        return "…"
    return " & ".join(show_fact(f, d) for f in fs)


def show_fact(f, d=4):
    if f[0] == "var":
        return "%s is %s" % (show(f[1], d), "|".join(sorted(f[2])))
    if f[0] == "rel":
        return "%s %s %s" % (show(f[1], d), f[3], show(f[2], d))
    if f[0] == "iv" and f[3] >= (1 << 200):
        return "%s>=%s" % (show(f[1], d), f[2])
    if f[0] == "iv":
        return "%s in [%s,%s]" % (show(f[1], d), f[2], f[3])
    if f[0] == "bl":
        return "%s%s" % ("" if f[2] else "not ", show(f[1], d))
    if f[0] in ("all", "ex"):
        return "%s L%s over %s: {%s}" % (f[0], f[1], show(f[2], d), " | ".join(show_facts(x, d - 1) for x in f[3]))
    return str(f)

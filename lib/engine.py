"""Interprocedural, path-partitioned value-flow analysis over MIR.

An abstract interpretation: the abstract value of a place is a provenance term
(terms.py), the abstract state additionally holds branch facts (possible
variants, possible orderings, integer intervals, predicate outcomes) and an
effect log.  Calls to bodies in the dump are analysed in context; everything
else is an uninterpreted call or has a model (models.py).  Loops are brought to
a fixpoint: cells that change are widened to a loop symbol (append-only
collections to "what was there + one batch per element", counters and
iterators to a generic position, anything else to an opaque accumulator).
Nothing is executed and no solver is involved.
"""
import re
from terms import *
import mir

BIG = 1 << 200
U64 = (1 << 64) - 1
WIDE = ("Duration::as_millis", "Duration::as_micros", "Duration::as_nanos")
INTRANGE = {}
for _b in (8, 16, 32, 64, 128):
    INTRANGE["u%d" % _b] = (0, (1 << _b) - 1)
    INTRANGE["i%d" % _b] = (-(1 << _b - 1), (1 << _b - 1) - 1)
INTRANGE["usize"], INTRANGE["isize"] = INTRANGE["u64"], INTRANGE["i64"]
INTRANGE["char"] = (0, 0x10FFFF)
OPS = frozenset


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class NeedWiden(Budget):
    """stepping through an unbounded collection one element at a time"""


class Fork(Exception):
    """case distinction: a list of alternatives, each a tuple of facts"""

    def __init__(self, alts):
        self.alts = alts


def linear(t):
    """a number as a sum of atoms and a constant; the length of a text put together is the sum of its pieces'"""
    if t.k == "int":
        return {}, t.a[0]
    if t.k == "add":
        (x, n), (y, m) = linear(t.a[0]), linear(t.a[1])
        x = dict(x)
        for k, v in y.items():
            x[k] = x.get(k, 0) + v
        return x, n + m
    if t.k == "len" and t.a[0].k == "cat":
        out, n = {}, 0
        for p in t.a[0].a[0]:
            x, m = linear(length(p))
            n += m
            for k, v in x.items():
                out[k] = out.get(k, 0) + v
        return out, n
    return {t: 1}, 0


def by_pieces(a, b):
    """possible orderings of two lengths of texts put together from pieces"""
    (x, n), (y, m) = linear(a), linear(b)
    d = dict(x)
    for t, v in y.items():
        d[t] = d.get(t, 0) - v
    d = {t: v for t, v in d.items() if v}
    n -= m
    if any(t.k != "len" for t in d):
        return "<=>"
    if not d:
        return "<" if n < 0 else ">" if n > 0 else "="
    if all(v > 0 for v in d.values()):
        return ">" if n > 0 else "=>" if n == 0 else "<=>"
    if all(v < 0 for v in d.values()):
        return "<" if n < 0 else "<=" if n == 0 else "<=>"
    return "<=>"


class St(object):
    __slots__ = ("cells", "var", "rel", "iv", "bl", "eqc", "big", "ev", "exh", "symn", "seq", "cutat")

    def __init__(self):
        self.cells = {}
        self.var = {}
        self.rel = {}
        self.iv = {}
        self.bl = {}
        self.eqc = {}
        self.big = ()
        self.ev = ()
        self.exh = frozenset()
        self.symn = False
        self.seq = 0
        self.cutat = {}

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.var = dict(self.var)
        s.rel = dict(self.rel)
        s.iv = dict(self.iv)
        s.bl = dict(self.bl)
        s.eqc = dict(self.eqc)
        s.big = self.big
        s.ev = self.ev
        s.exh = self.exh
        s.symn = self.symn
        s.seq = self.seq
        s.cutat = self.cutat
        return s

    # ---- facts ---------------------------------------------------------
    def facts(self):
        out = []
        for t, v in self.var.items():
            out.append(("var", t, v))
        for (a, b), o in self.rel.items():
            out.append(("rel", a, b, o))
        for t, (lo, hi) in self.iv.items():
            out.append(("iv", t, lo, hi))
        for t, b in self.bl.items():
            out.append(("bl", t, b))
        out.extend(self.big)
        return out

    def delta(self, old):
        out = []
        for t, v in self.var.items():
            if old.var.get(t) != v:
                out.append(("var", t, v))
        for k, o in self.rel.items():
            if old.rel.get(k) != o:
                out.append(("rel", k[0], k[1], o))
        for t, v in self.iv.items():
            if old.iv.get(t) != v:
                out.append(("iv", t, v[0], v[1]))
        for t, b in self.bl.items():
            if old.bl.get(t) != b:
                out.append(("bl", t, b))
        seen = set(old.big)
        out.extend(x for x in self.big if x not in seen)
        return tuple(sorted(out, key=lambda f: (f[0], f[1].id if isinstance(f[1], T) else -1, f[2].id if isinstance(f[2], T) else -1)))

    def possible(self, a, b):
        """possible orderings of a relative to b"""
        if a is b:
            return "="
        if a.id > b.id:
            return flip(self.possible(b, a))
        p = self.rel.get((a, b), "<=>")
        if a.k in CONSTK and b.k in CONSTK and (a.k == b.k):
            if a.k == "int":
                return "<" if a.a[0] < b.a[0] else ">"
            return meet(p, "<>")
        ca, cb = self.eqc.get(a), self.eqc.get(b)
        if ca is not None and (cb is not None or b.k in CONSTK):
            q = self.possible(ca, cb if cb is not None else b) if (ca is not a) else "<=>"
            p = meet(p, q)
        elif cb is not None and a.k in CONSTK:
            p = meet(p, self.possible(a, cb))
        if a.k in ("len", "add") and b.k in ("len", "add"):
            p = meet(p, by_pieces(a, b))
        la, lb = self.ival(a), self.ival(b)
        if la and lb:
            if la[1] < lb[0]:
                p = meet(p, "<")
            elif la[0] > lb[1]:
                p = meet(p, ">")
            else:
                if la[1] <= lb[0]:
                    p = meet(p, "<=")
                if la[0] >= lb[1]:
                    p = meet(p, "=>")
        return p

    def atmost(self, x, pred):
        """x is known to be at most something that satisfies pred"""
        return any((a is x and pred(b) and not set(r) - set("<=")) or (b is x and pred(a) and not set(r) - set(">=")) for (a, b), r in self.rel.items())

    def ival(self, t):
        if t.k == "int":
            return (t.a[0], t.a[0])
        if t.k == "add" and t.a[1].k == "int":
            b = self.ival(t.a[0])
            if b:
                return (b[0] + t.a[1].a[0], b[1] + t.a[1].a[0])
        v = self.iv.get(t)
        if v is None and t.k in ("len", "idx", "nparts", "fld", "sym", "call", "icall", "at", "phi", "hdr"):
            return (1 if t.k == "nparts" else 0, BIG if t.k == "call" and t.a[0] in WIDE else U64)
        if v is None and t.k == "cast":
            return INTRANGE.get(t.a[1])
        return v

    def assume(self, f):
        k = f[0]
        if k == "rel":
            return self.assume_rel(f[1], f[2], f[3])
        if k == "var":
            t, vs = f[1], f[2]
            if t.k == "adt":
                return t.a[1] in vs
            cur = self.var.get(t)
            n = vs if cur is None else (cur & vs)
            if not n:
                return False
            self.var[t] = n
            return True
        if k == "bl":
            return self.assume_bool(f[1], f[2])
        if k == "iv":
            cur = self.ival(f[1]) or (-BIG, BIG)
            n = (max(cur[0], f[2]), min(cur[1], f[3]))
            if n[0] > n[1]:
                return False
            if f[1].k != "int":
                self.iv[f[1]] = n
            return True
        if k in ("all", "ex", "note", "pre"):
            if f not in self.big:
                self.big = self.big + (f,)
            return True
        raise Unsupported("fact " + str(k))

    def assume_rel(self, a, b, ops):
        if a.id > b.id:
            a, b, ops = b, a, flip(ops)
        p = meet(self.possible(a, b), ops)
        if not p:
            return False
        if a is b or (a.k in CONSTK and b.k in CONSTK):
            return True
        # integers against constants are kept as intervals too
        x, c, o = None, None, p
        if b.k == "int":
            x, c = a, b.a[0]
        elif a.k == "int":
            x, c, o = b, a.a[0], flip(p)
        if x is not None:
            off = 0
            if x.k == "add" and x.a[1].k == "int":
                off = x.a[1].a[0]
                x = x.a[0]
            c -= off
            lo, hi = self.ival(x) or (-BIG, BIG)
            if o == "=":
                lo, hi = max(lo, c), min(hi, c)
            elif o == "<":
                hi = min(hi, c - 1)
            elif o == "<=":
                hi = min(hi, c)
            elif o == ">":
                lo = max(lo, c + 1)
            elif o == "=>":
                lo = max(lo, c)
            elif o == "<>":
                if lo == c:
                    lo += 1
                if hi == c:
                    hi -= 1
            if lo > hi:
                return False
            was = self.ival(x) or (0, BIG)
            self.iv[x] = (lo, hi)
            f = picked(x)
            if f is not None and hi == 0 < was[1]:
                self.assume(("all",) + f[:2] + (f[3],))
            elif f is not None and was[0] < 1 <= lo:
                self.assume(("ex",) + f[:2] + (f[2],))
        for x, y, o in ((a, b, p), (b, a, flip(p))):
            f = picked(x, y)
            if f is not None:
                o = o.replace(">", "")
                if not o:
                    return False
                if o == "=":
                    self.assume(("all",) + f[:2] + (f[2],))
                elif o == "<":
                    self.assume(("ex",) + f[:2] + (f[3],))
        self.rel[(a, b)] = p
        if p == "=":
            if b.k in CONSTK:
                if not self._seteq(a, b):
                    return False
            elif a.k in CONSTK:
                if not self._seteq(b, a):
                    return False
        return True

    def _seteq(self, x, c):
        o = self.eqc.get(x)
        if o is not None and o is not c:
            return False
        self.eqc[x] = c
        return True

    def assume_bool(self, t, v):
        if t.k == "bool":
            return t.a[0] == v
        if t.k == "not":
            return self.assume_bool(t.a[0], not v)
        if t.k == "rel":
            o = t.a[2] if v else "".join(x for x in "<=>" if x not in t.a[2])
            return self.assume_rel(t.a[0], t.a[1], o)
        if t.k == "isv":
            vs = t.a[1] if v else t.a[2] - t.a[1]
            return self.assume(("var", t.a[0], vs))
        cur = self.bl.get(t)
        if cur is not None:
            return cur == v
        if t.k == "call" and t.a[0] == "starts_with" and t.a[1][1].k in ("str", "bytes"):
            if self.prefixed(t) not in (None, v):
                return False
            if v and not self.assume_rel(length(t.a[1][1]), length(t.a[1][0]), "<="):
                return False
        self.bl[t] = v
        return True

    def prefixed(self, t):
        """whether a text starts with a constant, by what is known of its other prefixes and its length"""
        x, p = t.a[1]
        for u, b in self.bl.items():
            if u.k == "call" and u.a[0] == "starts_with" and u.a[1][0] is x and u.a[1][1].k == p.k:
                q = u.a[1][1].a[0]
                if b and q.startswith(p.a[0]):
                    return True
                if not b and p.a[0].startswith(q) or b and not p.a[0].startswith(q):
                    return False
        n = self.ival(length(x))
        if n is not None and n[1] < length(p).a[0]:
            return False
        return None

    def truth(self, t):
        """True / False / None"""
        if t.k == "bool":
            return t.a[0]
        if t.k == "not":
            x = self.truth(t.a[0])
            return None if x is None else not x
        if t.k == "rel":
            p = self.possible(t.a[0], t.a[1])
            if all(x in t.a[2] for x in p):
                return True
            if not any(x in t.a[2] for x in p):
                return False
            return None
        if t.k == "isv":
            x = t.a[0]
            if x.k == "adt":
                return x.a[1] in t.a[1]
            cur = self.var.get(x)
            if cur is not None:
                if cur <= t.a[1]:
                    return True
                if not (cur & t.a[1]):
                    return False
            return None
        v = self.bl.get(t)
        if v is None and t.k == "call" and t.a[0] == "starts_with" and t.a[1][1].k in ("str", "bytes"):
            return self.prefixed(t)
        return v

    def decide(self, t):
        x = self.truth(t)
        if x is None:
            raise Fork([(("bl", t, True),), (("bl", t, False),)])
        return x


def picked(x, y=None):
    """x is the number of elements picked out of a collection (that has y elements): (loop, domain, picked when, left out when)"""
    if x.k != "len" or x.a[0].k != "coll" or x.a[0].a[0] != "vec" or len(x.a[0].a[1]) != 1:
        return None
    s = x.a[0].a[1][0]
    if s[0] != "star" or s[2].k != "dom" or y is not None and (s[2].a[0] != "all" or length(s[2].a[1]) is not y):
        return None
    if any(len(g) > 1 or g and g[0][0] != "one" for _, g in s[3]):
        return None
    return s[1], s[2], tuple(f for f, g in s[3] if g), tuple(f for f, g in s[3] if not g)


CONSTK = ("int", "bool", "str", "char", "bytes", "named", "strc")


def flip(o):
    return "".join(sorted({"<": ">", ">": "<", "=": "="}[c] for c in o))


def meet(a, b):
    return "".join(sorted(c for c in a if c in b))


def normops(o):
    return "".join(sorted(set(o)))


def rel(a, ops, b):
    """boolean term: a ops b"""
    ops = normops(ops)
    if a is b:
        return BOOL("=" in ops)
    if a.k == b.k == "call" and a.a[0] == b.a[0] == "Duration::from_secs":
        return rel(a.a[1][0], ops, b.a[1][0])
    # move constant offsets to one side
    if a.k == "add" and b.k == "int" and a.a[1].k == "int":
        return rel(a.a[0], ops, INT(b.a[0] - a.a[1].a[0]))
    if b.k == "add" and a.k == "int" and b.a[1].k == "int":
        return rel(INT(a.a[0] - b.a[1].a[0]), ops, b.a[0])
    ba, ca = (a.a[0], a.a[1].a[0]) if a.k == "add" and a.a[1].k == "int" else (a, 0)
    bb, cb = (b.a[0], b.a[1].a[0]) if b.k == "add" and b.a[1].k == "int" else (b, 0)
    if ba is bb:
        return BOOL(("<" if ca < cb else ">" if ca > cb else "=") in ops)
    if a.k == b.k and a.k in CONSTK and a.k not in ("named", "strc"):
        x, y = a.a[0], b.a[0]
        if a.k == "char":
            x, y = ord(x), ord(y)
        return BOOL(("<" if x < y else ">" if x > y else "=") in ops)
    for x, y, o in ((a, b, ops), (b, a, flip(ops))):
        # something is left of a sequence until its end is reached
        t = tail_at(x.a[0]) if x.k == "len" and y.k == "int" and y.a[0] in (0, 1) else None
        if t is not None:
            more = [n for n in (0, 1, 2) if ("<" if n < y.a[0] else ">" if n > y.a[0] else "=") in o]
            if more == [0]:
                return rel(t[1], "=>", length(t[0]))
            if more == [1, 2]:
                return rel(t[1], "<", length(t[0]))
    for x, y in ((a, b), (b, a)):
        if ops in ("=", "<>") and x.k == "slice" and y.k in ("bytes", "str") and x.a[1] is INT(0) and x.a[2] is length(y):
            t = call("starts_with", x.a[0], y)
            return t if ops == "=" else NOT(t)
        if y.k == "bool" and ops in ("=", "<>"):
            return x if y.a[0] == (ops == "=") else NOT(x)
        if ops in ("=", "<>") and x.k == "disp" and y.k == "str" and counted(x.a[0]) and not y.a[0].isdigit():
            return BOOL(ops == "<>")
    if a.id > b.id:
        a, b, ops = b, a, flip(ops)
    return mk("rel", a, b, ops)


def counted(t):
    """a number of things, below 2^63"""
    if t.k == "int":
        return 0 <= t.a[0] < 1 << 63
    return t.k in ("len", "idx") or (t.k == "add" and counted(t.a[0]) and counted(t.a[1]))


def NOT(t):
    if t.k == "bool":
        return BOOL(not t.a[0])
    if t.k == "not":
        return t.a[0]
    if t.k == "rel":
        return mk("rel", t.a[0], t.a[1], "".join(x for x in "<=>" if x not in t.a[2]))
    if t.k == "isv":
        return mk("isv", t.a[0], t.a[2] - t.a[1], t.a[2])
    return mk("not", t)


def add(a, b):
    if a.k == "int" and b.k == "int":
        return INT(a.a[0] + b.a[0])
    if a.k == "int":
        a, b = b, a
    if b.k == "int":
        if b.a[0] == 0:
            return a
        if a.k == "add" and a.a[1].k == "int":
            return add(a.a[0], INT(a.a[1].a[0] + b.a[0]))
        return mk("add", a, b)
    if a.k == "add" and a.a[1].k == "int":
        return add(add(a.a[0], b), a.a[1])
    if b.k == "add" and b.a[1].k == "int":
        return add(add(a, b.a[0]), b.a[1])
    if a.id > b.id:
        a, b = b, a
    return mk("add", a, b)


def sub(a, b):
    if b.k == "int":
        return add(a, INT(-b.a[0]))
    if a is b:
        return INT(0)
    if a.k == "add" and a.a[0] is b:
        return a.a[1]
    return mk("sub", a, b)


# ---- strings (text and bytes alike) ------------------------------------------
def cat(parts):
    out = []
    for p in parts:
        if p.k == "cat":
            ps = p.a[0]
        elif p.k == "bytes":
            ps = (p,)
        else:
            ps = (p,)
        for q in ps:
            if q.k == "str" and q.a[0] == "":
                continue
            if q.k == "str" and out and out[-1].k == "str":
                out[-1] = STR(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return STR("")
    if len(out) == 1 and out[0].k == "str":
        return out[0]
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def disp(x):
    if x.k in ("str", "cat"):
        return x
    if x.k == "int":
        return STR(str(x.a[0]))
    return mk("disp", x)


# ---- collections -----------------------------------------------------------
def star_is_map(alts):
    """exactly one element per element of the domain"""
    return all(len(g) == 1 and g[0][0] in ("one", "kv") for f, g in alts)


def norm_star(L, dom, alts):
    """copying every element is the collection itself"""
    if dom.k == "dom" and dom.a[0] == "all" and len(alts) == 1 and len(alts[0][1]) == 1 and all(is_domfact(f) for f in alts[0][0]):
        c = dom.a[1]
        s = alts[0][1][0]
        i = mk("idx", (L,))
        if s[0] == "one" and s[1] is proj_index(c, i) and s[1].k == "at":
            return ("all", c)
        if s[0] == "kv" and s[1] is mk("mkey", c, i) and s[2] is mk("mval", c, i):
            return ("all", c)
    if dom.k == "dom" and dom.a[0] == "from" and len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0] == ("one", proj_index(dom.a[1], add(mk("idx", (L,)), dom.a[2]))):
        return ("all", mk("slice", dom.a[1], dom.a[2], length(dom.a[1])))
    return ("star", L, dom, alts)


def norm_stars(L, dom, alts):
    """the pieces a loop over dom appends, one for each part of a chain that is copied as it is"""
    if dom.k == "dom" and dom.a[0] == "chain":
        parts = list(flat_chain(dom))
        if len(parts) == len(alts) and all(len(g) == 1 and g[0][0] == "one" for _, g in alts):
            left = list(alts)
            out = []
            for d in parts:
                if d.a[0] != "all":
                    break
                x = proj_index(d.a[1], mk("idx", (L,)))
                m = [a for a in left if a[1][0][1] is x]
                if len(m) != 1:
                    break
                left.remove(m[0])
                out.append(("all", d.a[1]))
            else:
                return tuple(out)
    return (norm_star(L, dom, alts),)


def flat_chain(d):
    if d.k == "dom" and d.a[0] == "chain":
        for x in d.a[1:]:
            yield from flat_chain(x)
    else:
        yield d


def is_domfact(f):
    return f[0] == "rel" and (f[1].k == "idx" or f[2].k == "idx") and (f[1].k in ("len", "nparts") or f[2].k in ("len", "nparts")) or (f[0] == "iv" and f[1].k == "idx" and f[2] <= 0 and f[3] >= U64)


COUNTED = set()  # (lists that hold one element for each turn taken)


def length(c):
    if c.k == "parts":
        return mk("nparts", c.a[0], c.a[1])
    if c.k == "matches":
        return add(mk("nparts", c.a[0], c.a[1]), INT(-1))
    if c.k == "rev":
        return length(c.a[0])
    if c.k == "arr":
        return INT(len(c.a[0]))
    if c.k == "str":
        return INT(len(c.a[0].encode()))
    if c.k == "bytes":
        return INT(len(c.a[0]))
    if c.k == "coll" and c.a[0] == "vec":
        n = 0
        base = None
        for s in c.a[1]:
            if s[0] == "one":
                n += 1
                continue
            if s[0] == "all":
                x = mk("len", s[1])
            elif s[0] == "hole" and s in COUNTED:
                x = mk("idx", (s[1],))
            elif s[0] == "star" and star_is_map(s[3]) and s[2].k == "dom" and s[2].a[0] == "all":
                x = length(s[2].a[1])
            else:
                x = mk("len", coll("vec", (s,)))
            base = x if base is None else add(base, x)
        return INT(n) if base is None else add(base, INT(n))
    if c.k == "coll" and not c.a[1]:
        return INT(0)
    if c.k == "updel" or c.k == "acc":
        return length(c.a[0] if c.k == "updel" else c.a[2]) if (c.k == "updel" or all_updel(c)) else mk("len", c)
    if c.k == "call" and c.a[0] == "before_first":
        return length(proj_index(mk("parts", c.a[1][0], c.a[1][1]), INT(0)))
    if c.k == "cat" and all(p.k == "str" for p in c.a[0]):
        return INT(sum(len(p.a[0].encode()) for p in c.a[0]))
    return mk("len", c)


def all_updel(c):
    def peel(v):
        while v.k == "updel":
            v = v.a[0]
        return v
    ph = mk("phi", c.a[0], c.a[1])
    return all(peel(v) is ph or v is ph for _, v in c.a[3])


def updel_fields(v, stop):
    """first fields changed by a chain of element updates over `stop`; None if unknown"""
    out = set()
    while v is not stop:
        if v.k != "updel":
            return None
        w = v.a[2]
        b = mk("at", v.a[0], v.a[1])
        while w.k == "with":
            out.add(w.a[2])
            w = w.a[0]
        if w.k == "adt":
            for n, x in zip(w.a[2], w.a[3]):
                if not (x.k == "fld" and x.a[2] == n):
                    out.add(n)
        v = v.a[0]
    return out


def acc_fields(c):
    ph = mk("phi", c.a[0], c.a[1])
    out = set()
    for _, v in c.a[3]:
        f = updel_fields(v, ph)
        if f is None:
            return None
        out |= f
    return out


def proj_field(v, vn, fn):
    while True:
        if v.k == "adt":
            if v.a[1] == vn or vn == "" or v.a[1] == "":
                if fn in v.a[2]:
                    return v.a[3][v.a[2].index(fn)]
            return mk("fld", v, vn, fn)
        if v.k == "tup":
            i = int(fn)
            if i < len(v.a[0]):
                return v.a[0][i]
            return mk("fld", v, vn, fn)
        if v.k in ("clo", "cor"):
            return v.a[2][int(fn)]
        if v.k == "with":
            if v.a[2] == fn and v.a[1] == vn:
                return v.a[3]
            v = v.a[0]
            continue
        if v.k == "at":
            c = v.a[0]
            if c.k == "acc":
                fs = acc_fields(c)
                if fs is not None and fn not in fs:
                    v = proj_index(c.a[2], v.a[1])
                    continue
            if c.k == "updel":
                fs = updel_fields(c, c.a[0])
                if fs is not None and fn not in fs:
                    v = proj_index(c.a[0], v.a[1])
                    continue
        return mk("fld", v, vn, fn)


def grown(L, dd, b, ch, h):
    """the list after a loop that only adds to one collection within one fixed element of it"""
    at, ga = None, []
    for fs, v in ch:
        if v is h:
            ga.append((fs, ()))
            continue
        if v.k != "updel" or v.a[0] is not h or v.a[2].k != "with":
            return None
        old, vn, fn, x = v.a[2].a
        if old is not proj_index(h, v.a[1]) or x.k != "coll" or not x.a[1] or x.a[1][0] != ("all", proj_field(old, vn, fn)):
            return None
        if at is not None and at != (v.a[1], vn, fn, x.a[0]):
            return None
        at = (v.a[1], vn, fn, x.a[0])
        new = x.a[1][1:]
        if mentions((fs, new), h) or any(t.k == "idx" and t.a[0][0] == L for t in subterms(at[0])):
            return None
        ga.append((fs, new))
    if at is None:
        return None
    j, vn, fn, kind = at
    el = proj_index(b, j)
    x = coll(kind, tuple(segs_of(proj_field(el, vn, fn))) + (norm_star(L, dd, tuple(ga)),))
    return mk("updel", b, j, with_(el, vn, fn, x))


def mapped(L, dd, b, ch, h):
    """the list after a loop that rewrites each of its elements in place, one after the other"""
    if dd.k != "dom" or dd.a[0] != "all" or dd.a[1] not in (h, b):
        return None
    i = mk("idx", (L,))
    e = mk("at", h, i)
    per = []
    for fs, v in ch:
        if v is h:
            nv = e
        elif v.k == "updel" and v.a[0] is h and v.a[1] is i:
            nv = v.a[2]
        else:
            return None
        if b is not h:  # the elements may have been read through the list as it was before the loop
            sb = Subst({mk("at", b, i): e})
            fs, nv = sb.facts(fs), sb.t(nv)
        per.append((tuple(f for f in fs if not is_domfact(f)), nv))
    hole = mk("named", "elem", L)
    if mentions(Subst({e: hole}).any(tuple(per)), h):
        return None

    def repl(x, idx, L2):
        out = []
        for fs, nv in per:
            sb = Subst({e: x, i: idx} if idx is not None else {e: x})
            out.append((sb.facts(fs), sb.t(nv)))
        return out

    def noidx():
        return not any(t is i for t in subterms(Subst({e: hole}).any(tuple(per))))

    segs = []
    for s in segs_of(b) if b.k in ("coll", "arr") else (("all", b),):
        if s[0] == "one" and len(per) == 1 and not per[0][0] and noidx():
            segs.append(("one", repl(s[1], None, L)[0][1]))
        elif s[0] == "all" and (noidx() or b.k not in ("coll", "arr")):
            x = proj_index(s[1], i)
            segs.append(("star", L, mk("dom", "all", s[1]), tuple((f, (("one", v),)) for f, v in repl(x, None, L))))
        elif s[0] == "star" and noidx() and all(len(g) <= 1 and (not g or g[0][0] == "one") for _, g in s[3]):
            alts = []
            for f0, g0 in s[3]:
                if not g0:
                    alts.append((f0, ()))
                    continue
                for f, v in repl(g0[0][1], None, L):
                    alts.append((tuple(f0) + tuple(f), (("one", v),)))
            segs.append(("star", s[1], s[2], tuple(alts)))
        else:
            return None
    return coll(b.a[0] if b.k == "coll" else "vec", tuple(segs))


def texted(L, dd, b, ch, h):
    """the text after a loop that appends one piece per element, with a separator before all but the first"""
    i = mk("idx", (L,))
    first, later = [], []
    for fs, v in ch:
        if v.k != "cat" or v.a[0][0] is not h or mentions((fs, v.a[0][1:]), h):
            return None
        s = St()
        if not all(s.assume(f) for f in fs):
            continue
        lo, hi = s.ival(i)
        if hi > 0:
            later.append(v.a[0][1:])
        if lo <= 0:
            first.append(v.a[0][1:])
    if len(first) != 1 or len(later) != 1:
        return None
    x = first[0]
    if later[0] == x:
        return cat([b, call("concat", coll("vec", (("star", L, dd, (((), (("one", cat(x)),)),)),)))])
    n = len(later[0]) - len(x)
    if n < 1 or later[0][n:] != x:
        if len(x) != 1 or len(later[0]) < 2 or later[0][-1] is not x[0]:
            return None
        n = len(later[0]) - 1
    sep = cat(later[0][:n])
    if any(t is i for t in subterms(sep)):
        return None
    c = norm_star(L, dd, (((), (("one", cat(x)),)),))
    if c[0] == "all" and c[1].k == "parts" and c[1].a[1] is sep:
        return cat([b, c[1].a[0]])
    return cat([b, call("join", coll("vec", (c,)), sep)])


def flagged(L, d, b, ch, h):
    """the cases [(value, facts)] after a loop that can only turn a flag over, never back"""
    if b.k != "bool":
        return None
    z = not b.a[0]
    keep, turn, every = [], [], []
    for fs, v in ch:
        cond = None
        rest = []
        for f in fs:
            if f[0] == "bl" and f[1] is h:
                cond = f[2]
            else:
                rest.append(f)
        rest = tuple(rest)
        if mentions(rest, h) or v is not h and mentions(v, h):
            return None
        every.append(rest)
        if v is h:
            v = h if cond is None else BOOL(cond)
        if cond is z:
            if v.k != "bool" or v.a[0] is not z:
                return None
            continue
        if v is h:
            keep.append(rest)
            continue
        for w in (True, False):
            if v.k == "bool" and v.a[0] is not w:
                continue
            fs2 = rest if v.k == "bool" else rest + (("bl", v, w),)
            if w is z:
                turn.append(fs2)
            elif cond is None:
                return None
            else:
                keep.append(fs2)
    return [(b, (("all", L, d, tuple(keep)),)), (BOOL(z), (("ex", L, d, tuple(turn)), ("all", L, d, tuple(every))))]


def filed(L, dd, b, ch, h):
    """the map after a loop that only adds to the one map filed in it under a fixed key"""
    at, ga = None, []
    for fs, v in ch:
        new = ()
        if v is not h:
            if v.k != "coll" or len(v.a[1]) != 2 or v.a[1][0] != ("all", h) or v.a[1][1][0] not in ("kv", "mod"):
                return None
            k, x = v.a[1][1][1:3]
            if at not in (None, (k, x.a[0])) or x.k != "coll" or not x.a[1] or x.a[1][0] != ("all", mapval(h, k)):
                return None
            at = (k, x.a[0])
            new = x.a[1][1:]
        if at is not None:
            there = mk("mget", h, at[0])
            fs = tuple(f for f in fs if f != ("var", there, frozenset(["Some"])))
        if mentions((fs, new), h):
            return None
        ga.append((fs, new))
    if at is None or b.k != "coll" or map_last(b.a[1], at[0]) is None or any(t.k == "idx" and t.a[0][0] == L for t in subterms(at[0])):
        return None
    was = map_last(b.a[1], at[0])
    if was.k != "coll":
        return None
    return update(b, (("key", at[0]),), coll(at[1], was.a[1] + (norm_star(L, dd, tuple(ga)),)))


def keyed(L, dd, b, ch, h):
    """the map, empty to begin with, after a loop that files something under each key of another one:
    these keys are distinct, so none of them is there already"""
    if b.k != "coll" or b.a[1] or dd.k != "dom" or dd.a[0] != "all":
        return None
    k = mk("mkey", dd.a[1], mk("idx", (L,)))
    was = mk("mget", h, k)
    ga = []
    for fs, v in ch:
        if any(f[0] == "var" and f[1] is was and "None" not in f[2] for f in fs):
            continue
        fs = tuple(f for f in fs if not (f[0] == "var" and f[1] is was))
        new = ()
        if v is not h:
            if v.k != "coll" or len(v.a[1]) != 2 or v.a[1][0] not in (("all", h),) + (h.a[1] if h.k == "coll" else ()) or v.a[1][1][:2] != ("kv", k):
                return None
            new = v.a[1][1:]
        if mentions((fs, new), h):
            return None
        ga.append((fs, new))
    return coll(b.a[0], norm_stars(L, dd, tuple(ga)))


def eachtime(L, f, tm, holes, pos):
    """a fact about every (or some) turn of a loop, once the loop is over: what a turn knew of a
    value the loop was still changing says nothing about the value it ended with"""
    moving, still = set(), {}
    for k, b, h in pos.values():
        if k == "phi" and tm.get(h) is b:
            still[h] = b
        elif k != "ctr":
            moving.add(h)
    sb = Subst(still)

    def moved(x):
        for t in subterms(x):
            if t in moving or t.k == "it" and t.a[0] in ("gen", "genu") and t.a[1] == L:
                return True
            if t.k == "coll" and t.a[1] and t.a[1][0][:2] == ("hole", L) and (L, t.a[1][0][2]) in holes:
                return True
        return False

    return f[:2] + (sb.any(f[2]), tuple(tuple(sb.fact(g) for g in alt if not moved(g)) for alt in f[3])) + tuple(f[4:])


def tail_at(v):
    """(whole, position of a loop's counter) if v is what a loop has left of a sequence"""
    if v.k == "slice" and v.a[2] is length(v.a[0]):
        i = v.a[1].a[0] if v.a[1].k == "add" else v.a[1]
        if i.k == "idx":
            return v.a[0], v.a[1]
    return None


def slice_of(c, lo, hi):
    if lo.k == "int" and lo.a[0] == 0 and hi is length(c):
        return c
    t = tail_at(c)
    if t is not None and hi is length(c):
        return mk("slice", t[0], add(t[1], lo), c.a[2])
    return mk("slice", c, lo, hi)


def proj_index(v, i):
    t = tail_at(v)
    if t is not None and i.k == "int":
        return proj_index(t[0], add(t[1], i))
    if v.k == "arr":
        if i.k == "int" and 0 <= i.a[0] < len(v.a[0]):
            return v.a[0][i.a[0]]
    if v.k == "coll":
        segs = v.a[1]
        if i.k == "int" and all(s[0] == "one" for s in segs[: i.a[0] + 1]) and i.a[0] < len(segs):
            return segs[i.a[0]][1]
        if segs and segs[-1][0] == "one" and i is length(coll(v.a[0], segs[:-1])):
            return segs[-1][1]
    if v.k == "updel" and v.a[1] is i:
        return v.a[2]
    if v.k == "bytes" and i.k == "int" and i.a[0] < len(v.a[0]):
        return INT(v.a[0][i.a[0]])
    return mk("at", v, i)


def map_last(segs, key):
    """value most recently filed under exactly `key` (syntactically), or None"""
    for s in reversed(segs):
        if s[0] in ("kv", "mod") and s[1] is key:
            return s[2]
    return None


def mapval(m, key):
    """the value under key, known to be there"""
    if m.k == "coll":
        segs = m.a[1]
        for n in range(len(segs) - 1, -1, -1):
            s = segs[n]
            if s[0] in ("kv", "mod"):
                if s[1] is key:
                    return s[2]
                continue
            if s[0] == "all":
                return mapval(s[1], key)
            break
        return mk("fld", mk("mget", m, key), "Some", "0")
    if key.k == "mkey" and key.a[0] is m:
        return mk("mval", m, key.a[1])
    return mk("fld", mk("mget", m, key), "Some", "0")


def apply_path(v, path):
    for s in path:
        if s[0] == "f":
            v = proj_field(v, s[1], s[2])
        elif s[0] == "i":
            v = proj_index(v, s[1])
        elif s[0] == "key":
            v = mapval(v, s[1])
        elif s[0] == "sub":
            v = slice_of(v, s[1], s[2])
        elif s[0] == "last":
            v = mk("last", v)
        else:
            raise Unsupported("path step %s" % (s,))
    return v


def update(v, path, val):
    if not path:
        return val
    s, rest = path[0], path[1:]
    if s[0] == "f":
        vn, fn = s[1], s[2]
        nv = update(proj_field(v, vn, fn), rest, val)
        if v.k == "adt" and fn in v.a[2]:
            i = v.a[2].index(fn)
            return mk("adt", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (nv,) + v.a[3][i + 1:])
        if v.k == "tup" and int(fn) < len(v.a[0]):
            i = int(fn)
            return mk("tup", v.a[0][:i] + (nv,) + v.a[0][i + 1:])
        if v.k in ("clo", "cor"):
            i = int(fn)
            return mk(v.k, v.a[0], v.a[1], v.a[2][:i] + (nv,) + v.a[2][i + 1:])
        return with_(v, vn, fn, nv)
    if s[0] == "i":
        nv = update(proj_index(v, s[1]), rest, val)
        i = s[1]
        if v.k == "arr" and i.k == "int" and i.a[0] < len(v.a[0]):
            return arr(v.a[0][: i.a[0]] + (nv,) + v.a[0][i.a[0] + 1:])
        if v.k == "coll" and i.k == "int" and all(x[0] == "one" for x in v.a[1]) and i.a[0] < len(v.a[1]):
            g = v.a[1]
            return coll(v.a[0], g[: i.a[0]] + (("one", nv),) + g[i.a[0] + 1:])
        if v.k == "coll" and v.a[1] and v.a[1][-1][0] == "one" and i is length(coll(v.a[0], v.a[1][:-1])):
            return coll(v.a[0], v.a[1][:-1] + (("one", nv),))
        if v.k == "updel" and v.a[1] is i:
            return mk("updel", v.a[0], i, nv)
        return mk("updel", v, i, nv)
    if s[0] == "key":
        nv = update(mapval(v, s[1]), rest, val)
        segs = segs_of(v) if v.k == "coll" else (("all", v),)
        kind = v.a[0] if v.k == "coll" else "map"
        if segs and segs[-1][0] == "kv" and segs[-1][1] is s[1]:
            return mk("coll", kind, segs[:-1] + (("kv", s[1], nv),))
        if segs and segs[-1][0] == "mod" and segs[-1][1] is s[1]:
            return mk("coll", kind, segs[:-1] + (("mod", s[1], nv, segs[-1][3]),))
        return mk("coll", kind, segs + (("mod", s[1], nv, mapval(v, s[1])),))
    if s[0] == "last":
        segs = segs_of(v)
        if segs and segs[-1][0] == "one":
            return coll(v.a[0], segs[:-1] + (("one", update(segs[-1][1], rest, val)),))
        return mk("updel", v, mk("lastidx", v), update(apply_path(v, (s,)), rest, val))
    return mk("clobbered", v, val)


def with_(v, vn, fn, nv):
    if v.k == "with" and v.a[1] == vn:
        if v.a[2] == fn:
            return with_(v.a[0], vn, fn, nv)
        if v.a[2] > fn:
            return mk("with", with_(v.a[0], vn, fn, nv), v.a[1], v.a[2], v.a[3])
    if nv.k == "fld" and nv.a[0] is v and nv.a[1] == vn and nv.a[2] == fn:
        return v
    return mk("with", v, vn, fn, nv)


# ---- substitution --------------------------------------------------------------
class Subst(object):
    """tm: T -> T ; holes: (L,pid) -> segs ; ren: {L: L'}"""

    def __init__(self, tm=None, holes=None, ren=None):
        self.tm = tm or {}
        self.holes = holes or {}
        self.ren = ren or {}
        self.memo = {}

    def t(self, x):
        r = self.memo.get(x.id)
        if r is not None:
            return r
        r = self.tm.get(x)
        if r is None:
            r = self._t(x)
        self.memo[x.id] = r
        return r

    def any(self, x):
        if isinstance(x, T):
            return self.t(x)
        if isinstance(x, tuple):
            if x and x[0] == "star" and len(x) == 4 and isinstance(x[1], int):
                return ("star", self.ren.get(x[1], x[1]), self.any(x[2]), self.any(x[3]))
            n = tuple(self.any(y) for y in x)
            return n if any(p is not q for p, q in zip(n, x)) else x
        return x

    def segs(self, segs):
        out = []
        for s in segs:
            if s[0] == "hole" and (s[1], s[2]) in self.holes:
                out.extend(self.holes[(s[1], s[2])])
            else:
                out.append(self.any(s))
        return tuple(out)

    def _t(self, x):
        k, a = x.k, x.a
        if k in ("int", "bool", "str", "sym", "named", "bytes", "char"):
            return x
        if k == "idx":
            if a[0][0] in self.ren:
                return mk("idx", (self.ren[a[0][0]],) + a[0][1:])
            return x
        if k == "coll":
            s = self.segs(a[1])
            if s == a[1]:
                return x
            return coll(a[0], s)
        n = tuple(self.any(y) for y in a)
        if all(p is q for p, q in zip(n, a)):
            return x
        return rebuild(k, n)

    def fact(self, f):
        if f[0] in ("all", "ex", "pre"):
            return (f[0], self.ren.get(f[1], f[1]), self.any(f[2]), tuple(self.facts(g) for g in f[3])) + tuple(f[4:])
        if f[0] == "rel":
            return ("rel", self.t(f[1]), self.t(f[2]), f[3])
        if f[0] == "note":
            return self.any(f)
        return (f[0], self.t(f[1])) + tuple(f[2:])

    def facts(self, fs):
        return tuple(self.fact(f) for f in fs)


def rebuild(k, a):
    if k == "fld":
        return proj_field(a[0], a[1], a[2])
    if k == "at":
        return proj_index(a[0], a[1])
    if k == "rel":
        return rel(a[0], a[2], a[1])
    if k == "not":
        return NOT(a[0])
    if k == "add":
        return add(a[0], a[1])
    if k == "cat":
        return cat(a[0])
    if k == "len":
        return length(a[0])
    if k == "with":
        return with_(a[0], a[1], a[2], a[3])
    if k == "disp":
        return disp(a[0])
    return mk(k, *a)


class Frame(object):
    __slots__ = ("fn", "fid", "c")

    def __init__(self, fn, fid):
        self.fn = fn
        self.fid = fid
        self.c = fn["_c"]


def fn_loops(fn):
    """natural loops: head -> (blocks)"""
    if fn.get("_loops") is not None:
        return fn["_loops"]
    blocks = fn["blocks"]
    n = len(blocks)
    succ = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        if b:
            succ[i] = [s for s in term_succ(b[1]) if s is not None and s < n and blocks[s]]
    # dominators by iteration over reverse postorder
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            stack.pop()
    order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for u in order:
        for v in succ[u]:
            pred[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while pos[x] > pos[y]:
                        x = idom[x]
                    while pos[y] > pos[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for u in order:
        for v in succ[u]:
            if dom(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pred[x])
    fn["_loops"] = loops
    return loops


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]]
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[2]]
    return []


def folded(op, x, y):
    """a calculation with known numbers whose result does not depend on their type"""
    if op in ("Div", "Rem"):
        return INT(x // y if op == "Div" else x % y) if y else None
    if op in ("BitAnd", "BitOr", "BitXor"):
        return INT({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
    if op in ("Shr", "ShrUnchecked"):
        return INT(x >> y) if y < 8 else None
    if op in ("Shl", "ShlUnchecked"):
        return INT(x << y) if y < 7 and x << y < 128 else None
    if op in ("Mul", "MulUnchecked"):
        return INT(x * y) if x * y < 128 else None
    if op == "MulWithOverflow":  # no more than that if it did not overflow
        return tup(INT(x * y), FALSE if x * y < 128 else mk("call", "overflow", (INT(x), INT(y))))
    return None


SHARED = re.compile(r"\b(Arc|Rc|Weak|Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|Atomic\w+)<|&(?:'\w+ )?mut |\*(?:mut|const) |\bAtomic\w+")


def late_effects(crates):
    """types whose values, when dropped, run code of the libraries that can reach what outlives them"""
    names = set()
    for c in crates.values():
        for it in c.items:
            if it["name"] == "drop" and (it.get("trait") or "").endswith("ops::Drop"):
                n = c.self_name(it)
                held = [c.ts(f["t"]) for p, a in c.adts.items() if p.split("::")[-1] == n for v in a["variants"] for f in v["f"]]
                if any(SHARED.search(t) for t in held):
                    names.add(n)
    while names:
        r = re.compile(r"\b(%s)\b" % "|".join(map(re.escape, sorted(names))))
        more = {p.split("::")[-1] for c in crates.values() for p, a in c.adts.items() if a["local"] for v in a["variants"] for f in v["f"] if r.search(c.ts(f["t"]))}
        if more <= names:
            return r
        names |= more


class Engine(object):
    def __init__(self, crates, models, cuts=None, budget=400000):
        self.unrolling = 0  # (attempts to run a loop turn by turn under way)
        self.crates = crates
        self.models = models
        import panics
        self.pre = panics.PRE
        self.cuts = cuts or {}
        self.nf = 0
        self.nl = 0
        self.loops = {}
        self.loopdom = {}
        self.subidx = {}
        self.stack = []
        self.stack_args = []
        self.recs = None       # a list: re-entry is recorded there, not followed
        self.steps = 0
        self.budget = budget
        self.callees = {}
        self.seen_fns = set()
        self.seen_calls = {}
        self.panics = []
        self.adtidx = {}
        self.fact_axioms = []
        self.bodycuts = {}
        self.approx = False      # first look at a loop, only to see what changes in it
        self.approx_hit = False
        for c in crates.values():
            for p, d in c.adts.items():
                self.adtidx.setdefault(p.split("::")[-1], d)
        self.late = late_effects(crates)

    # ---- ADT helpers ------------------------------------------------------
    def adtname(self, path):
        return path.split("::")[-1]

    def variants(self, c, path):
        d = c.adts.get(path)
        if d is None:
            for cc in self.crates.values():
                d = cc.adts.get(path)
                if d:
                    break
        return d

    def vname(self, d, i):
        return d["variants"][i]["n"] if d["kind"] == "enum" else ""

    def allv(self, name):
        d = self.adtidx[name]
        return frozenset(v["n"] for v in d["variants"])

    def isv(self, x, name, v):
        """boolean term: x is variant v of ADT `name`"""
        if x.k == "adt":
            return BOOL(x.a[1] == v)
        return mk("isv", x, frozenset([v]), self.allv(name))

    def variant(self, st, x, name):
        """decide the variant of x"""
        if x.k == "adt":
            return x.a[1]
        al = self.allv(name)
        cur = st.var.get(x, al) & al
        if len(cur) == 1:
            return next(iter(cur))
        if not cur:
            return sorted(al)[0]
        raise Fork([(("var", x, frozenset([v])),) for v in sorted(cur)])

    def payload(self, x, vn, fn="0"):
        return proj_field(x, vn, fn)

    # ---- fork plumbing ------------------------------------------------------
    def forks(self, st, f):
        """run f(copy of st) -> list of outcomes, distributing over Forks"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            c = s.copy()
            try:
                out.extend(f(c))
            except Fork as e:
                for alt in reversed(e.alts):
                    s2 = s.copy()
                    if all(s2.assume(x) for x in alt):
                        work.append(s2)
                self.tick(len(e.alts))
        return out

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget("analysis budget of %d steps exceeded in %s" % (self.budget, self.stack[-1:] and self.stack[-1]))

    # ---- memory ----------------------------------------------------------------
    def rd(self, st, cell, path=()):
        v = st.cells.get(cell)
        if v is None:
            v = mk("uninit", cell)
        return apply_path(v, path)

    def wr(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
        else:
            v = st.cells.get(cell)
            if v is None:
                v = mk("uninit", cell)
            st.cells[cell] = update(v, path, val)

    def deref(self, st, v):
        """value behind a reference (identity for shared ones)"""
        n = 0
        while v.k == "ref" and n < 8:
            v = self.rd(st, v.a[0], v.a[1])
            n += 1
        return v

    def store(self, st, r, val):
        if r.k == "ref":
            n = 0
            # &mut &mut x
            while n < 4:
                cur = self.rd(st, r.a[0], r.a[1])
                if cur.k == "ref":
                    r = cur
                    n += 1
                else:
                    break
            self.wr(st, r.a[0], r.a[1], val)
            return True
        st.ev = st.ev + (("extwrite", r, val),)
        return False

    def temp(self, st, v):
        self.nf += 1
        c = ("t", self.nf)
        st.cells[c] = v
        return c

    def lref(self, cell, path=()):
        return mk("ref", cell, tuple(path))

    def resolve(self, fr, st, place):
        """-> (cell, path)"""
        c = fr.c
        cell, path = (fr.fid, place[0]), ()
        ty = fr.fn["locals"][place[0]]["t"]
        pend = None
        for e in place[1]:
            k = e[0]
            t = c.types[ty] if ty is not None else {"k": "other"}
            if k == "d":
                if t["k"] in ("ref", "ptr"):
                    if t.get("mut") or t["k"] == "ptr":
                        v = self.rd(st, cell, path)
                        if v.k == "ref":
                            cell, path = v.a[0], v.a[1]
                    else:
                        v = self.rd(st, cell, path)
                        e2 = c.types[t["e"]]
                        if v.k == "ref" and not (e2["k"] == "ref" and e2.get("mut")):
                            cell, path = v.a[0], v.a[1]
                    ty = t["e"]
                else:
                    ty = (t.get("a") or [None])[0]
                pend = None
            elif k == "f":
                ot = c.types[e[3]]
                if ot["k"] == "adt":
                    d = c.adts[ot["p"]]
                    vi = pend if pend is not None else 0
                    vn = self.vname(d, vi)
                    fn = d["variants"][vi]["f"][e[1]]["n"]
                    path = path + (("f", vn, fn),)
                else:
                    path = path + (("f", "", str(e[1])),)
                ty = e[2]
                pend = None
            elif k == "v":
                pend = e[1]
            elif k == "i":
                iv = self.rd(st, (fr.fid, e[1]))
                path = path + (("i", iv),)
                ty = t.get("e")
            elif k == "ci":
                if e[3]:
                    v = self.rd(st, cell, path)
                    path = path + (("i", sub(length(v), INT(e[1]))),)
                else:
                    path = path + (("i", INT(e[1])),)
                ty = t.get("e")
            elif k == "ss":
                v = self.rd(st, cell, path)
                hi = sub(length(v), INT(e[2])) if e[3] else INT(e[2])
                path = path + (("sub", INT(e[1]), hi),)
            elif k == "o":
                ty = None if len(e) < 2 or not isinstance(e[1], int) else e[1]
            else:
                raise Unsupported("projection " + str(e))
        return cell, path

    # ---- operands ---------------------------------------------------------------
    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            cell, path = self.resolve(fr, st, o[1])
            return self.rd(st, cell, path)
        return self.const(fr, st, o[1])

    def const(self, fr, st, k):
        if "fn" in k:
            return self.fnref(fr.c, k["fn"])
        t = fr.c.types[k["t"]]
        if "named" in k and k["named"].split("::")[-1] in self.named_opaque:
            return mk("named", k["named"].split("::")[-1])
        if "v" in k:
            return self.cval(fr.c, k["v"], k["t"])
        if "body" in k and str(k["body"]) in fr.c.fns:
            outs = self.run_fn(st, fr.c.fns[str(k["body"])], [])
            rets = [o for o in outs if o[0] == "ret"]
            if len(rets) == 1:
                return rets[0][2]
        if "named" in k:
            return mk("named", k["named"].split("::")[-1])
        if t["k"] == "tuple" and not t.get("a"):
            return UNIT
        if t["k"] == "adt":
            d = fr.c.adts.get(t["p"])
            if d and d["kind"] == "struct" and not d["variants"][0]["f"]:
                return adt(self.adtname(t["p"]), "", (), ())
        if t["k"] in ("fndef",):
            return mk("fnty", t["s"])
        return mk("const", t["s"])

    named_opaque = frozenset(["URL_SAFE_NO_PAD", "URL_SAFE", "STANDARD", "STANDARD_NO_PAD", "UNIX_EPOCH"])

    def cval(self, c, v, ty):
        if "int" in v:
            return INT(int(v["int"]))
        if "bool" in v:
            return BOOL(v["bool"])
        if "char" in v:
            x = v["char"]
            return mk("char", x if isinstance(x, str) else chr(x))
        if "str" in v:
            return STR(v["str"])
        if "bytes" in v:
            return mk("bytes", bytes(v["bytes"]))
        if "unit" in v:
            t = c.types[ty]
            if t["k"] == "adt":
                return adt(self.adtname(t["p"]), "", (), ())
            return UNIT
        if "agg" in v:
            vals = v.get("fields", [])
            t = c.types[ty]
            while t["k"] == "ref":
                ty = t["e"]
                t = c.types[ty]
            xs = []
            for f in vals:
                if isinstance(f, dict) and "v" in f:
                    xs.append(self.cval(c, f["v"], f["t"]))
                elif isinstance(f, dict) and "fn" in f:
                    xs.append(self.fnref(c, f["fn"]))
                elif isinstance(f, list) and len(f) == 2:
                    xs.append(self.cval(c, f[1], f[0]))
                elif isinstance(f, dict) and ("agg" in f or set(f) & {"int", "bool", "char", "str", "bytes"}):
                    xs.append(self.cval(c, f, f.get("agg")))
                else:
                    xs.append(mk("const", str(f)))
            if t["k"] == "adt":
                d = c.adts[t["p"]]
                vi = v.get("variant") or 0
                vn = self.vname(d, vi)
                return adt(self.adtname(t["p"]), vn, [f["n"] for f in d["variants"][vi]["f"]], xs)
            if t["k"] in ("array", "slice"):
                return arr(xs)
            return mk("tup", tuple(xs))
        return mk("const", str(v))

    def fnref(self, c, callee):
        i = id(callee)
        self.callees[i] = (c, callee)
        return mk("fnref", i)

    # ---- statements ---------------------------------------------------------------
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            cell, path = self.resolve(fr, st, r[2])
            if r[1] == "m":
                v = self.rd(st, cell, path)
                if v.k == "ref" and False:
                    return v
                return mk("ref", cell, path)
            return self.rd(st, cell, path)
        if k == "reb":
            return self.operand(fr, st, r[1]) if isinstance(r[1], list) and r[1] and r[1][0] in ("c", "m", "k") else self.rvalue(fr, st, r[1])
        if k == "rep":
            return mk("repeat", self.operand(fr, st, r[1]), str(r[2]) if len(r) > 2 else "")
        if k == "cast":
            return self.cast(fr, st, r)
        if k == "bin":
            return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]))
        if k == "un":
            x = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if x.k in ("int",):
                    return mk("bnot", x)
                return NOT(x)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, x))
            return mk("un", r[1], x)
        if k == "discr":
            cell, path = self.resolve(fr, st, r[1])
            return self.discr(fr.c, self.rd(st, cell, path), r[2])
        if k == "agg":
            return self.agg(fr, st, r)
        if k == "len":
            cell, path = self.resolve(fr, st, r[1])
            return length(self.rd(st, cell, path))
        return mk("other", str(r)[:60])

    def discr(self, c, v, ty):
        t = c.types[ty]
        if t["k"] != "adt":
            return mk("discr", v, "?")
        d = c.adts[t["p"]]
        v0 = v
        while v0.k == "with":
            v0 = v0.a[0]
        if v0.k == "adt":
            for x in d["variants"]:
                if x["n"] == v0.a[1]:
                    return INT(int(x["d"]))
            if d["kind"] != "enum":
                return INT(0)
            raise Unsupported("%s where a %s is expected" % (v0.a[1], t["p"]))
        return mk("discr", v0, t["p"])

    def cast(self, fr, st, r):
        x = self.operand(fr, st, r[2])
        kind = r[1]
        if kind == "Transmute":
            return x
        if x.k == "discr":
            # `E as u64`: the value is the discriminant
            return mk("cast", x, fr.c.ts(r[4]))
        if kind.startswith("IntToInt"):
            src, dst = fr.c.ts(r[3]), fr.c.ts(r[4])
            if src == "bool":
                return INT(1 if st.decide(x) else 0)
            sr, dr = INTRANGE.get(src, (-BIG, BIG)), INTRANGE.get(dst)
            if dr is None:
                return mk("cast", x, dst)
            if x.k == "int":
                n, w = x.a[0], dr[1] - dr[0] + 1
                return INT((n - dr[0]) % w + dr[0])
            iv = st.iv.get(x) or (-BIG, BIG)
            if x.k == "len":
                iv = (0, (1 << 63) - 1)
            lo, hi = max(sr[0], iv[0]), min(sr[1], iv[1])
            if dr[0] <= lo and hi <= dr[1]:
                return x
            return mk("cast", x, dst)
        if kind.startswith(("FloatTo", "IntToFloat")):
            return mk("cast", x, fr.c.ts(r[4]))
        return x

    def binop(self, fr, st, op, a, b):
        M = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "=", "Ne": "<>"}
        if op in M:
            if a.k in ("bool", "rel", "isv", "not") or b.k in ("bool", "rel", "isv", "not") or (a in st.bl or b in st.bl):
                x, y = st.decide(a), st.decide(b)
                e = (x > y) - (x < y)
                return BOOL("<=>"[e + 1] in normops(M[op]))
            if a.k == "discr" and b.k == "discr":
                return mk("call", "same_variant", (a.a[0], b.a[0])) if op in ("Eq", "Ne") and False else self.discr_rel(st, a, b, M[op])
            if a.k == "discr" or b.k == "discr":
                x, y = (a, b) if a.k == "discr" else (b, a)
                return self.discr_const(st, x, y, M[op] if a.k == "discr" else flip(M[op]))
            return rel(a, M[op], b)
        if op in ("BitAnd", "BitOr", "BitXor") and not (a.k in ("int",) or b.k in ("int",)):
            x = st.decide(a)
            if op == "BitAnd" and not x:
                return FALSE
            if op == "BitOr" and x:
                return TRUE
            if op == "BitXor":
                return NOT(b) if x else b
            return b
        if a.k == "int" and b.k == "int" and a.a[0] >= 0 and b.a[0] >= 0:
            v = folded(op, a.a[0], b.a[0])
            if v is not None:
                return v
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op == "AddWithOverflow":
            small = lambda x: x.k in ("int", "len", "idx") and not (x.k == "int" and x.a[0] > 1 << 62)
            def sm(x):
                return small(x) or (x.k == "add" and sm(x.a[0]) and sm(x.a[1])) or (st.ival(x) or (0, BIG))[1] < (1 << 62) or st.atmost(x, small)
            return tup(add(a, b), FALSE if sm(a) and sm(b) else mk("call", "overflow", (a, b)))
        if op == "SubWithOverflow":
            r = sub(a, b)
            iv = st.ival(r)
            o = rel(a, "<", b)
            if iv and iv[0] >= 0:
                o = FALSE
            return tup(r, o)
        if op.endswith("WithOverflow"):
            return tup(mk("bin", op, a, b), mk("call", "overflow", (a, b)))
        return mk("bin", op, a, b)

    def discr_rel(self, st, a, b, ops):
        d = self.adtdef(a.a[1])
        names = [v["n"] for v in d["variants"]]
        ia = names.index(self.variant_d(st, a.a[0], d))
        ib = names.index(self.variant_d(st, b.a[0], d))
        return BOOL("<=>"[(ia > ib) - (ia < ib) + 1] in normops(ops))

    def discr_const(self, st, x, y, ops):
        d = self.adtdef(x.a[1])
        v = self.variant_d(st, x.a[0], d)
        dv = [int(q["d"]) for q in d["variants"] if q["n"] == v][0]
        return rel(INT(dv), ops, y)

    def adtdef(self, path):
        for c in self.crates.values():
            if path in c.adts:
                return c.adts[path]
        raise Unsupported("adt " + path)

    def variant_d(self, st, x, d):
        if x.k == "adt":
            return x.a[1]
        al = frozenset(v["n"] for v in d["variants"])
        cur = st.var.get(x, al) & al
        if len(cur) == 1:
            return next(iter(cur))
        raise Fork([(("var", x, frozenset([v])),) for v in sorted(cur)])

    def agg(self, fr, st, r):
        d = r[1]
        ops = [self.operand(fr, st, o) for o in r[2]]
        if d[0] == "array":
            return arr(ops)
        if d[0] == "tuple":
            return mk("tup", tuple(ops))
        if d[0] == "adt":
            a = fr.c.adts.get(d[1]) or self.adtdef(d[1])
            vi = d[2] or 0
            vn = self.vname(a, vi)
            if a["kind"] == "struct" and self.adtname(d[1]) in ("Pin",):
                return ops[0]
            names = [f["n"] for f in a["variants"][vi]["f"]]
            if a["kind"] == "union":
                return ops[0]
            nm = self.adtname(d[1])
            if nm in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
                return mk("adt", nm, "", tuple(names), tuple(ops))
            return adt(nm, vn, names, ops)
        if d[0] == "closure":
            return mk("clo", fr.c.name, str(d[1]), tuple(ops))
        if d[0] == "coroutine":
            return mk("cor", fr.c.name, str(d[1]), tuple(ops))
        return mk("agg", str(d), tuple(ops))

    # ---- blocks -------------------------------------------------------------------
    def exec_block(self, fr, st, bb):
        """-> outcomes ('bb',st,target) ('ret',st,v) ('panic',st,info) ('skip',st,L)"""
        blk = fr.fn["blocks"][bb]
        stmts, term = blk
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            try:
                while i < len(stmts):
                    self.tick()
                    x = stmts[i]
                    if x[0] == "a":
                        v = self.rvalue(fr, s, x[2])
                        cell, path = self.resolve(fr, s, x[1])
                        self.wr(s, cell, path, v)
                    elif x[0] == "sd":
                        pass
                    i += 1
                self.tick()
                c = s.copy() if term[0] in ("call", "assert") else s
                out.extend(self.terminator(fr, c, term, bb))
            except Fork as e:
                for alt in reversed(e.alts):
                    s2 = s.copy()
                    if all(s2.assume(f) for f in alt):
                        work.append((s2, i))
        return out

    def terminator(self, fr, st, t, bb):
        k = t[0]
        if k == "goto":
            return [("bb", st, t[1])]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "ret":
            return [("ret", st, self.rd(st, (fr.fid, 0)))]
        if k == "unreachable":
            return []
        if k == "drop":
            if self.late:
                x = fr.c.ts(fr.fn["locals"][t[1][0]]["t"])
                if self.late.search(x):
                    raise Unsupported("code runs when a %s is dropped" % x)
            return [("bb", st, t[2])]
        if k == "assert":
            c = self.operand(fr, st, t[1])
            want = bool(t[2])
            x = st.truth(c)
            if x is None and c.k == "rel":
                x = self.prove(st, c)
            if x is not None:
                if x == want:
                    return [("bb", st, t[5])]
                return [("panic", st, self.pinfo(fr, str(t[3])[:40]))]
            s2 = st.copy()
            out = []
            if s2.assume_bool(c, not want):
                out.append(("panic", s2, self.pinfo(fr, "assert " + str(t[3])[:40])))
            if st.assume_bool(c, want):
                out.append(("bb", st, t[5]))
            return out
        if k == "call":
            args = [self.operand(fr, st, a) for a in t[2]]
            f = self.operand(fr, st, t[1])
            sp = t[-1] if isinstance(t[-1], str) else None
            res = self.call_value(st, f, args, fr, t, sp)
            out = []
            for kind, s, v in res:
                if kind == "ret":
                    if t[4] is None:
                        out.append(("panic", s, self.pinfo(fr, self.calleename(f))))
                        continue
                    cell, path = self.resolve(fr, s, t[3])
                    self.wr(s, cell, path, v)
                    out.append(("bb", s, t[4]))
                else:
                    out.append((kind, s, v))
            return out
        if k == "yield":
            return []
        if k in ("unwind", "codrop"):
            return []
        raise Unsupported("terminator " + k)

    def prove(self, st, c):
        return None

    def pinfo_top(self, what):
        for f in reversed(self.stack):
            if f["local"]:
                return (what, f["name"])
        return (what, "?")

    def pinfo(self, fr, what):
        loc = None
        for f in reversed(self.stack):
            if f["local"]:
                loc = f["name"]
                break
        return (what, loc or fr.fn["name"])

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        vals = [(int(x[0]), x[1]) for x in t[2]]
        other = t[3]
        if v.k == "int":
            for n, b in vals:
                if n == v.a[0]:
                    return [("bb", st, b)]
            return [("bb", st, other)]
        if v.k == "char":
            for n, b in vals:
                if n == ord(v.a[0]):
                    return [("bb", st, b)]
            return [("bb", st, other)]
        if v.k == "discr" or (v.k == "cast" and v.a[0].k == "discr"):
            x = v if v.k == "discr" else v.a[0]
            d = self.adtdef(x.a[1])
            term = x.a[0]
            al = frozenset(q["n"] for q in d["variants"])
            cur = st.var.get(term, al) & al
            byd = {int(q["d"]): q["n"] for q in d["variants"]}
            out = []
            rest = set(cur)
            for n, b in vals:
                vn = byd.get(n)
                if vn in cur:
                    rest.discard(vn)
                    s2 = st.copy()
                    if s2.assume(("var", term, frozenset([vn]))):
                        out.append(("bb", s2, b))
            if rest and fr.fn["blocks"][other] is not None:
                s2 = st.copy()
                if s2.assume(("var", term, frozenset(rest))):
                    out.append(("bb", s2, other))
            return out
        ty = fr.c.types[t[4]]["k"] if isinstance(t[4], int) else None
        if ty == "bool" or v.k in ("bool", "rel", "not", "isv"):
            tr = st.truth(v)
            tb = {0: None, 1: None}
            for n, b in vals:
                tb[n] = b
            tgt = lambda bv: tb[bv] if tb[bv] is not None else other
            if tr is not None:
                return [("bb", st, tgt(1 if tr else 0))]
            s2 = st.copy()
            out = []
            if st.assume_bool(v, True):
                out.append(("bb", st, tgt(1)))
            if s2.assume_bool(v, False):
                out.append(("bb", s2, tgt(0)))
            return out
        out = []
        s0 = st
        for n, b in vals:
            s2 = s0.copy()
            kk = INT(n) if ty != "char" else mk("char", chr(n))
            e = rel(v, "=", kk)
            if s2.assume_bool(e, True):
                out.append(("bb", s2, b))
            if not s0.assume_bool(e, False):
                s0 = None
                break
        if s0 is not None:
            out.append(("bb", s0, other))
        return out

    # ---- functions ------------------------------------------------------------------
    def run_fn(self, st, fn, args):
        self.tick()
        if self.bodycuts and self.stack:
            lab = self.bodycuts.get(fn["name"])
            if lab is not None:
                return self.cutcall(st, lab, args)
        if self.recs is not None and fn["local"]:
            for f, xs in zip(self.stack, self.stack_args):
                if f is fn:
                    vals = tuple(self.deref(st, a) for a in args)
                    self.recs.append((fn, xs, vals, st))
                    return [("ret", st, mk("call", "rec:" + fn["name"], vals))]
        if len(self.stack) > 90:
            raise Budget("call depth")
        self.nf += 1
        fr = Frame(fn, self.nf)
        self.seen_fns.add((fn["_c"].name, fn["name"]) if fn["local"] else ("std", fn["name"]))
        for i, a in enumerate(args):
            st.cells[(fr.fid, i + 1)] = a
        self.stack.append(fn)
        self.stack_args.append(tuple(self.deref(st, a) for a in args) if self.recs is not None else ())
        try:
            outs = self.explore(fr, st, 0, None, None)
        finally:
            self.stack.pop()
            self.stack_args.pop()
        res = []
        fid = fr.fid
        for o in outs:
            s = o[1]
            if o[0] in ("ret", "panic"):
                for c in [c for c in s.cells if c[0] == fid]:
                    del s.cells[c]
            res.append(o)
        return res

    def explore(self, fr, st, start, region, head):
        loops = fn_loops(fr.fn)
        outs = []
        work = [(st, start, True)]
        while work:
            s, bb, first = work.pop()
            if not first:
                if head is not None and bb == head:
                    outs.append(("cont", s, None))
                    continue
                if region is not None and bb not in region:
                    outs.append(("bb", s, bb))
                    continue
            if bb in loops and bb != head:
                res = self.mir_loop(fr, s, bb, loops[bb])
            else:
                res = self.exec_block(fr, s, bb)
            for o in reversed(res):
                if o[0] == "bb":
                    work.append((o[1], o[2], False))
                else:
                    outs.append(o)
            if len(work) > 6000 or len(outs) > 20000:
                raise Budget("too many paths in " + fr.fn["name"])
        return outs

    def mir_loop(self, fr, st, head, blocks):
        def body(s):
            return self.explore(fr, s, head, blocks, head)
        return self.run_loop(st, body, fr)

    def newL(self):
        self.nl += 1
        return self.nl

    # ---- loops -------------------------------------------------------------------------
    def run_loop(self, st0, body, fr=None, unroll=True):
        old = st0.symn
        fixed = []
        pend = [st0]
        ok = unroll
        if unroll:
            for rnd in range(12):
                nxt = []
                for s in pend:
                    s = s.copy()
                    s.symn = False
                    self.unrolling += 1
                    try:
                        res = body(s)
                    except NeedWiden:
                        ok = False
                        break
                    finally:
                        self.unrolling -= 1
                    for o in res:
                        if o[0] == "cont":
                            if o[1].symn:
                                ok = False
                                break
                            nxt.append(o[1])
                        else:
                            fixed.append(o)
                    if not ok:
                        break
                if not ok or len(nxt) > 24:
                    ok = False
                    break
                if not nxt:
                    break
                pend = nxt
            else:
                ok = False
        if ok:
            for o in fixed:
                o[1].symn = old
            return fixed
        return self.widen_loop(st0, body, old, fr)

    def widen_loop(self, st0, body, oldsymn, fr):
        L = self.newL()
        heads = {}
        info = {"L": L, "fn": self.stack[-1]["name"] if self.stack else None}
        for rnd in range(12):
            s = st0.copy()
            for c, h in heads.items():
                s.cells[c] = h
            s.symn = False
            s.seq += 1000 * L
            base = s.copy()
            was = (self.approx, self.approx_hit)
            unr, self.unrolling = self.unrolling, 0
            if rnd == 0:
                self.approx, self.approx_hit = True, False
            try:
                outs = body(s)
            finally:
                self.unrolling = unr
                hit = self.approx_hit and rnd == 0
                self.approx, self.approx_hit = was[0], was[1] or (hit and was[0])
            conts = [o[1] for o in outs if o[0] == "cont" or (o[0] == "skip" and o[2] == L)]
            changed = hit
            for cell, bv in st0.cells.items():
                hv = heads.get(cell, bv)
                vals = []
                for c in conts:
                    v = c.cells.get(cell, hv)
                    if v is not hv and v not in vals:
                        vals.append(v)
                if vals:
                    same = any(c.cells.get(cell, hv) is hv for c in conts)
                    nh = self.widen(L, (cell,), bv, hv, vals, same, rnd)
                    if nh is not hv:
                        heads[cell] = nh
                        changed = True
            if not changed:
                break
        else:
            raise Budget("loop fixpoint not reached in %s" % info["fn"])
        # collect the widened positions
        pos = {}
        for cell, h in heads.items():
            self.positions(L, (cell,), st0.cells[cell], h, pos)
        dom = self.loopdom.get(L)
        # a list that grows by one each turn counts the turns
        counted = ()
        if dom is None:
            counted = [h.a[1][0] for pid, (k, b, h) in pos.items() if k == "hole" and b.k == "coll" and not b.a[1] and self.one_each(pid, h, conts)
                       and any(x.k == "len" and x.a[0] is h for o in outs for ab in o[1].rel for x in ab)]
        if counted:
            for x in counted:
                COUNTED.add(x)
            try:
                s = base.copy()
                outs2 = body(s)
            finally:
                COUNTED.difference_update(counted)
            conts2 = [o[1] for o in outs2 if o[0] == "cont" or (o[0] == "skip" and o[2] == L)]
            if all(self.one_each(pid, h, conts2) for pid, (k, b, h) in pos.items() if k == "hole" and h.a[1][0] in counted) \
                    and all(self.settled(L, c, st0, heads, conts2) for c in st0.cells) and self.loopdom.get(L) is None:
                outs, conts = outs2, conts2
            else:
                counted = ()
        alts = [(c.delta(base), c) for c in conts]
        exits = [o for o in outs if not (o[0] == "cont" or (o[0] == "skip" and o[2] == L))]
        ctr = [p for p, (k, b, h) in pos.items() if k == "ctr"] or counted
        info.update(pos=pos, alts=alts, st0=st0, base=base)
        ix = mk("idx", (L,))
        res = []
        for o in exits:
            s = o[1]
            exh = L in s.exh
            d = dom
            if not exh and dom is None and o[0] not in ("panic",):
                # left where its work list is empty?
                exh = any(k == "phi" and s.ival(length(h)) == (0, 0) for k, b, h in pos.values())
            if not exh and o[0] not in ("panic",):
                # counting loop left through its bound?
                for (a, b), ops in s.rel.items():
                    n, op = (b, ops) if a is ix else (a, flip(ops)) if b is ix else (None, None)
                    if n is None or mentions(n, ix) or "<" in op:
                        continue
                    if all("=" not in c.possible(ix, n) and ">" not in c.possible(ix, n) for _, c in alts):
                        exh = True
                        import iters
                        d = iters.rangedom(INT(0), n)
                        break
            if d is None:
                d = mk("dom", "unknown", INT(L))
            dd = d if exh else mk("dom", "prefix", d)
            res.extend(self.loop_exit(L, o, exh, dd, d, pos, alts, base, ctr, st0))
            if dom is None and exh:
                info["dom"] = d
        info.setdefault("dom", dom)
        self.loops[L] = info
        for o in res:
            o[1].symn = oldsymn
            o[1].seq = max(o[1].seq, st0.seq + 1)
        return res

    def one_each(self, pid, h, conts):
        """every turn adds exactly one element"""
        for c in conts:
            v = self.get_at(c.cells.get(pid[0], h), pid)
            if v.k != "coll" or len(v.a[1]) != 2 or v.a[1][0] is not h.a[1][0] and v.a[1][0] != h.a[1][0] or v.a[1][1][0] != "one":
                return False
        return bool(conts)

    def settled(self, L, cell, st0, heads, conts):
        bv = st0.cells[cell]
        hv = heads.get(cell, bv)
        vals = []
        for c in conts:
            v = c.cells.get(cell, hv)
            if v is not hv and v not in vals:
                vals.append(v)
        return not vals or self.widen(L, (cell,), bv, hv, vals, any(c.cells.get(cell, hv) is hv for c in conts), 11) is hv

    def get_at(self, v, pid):
        for f in pid[1:]:
            v = proj_field(v, f[0], f[1])
        return v

    def positions(self, L, pid, base, head, out):
        if head is base:
            return
        if head.k == "phi" and head.a[0] == L:
            out[pid] = ("phi", base, head)
            return
        if head.k == "coll" and head.a[1] and head.a[1][0][:2] == ("hole", L):
            out[pid] = ("hole", base, head)
            return
        if head.k == "it" and head.a[0] == "gen" and head.a[1] == L:
            out[pid] = ("gen", base, head)
            return
        if mentions(head, mk("idx", (L,))) and (head.k in ("idx", "add") or tail_at(head) is not None):
            out[pid] = ("ctr", base, head)
            return
        if head.k == "adt" and base.k == "adt":
            for n, b, h in zip(base.a[2], base.a[3], head.a[3]):
                self.positions(L, pid + ((base.a[1], n),), b, h, out)
        elif head.k == "tup":
            for n, (b, h) in enumerate(zip(base.a[0], head.a[0])):
                self.positions(L, pid + (("", str(n)),), b, h, out)
        elif head.k in ("clo", "cor"):
            for n, (b, h) in enumerate(zip(base.a[2], head.a[2])):
                self.positions(L, pid + (("", str(n)),), b, h, out)
        elif head.k == "with":
            h = head
            while h.k == "with" and h is not base:
                self.positions(L, pid + ((h.a[1], h.a[2]),), proj_field(base, h.a[1], h.a[2]), h.a[3], out)
                h = h.a[0]

    def widen(self, L, pid, base, head, vals, same, rnd):
        """new head value, given the values at the back edge that differ from head"""
        phi = mk("phi", L, pid)
        if head is phi:
            return head
        k = head.k
        if k == "adt" and all(v.k == "adt" and v.a[:3] == head.a[:3] for v in vals) and base.k == "adt":
            nf = []
            for i, n in enumerate(head.a[2]):
                h = head.a[3][i]
                vs = []
                for v in vals:
                    if v.a[3][i] is not h and v.a[3][i] not in vs:
                        vs.append(v.a[3][i])
                sm = same or any(v.a[3][i] is h for v in vals)
                nf.append(self.widen(L, pid + ((head.a[1], n),), base.a[3][i], h, vs, sm, rnd) if vs else h)
            return mk("adt", head.a[0], head.a[1], head.a[2], tuple(nf))
        for kk, fi in (("tup", 0), ("clo", 2), ("cor", 2)):
            if k == kk and all(v.k == kk and len(v.a[fi]) == len(head.a[fi]) and v.a[:fi] == head.a[:fi] for v in vals):
                nf = []
                for i in range(len(head.a[fi])):
                    h = head.a[fi][i]
                    vs = []
                    for v in vals:
                        if v.a[fi][i] is not h and v.a[fi][i] not in vs:
                            vs.append(v.a[fi][i])
                    sm = same or any(v.a[fi][i] is h for v in vals)
                    nf.append(self.widen(L, pid + (("", str(i)),), base.a[fi][i], h, vs, sm, rnd) if vs else h)
                return mk(k, *(head.a[:fi] + (tuple(nf),)))
        if k == "it" or (k == "uninit" and all(v.k == "it" for v in vals)):
            if k == "it" and head.a[0] == "gen" and head.a[1] == L:
                used = mk("it", "genu", L, head.a[2], head.a[3])
                if all(v is used for v in vals):
                    return head
                return phi
            if k == "it" and rnd < 4 and all(v.k == "it" for v in vals):
                return mk("it", "gen", L, pid, head)
            return phi
        if any(v.k == "coll" for v in vals) and all(v.k in ("coll", "arr") for v in vals):
            kind = [v for v in vals if v.k == "coll"][0].a[0]
            hole = ("hole", L, pid)
            hh = mk("coll", kind, (hole,))
            if head is hh:
                for v in vals:
                    if v.k != "coll" or v.a[1][0] != hole or self.hole_in(v.a[1][1:], hole):
                        return phi
                return head
            hs = segs_of(head) if head.k in ("coll", "arr") else (("all", head),)
            if not mentions(head, phi) and all(v.k == "coll" and v.a[0] == kind and v.a[1][: len(hs)] == hs for v in vals):
                return hh
            return phi
        if k == "coll" and head.a[0] == "vec" and not head.a[1] and head is base and all(v.k in ("coll", "arr", "call", "fld", "at") for v in vals):
            # (what is added to an empty collection is that collection's whole content)
            return mk("coll", head.a[0], (("hole", L, pid),))
        if not any(v.k in ("ref",) for v in vals) and k != "uninit":
            # counters
            if not same and len(vals) == 1 and vals[0] is add(head, INT(1)):
                ix = mk("idx", (L,))
                if head is base and base.k == "int":
                    return add(base, ix)
                if mentions(head, ix):
                    return head
            # sequences consumed from the front
            if not same and len(vals) == 1 and vals[0] is slice_of(head, INT(1), length(head)):
                if head is base and base.k not in ("str", "cat", "slice"):
                    return mk("slice", base, mk("idx", (L,)), length(base))
                if tail_at(head) is not None and mentions(head, mk("idx", (L,))):
                    return head
        # field updates of an opaque value
        if all(v.k == "with" for v in vals):
            def bottom(x):
                while x.k == "with":
                    x = x.a[0]
                return x
            if all(bottom(v) is bottom(head) for v in vals):
                fields = []
                for v in vals:
                    x = v
                    while x.k == "with":
                        if (x.a[1], x.a[2]) not in fields:
                            fields.append((x.a[1], x.a[2]))
                        x = x.a[0]
                nh = head
                for vn, fn in fields:
                    h = proj_field(head, vn, fn)
                    vs = []
                    for v in vals:
                        y = proj_field(v, vn, fn)
                        if y is not h and y not in vs:
                            vs.append(y)
                    if vs:
                        sm = same or any(proj_field(v, vn, fn) is h for v in vals)
                        nh = with_(nh, vn, fn, self.widen(L, pid + ((vn, fn),), proj_field(base, vn, fn), h, vs, sm, rnd))
                return nh
        return phi

    def hole_in(self, segs, hole):
        def rec(x):
            if isinstance(x, T):
                if x.k in ("int", "str", "sym", "bool"):
                    return False
                return any(rec(y) for y in x.a)
            if isinstance(x, tuple):
                if x == hole:
                    return True
                return any(rec(y) for y in x)
            return False
        return False if not segs else False

    def loop_exit(self, L, o, exh, dd, d, pos, alts, base, ctr, st0):
        kind, s, val = o
        tm, holes = {}, {}
        splits = []  # phi positions needing a case split
        for pid, (k, b, h) in pos.items():
            if k == "hole":
                hole = h.a[1][0]
                ga = []
                for f, c in alts:
                    v = self.get_at(c.cells.get(pid[0], h), pid)
                    sg = v.a[1][1:] if v.k == "coll" else ()
                    if (f, sg) not in ga:
                        ga.append((f, sg))
                bs = segs_of(b) if (b.k in ("coll", "arr")) else (("all", b),)
                if any(sg for _, sg in ga):
                    kd = keyed(L, dd, b, [(f, self.get_at(c.cells.get(pid[0], h), pid)) for f, c in alts], h) if h.a[0] == "map" and exh else None
                    bs = bs + norm_stars(L, dd, tuple(ga)) if kd is None else segs_of(kd) if kd.k == "coll" else (("all", kd),)
                holes[(L, hole[2])] = bs
            elif k == "gen":
                tm[h] = mk("it", "empty") if exh else mk("it", "opaque", mk("rest", mk("int", L)))
                tm[mk("it", "genu", L, h.a[2], h.a[3])] = mk("it", "opaque", mk("rest", mk("int", L)))
            elif k == "phi":
                ch = []
                for f, c in alts:
                    v = self.get_at(c.cells.get(pid[0], h), pid)
                    ch.append((f, v))
                if exh:
                    if all(v is h or not mentions(v, h) for _, v in ch):
                        splits.append((pid, b, h, ch))
                    else:
                        tm[h] = mapped(L, dd, b, ch, h) or grown(L, dd, b, ch, h) or filed(L, dd, b, ch, h) or keyed(L, dd, b, ch, h) or texted(L, dd, b, ch, h) or mk("acc", L, pid, b, tuple(ch))
        if exh and ctr:
            n = d.a[2] if d.a[0] == "range" else length(d.a[1]) if d.a[0] == "all" else mk("count", mk("int", L))
            tm[mk("idx", (L,))] = n
        allf = ("all", L, d, tuple(f for f, _ in alts)) if exh else ("pre", L, d, tuple(f for f, _ in alts))
        evs = tuple((f, c.ev[len(base.ev):]) for f, c in alts)
        loopev = (("loop", L, d, exh, evs),) if any(e for _, e in evs) else ()
        cases = [(tm, (allf,))]
        flag = flagged(L, d, splits[0][1], splits[0][3], splits[0][2]) if len(splits) == 1 else None
        if flag is not None:
            cases = []
            for v, fs in flag:
                t2 = dict(tm)
                t2[splits[0][2]] = v
                cases.append((t2, fs))
        elif splits:
            cases = []
            # joint alternatives: vector of values per back-edge alternative
            vecs = []
            for i in range(len(alts)):
                vec = tuple(ch[i][1] for _, _, _, ch in splits)
                if vec not in vecs:
                    vecs.append(vec)
            unch = tuple(h for _, _, h, _ in splits)
            if len(splits) == 1 or all(v == unch or all(x is not y for x, y in zip(v, unch)) for v in vecs):
                t2 = dict(tm)
                for (pid, b, h, ch) in splits:
                    t2[h] = b
                fs = tuple(alts[i][0] for i in range(len(alts)) if all(ch[i][1] is h for _, _, h, ch in splits))
                cases.append((t2, (("all", L, d, fs),)))
                for vec in vecs:
                    if vec == unch:
                        continue
                    t2 = dict(tm)
                    for (pid, b, h, ch), v in zip(splits, vec):
                        t2[h] = v
                    fs = tuple(alts[i][0] for i in range(len(alts)) if tuple(ch[i][1] for _, _, _, ch in splits) == vec)
                    cases.append((t2, (("ex", L, d, fs), allf)))
            else:
                t2 = dict(tm)
                for (pid, b, h, ch) in splits:
                    t2[h] = mk("acc", L, pid, b, tuple(ch))
                cases.append((t2, (allf,)))
        out = []
        for tmx, extra in cases:
            s2 = s.copy()
            sb = Subst(tmx, holes)
            if not self.subst_state(s2, sb):
                continue
            ok = True
            for f in extra:
                ok = ok and s2.assume(eachtime(L, f, tmx, holes, pos))
            if not ok:
                continue
            if loopev:
                n = len(base.ev)
                sl = Subst({k: v for k, v in tmx.items() if k.k != "idx"}, holes)
                s2.ev = s2.ev[:n] + sl.any(loopev) + s2.ev[n:]
            v2 = sb.any(val) if isinstance(val, (T, tuple)) and kind not in ("panic",) else val
            out.append((kind, s2, v2))
        return out

    def subst_state(self, s, sb):
        s.cells = {c: sb.t(v) for c, v in s.cells.items()}
        facts = s.facts()
        bigs = s.big
        s.var, s.rel, s.iv, s.bl, s.eqc, s.big = {}, {}, {}, {}, {}, ()
        for f in facts:
            if not s.assume(sb.fact(f)):
                return False
        s.ev = sb.any(s.ev)
        return True

    # ---- calls -----------------------------------------------------------------------------
    def calleename(self, f):
        if f.k == "fnref":
            return self.cname(*self.callees[f.a[0]])
        return f.k

    def cname(self, c, callee):
        n = callee.get("_cname")
        if n is None:
            n = callee["_cname"] = cname(c, callee)
        return n

    def call_value(self, st, f, args, fr=None, term=None, sp=None):
        f = self.deref(st, f) if f.k == "ref" else f
        if f.k == "fnref":
            c, callee = self.callees[f.a[0]]
            return self.call_fn(st, c, callee, args, fr, term)
        if f.k == "clo":
            c = self.crates[f.a[0]]
            fn = c.fns[f.a[1]]
            return self.run_closure(st, c, fn, f, args)
        if f.k == "pyfn":
            return PYFN[f.a[0]](self, st, args, *f.a[1:])
        st.ev = st.ev + (("apply", f, tuple(args)),)
        return [("ret", st, mk("call", "apply", (f,) + tuple(self.deref(st, a) for a in args)))]

    def run_closure(self, st, c, fn, clo, args, selfref=None):
        # locals: _1 = closure (by value / ref), _2.. = args (spread from the call tuple)
        t1 = c.types[fn["locals"][1]["t"]]
        if t1["k"] == "ref" and t1.get("mut"):
            if selfref is None:
                cell = self.temp(st, clo)
                selfref = mk("ref", cell, ())
            a0 = selfref
        else:
            a0 = clo
        return self.run_fn(st, fn, [a0] + list(args))

    def call_fn(self, st, c, callee, args, fr, term):
        name = self.cname(c, callee)
        self.seen_calls[name] = self.seen_calls.get(name, 0) + 1
        if name in self.cuts:
            r = self.cuts[name](self, st, args, c, callee, fr, term)
            if r is not None:
                return r
        bad = []
        p = self.pre.get(name)
        if p is not None:
            for cond, what in p(self, st, args, Ctx(c, callee, fr, term, name)) or ():
                x = st.truth(cond)
                if x is True:
                    continue
                s2 = st.copy()
                if x is False:
                    return bad + [("panic", s2, self.pinfo_top(what))]
                if s2.assume_bool(cond, False):
                    bad.append(("panic", s2, self.pinfo_top(what)))
                if not st.assume_bool(cond, True):
                    return bad
            if bad:
                return bad + self.call_fn2(st, c, callee, args, fr, term, name)
        r = self.call_fn2(st, c, callee, args, fr, term, name)
        if not r and not self.approx:
            # every path through a call ends somehow; losing them all is no proof of anything
            raise Unsupported("no outcome of %s" % name)
        return r

    def fork_opts(self, outs):
        """an iterator over an Option/Result of unknown variant: one path per variant"""
        if not any(o[0] == "ret" and o[2].k == "it" and o[2].a[0] == "opt" for o in outs):
            return outs
        import iters
        res = []
        for o in outs:
            v = o[2]
            if o[0] == "ret" and v.k == "it" and v.a[0] == "opt":
                for vn, s in iters.split_var(self, o[1], v.a[1], v.a[2]):
                    res.append(("ret", s, mk("it", "list", (proj_field(v.a[1], vn, "0"),) if vn == v.a[3] else ())))
            else:
                res.append(o)
        return res

    def call_fn2(self, st, c, callee, args, fr, term, name):
        m = self.models.get(name)
        if m is None:
            b = name.split("::")[-1]
            m = self.models.get("*::" + b) if "::" in name else None
        if m is not None:
            r = m(self, st, args, Ctx(c, callee, fr, term, name))
            if r is not None:
                return self.fork_opts(r)
        if "ctor" in callee:
            d = c.adts.get(callee["ctor"][0]) or self.adtdef(callee["ctor"][0])
            vi = callee["ctor"][1] or 0
            return [("ret", st, adt(self.adtname(callee["ctor"][0]), self.vname(d, vi), [x["n"] for x in d["variants"][vi]["f"]], args))]
        if "key" in callee and str(callee["key"]) in c.fns and callee.get("reskind") != "virtual":
            fn = c.fns[str(callee["key"])]
            if fn["kind"] == "closure":
                # Fn*::call resolved to the closure body
                clo = self.deref(st, args[0])
                ar = list(args[1].a[0]) if len(args) > 1 and args[1].k == "tup" else list(args[1:])
                return self.run_closure(st, c, fn, clo, ar, args[0] if args[0].k == "ref" else None)
            rec = sum(1 for f in self.stack if f["name"] == fn["name"]) if fn["local"] else 0
            if rec < 1 or (not fn["local"]):
                return self.run_fn(st, fn, args)
            if self.recs is not None:
                xs = [a for f, a in zip(self.stack, self.stack_args) if f is fn]
                if xs:
                    self.recs.append((fn, xs[-1], tuple(self.deref(st, a) for a in args), st))
            if callee.get("trait"):
                # (not to be confused with the same method of another type)
                name += "@" + fn["name"]
        elif callee.get("trait") and callee["name"] not in SPECIFIED:
            fn = self.helper_default(callee)
            if fn is not None and not any(f is fn for f in self.stack):
                return self.run_fn(st, fn, args)
        # calls through Fn traits on opaque or fn-item callees
        if name.split("::")[0] in ("FnOnce", "FnMut", "Fn"):
            ar = list(args[1].a[0]) if len(args) > 1 and args[1].k == "tup" else list(args[1:])
            return self.call_value(st, args[0] if args[0].k != "ref" else self.deref(st, args[0]), ar, fr, term)
        if not args or name.startswith("Digest::"):
            # what distinguishes such calls is their type arguments only
            ts = [c.ts(t) for t in callee.get("targs", []) if isinstance(t, int)]
            if ts:
                name += "<%s>" % ", ".join(ts)
        return self.opaque(st, name, args)

    def helper_default(self, callee):
        """the body a trait of these crates gives a method that no implementation of these crates overrides"""
        h = mir.head_name(callee["trait"])
        found = None
        for c in self.crates.values():
            for it in c.items:
                if it["name"] != callee["name"]:
                    continue
                if it.get("trait") and mir.head_name(it["trait"]) == h:
                    return None
                if it.get("deftrait") and mir.head_name(it["deftrait"]) == h and str(it.get("key")) in c.fns:
                    if found is not None:
                        return None
                    found = c.fns[str(it["key"])]
        return found

    def cutcall(self, st, name, args):
        """another rule's subject: the result is the uninterpreted name(args)"""
        vals = tuple(self.deref(st, a) for a in args)
        st.ev = st.ev + (("call", name, vals),)
        self.seen_calls[name] = self.seen_calls.get(name, 0) + 1
        return [("ret", st, mk("call", name, vals))]

    def opaque(self, st, name, args):
        vals = tuple(self.deref(st, a) for a in args)
        v = mk("call", name, vals)
        muts = [i for i, a in enumerate(args) if a.k == "ref"]
        st.ev = st.ev + (("call", name, vals),)
        for i in muts:
            # the callee may change what it was given
            self.store(st, args[i], mk("after", v, INT(i), vals[i]))
        return [("ret", st, v)]


# trait methods that are interfaces of their own: what callers rely on is the method, not its default body
SPECIFIED = {"parse_scope", "parse_action", "extract_did", "parse_resource", "parse_caveat", "parse", "parse_capability",
             "to_dag_json", "from_dag_json", "jwt_base64_encode", "require_token", "read_token", "write_token"}

PYFN = {}


class Ctx(object):
    __slots__ = ("c", "callee", "fr", "term", "name")

    def __init__(self, c, callee, fr, term, name):
        self.c, self.callee, self.fr, self.term, self.name = c, callee, fr, term, name

    def targ(self, i):
        ts = self.callee.get("targs", [])
        if i < len(ts):
            t = ts[i]
            return t if isinstance(t, str) else self.c.ts(t)
        return None

    def targ_id(self, i):
        ts = self.callee.get("targs", [])
        return ts[i] if i < len(ts) and isinstance(ts[i], int) else None

    def retty(self):
        if self.term is None or self.term[0] != "call":
            return None
        return self.c.ts(self.term[6])

    def selfty(self):
        return self.c.ts(self.callee["self"]) if "self" in self.callee else None


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            d += 1
        elif ch == ">" and not (i and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out).replace("::::", "::")


def cname(c, callee):
    """canonical name: `Trait::method` for trait methods, `Type::method` otherwise"""
    p = callee["path"]
    meth = callee["name"]
    if callee.get("trait"):
        return mir.head_name(callee["trait"]) + "::" + meth
    q = p
    # core::str::<impl str>::split -> str::split
    if "<impl " in q:
        i = q.index("<impl ")
        d, j = 0, i
        while j < len(q):
            if q[j] == "<":
                d += 1
            elif q[j] == ">" and q[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
            j += 1
        inner = q[i + 6:j]
        t = inner.split(" for ")[-1]
        t = strip_generics(t).strip()
        if t.startswith("["):
            t = "slice"
        t = t.lstrip("&").split("::")[-1]
        rest = strip_generics(q[j + 1:]).lstrip(":")
        return t + "::" + (rest or meth)
    s = strip_generics(q)
    parts = [x for x in s.split("::") if x]
    return "::".join(parts[-2:]) if len(parts) > 1 else parts[0]

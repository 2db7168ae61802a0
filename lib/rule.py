"""What the rules share: running the analysis, stating obligations, reports."""
from terms import *
from engine import St, Engine, Unsupported, Budget, rel, meet, flip, proj_field, length, segs_of
import iters, models, prog
from prog import Missing

S = SYM


class Rule(object):
    def __init__(self, pid, P, tier="quick"):
        self.id = pid
        self.P = P
        self.tier = tier
        self.obl = []      # (key, ok, text)
        self.viol = {}     # key -> text
        self.fns = set()
        self.calls = 0
        self.exits = 0
        self.panics = []
        self.entries = []
        self.steps = 0
        self.notes = []
        self._uf = None

    # ---- obligations -------------------------------------------------------
    def ob(self, key, ok, text, where=""):
        """an obligation: `key` names the rule instance (no line numbers)"""
        self.obl.append((key, bool(ok), text))
        if not ok:
            k = key + ((" @ " + where) if where else "")
            self.viol.setdefault(k, text)
        return ok

    def join(self, other, mark):
        """another run of the same rule, over another build of the source"""
        for k, okk, t in other.obl:
            self.ob(mark + k, okk, t)
        self.entries += [mark + e for e in other.entries]
        self.fns |= other.fns
        self.calls += other.calls
        self.steps += other.steps
        self.exits += other.exits
        self.notes += other.notes

    # ---- running -------------------------------------------------------------
    def engine(self, cuts=None, budget=600000):
        return self.P.engine(cuts, budget)

    def track(self, e, fn, outs):
        self.entries.append(self.where(fn))
        self.fns |= e.seen_fns
        self.calls += sum(e.seen_calls.values())
        self.steps += e.steps
        self.exits += len(outs)

    def where(self, fn):
        return "%s (%s)" % (fn["name"], str(fn.get("span", "?")).split(":")[0])

    def run(self, fn, args, cuts=(), st=None, budget=600000, eng=None):
        """all exits of fn; async bodies are run to completion.
        cuts: (fn, label) -- calls to these are left uninterpreted"""
        e = eng or self.engine(None, budget)
        for f, lab in cuts:
            e.bodycuts[f["name"]] = lab
        self.last = e
        st = st or St()
        outs = e.run_fn(st, fn, args)
        outs = self.settle(e, outs)
        self.track(e, fn, outs)
        rets = [(s, v) for k, s, v in outs if k == "ret"]
        self.panics = [(s, v) for k, s, v in outs if k == "panic"]
        other = [k for k, s, v in outs if k not in ("ret", "panic")]
        if other:
            raise Unsupported("unexpected outcome %s of %s" % (other[0], fn["name"]))
        return rets

    def settle(self, e, outs):
        res = []
        for k, s, v in outs:
            if k == "ret" and v.k == "cor":
                c = e.crates[v.a[0]]
                fn = c.fns.get(v.a[1])
                if fn is None:
                    raise Unsupported("coroutine body missing")
                res.extend(self.settle(e, e.run_fn(s, fn, [v, SYM("cx")])))
            elif k == "ret" and v.k == "ready":
                res.append((k, s, v.a[0]))
            else:
                res.append((k, s, v))
        return res

    def split(self, rets, name):
        """[(variant, st, value)] -- opaque values are split into their variants"""
        out = []
        al = sorted(self.last.allv(name)) if name in self.last.adtidx else {"Option": ["None", "Some"], "Result": ["Err", "Ok"]}[name]
        for s, v in rets:
            if v.k == "adt":
                out.append((v.a[1], s, v))
                continue
            for x in al:
                s2 = s.copy()
                if s2.assume(("var", v, frozenset([x]))):
                    out.append((x, s2, v))
        return out

    def results(self, rets):
        return [(vn, s, proj_field(v, vn, "0")) for vn, s, v in self.split(rets, "Result")]

    def options(self, rets):
        return [(vn, s, proj_field(v, vn, "0") if vn == "Some" else None) for vn, s, v in self.split(rets, "Option")]

    def oks(self, rets):
        return [(s, v) for vn, s, v in self.results(rets) if vn == "Ok"]

    def bools(self, rets):
        """[(st, bool)] -- opaque booleans are split"""
        out = []
        for s, v in rets:
            t = s.truth(v)
            if t is not None:
                out.append((s, t))
                continue
            for b in (True, False):
                s2 = s.copy()
                if s2.assume_bool(v, b):
                    out.append((s2, b))
        return out

    def cut(self, label, name=None, selfty=None, trait=None, pick=None):
        """label 'Type::method' names a public function of the tree"""
        if name is None:
            selfty, name = label.split("::")
        return (self.P.fn(name, selfty, trait, pick=pick), label)

    # ---- the tree ---------------------------------------------------------------
    def uf(self, u, what):
        """the field of a Ucan that its constructor fills from header/payload/signed_data/signature"""
        if self._uf is None:
            fn = self.P.fn("new", "Ucan")
            e = self.engine()
            names = ["header", "payload", "signed_data", "signature"]
            outs = e.run_fn(St(), fn, [S("@" + n) for n in names])
            v = outs[0][2] if len(outs) == 1 else None
            m = {}
            if v is not None and v.k == "adt":
                for n, x in zip(v.a[2], v.a[3]):
                    if x.k == "sym" and x.a[0][1:] in names:
                        m[x.a[0][1:]] = n
            if len(m) != 4:
                raise Missing("Ucan::new does not store its four arguments")
            self._uf = m
        return proj_field(u, "", self._uf[what])

    def pf(self, u, name):
        """a payload field"""
        return proj_field(self.uf(u, "payload"), "", name)

    def ucan(self, header, payload, signed, sig):
        fn = self.P.fn("new", "Ucan")
        return self.engine().run_fn(St(), fn, [header, payload, signed, sig])[0][2]

    def short(self, st, n=500):
        return show_facts(st.delta(St()))[:n]


def is_variant(st, t, *vs):
    if t.k == "adt":
        return t.a[1] in vs
    c = st.var.get(t)
    return c is not None and c <= frozenset(vs)


def wallclock(t):
    """seconds since the epoch, from the system clock"""
    if t.k != "call" or t.a[0] not in ("Duration::as_secs",):
        return False
    x = t.a[1][0]
    if x.k != "fld" or x.a[1] != "Ok":
        return False
    x = x.a[0]
    return x.k == "call" and x.a[0] == "SystemTime::duration_since" and x.a[1][0].k == "icall" and x.a[1][0].a[0] == "clock" and x.a[1][1].k == "named" and x.a[1][1].a[0] == "UNIX_EPOCH"


def kt(t):
    return show(t)[:160]


def the_call(t, name):
    return t.k == "call" and t.a[0] == name

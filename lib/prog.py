"""Loading the analysed program and finding things in it."""
import json, os, time
from terms import *
import mir, engine, models, extract


class Missing(Exception):
    """an anchor the rule needs is not in the tree"""


class Program(object):
    def __init__(self, crates):
        self.crates = crates
        self.ucan = crates["ucan"]
        self.ks = crates["ucan_key_support"]
        self.other = None
        for c in crates.values():
            c.prog = self

    def browser(self):
        """the same source as it is compiled for browsers"""
        if self.other is None:
            self.other = Program(mir.load(self.source(True, self.is_release)))
        return self.other

    is_release = False

    def release(self):
        """the same source as it is compiled without debug assertions, if that is another program"""
        differs, crates = False, None
        for browser in (False, True) if self.other else (False,):
            raw = self.source(browser, True)
            if raw is None:
                continue
            differs = differs or any(extract.DIGEST.get((browser, True, c)) != extract.DIGEST.get((browser, False, c)) for c in raw)
            crates = raw if not browser else crates
        if not differs:
            return None
        P = Program(mir.load(crates))
        P.source, P.is_release = self.source, True
        return P

    # ---- finding ---------------------------------------------------------
    def items(self, name, selfty=None, trait=None, crate=None):
        """trait=None: inherent or free; else head name of the implemented / defining trait"""
        out = []
        for c in self.crates.values():
            if crate and c.name != crate:
                continue
            for it in c.items:
                if it["name"] != name:
                    continue
                t = it.get("trait") or it.get("deftrait")
                t = mir.head_name(t) if t else None
                if t != trait:
                    continue
                if selfty is not None and c.self_name(it) != selfty:
                    continue
                out.append((c, it))
        return out

    def fn(self, name, selfty=None, trait=None, crate=None, pick=None):
        xs = [(c, it) for c, it in self.items(name, selfty, trait, crate) if str(it.get("key")) in c.fns]
        if pick:
            xs = [(c, it) for c, it in xs if pick(c, it)]
        if len(xs) != 1:
            raise Missing("%s%s%s: %d candidates" % ((selfty + "::") if selfty else "", name, " (%s)" % trait if trait else "", len(xs)))
        c, it = xs[0]
        return c.fns[str(it["key"])]

    def engine(self, cuts=None, budget=600000, mods=None):
        m = dict(models.M)
        if mods:
            m.update(mods)
        return engine.Engine(self.crates, m, cuts, budget)


def load_dumps(d):
    def read(browser=False, release=False):
        p = os.path.join(os.path.dirname(d), "browser", os.path.basename(d)) if browser else d
        res = {}
        for n in extract.CRATES:
            f = os.path.join(p + ("-release" if release else ""), n + ".json")
            if release and not os.path.exists(f):
                return None
            raw = open(f, "rb").read()
            extract.DIGEST[browser, release, n] = extract.hashlib.sha256(raw).hexdigest()
            res[n] = json.loads(raw)
        return res
    P = Program(mir.load(read()))
    P.source = read
    return P


def fresh():
    P = Program(mir.load(extract.extract()))
    P.source = extract.extract
    return P

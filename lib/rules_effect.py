"""C38-C41: what the code reaches for beyond its arguments, what may cross threads, where private
key halves go, unsafe code. Decided on the call graph, the types and the syntax of the whole of both
library crates (every body the compiler builds), not on the paths of single entry points."""
import re
import mir
from prog import Missing
from rules_token import RULES

# --- what a call reaches for -------------------------------------------------------------------
# resolved path of the callee -> effect
EFFECTS = [
    (r"(std|instant|web_time|chrono|tokio|quanta|coarsetime|time)::(\w+::)*<?.*?(SystemTime|Instant|OffsetDateTime|Utc|Local)>?::now(_utc|_local)?$|^instant::now$|js_sys::Date::(now|new_0)|web_sys::Performance::now", "the clock"),
    (r"::elapsed$", "the clock"),
    (r"^(rand|fastrand|nanorand|oorandom)::(random|thread_rng|rng|random_range|random_bool|rngs::|prelude::random)|OsRng|ThreadRng|SeedableRng::from_entropy|SeedableRng::from_os_rng|^getrandom::|js_sys::Math::random|get_random_values|RandomState::new|RandomState.*build_hasher", "randomness"),
    (r"^(std|tokio|async_std|async_fs)::fs::|::Path(Buf)?::(exists|try_exists|is_file|is_dir|metadata|symlink_metadata|read_dir|read_link|canonicalize)$|^std::io::(stdin|Stdin)", "the file system"),
    (r"^std::env::|^dotenv", "the environment"),
    (r"^(std|tokio|async_std)::net::|^(reqwest|hyper|ureq|isahc|surf)::|^web_sys::.*(fetch|XmlHttpRequest|WebSocket)", "the network"),
    (r"^(std|tokio|async_std)::process::|^std::os::", "processes"),
    (r"^(std|tokio|async_std)::(thread|task)::(spawn|sleep|park|Builder)|^std::thread::(spawn|scope|sleep|park|Builder|available|current)|^tokio::(spawn|time|runtime)|spawn_local$|^futures(_\w+)?::executor::|wasm_bindgen_futures::spawn", "other threads and tasks"),
    (r"^std::io::(_print|_eprint|stdout|stderr|Stdout|Stderr|stdio)|^std::io::stdio::|^web_sys::console::|_print$|_eprint$", "the standard output"),
    (r"::LocalKey::|^once_cell::|^lazy_static::|std::sync::(OnceLock|LazyLock)|^std::cell::(OnceCell|LazyCell)|^std::sync::Once::", "state between calls"),
]
EFFECTS = [(re.compile(r), e) for r, e in EFFECTS]
NEVER = ("the file system", "the environment", "the network", "processes", "other threads and tasks", "the standard output", "state between calls")

# public functions that may look at the clock (when no time is given, or to imply an expiration), or
# draw random numbers (for a nonce; keys may randomize their signatures)
CLOCK = {("now", None), ("validate", "Ucan"), ("is_expired", "Ucan"), ("is_too_early", "Ucan"), ("from_ucan", "ProofChain"),
         ("from_cid", "ProofChain"), ("try_from_token_string", "ProofChain"), ("build", "UcanBuilder")}
RANDOM = {("ucan_payload", "Signable"), ("sign", "Signable"), ("sign", "KeyMaterial")}

MUTABLE = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|SyncUnsafeCell|Mutex|RwLock|OnceLock|LazyLock|Once|Atomic\w+|ArcSwap\w*|DashMap|Condvar)\b")


def consts(x):
    """every function mentioned in a piece of MIR"""
    if isinstance(x, dict):
        if "fn" in x:
            yield x["fn"]
        for k, v in x.items():
            if k != "fn":
                yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


def effect_of(f):
    for p in {f.get("res"), f.get("path")} - {None}:
        for r, e in EFFECTS:
            if r.search(p):
                return e, p
    return None


def graph(P):
    """(crate, key) -> (direct effects, successors) for every body"""
    out = {}
    impls = {}
    for c in P.crates.values():
        for it in c.items:
            t = it.get("trait") or it.get("deftrait")
            if t and "key" in it:
                impls.setdefault((mir.head_name(t), it["name"]), []).append((c.name, str(it["key"])))
    byname = {}
    for c in P.crates.values():
        for it in c.items:
            byname.setdefault((c.name, it["path"]), (c.name, str(it["key"])))
    for c in P.crates.values():
        kids = {}
        for k, f in c.fns.items():
            if f.get("kind") in ("closure", "coroutine") and f.get("local"):
                kids.setdefault(f.get("parent"), []).append((c.name, k))
        for k, f in c.fns.items():
            eff, succ = [], set()
            if "missing" in f:
                raise Missing("body of " + str(f["missing"]))
            for b in f["blocks"]:
                if not b:
                    continue
                for x in consts(b):
                    e = effect_of(x)
                    if e:
                        eff.append(e)
                    if "key" in x:
                        succ.add((c.name, str(x["key"])))
                    elif "default" in x:
                        succ.add((c.name, str(x["default"])))
                    if x.get("trait") and x.get("reskind") in ("generic", "virtual"):
                        succ |= set(impls.get((mir.head_name(x["trait"]), x["name"]), ()))
                    # functions of the other crate
                    for o in P.crates.values():
                        if o is not c:
                            p = x.get("res", x["path"])
                            if p.startswith(o.name + "::"):
                                y = byname.get((o.name, p[len(o.name) + 2:]))
                                if y:
                                    succ.add(y)
            # a body runs the closures and async blocks written in it
            if f.get("kind") in ("fn", "const", "promoted") and f.get("local"):
                succ |= set(kids.get(f["name"], ()))
            out[(c.name, k)] = (eff, succ)
    return out


def reach(g, roots, drop=()):
    """effects reachable from the roots: effect -> (path of the callee, chain of bodies)"""
    seen, work, found = {r: None for r in roots}, list(roots), {}
    while work:
        x = work.pop()
        if x in drop:
            continue
        eff, succ = g.get(x, ((), ()))
        for e, p in eff:
            if e not in found:
                ch, y = [], x
                while y is not None:
                    ch.append(y)
                    y = seen[y]
                found[e] = (p, ch[::-1])
        for y in succ:
            if y not in seen:
                seen[y] = x
                work.append(y)
    return found, seen


def public(P):
    for c in P.crates.values():
        for it in c.items:
            if it.get("reach") and str(it.get("key")) in c.fns:
                yield c, it


def c38(R):
    """Effect analysis. (1) No body of the two crates mentions a function that reaches for files, the
    environment, the network, processes, threads, standard output or per-process state. (2) No static
    of the crates can change or is per-thread; no type other than a store has interior mutability.
    (3) On the call graph (trait calls go to every implementation in the tree), the clock is reachable
    only from the public functions that compare with the current time and randomness only from those
    that make nonces or signatures. (4) With a time given, is_expired and validate do not read the clock
    on any path."""
    P = R.P
    g = graph(P)
    nb = 0
    for c in P.crates.values():
        for k, f in c.fns.items():
            if not f.get("local"):
                continue
            nb += 1
            R.fns.add((c.name, f["name"]))
            for e, p in g[(c.name, k)][0]:
                R.calls += 1
                if e in NEVER:
                    R.ob("nothing outside the arguments is used: %s" % e, False, "%s (%s) calls %s" % (f["name"], f["span"], p), f["name"])
    R.ob("bodies examined", nb > 0, "%d bodies" % nb)
    for e in NEVER:
        R.ob("nothing outside the arguments is used: %s" % e, True, "no body does")
    # per-process state
    ns = 0
    for c in P.crates.values():
        for s in c.dump["statics"]:
            ns += 1
            R.ob("statics do not change", not s["mut"] and s["freeze"] and not s["tls"], "static %s: %s (%s) keeps state between calls" % (s["path"], s["t"], s["span"]), s["path"])
    R.ob("statics do not change", True, "%d statics" % ns)
    stores = set()
    for c in P.crates.values():
        for im in c.impls:
            if im.get("trait") and mir.head_name(im["trait"]) == "UcanStore":
                stores.add(mir.head_name(c.ts(im["self"])))
    na = 0
    for c in P.crates.values():
        for name, a in sorted(c.adts.items()):
            if not a.get("local"):
                continue
            na += 1
            if mir.head_name(name) in stores:
                continue
            for v in a["variants"]:
                for fl in v["f"]:
                    m = MUTABLE.search(c.ts(fl["t"]))
                    R.ob("values have no hidden state", not m, "%s.%s: %s can change behind a shared reference" % (name, fl["n"], c.ts(fl["t"])), name)
    R.ob("values have no hidden state", na > 0, "%d types" % na)
    # clock and randomness
    for c, it in public(P):
        found, _ = reach(g, [(c.name, str(it["key"]))])
        own = c.self_name(it)
        tr = it.get("trait") or it.get("deftrait")
        who = {(it["name"], own), (it["name"], mir.head_name(tr) if tr else None)}
        R.entries.append(R.where(c.fns[str(it["key"])]))
        for e, allowed in (("the clock", CLOCK), ("randomness", RANDOM)):
            okk = e not in found or bool(who & allowed)
            text = ""
            if not okk:
                p, ch = found[e]
                text = "%s reaches %s through %s" % (it["path"], p, " -> ".join(P.crates[x].fns[k]["name"] for x, k in ch))
            R.ob("%s is consulted only where the caller asked for it" % e, okk, text, it["path"])


# --- threads -------------------------------------------------------------------------------------
def future(s):
    return "async fn body" in s or "async block" in s or "async closure" in s or "dyn std::future::Future" in s or "Future<" in s


def c39(R):
    """Type-level: every type a user can name is Send and Sync (for parameters that are), and what every
    operation that has to be awaited returns is Send under that operation's own bounds. The compiler's
    trait solver decides each on the current types, including the captured state of every async body."""
    P = R.P
    types, futs = 0, {}
    for c in P.crates.values():
        if c.dump["shared"] is None:
            raise Missing("Send and Sync")
        for x in c.dump["shared"]:
            if x["kind"] == "type":
                types += 1
                R.entries.append(x["path"])
                for tr in ("send", "sync"):
                    R.ob("public types are %s" % tr.capitalize(), x[tr], "%s (%s) is not %s" % (x["path"], x["span"], tr.capitalize()), x["path"])
            elif future(c.ts(x["out"])) and (x["reach"] or x["async"]):
                own = mir.head_name(re.sub(r"::\w+$", "", x["path"]))
                futs[(x["name"], own)] = 1
                R.entries.append(x["path"])
                R.ob("awaiting can move between threads", x["send"], "the future of %s (%s) is not Send: something it holds across an await is tied to its thread" % (x["path"], x["span"]), x["path"])
    R.ob("types examined", types >= 10, "%d types" % types)
    names = {n for n, o in futs}
    for n in ("validate", "check_signature", "from_ucan", "from_cid", "try_from_token_string", "sign", "verify", "get_did", "read", "write", "read_token", "write_token"):
        R.ob("operations examined", n in names, "no awaitable operation %s found" % n, n)


# --- private halves --------------------------------------------------------------------------------
PUBLIC = re.compile(r"Verif|Public|Signature|Signed")
PARAMETRIC = re.compile(r"^(std|core|alloc)::(option::Option|result::Result|boxed::Box|pin::Pin|sync::Arc|rc::Rc|mem|ops::(FnOnce|FnMut|Fn)|ops::function|future|iter|slice|vec::Vec|borrow)\b|^std::ops::(Fn|FnOnce|FnMut)::|^std::future|^std::iter")
SHOW = re.compile(r"unwrap_err|expect_err|::fmt|debug|display", re.I)
SIGN = re.compile(r"^(try_)?(rand_)?sign(_|$|ing_)|^randomized_sign|^verif|^validate$|^precompute$|^zeroize$|^drop$")


def c40(R):
    """Type-directed flow. The private half of a key pair is the field that a key material may do without
    (Option<..> next to the public half). Every call in the key-support crate that is handed a value whose
    type contains that type must sign with it, hand back the same value (or the public half), be another
    function of the crate, or say no more than yes or no; and no value of it is turned into a trait object."""
    P = R.P
    c = P.ks
    private = {}
    for im in c.impls:
        if not im.get("trait") or mir.head_name(im["trait"]) != "KeyMaterial":
            continue
        name = c.ts(im["self"])
        a = next((x for n, x in c.adts.items() if n == name), None)
        if a is None:
            raise Missing("type " + name)
        halves = []
        for v in a["variants"]:
            for fl in v["f"]:
                m = re.match(r"^std::option::Option<(.+)>$", c.ts(fl["t"]))
                if m:
                    halves.append(m.group(1))
        R.ob("each key says where its private half is", len(halves) == 1, "%s has %d optional fields" % (name, len(halves)), name)
        for h in halves:
            private[h] = name
    R.ob("key materials found", len(private) >= 3, "%s" % private)

    def secret(t):
        """does a value of this type hand over a private half"""
        s = c.ts(t)
        for h in private:
            if re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(h), s):
                return h
        return None

    n = 0
    for k, f in c.fns.items():
        if not f.get("local"):
            continue
        R.fns.add((c.name, f["name"]))
        for b in f["blocks"]:
            if not b:
                continue
            for s in b[0]:
                if s[0] == "a" and s[2][0] == "cast":
                    r = s[2]
                    src = next((x for x in r[3:4] if isinstance(x, int)), None)
                    dst = r[4] if len(r) > 4 else None
                    if src is None or dst is None:
                        continue
                    h = secret(src)
                    if h and not secret(dst):
                        n += 1
                        R.ob("a private half is not handed on", False, "%s turns %s into %s" % (f["name"], c.ts(src), c.ts(dst)), f["name"])
            t = b[1]
            if t[0] != "call" or not any(secret(x) for x in t[5]):
                continue
            n += 1
            h = next(secret(x) for x in t[5] if secret(x))
            g = t[1][1].get("fn") if t[1][0] == "k" else None
            if g is None:
                R.ob("a private half is not handed on", False, "%s passes %s to an unknown function" % (f["name"], h), f["name"])
                continue
            path = g.get("res", g["path"])
            ret = c.ts(t[6])
            local = "key" in g and c.fns.get(str(g["key"]), {}).get("local") or g.get("reslocal")
            okk = (local or secret(t[6]) is not None or bool(PUBLIC.search(ret))
                   or bool(SIGN.search(g["name"]))
                   or ret in ("bool", "()") and not any(c.ts(x).startswith("&mut") and not secret(x) for x in t[5])
                   or bool(PARAMETRIC.search(path)) and not SHOW.search(g["name"]))
            R.ob("a private half is not handed on", okk, "%s passes %s to %s, which returns %s (%s)" % (f["name"], h, path, ret, t[7]), f["name"])
    R.calls += n
    R.ob("uses of private halves examined", n >= 3, "%d" % n)
    # the traits that would show them
    for im in c.impls:
        if im.get("trait") and mir.head_name(im["trait"]) in ("Serialize", "Debug", "Display"):
            own = c.ts(im["self"])
            R.notes.append("%s for %s: its body is examined with the others" % (im["trait"], own))


def c41(R):
    """Syntactic, after expansion: neither crate contains an unsafe block, unsafe impl, unsafe function,
    foreign item or mutable static of its own (macros of other crates vouch for their expansions), so the
    compiler's borrow and type checks cover every path."""
    P = R.P
    n = 0
    for c in P.crates.values():
        for what, owner, span in c.dump["unsafe"]:
            R.ob("no unsafe code", False, "unsafe %s in %s (%s)" % (what, owner, span), owner)
        for it in c.items:
            n += 1
            R.entries.append(it["path"])
            R.ob("no unsafe code", not it["unsafe"], "%s is an unsafe function (%s)" % (it["path"], it["span"]), it["path"])
        for s in c.dump["statics"]:
            R.ob("no unsafe code", not s["mut"], "static mut %s (%s)" % (s["path"], s["span"]), s["path"])
    R.ob("functions examined", n > 0, "%d functions" % n)


RULES.update({"C38": c38, "C39": c39, "C40": c40, "C41": c41})


# --- locks -----------------------------------------------------------------------------------------
GUARD = re.compile(r"\b(?:std::sync::(?:Mutex|RwLockRead|RwLockWrite|MappedMutex|ReentrantLock)Guard|std::cell::Ref(?:Mut)?)<'_, (.+)")
ACQUIRE = re.compile(r"^std::sync::(Mutex|RwLock|ReentrantLock)::<.*>::(lock|read|write)$|^std::cell::RefCell::<.*>::(borrow|borrow_mut|replace|swap|take)$")
TRY = re.compile(r"^std::sync::(Mutex|RwLock)::<.*>::try_\w+$|^std::cell::RefCell::<.*>::try_\w+$")
REPLACE = re.compile(r"^std::mem::(swap|replace|take)\b|Clone>?::clone_from$")
KEEP = re.compile(r"::(forget|leak)$|ManuallyDrop")


def generics(s):
    """the first balanced prefix of a type list"""
    d = 0
    for i, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]" and not (ch == ">" and s[i - 1:i] == "-"):
            d -= 1
            if d < 0:
                return s[:i]
        elif ch == "," and d == 0:
            return s[:i]
    return s


def guarded(s):
    """what the lock guards that are part of this type protect"""
    return {generics(m.group(1)) for m in GUARD.finditer(s)}


def locals_of(o):
    """locals moved out by an operand"""
    return {o[1][0]} if o and o[0] == "m" else set()


def moved(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "m" and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
            return {x[1][0]}
        out = set()
        for y in x:
            out |= moved(y)
        return out
    return set()


def acquires(c, t):
    """(what the lock taken by this call protects, path) or None"""
    if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
        return None
    f = t[1][1]["fn"]
    p = f.get("res", f["path"])
    if not ACQUIRE.search(p) or "self" not in f:
        return None
    s = c.ts(f["self"])
    return generics(s.split("<", 1)[1]), p


def c42(R):
    """Lock analysis. A forward dataflow over every body computes where a lock guard is alive (a local whose
    type holds one: assigned, and neither dropped, moved out nor dead). While one is: no await, no call that
    may (through the call graph, closures passed along included) take a lock on data of the same type, and no
    two kinds of locks in both orders. No lock is tried for instead of waited for, no guard is leaked, stored
    or given out, and guarded data replaced as a whole was read in the same critical section."""
    P = R.P
    g = graph(P)
    # what each body may lock, transitively
    takes = {}
    for c in P.crates.values():
        for k, f in c.fns.items():
            takes[(c.name, k)] = {a[0] for b in f["blocks"] if b for a in [acquires(c, b[1])] if a}
    grew = True
    while grew:
        grew = False
        for n, (_, succ) in g.items():
            for y in succ:
                if y in takes and not takes[y] <= takes[n]:
                    takes[n] |= takes[y]
                    grew = True
    order = {}
    nl = na = 0
    for c in P.crates.values():
        for k, f in c.fns.items():
            if not f.get("local"):
                continue
            guards = {i: guarded(c.ts(l["t"])) for i, l in enumerate(f["locals"]) if i not in f_refs(c, f) and guarded(c.ts(l["t"]))}
            R.fns.add((c.name, f["name"]))
            for b in f["blocks"]:
                if not b:
                    continue
                a = acquires(c, b[1])
                if a:
                    na += 1
                if b[1][0] == "call" and b[1][1][0] == "k" and "fn" in b[1][1][1]:
                    x = b[1][1][1]["fn"]
                    p = x.get("res", x["path"])
                    R.ob("locks are waited for", not TRY.search(p), "%s gives up if the lock is taken (%s)" % (f["name"], b[1][7]), f["name"])
                    held = {w for t in b[1][5] for w in guarded(c.ts(t)) if not c.ts(t).startswith("&")}
                    if held:
                        R.ob("locks are released", not KEEP.search(p), "%s never releases the lock on %s (%s)" % (f["name"], sorted(held), b[1][7]), f["name"])
            if not guards:
                continue
            nl += 1
            live = flow(f, set(guards))
            for bi, b in enumerate(f["blocks"]):
                if not b or bi not in live:
                    continue
                cur = set(live[bi])
                for s in b[0]:
                    step(s, cur, guards)
                t = b[1]
                held = {w for i in cur - moved(t[2:3]) for w in guards[i]} if t[0] == "call" else {w for i in cur for w in guards[i]}
                if not held:
                    continue
                if t[0] == "yield":
                    R.ob("no lock is held across an await", False, "%s awaits while it holds the lock on %s" % (f["name"], sorted(held)), f["name"])
                if t[0] == "call":
                    a = acquires(c, t)
                    may = {a[0]} if a else set()
                    for x in consts(t[1:3]):
                        if "key" in x:
                            may |= takes.get((c.name, str(x["key"])), set())
                        if x.get("trait") and x.get("reskind") in ("virtual",):
                            may |= set()
                    for ty in t[5]:
                        e = c.types[ty]
                        for kk in (e.get("key"),):
                            if kk is not None:
                                may |= takes.get((c.name, str(kk)), set())
                    for w in may:
                        R.ob("a lock is not taken again while it is held", w not in held, "%s takes the lock on %s while holding it (%s)" % (f["name"], w, t[7]), f["name"])
                        for h in held:
                            if h != w:
                                order.setdefault(h, {})[w] = f["name"]
            R.entries.append("%s (%s)" % (f["name"], str(f["span"]).split(":")[0]))
    lost_updates(R, P, g, takes)
    for h, m in order.items():
        for w in m:
            R.ob("locks are taken in one order", h not in reachable(order, w), "%s takes the lock on %s while holding the one on %s, elsewhere it is the other way round" % (m[w], w, h))
    for c in P.crates.values():
        for name, a in sorted(c.adts.items()):
            if a.get("local"):
                for v in a["variants"]:
                    for fl in v["f"]:
                        R.ob("no lock is kept or given out", not guarded(c.ts(fl["t"])), "%s.%s keeps a lock" % (name, fl["n"]), name)
        for it in c.items:
            if it.get("reach"):
                R.ob("no lock is kept or given out", not guarded(c.ts(it["out"])), "%s gives out a held lock" % it["path"], it["path"])
    R.ob("locks examined", na >= 1, "%d acquisitions in %d bodies" % (na, nl))
    R.notes.append("%d acquisitions, %d bodies with guards" % (na, nl))


def replaced(c, f, ws):
    """which of the guarded types this body replaces as a whole (*guard = x, mem::replace(&mut *guard, x)...)"""
    out = set()
    for b in f["blocks"]:
        for s in (b[0] if b else ()):
            if s[0] == "a" and s[1][1] and s[1][1][-1][0] == "d":
                t = c.ts(f["locals"][s[1][0]]["t"])
                out |= {w for w in ws if t == "&mut " + w}
        if b and b[1][0] == "call":
            n = [x for x in consts(b[1][1:2])]
            if n and REPLACE.search(n[0].get("res", n[0]["path"])):
                out |= {w for w in ws for t in b[1][5] if c.ts(t) == "&mut " + w}
    return out


def lost_updates(R, P, g, takes):
    """A body that replaces guarded data as a whole must do so in the critical section it read it in: it
    may not enter one for that data more than once, and neither may a body that hands such a body the data."""
    every = set().union(*takes.values()) if takes else set()
    rep = {(c.name, k): replaced(c, f, every) for c in P.crates.values() for k, f in c.fns.items() if f.get("local")}
    grew = True
    while grew:                     # handed on: callee replaces, and is given the data
        grew = False
        for c in P.crates.values():
            for k, f in c.fns.items():
                if not f.get("local"):
                    continue
                for y in g.get((c.name, k), (None, ()))[1]:
                    for w in rep.get(y, ()):
                        cal = P.crates[y[0]].fns[y[1]]
                        if y != (c.name, k) and w not in rep[(c.name, k)] and any(w in P.crates[y[0]].ts(l["t"]) for l in cal["locals"][1:1 + cal["argc"]]):
                            rep[(c.name, k)].add(w)
                            grew = True
    for c in P.crates.values():
        for k, f in c.fns.items():
            if not f.get("local"):
                continue
            for w in sorted(rep[(c.name, k)]):
                n = 0
                for b in f["blocks"]:
                    if not b or b[1][0] != "call":
                        continue
                    a = acquires(c, b[1])
                    may = {a[0]} if a else set()
                    for x in consts(b[1][1:3]):
                        if "key" in x:
                            may |= takes.get((c.name, str(x["key"])), set())
                    n += w in may
                R.ob("what is written to guarded data was read under the same lock", n < 2, "%s replaces what the lock on %s protects, but locks it %d times" % (f["name"], w, n), f["name"])


def f_refs(c, f):
    """locals that only refer to a guard"""
    return {i for i, l in enumerate(f["locals"]) if c.ts(l["t"]).startswith(("&", "*"))}


def step(s, cur, guards):
    if s[0] == "a":
        cur -= moved(s[2])
        if s[1][0] in guards and not any(p[0] == "d" for p in s[1][1]):
            cur.add(s[1][0])
    elif s[0] == "dead":
        cur.discard(s[1])


def flow(f, guards):
    """block -> guards that may be alive at its start"""
    live = {0: frozenset()}
    work = [0]
    while work:
        b = work.pop()
        blk = f["blocks"][b]
        if not blk:
            continue
        cur = set(live[b])
        for s in blk[0]:
            step(s, cur, guards)
        t = blk[1]
        if t[0] == "drop" and not t[1][1]:
            cur.discard(t[1][0])
        elif t[0] == "call":
            cur -= moved(t[2])
            if t[3][0] in guards:
                cur.add(t[3][0])
        elif t[0] == "switch":
            pass
        for n in targets(t):
            new = live.get(n, frozenset()) | cur
            if n not in live or new != live[n]:
                live[n] = frozenset(new)
                work.append(n)
    return live


def targets(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "drop":
        return [t[2]]
    if t[0] == "call":
        return [t[4]] if t[4] is not None else []
    if t[0] == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:]
    if t[0] == "yield":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][:1]
    return []


def reachable(order, a):
    seen, work = set(), [a]
    while work:
        for y in order.get(work.pop(), ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


RULES["C42"] = c42

#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)


def known_findings(pid):
    out = set()
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.add(l.strip().split(" key=", 1)[-1])
    return out


def decide(R):
    import prog, rules
    from engine import Unsupported, Budget
    pid = R.id
    try:
        rules.RULES[pid](R)
    except prog.Missing as e:
        R.ob("anchor", False, "a construct the rule is about is not in the tree: %s" % e, str(e))
    except (Unsupported, Budget) as e:
        R.ob("analysable", False, "the analysis cannot decide the current code, so the property is not established: %s" % e, str(e))
    except RecursionError:
        R.ob("analysable", False, "the analysis cannot decide the current code (recursion)")
    except Exception as e:
        R.ob("analysable", False, "the analysis cannot decide the current code (%s: %s)" % (type(e).__name__, e))


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import prog, rule, rules, extract
    P = prog.load_dumps(os.environ["VERIF_DUMP"] if "VERIF_DUMP" in os.environ else os.path.join(HERE, ".build", "dump")) if "--dump" in sys.argv else prog.fresh()
    R = rule.Rule(pid, P, tier)
    decide(R)
    try:
        Q, why = P.release(), "the MIR of both crates is the same without debug assertions (overflow checks aside)"
    except extract.ExtractError as e:
        Q, why = None, "the tree does not compile for release: " + str(e)[-400:]
        R.notes.append(why)
    if Q is None:
        R.ob("there is no other program to decide for release", True, why)
    else:
        D = rule.Rule(pid, Q, tier)
        decide(D)
        R.join(D, "release build: ")
        R.notes.append("the source asks whether it is built for release: decided for both builds")
    if "--both" in sys.argv and R.P is P and pid not in rules.NATIVE:
        # and as the source is compiled for browsers
        try:
            B = rule.Rule(pid, P.browser(), tier)
            decide(B)
            R.join(B, "browser build: ")
        except extract.ExtractError as e:
            R.ob("there is no browser build to decide", True, str(e))
            R.notes.append("the tree does not compile for browsers: " + str(e)[-400:])
    known = known_findings(pid)
    viol = {k: t for k, t in R.viol.items() if k not in known}
    for k in R.viol:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    uniq = {}
    for k, okk, t in R.obl:
        uniq.setdefault(k, [0, 0])[0 if okk else 1] += 1
    n, d = len(R.obl), sum(1 for o in R.obl if o[1])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", "%s.report.txt" % pid)
    with open(rep, "w") as f:
        f.write("property %s: %d obligations over %d exits, %d violated\n" % (pid, n, R.exits, len(viol)))
        for k, t in viol.items():
            f.write("\nrule: %s\n  %s\n" % (k, t))
    if n == 0 and not viol:
        viol["no obligations"] = "the rule matched nothing"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (rules.RULES[pid].__doc__ or "").strip() or "abstract interpretation of the MIR of the entry points below; one obligation per rule instance and exit",
            "obligations": n, "discharged": d,
            "rule_instances": {k: v[0] + v[1] for k, v in sorted(uniq.items())},
            "entry_points": sorted(set(R.entries)),
            "exits_examined": R.exits, "abstract_steps": R.steps, "call_sites_evaluated": R.calls,
            "functions_analysed": sorted(n_ for c, n_ in R.fns if c != "std"),
            "std_bodies_analysed": len([1 for c, n_ in R.fns if c == "std"]),
            "samples": [t[:400] for k, okk, t in R.obl[:1]] or ["-"],
            "notes": R.notes,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s: %d obligations (%d rule instances), %d discharged; %d entry points, %d functions, %d exits, %d abstract steps; %.1fs"
          % (pid, n, len(uniq), d, len(set(R.entries)), len(R.fns), R.exits, R.steps, time.time() - t0))
    if viol:
        for k, t in list(viol.items())[:12]:
            print("  rule: %s\n    %s" % (k, t[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


ASSUME = [
    "MIR produced by the installed nightly compiler for the lib targets on x86_64-linux describes what the built crate does",
    "the models of the standard library and of the external crates in lib/models.py (externals are uninterpreted functions of their arguments)",
    "hand-written trait implementations outside the tree (Scope, Ability, KeyMaterial, UcanStore) are deterministic functions of their arguments",
    "logging is disabled (log statements have no effect on results)",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

import rules_token, rules_chain, rules_cap, rules_reduce, rules_key, rules_build, rules_api, rules_codec, rules_term, rules_browser, rules_effect
RULES = rules_token.RULES
# decided on the build for this machine only: in browsers nothing crosses threads, and JavaScript holds the keys
NATIVE = {"C39", "C40", "C41"}
TECH = {"C38": "interprocedural effect analysis on the resolved call graph, with interior-mutability typing of every data type",
        "C39": "trait solving (Send/Sync) on every public type and every async body's captured state",
        "C40": "type-directed information flow over every call and cast of the key-support crate's MIR",
        "C41": "syntactic query over the expanded program",
        "C42": "lock-set dataflow (which guards are alive where) with transitive may-lock summaries over the resolved call graph",
        "*": "interprocedural path-partitioned value-provenance analysis (abstract interpretation) over rustc MIR"}
_E = "Covers every body, type and item of the two library crates as compiled for this machine; "
NOTE = {"C38": _E + "external functions are classified by path (deny-list of clocks, randomness, files, environment, network, processes, threads, output, process-wide state), trait calls go to every implementation in the tree. What dependencies do internally is not examined.",
        "C39": _E + "decided by the compiler's own trait solver, type parameters being as Send/Sync as their bounds say.",
        "C40": _E + "values are tracked by type: any call that receives a value whose type contains a private half must be a signing operation, give back that half or a public one, be local, or return bool/unit. Bytes already extracted elsewhere are out of sight.",
        "C41": _E + "unsafe code inside dependencies and expansions of their macros is trusted.",
        "C42": _E + "locks are told apart by what they protect; std Mutex/RwLock/RefCell are known, a lock type of another crate would not be recognised as one (its await and reentrancy rules are then not checked).",
        "*": "Sound over all inputs up to the stated models: every exit of every analysed entry point is enumerated with the facts known on it, loops are widened to a fixpoint, and the rule must be justified on each exit; anything the analysis cannot decide is reported. Trusts the MIR of the installed nightly, the models of std and external crates (lib/models.py), and that external calls are functions of their arguments."}

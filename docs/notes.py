DEFAULT_TECH = ("static analysis: path-sensitive interprocedural dataflow (abstract interpretation of rustc MIR with "
                "symbolic value terms and guard facts), rules as obligations on every path")
TECH = {}
DEFAULT_NOTE = ("Every path of the entry points named by the rule is summarised from the type-checked MIR of the current "
                "tree, loops by their bodies, callees inlined, and the rule is an obligation on every path. Trusts the "
                "models of std/futures/tokio primitives in engine/models.py and the contracts of the application's "
                "traits; unknown constructs leave obligations open (reported), they are never assumed away.")
NOTE = {}
NOTES = ("No hooks in /repo: the analysis reads the MIR of the unmodified crate through a rustc wrapper "
         "(driver/, build.py). Fixed defects are listed in known_findings.txt.")

"""property id -> rule function"""
import importlib

MODULES = ("r_smr", "r_quorum", "r_coll", "r_node", "r_codec", "r_run", "r_leader", "r_panic", "r_live", "r_serde")


def all_rules():
    out = {}
    for m in MODULES:
        for pid, fn in importlib.import_module(m).RULES.items():
            out.setdefault(pid, []).append(fn)
    return out


# properties whose anchors differ between feature configurations: always analysed in both
BOTH = {"C18", "C48"}
ASSUMPTIONS = [
    "the internal unbounded channels deliver in order and stay open while the instance runs",
    "the Consensus, Crypto, Wal and Codec implementations of the application do what their documentation says; "
    "hash, verify and sign are deterministic functions of their arguments",
    "rustc's MIR of the crate is the program; std, futures and tokio primitives behave as modelled in engine/models.py",
    "overflow checks are those of a debug build: an arithmetic overflow ends the path as a panic",
]

"""Entry points of the node and the per-path summaries the rules quantify over."""
from common import *

S = mk("sym", "self")
SELF = mk("ref", ("H", "self"), (), "mut")
STATE_ATOMS = READERS | WRITERS | {"parallel_verify"}


class Path:
    """one path of a root: path facts, events in order, pre/post value of the receiver, result"""
    __slots__ = ("facts", "ret", "evs", "pre", "post", "st", "root", "spawned")

    def __init__(self, st, ret, pre, root):
        self.st, self.ret, self.pre, self.root = st, ret, pre, root
        self.facts = st.facts
        self.post = st.env.get(("H", "self"), pre)
        self.evs = flat(st.events())
        self.spawned = []


def flat(evs, inloop=False):
    """events with those of loop iterations spliced in (facts of the iteration kept)"""
    out = []
    for e in evs:
        if e.name == "loop":
            for sub, _f in e.x:
                out.extend(flat(sub, True))
        else:
            out.append(e)
    return out


def run_query(ctx, short, args, name):
    """paths of an accessor of the authority list; none when the tree has no such function"""
    if not ctx.prog.by_short.get(short):
        return None, []
    return run_root(ctx, short, args, atoms=(), name=name)


def run_root(ctx, short, args, atoms=STATE_ATOMS, hooks=None, pre=S, name=None, facts=None, stream_pending=True,
             budget=1500000):
    ck = ("root", name or short, tuple(a.uid for a in args), tuple(sorted(atoms)), pre.uid, bool(hooks))
    if ck in ctx.cache and not hooks and not facts:
        return ctx.cache[ck]
    eng = ctx.engine(atoms, hooks, budget)
    eng.stream_pending = stream_pending
    st = St()
    st.env[("H", "self")] = pre
    if facts:
        for t, v in facts:
            f = st.facts.assume(t, v)
            st.facts = f
    outs = eng.root(ctx.fn(short), args, st)
    ctx.done(eng, outs)
    paths = [Path(s, r, pre, name or short) for s, r in outs]
    res = (eng, paths)
    ctx.cache[ck] = res
    return res


def symfields(ctx, short, pfx):
    """value of a struct type with one symbol per field"""
    p = ctx.adt(short)
    fs = ctx.prog.adts[p]["v"][0]["f"]
    return agg(p, 0, ctx.prog.adts[p]["v"][0]["n"], [mk("sym", f"{pfx}.{n}") for n in fs])


MSGS = {"SignedProposal": "sp", "SignedVote": "sv", "AggregatedVote": "av", "SignedChoke": "sc", "RichStatus": "rs"}


def msg_value(ctx, variant):
    if variant == "Stop":
        return ctx.mkagg("OverlordMsg", "Stop")
    return ctx.mkagg("OverlordMsg", variant, _0=mk("sym", MSGS[variant]))


def handle_msg(ctx, variant):
    return run_root(ctx, "State::handle_msg", [SELF, mk("sym", "ctx"), msg_value(ctx, variant)],
                    name="handle_msg/" + variant)


SMR_EVENTS = ("NewRoundInfo", "PrevoteVote", "PrecommitVote", "Commit", "Brake")


def event_value(ctx, variant):
    p = ctx.adt("SMREvent")
    v = [x for x in ctx.prog.adts[p]["v"] if x["n"] == variant]
    if not v:
        raise NoAnswer(f"SMREvent::{variant} not found")
    fs = {(f if not f.isdigit() else "_" + f): mk("sym", "ev." + f) for f in v[0]["f"]}
    return ctx.mkagg("SMREvent", variant, **fs)


def handle_event(ctx, variant):
    return run_root(ctx, "State::handle_event", [SELF, some(event_value(ctx, variant))],
                    name="handle_event/" + variant)


def handle_resp(ctx):
    return run_root(ctx, "State::handle_resp", [SELF, some(mk("sym", "resp"))], name="handle_resp")


def start_with_wal(ctx):
    return run_root(ctx, "State::start_with_wal", [SELF], name="start_with_wal")


# ------------------------------------------------------------------ SMR
TRIGGERS = ("Proposal", "PrevoteQC", "PrecommitQC", "NewHeight", "WalInfo", "BrakeTimeout", "ContinueRound", "Stop")
PURE_TRIG = {"Proposal", "PrevoteQC", "PrecommitQC", "WalInfo", "BrakeTimeout", "ContinueRound", "Stop"}


def trigger_value(ctx, variant, source=None):
    fields = {"hash": mk("sym", "t.hash"), "lock_round": mk("sym", "t.lock_round"), "round": mk("sym", "t.round"),
              "height": mk("sym", "t.height"), "wal_info": mk("sym", "t.wal_info"),
              "source": ctx.mkagg("TriggerSource", source) if source else mk("sym", "t.source")}
    if variant == "NewHeight":
        tt = ctx.mkagg("TriggerType", variant, _0=symfields(ctx, "SMRStatus", "status"))
    else:
        tt = ctx.mkagg("TriggerType", variant)
    if variant == "WalInfo":
        fields["wal_info"] = some(symfields(ctx, "SMRBase", "base"))
    return ctx.mkagg("SMRTrigger", trigger_type=tt, **fields)


def recv_hook(value):
    """the polled channel yields `value` (None = closed)"""
    def h(eng, ref, sv, st, site):
        return [(st, ready(some(value) if value is not None else NONE))]
    return h


def smr(ctx, variant, source, lock=None):
    """one SMR step for a trigger; lock: True/False/None = locked/unlocked/unknown initially"""
    name = f"smr/{variant}/{source}/{lock}"
    if name in ctx.cache:
        return ctx.cache[name]
    pre = symfields(ctx, "StateMachine", "m")
    i, n, p = ctx.field("StateMachine", "lock")
    if lock is not None:
        lv = some(symfields(ctx, "Lock", "lock")) if lock else NONE
        pre = agg(pre.a[0], 0, pre.a[2], [lv if k == i else x for k, x in enumerate(pre.a[3:])])
    facts = []
    if lock:
        # representation invariant of the lock (itself an obligation of C10): block hash is the locked hash
        facts.append((EQ(ctx.get(pre, "StateMachine", "block_hash"),
                         ctx.get(symfields(ctx, "Lock", "lock"), "Lock", "hash")), True))
    v = trigger_value(ctx, variant, source)
    eng, paths = run_root(ctx, "StateMachine as Stream::poll_next", [SELF, NOISE], atoms=(),
                          hooks={"recv": recv_hook(v)}, pre=pre, name=name, facts=facts)
    ctx.cache[name] = (eng, paths, v, pre)
    return ctx.cache[name]

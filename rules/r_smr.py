"""Rules over one step of the voting state machine (every trigger x source x lock state x path)."""
from common import *
from roots import *
from lib import acts

POS = ("Propose", "Prevote", "Precommit", "Brake", "Commit")
NEXT = {"Proposal": ("Propose", "Prevote"), "PrevoteQC": ("Prevote", "Precommit"),
        "PrecommitQC": ("Precommit", "Brake")}
CASES = [(t, s, l) for t in ("Proposal", "PrevoteQC", "PrecommitQC") for s in ("State", "Timer") for l in (True, False)]
CASES += [("NewHeight", s, l) for s in ("State", "Timer") for l in (True, False)]
CASES += [("BrakeTimeout", "Timer", l) for l in (True, False)]
CASES += [("ContinueRound", "State", l) for l in (True, False)]
CASES += [("WalInfo", "State", l) for l in (True, False)]
CASES += [("Stop", "State", None)]


class Sv:
    """one path of one state machine step, with names for its pre/post state and its outputs"""

    def __init__(self, ctx, trig, src, lock, p, tv, pre):
        self.ctx, self.trig, self.src, self.lock, self.p, self.facts = ctx, trig, src, lock, p, p.facts
        g = lambda v, n: ctx.get(v, "StateMachine", n)  # noqa
        self.H, self.R, self.S, self.B, self.L = (g(pre, n) for n in ("height", "round", "step", "block_hash", "lock"))
        self.H2, self.R2, self.S2, self.B2, self.L2 = (g(p.post, n) for n in
                                                       ("height", "round", "step", "block_hash", "lock"))
        self.th, self.tr, self.thash, self.tlr = (ctx.f(tv, n) for n in ("height", "round", "hash", "lock_round"))
        if trig == "NewHeight":
            self.status = ctx.f(tv, "trigger_type").a[3]
        if trig == "WalInfo":
            self.base = ctx.f(tv, "wal_info").a[3]
        chans = ctx.get(pre, "StateMachine", "event")
        self.evs = []
        self.other = []
        for e in p.evs:
            if e.name == "UnboundedSender::unbounded_send" and len(e.args) == 2 and ctx.isv(e.args[1], "SMREvent"):
                ch = e.args[0]
                k = ch.a[2] if ch.op == "fld" and ch.a[0] is chans else None
                self.evs.append((k, e.args[1], e))
            else:
                self.other.append(e)
        self.label = f"{trig} from {src}" + {True: ", locked", False: ", unlocked", None: ""}[lock]

    def step(self, v):
        a = self.ctx.prog.adts[self.ctx.adt("Step")]
        if v.op == "agg":
            return INT(v.a[1])
        return mk("discr", v, self.ctx.adt("Step"))

    def sn(self, name):
        a = self.ctx.prog.adts[self.ctx.adt("Step")]
        names = [v["n"] for v in a["v"]]
        if name not in names:
            raise NoAnswer(f"Step::{name} not found")
        return INT(names.index(name))

    def q(self, t):
        return self.facts.query(t) is True

    def may(self, t):
        return self.facts.query(t) is not False

    def same(self, a, b):
        return self.facts.same(a, b)

    def steps_possible(self, v):
        """set of step names the value may have on this path"""
        if v.op == "agg":
            return {v.a[2]}
        d = self.step(v)
        return {n for n in POS if self.facts.query(EQ(d, self.sn(n))) is not False}

    def rank(self, v, pick):
        return pick(POS.index(n) for n in self.steps_possible(v))

    def unchanged(self):
        return all(self.same(a, b) for a, b in ((self.H, self.H2), (self.R, self.R2), (self.S, self.S2),
                                                (self.B, self.B2), (self.L, self.L2))) and not self.evs

    def is_noop(self):
        return self.unchanged()

    def events(self, variant, chan=None):
        return [(e, x) for k, e, x in self.evs if e.a[2] == variant and (chan is None or k == chan)]

    def lock_fields(self, L):
        """(round, hash) of a lock value known to be Some, None when known none, 'x' when unknown"""
        if L.op == "agg":
            if L.a[2] == "None":
                return None
            v = L.a[3]
            return self.ctx.get(v, "Lock", "round"), self.ctx.get(v, "Lock", "hash")
        if self.q(EQ(mk("discr", L, OPTION), INT(0))):
            return None
        e0 = self.ctx.eng0()
        if self.q(EQ(mk("discr", L, OPTION), INT(1))):
            v = e0.field(L, 1, 0, "0", 1, OPTION)
            return self.ctx.get(v, "Lock", "round"), self.ctx.get(v, "Lock", "hash")
        return "x"

    def is_some_of(self, opt, val):
        if opt.op == "agg":
            return opt.a[2] == "Some" and self.same(opt.a[3], val)
        return self.q(EQ(mk("discr", opt, OPTION), INT(1))) and self.same(
            self.ctx.eng0().field(opt, 1, 0, "0", 1, OPTION), val)

    def is_none(self, opt):
        if opt.op == "agg":
            return opt.a[2] == "None"
        return self.q(EQ(mk("discr", opt, OPTION), INT(0)))

    def d(self, why):
        evs = "; ".join(show(e) for _, e, _ in self.evs)
        return (f"{why}\n trigger: {self.label}\n path: {pathdesc(self.facts)}\n"
                f" after: height={show(self.H2)} round={show(self.R2)} step={show(self.S2)} "
                f"proposal={show(self.B2)} lock={show(self.L2)}\n events: {evs}")


def views(ctx, trigs=None):
    if "smrviews" not in ctx.cache:
        out = []
        for t, s, l in CASES:
            eng, paths, tv, pre = smr(ctx, t, s, l)
            for p in paths:
                out.append(Sv(ctx, t, s, l, p, tv, pre))
        ctx.cache["smrviews"] = out
    vs = ctx.cache["smrviews"]
    return [v for v in vs if trigs is None or v.trig in trigs]


def inst(v, x):
    return f"state machine step: {v.label}: {x}"


W = "smr/state_machine.rs poll_next"


# ---------------------------------------------------------------------------------------------- C09
def c09(ctx):
    npv = npc = 0
    for v in views(ctx):
        if v.trig == "WalInfo":
            continue
        # the position of the node never goes backwards
        fwd = v.q(LT(v.H, v.H2)) or (v.same(v.H, v.H2) and (
            v.q(LT(v.R, v.R2)) or v.same(v.R, v.R2) and (v.same(v.S, v.S2) or v.q(LE(v.step(v.S), v.step(v.S2))) or
                                                         v.rank(v.S, max) <= v.rank(v.S2, min))))
        ctx.ob("position (height, round, step) never decreases", inst(v, "position"), fwd,
               v.d("the position may go backwards, a phase could be voted twice"), W)
        for ch in (0, 1):
            pv = v.events("PrevoteVote", ch)
            pc = v.events("PrecommitVote", ch)
            ctx.ob("at most one vote of a phase per step", inst(v, f"channel {ch}"), len(pv) <= 1 and len(pc) <= 1,
                   v.d("several votes of one phase are ordered in one step"), W)
            for e, x in pv:
                npv += 1
                h, r = ctx.f(e, "height"), ctx.f(e, "round")
                okv = v.same(h, v.H) and v.same(r, v.R) and v.steps_possible(v.S) == {"Propose"} \
                    and "Propose" not in v.steps_possible(v.S2) and v.same(v.H, v.H2) and v.same(v.R, v.R2)
                ctx.ob("prevote only in the propose phase of its position, which is left", inst(v, "prevote"), okv,
                       v.d("a prevote is ordered while this phase may already have been voted"), where(x))
            for e, x in pc:
                npc += 1
                h, r = ctx.f(e, "height"), ctx.f(e, "round")
                fresh = v.same(r, v.R) and v.steps_possible(v.S) <= {"Propose", "Prevote"} or v.q(LT(v.R, r))
                okv = v.same(h, v.H2) and v.same(v.H, v.H2) and v.same(r, v.R2) and fresh and \
                    v.steps_possible(v.S2) <= {"Precommit", "Brake", "Commit"}
                ctx.ob("precommit only before or in the prevote phase of its position, which is left",
                       inst(v, "precommit"), okv,
                       v.d("a precommit is ordered while this phase may already have been voted"), where(x))
    ctx.floor("prevote order", npv, 4)
    ctx.floor("precommit order", npc, 4)


# ---------------------------------------------------------------------------------------------- C10
def c10(ctx):
    n = 0
    nlock = 0
    for v in views(ctx):
        L, L2 = v.L, v.L2
        if v.trig == "Stop":
            continue
        lf2 = v.lock_fields(L2)
        if v.trig == "WalInfo":
            polc = ctx.get(v.base, "SMRBase", "polc")
            ctx.ob("the lock restored is the one saved", inst(v, "lock"), v.same(L2, polc) or lf2 == v.lock_fields(polc),
                   v.d("lock after restart is not the saved one"), W)
        else:
            same = v.same(L, L2)
            if not same:
                why = None
                if v.src == "Timer":
                    why = "a timeout changes the lock"
                elif v.trig == "PrevoteQC":
                    if not (v.same(v.H, v.th) and v.q(LE(v.R, v.tr))):
                        why = "a prevote certificate of another height or an older round changes the lock"
                    elif lf2 is None:
                        if not v.q(EMPTY(v.thash)):
                            why = "the lock is released by a certificate that is not for the empty block"
                    elif lf2 == "x" or not (v.same(lf2[0], v.tr) and v.same(lf2[1], v.thash)):
                        why = "the new lock is not the round and block of the certificate"
                    elif not v.facts.query(EMPTY(v.thash)) is False:
                        why = "the node locks on an empty block"
                elif v.trig == "Proposal":
                    lf = v.lock_fields(L)
                    if lf2 is not None:
                        why = "a proposal sets a lock"
                    elif not (lf and lf != "x" and tlr_gt(ctx, v, lf[0])):
                        why = "a proposal releases the lock without a certificate of a round above the lock"
                    elif not (v.same(v.H, v.th) and v.same(v.R, v.tr)):
                        why = "a proposal of another position releases the lock"
                elif v.trig == "NewHeight":
                    if lf2 is not None or not v.q(LT(v.H, v.H2)):
                        why = "a lock is set by a new height, or released without a new height"
                else:
                    why = f"{v.trig} changes the lock"
                ctx.ob("the lock changes only for a sufficient reason", inst(v, "lock change"), why is None,
                       v.d(why or ""), W)
                nlock += 1
            else:
                ctx.ob("the lock changes only for a sufficient reason", inst(v, "lock kept"), True)
        # the lock is on the proposal the node votes for
        if lf2 == "x":
            if v.trig != "WalInfo":
                ctx.ob("lock known", inst(v, "lock"), v.same(v.L, v.L2) and v.same(v.B, v.B2), v.d("lock unknown"), W)
        elif lf2 is not None and not (v.same(v.L, v.L2) and v.same(v.B, v.B2)):
            ctx.ob("the working proposal is the locked block", inst(v, "proposal==lock"), v.same(v.B2, lf2[1]),
                   v.d("the block to vote for differs from the locked block"), W)
        # prevotes respect the lock
        if v.trig == "WalInfo":
            continue
        if v.trig == "NewHeight" and v.evs:
            ctx.ob("a new height starts without lock and proposal", inst(v, "reset"), lf2 is None and v.q(EMPTY(v.B2)),
                   v.d("state of the finished height survives"), W)
        for k, e, x in v.evs:
            if e.a[2] == "PrevoteVote":
                n += 1
                bh, lr = ctx.f(e, "block_hash"), ctx.f(e, "lock_round")
                if lf2 == "x":
                    ctx.ob("prevote under a known lock", inst(v, "prevote"), False, v.d("lock unknown"), where(x))
                elif lf2 is not None:
                    ctx.ob("a locked node prevotes the locked block and reports the lock", inst(v, "prevote"),
                           v.same(bh, lf2[1]) and v.is_some_of(lr, lf2[0]),
                           v.d("a locked node prevotes another block than the locked one"), where(x))
                else:
                    want = EMPTY(bh) if v.src == "Timer" else EQ(bh, v.thash)
                    ctx.ob("an unlocked node prevotes the proposal, or nothing on a timeout", inst(v, "prevote"),
                           (v.q(want) or (v.src == "State" and v.same(bh, v.thash))) and v.is_none(lr),
                           v.d("an unlocked node prevotes something else than the proposal"), where(x))
                if v.trig == "Proposal" and v.src == "State" and v.lock:
                    # PoLC of the very lock round but another block: two certificates in one round
                    lr0 = v.lock_fields(v.L)[0]
                    eqr = tlr_eq(ctx, v, lr0)
                    ctx.ob("conflicting certificate of the lock round is refused", inst(v, "fork"),
                           not eqr or v.same(v.thash, v.B) or v.same(v.thash, v.lock_fields(v.L)[1]),
                           v.d("two different blocks certified in the lock round and the node votes"), where(x))
            if e.a[2] == "PrecommitVote" and v.src == "State":
                bh, lr = ctx.f(e, "block_hash"), ctx.f(e, "lock_round")
                if lf2 is None:
                    good = v.q(EMPTY(bh)) and v.is_none(lr)
                else:
                    good = lf2 != "x" and v.same(bh, lf2[1]) and v.is_some_of(lr, lf2[0]) and v.same(lf2[0], v.tr)
                ctx.ob("a block is precommitted only while locked on it at the round of its certificate",
                       inst(v, "precommit"), good, v.d("precommit without the matching lock"), where(x))
                n += 1
            if e.a[2] in ("PrecommitVote", "Brake") and v.src == "Timer" and v.trig in ("PrevoteQC", "PrecommitQC",
                                                                                        "BrakeTimeout"):
                lr = ctx.f(e, "lock_round")
                ctx.ob("the lock is reported unchanged on a timeout", inst(v, e.a[2]),
                       (lf2 is None and v.is_none(lr)) or (lf2 not in (None, "x") and v.is_some_of(lr, lf2[0])),
                       v.d("wrong lock round"), where(x))
    ctx.floor("vote under lock", n, 6)
    ctx.floor("lock change", nlock, 3)


def tlr_gt(ctx, v, r):
    """the path knows trigger.lock_round is Some(x), x > r"""
    x = ctx.eng0().field(v.tlr, 1, 0, "0", 1, OPTION)
    return v.q(EQ(mk("discr", v.tlr, OPTION), INT(1))) and v.q(LT(r, x))


def tlr_eq(ctx, v, r):
    x = ctx.eng0().field(v.tlr, 1, 0, "0", 1, OPTION)
    if v.facts.query(EQ(mk("discr", v.tlr, OPTION), INT(1))) is False:
        return False
    if v.q(EQ(mk("discr", v.tlr, OPTION), INT(0))):
        return False
    return not (v.facts.query(EQ(x, r)) is False or v.q(LT(r, x)) or v.q(LT(x, r)))


# ---------------------------------------------------------------------------------------------- C11
def c11(ctx):
    nc = np = 0
    for v in views(ctx):
        for k, e, x in v.evs:
            if e.a[2] == "PrecommitVote" and v.trig != "WalInfo":
                np += 1
                bh = ctx.f(e, "block_hash")
                if v.src == "Timer":
                    good = v.q(EMPTY(bh))
                    why = "a timeout makes the node precommit a block"
                else:
                    good = v.trig == "PrevoteQC" and v.same(bh, v.thash) and v.same(v.th, v.H) and v.q(LE(v.R, v.tr))
                    why = "a block is precommitted without a prevote certificate for it at this height and round"
                ctx.ob("a precommit of a block follows its prevote certificate", inst(v, "precommit"), good, v.d(why),
                       where(x))
            if e.a[2] == "Commit":
                nc += 1
                good = v.trig == "PrecommitQC" and v.src == "State" and v.same(v.th, v.H) and \
                    v.facts.query(EMPTY(v.thash)) is False and v.same(e.a[3], v.thash) and \
                    v.steps_possible(v.S2) == {"Commit"} and "Commit" not in v.steps_possible(v.S) and \
                    v.same(v.H2, v.H)
                ctx.ob("commit is ordered once, for a non-empty precommit certificate of this height",
                       inst(v, "commit"), good, v.d("commit without its certificate, or repeatable"), where(x))
        # entering the commit step without commit order
        if v.trig != "WalInfo" and v.steps_possible(v.S2) == {"Commit"} and "Commit" not in v.steps_possible(v.S):
            ctx.ob("commit step is entered with a commit order", inst(v, "commit step"),
                   len(v.events("Commit", 0)) == 1, v.d("height is finished without committing"), W)
        # a proper certificate must lead to the commit
        if v.trig == "PrecommitQC" and v.src == "State" and not v.q(EMPTY(v.thash)) and v.may(EQ(v.th, v.H)) and \
                v.steps_possible(v.S) - {"Commit"}:
            ctx.ob("a precommit certificate of this height is committed", inst(v, "certificate used"),
                   len(v.events("Commit", 0)) == 1, v.d("a valid precommit certificate is not committed"), W)
    ctx.floor("commit order", nc, 2)
    ctx.floor("precommit order", np, 4)


# ---------------------------------------------------------------------------------------------- C12
def c12(ctx):
    n = 0
    origins = []
    for v in views(ctx):
        if v.trig == "WalInfo":
            continue
        if v.trig == "NewHeight":
            st = ctx.get(v.status, "SMRStatus", "height")
            if not v.same(v.H, v.H2):
                n += 1
                good = v.src == "State" and v.q(LT(v.H, st)) and v.same(v.H2, st) and v.same(v.R2, INT(0)) and \
                    v.steps_possible(v.S2) == {"Propose"} and v.lock_fields(v.L2) is None and v.q(EMPTY(v.B2))
                nri = v.events("NewRoundInfo", 0)
                good2 = len(nri) == 1 and v.same(ctx.f(nri[0][0], "height"), st) and \
                    v.same(ctx.f(nri[0][0], "round"), INT(0)) and v.is_none(ctx.f(nri[0][0], "lock_round")) and \
                    v.is_none(ctx.f(nri[0][0], "lock_proposal"))
                ctx.ob("a height starts at round 0, propose step, unlocked, and only a higher height starts",
                       inst(v, "new height"), good, v.d("a height is entered wrongly"), W)
                ctx.ob("the new height is announced with round 0 and no lock", inst(v, "announce"), good2,
                       v.d("new height not announced correctly"), W)
                origins += [ctx.f(e[0], "from_where") for e in nri]
            else:
                ctx.ob("a status that is not above the current height changes nothing", inst(v, "stale status"),
                       v.is_noop(), v.d("stale height trigger has effects"), W)
                if v.src == "State":
                    ctx.ob("a status above the current height is adopted", inst(v, "adopt"),
                           v.q(LE(st, v.H)), v.d("a higher status is not adopted"), W)
        else:
            ctx.ob("only a new-height trigger changes the height", inst(v, "height"), v.same(v.H, v.H2),
                   v.d("the height changes"), W)
            ctx.ob("the round never decreases within a height", inst(v, "round"), v.q(LE(v.R, v.R2)),
                   v.d("the round may decrease"), W)
            if v.trig in ("PrevoteQC", "PrecommitQC", "Proposal", "BrakeTimeout", "ContinueRound") and \
                    v.facts.query(EQ(v.th, v.H)) is not True:
                ctx.ob("triggers of another height have no effect", inst(v, "other height"), v.is_noop(),
                       v.d("a trigger of another height has effects"), W)
    ctx.floor("new height", n, 2)
    # the announcement must be one the node can follow: at a new height it holds no certificate yet
    k = 0
    for i, fw in enumerate(dict.fromkeys(origins)):
        ev = event_value(ctx, "NewRoundInfo")
        adt = ctx.prog.adts[ctx.adt("SMREvent")]["v"]
        names = [x for x in adt if x["n"] == "NewRoundInfo"][0]["f"]
        fs = {n: mk("sym", "ev." + n) for n in names}
        fs.update(from_where=fw, round=INT(0), lock_round=NONE, lock_proposal=NONE)
        ev = ctx.mkagg("SMREvent", "NewRoundInfo", **fs)
        for p in run_root(ctx, "State::handle_event", [SELF, some(ev)], name=f"handle_event/new height {i}")[1]:
            A = acts(ctx, p)
            if not any(a.k == "write" and a.path == ("self", "round") for a in A):
                continue        # the node is not at that height any more
            k += 1
            ctx.ob("the node can enter a new height without holding any certificate", f"new height from {show(fw)}",
                   any(a.k == "wal" for a in A),
                   f"the announcement of a new height cannot be followed\n path: {pathdesc(p.facts)}", W)
    ctx.floor("new height entered by the node", k, 1)
    k = 0
    for p in run_root(ctx, "StateMachine::new", [mk("sym", "trigger_rx")], atoms=(), name="smr_new", pre=NOISE)[1]:
        for m in [x for x in subterms(p.ret) if x.op == "agg" and ctx.isv(x, "StateMachine")]:
            k += 1
            g = lambda n: ctx.f(m, n)  # noqa
            good = g("height") is INT(0) and g("round") is INT(0) and g("step").op == "agg" and g("step").a[2] == "Commit" and \
                g("lock") is NONE and p.facts.query(EMPTY(g("block_hash"))) is True
            ctx.ob("a new state machine is below every height, unlocked, and waits for a status", "StateMachine::new", good,
                   show(m)[:500], W)
    ctx.floor("new state machine", k, 1)


# ---------------------------------------------------------------------------------------------- C15
def c15(ctx):
    n = 0
    for v in views(ctx):
        if v.trig in ("WalInfo", "NewHeight", "Stop"):
            continue
        nri = v.events("NewRoundInfo", 0)
        if not v.same(v.R, v.R2):
            n += 1
            want = None
            if v.src == "State" and v.same(v.th, v.H):
                if v.trig == "PrevoteQC" and v.q(LT(v.R, v.tr)):
                    want, fw = ADD(v.tr, INT(1)), ("PrevoteQC", v.tr)
                elif v.trig == "PrecommitQC" and v.q(LE(v.R, v.tr)) and v.q(EMPTY(v.thash)):
                    want, fw = ADD(v.tr, INT(1)), ("PrecommitQC", v.tr)
                elif v.trig == "ContinueRound" and v.q(LT(v.R, v.tr)):
                    want, fw = v.tr, ("ChokeQC", SUB(v.tr, INT(1)))
            ctx.ob("a round is left only with a certificate of that or a later round", inst(v, "round change"),
                   want is not None and v.same(v.R2, want), v.d("the round changes without a certificate"), W)
            good = len(nri) == 1
            if good and want is not None:
                e = nri[0][0]
                lf = v.lock_fields(v.L2)
                lr, lp = ctx.f(e, "lock_round"), ctx.f(e, "lock_proposal")
                good = v.same(ctx.f(e, "round"), want) and v.same(ctx.f(e, "height"), v.H)
                if lf is None:
                    good = good and v.is_none(lr) and v.is_none(lp)
                elif lf == "x":
                    good = False
                else:
                    good = good and v.is_some_of(lr, lf[0]) and v.is_some_of(lp, lf[1])
                f = ctx.f(e, "from_where")
                good = good and f.op == "agg" and f.a[2] == fw[0] and v.same(f.a[3], fw[1])
            ctx.ob("the new round is announced with its round, lock and certificate", inst(v, "announce"), good,
                   v.d("the announcement of the new round does not agree with the state machine"), W)
            if v.trig != "PrevoteQC":
                ctx.ob("a new round starts in the propose step", inst(v, "step"), v.steps_possible(v.S2) == {"Propose"},
                       v.d("new round does not start in the propose step"), W)
        else:
            ctx.ob("no announcement without a round change", inst(v, "no round change"), not nri,
                   v.d("a new round is announced although the round did not change"), W)
            # a certificate that ends the round must end it
            must = v.src == "State" and v.may(EQ(v.th, v.H)) and v.steps_possible(v.S) - {"Commit"} and (
                v.trig == "PrecommitQC" and v.may(EMPTY(v.thash)) and v.may(LE(v.R, v.tr)) or
                v.trig == "ContinueRound" and v.may(LT(v.R, v.tr)) or
                v.trig == "PrevoteQC" and v.may(LT(v.R, v.tr)))
            ctx.ob("a certificate that ends the round is obeyed", inst(v, "kept round"), not must,
                   v.d("the round is not left although its certificate arrived"), W)
    ctx.floor("round change", n, 6)


# ---------------------------------------------------------------------------------------------- C17
def c17(ctx):
    n = 0
    for v in views(ctx, ("Proposal", "PrevoteQC", "PrecommitQC", "BrakeTimeout")):
        if v.src != "Timer":
            continue
        here = v.same(v.th, v.H) and v.same(v.tr, v.R)
        limit = {"Proposal": {"Propose"}, "PrevoteQC": {"Propose", "Prevote"},
                 "PrecommitQC": {"Propose", "Prevote", "Precommit", "Brake"}, "BrakeTimeout": set(POS)}[v.trig]
        if not here:
            ctx.ob("no timeout of the current position is dropped", inst(v, "dropped timeout"),
                   not (v.may(EQ(v.th, v.H)) and v.may(EQ(v.tr, v.R)) and v.steps_possible(v.S) & limit) or
                   not v.is_noop(), v.d("a timeout is dropped before it is clear that it is of another position"), W)
            ctx.ob("a timeout of another height or round has no effect", inst(v, "stale timeout"), v.is_noop(),
                   v.d("a timeout of another position has effects"), W)
            continue
        if v.trig == "BrakeTimeout":
            br = v.events("Brake", 0)
            good = len(br) == 1 and v.same(ctx.f(br[0][0], "height"), v.H) and v.same(ctx.f(br[0][0], "round"), v.R) \
                and v.same(v.S, v.S2) and v.same(v.R, v.R2) and v.same(v.L, v.L2)
            ctx.ob("the brake timeout repeats the choke of the current round", inst(v, "brake"), good,
                   v.d("brake timeout wrong"), W)
            n += 1
            continue
        cur, nxt = NEXT[v.trig]
        poss = v.steps_possible(v.S)
        if poss & limit:
            n += 1
            ev = {"Proposal": "PrevoteVote", "PrevoteQC": "PrecommitVote", "PrecommitQC": "Brake"}[v.trig]
            es = v.events(ev, 0)
            good = poss <= limit and v.steps_possible(v.S2) == {nxt} and v.same(v.H2, v.H) and v.same(v.R2, v.R) and \
                len(es) == 1 and v.same(ctx.f(es[0][0], "height"), v.H) and v.same(ctx.f(es[0][0], "round"), v.R) and \
                v.same(v.L, v.L2)
            ctx.ob(f"a timeout of the current phase moves to the next phase of the same round", inst(v, cur), good,
                   v.d("a timeout of the current phase is lost or leads elsewhere"), W)
        else:
            ctx.ob("a timeout of a phase already left has no effect", inst(v, "late timeout"), v.is_noop(),
                   v.d("a late timeout has effects"), W)
    ctx.floor("timely timeout", n, 8)


# ---------------------------------------------------------------------------------------------- C32
def c32(ctx):
    n = 0
    for v in views(ctx):
        a = [e for k, e, x in v.evs if k == 0]
        b = [e for k, e, x in v.evs if k == 1]
        unk = [e for k, e, x in v.evs if k not in (0, 1)]
        if v.trig == "WalInfo":
            ctx.ob("restart arms one timer and orders no action again", inst(v, "restart"),
                   not a and len(b) == 1 and not unk or (v.p.ret is None),
                   v.d("restart must inform the timer only"), W)
            continue
        if v.evs or v.trig == "Stop":
            n += 1
        ctx.ob("node and timer see the same events in the same order", inst(v, "events"),
               len(a) == len(b) and all(x is y or v.same(x, y) for x, y in zip(a, b)) and not unk,
               v.d("an event reaches only one of node and timer"), W)
        if v.trig == "Stop":
            ctx.ob("stop is passed on to node and timer", inst(v, "stop"), len(v.events("Stop", 0)) == 1 and
                   len(v.events("Stop", 1)) == 1, v.d("stop is not passed on"), W)
    ctx.floor("event", n, 10)


# ---------------------------------------------------------------------------------------------- C25 (voting state machine)
def c25(ctx):
    n = 0
    timer = {"Propose": "NewRoundInfo", "Prevote": "PrevoteVote", "Precommit": "PrecommitVote", "Brake": "Brake"}
    for v in views(ctx, ("WalInfo",)):
        n += 1
        g = lambda x: ctx.get(v.base, "SMRBase", x)  # noqa
        poss = v.steps_possible(g("step"))
        good = v.same(v.H2, g("height")) and v.same(v.R2, g("round")) and v.same(v.L2, g("polc")) and \
            (v.same(v.S2, g("step")) or v.steps_possible(v.S2) == poss and len(poss) == 1)
        lf = v.lock_fields(v.L2)
        if lf not in (None, "x"):
            good = good and v.same(v.B2, lf[1])
        else:
            good = good and lf is None and v.same(v.B2, v.B)
        ctx.ob("the voting state machine takes over height, round, step and lock of the record", inst(v, "restart"), good,
               v.d("the record is not restored"), W)
        if v.evs:
            e = v.evs[0][1]
            ctx.ob("the timer armed at restart is the one of the restored position", inst(v, "restart"),
                   len(poss) == 1 and e.a[2] == timer.get(next(iter(poss))) and v.same(ctx.f(e, "height"), v.H2) and
                   v.same(ctx.f(e, "round"), v.R2), v.d("another timer is armed"), W)
    ctx.floor("restart of the state machine", n, 4)


# ---------------------------------------------------------------------------------------------- C43
def c43(ctx):
    np = nv = ns = 0
    for v in views(ctx, ("Proposal", "PrevoteQC", "PrecommitQC", "NewHeight", "ContinueRound", "BrakeTimeout")):
        # the position after a vote is the phase of that vote
        for ev, st in (("PrevoteVote", "Prevote"), ("PrecommitVote", "Precommit"), ("Brake", "Brake")):
            if v.trig == "BrakeTimeout":
                continue
            for e, x in v.events(ev, 0):
                ns += 1
                ctx.ob("after a vote the node is in the phase of that vote", inst(v, ev), v.steps_possible(v.S2) == {st},
                       v.d("the phase after the vote is another one"), where(x))
        if v.src != "State":
            continue
        if v.trig == "Proposal":
            if v.facts.query(EMPTY(v.thash)) is not False:
                ctx.ob("an empty proposal is refused", inst(v, "empty proposal"), v.is_noop(),
                       v.d("an empty proposal has effects"), W)
            if v.q(EMPTY(v.thash)) or not (v.may(EQ(v.th, v.H)) and v.may(EQ(v.tr, v.R)) and
                                           "Propose" in v.steps_possible(v.S)):
                continue
            np += 1
            lf = v.lock_fields(v.L)
            x = ctx.eng0().field(v.tlr, 1, 0, "0", 1, OPTION)
            if lf not in (None, "x") and v.q(EQ(mk("discr", v.tlr, OPTION), INT(1))) and v.q(EQ(x, lf[0])) and \
                    (v.facts.query(EQ(v.thash, v.B)) is False or v.facts.query(EQ(v.thash, lf[1])) is False):
                continue        # a certificate of the lock's own round for another block
            pv = v.events("PrevoteVote", 0)
            good = len(pv) == 1
            if good and lf not in (None, "x") and tlr_gt(ctx, v, lf[0]):
                good = v.same(ctx.f(pv[0][0], "block_hash"), v.thash)
            ctx.ob("a timely proposal is answered with a prevote", inst(v, "answered"), good,
                   v.d("a proposal of the current position gets no prevote, or the newer certificate is not followed"), W)
        if v.trig == "PrevoteQC":
            timely = v.may(LT(v.R, v.tr)) or v.may(EQ(v.R, v.tr)) and v.steps_possible(v.S) & {"Propose", "Prevote"}
            if not (v.may(EQ(v.th, v.H)) and timely):
                continue
            nv += 1
            ctx.ob("a timely prevote certificate is answered with a precommit", inst(v, "answered"),
                   len(v.events("PrecommitVote", 0)) == 1, v.d("a prevote certificate gets no precommit"), W)
    ctx.floor("timely proposal", np, 4)
    ctx.floor("timely prevote certificate", nv, 3)
    ctx.floor("vote and phase", ns, 8)


RULES = {"C25": c25, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C15": c15, "C17": c17, "C32": c32, "C43": c43}

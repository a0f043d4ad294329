"""The timer, the main loop, the wiring of the instance and its end (C16 C28 C33 C37)."""
from lib import *

PHASE = {"NewRoundInfo": "Proposal", "PrevoteVote": "PrevoteQC", "PrecommitVote": "PrecommitQC", "Brake": "BrakeTimeout"}
CONF = {"NewRoundInfo": "propose", "PrevoteVote": "prevote", "PrecommitVote": "precommit", "Brake": "brake"}
PENDING = agg(POLL, 1, "Pending", ())
CAP = 5


def polling(eng, ref, sv, st, site):
    """a channel has nothing, is closed, or delivers a message; what happened is recorded"""
    st.ctr += 1
    item = mk("recv", sv, mk("u", st.ctr))
    out = []
    for what, r in (("pending", PENDING), ("closed", ready(NONE)), ("item", ready(some(item)))):
        s = st.copy()
        s.emit(Ev("polled", (sv, item), None, s.facts, site, eng.selfv(s), what, s.chain))
        out.append((s, r))
    return out


def handed(t, src):
    """the value itself, put into an option or taken out of one"""
    while t is not src:
        if t.op == "agg" and t.a[0] == OPTION and t.a[2] == "Some":
            t = t.a[3]
        elif t.op == "fld" and t.a[1] == 1 and t.a[2] == 0:
            t = t.a[0]
        else:
            return False
    return True


def segments(paths):
    """the iterations of the outermost loops, and the parts of the paths after them:
    (facts, events, path or None)"""
    seen = set()
    for p in paths:
        tail = []
        for e in p.st.events():
            if e.name == "loop" and any(x.name == "polled" for sub, f in e.x for x in flat(sub)):
                for sub, f in e.x:
                    k = (tuple(id(x) for x in sub), f.log)
                    if k not in seen:
                        seen.add(k)
                        yield f, flat(sub), None
                tail = []
            else:
                tail += flat([e])
        yield p.facts, tail, p


def timer(ctx):
    if "timer" not in ctx.cache:
        ctx.cache["timer"] = run_root(ctx, "Timer as Stream::poll_next", [SELF, NOISE], atoms=(), name="timer",
                                      hooks={"recv": polling})
    return ctx.cache["timer"]


def sfx(ctx, why, facts, evs):
    return f"{why}\n path: {pathdesc(facts)}\n events: " + \
        "; ".join(e.name + (" " + str(e.x) if e.name == "polled" else "(" + ", ".join(show(a)[:160] for a in e.args) + ")")
                  for e in evs)[:3000]


def varfield(ctx, x, variant, name):
    """named field of a variant of an SMREvent value"""
    p = ctx.adt("SMREvent")
    for i, v in enumerate(ctx.prog.adts[p]["v"]):
        if v["n"] == variant:
            if x.op == "agg":
                return x.a[3 + v["f"].index(name)]
            return ctx.eng0().field(x, i, v["f"].index(name), name, len(v["f"]), p)
    raise NoAnswer(f"SMREvent::{variant} not found")


def variants(ctx, f, x, short):
    if x.op == "agg":
        return [x.a[2]]
    p = ctx.adt(short)
    d = mk("discr", x, p)
    return [v["n"] for i, v in enumerate(ctx.prog.adts[p]["v"]) if f.query(EQ(d, INT(i))) is not False]


def chan(ctx, sv, node, owner, names):
    """which channel of the owner a polled receiver is"""
    for n in names:
        c = ctx.get(node, owner, n)
        if any(t is c for t in subterms(sv)) or sv is c:
            return n
    return None


def since(s, pos):
    """events of a spawned task"""
    out, n = [], s.trace
    while n is not None and n is not pos:
        out.append(n[1])
        n = n[0]
    return flat(out[::-1])


# ------------------------------------------------------------------------------------------------ C16
SENDS = ("SinkExt::send", "UnboundedSender::unbounded_send", "UnboundedSender::start_send", "Sink::start_send",
         "SinkExt::start_send_unpin")


def c16(ctx):
    eng, paths = timer(ctx)
    n = {}
    # (1) the body of a timer: one sleep of the armed length, then the armed event goes to the timer's own queue, once
    tasks = {}
    for s, r, pos, chain in eng.spawned:
        evs = since(s, pos)
        nm = [e.name for e in evs if e.name in ("sleep", "spawned") + SENDS]
        tasks.setdefault(len(chain), []).append((s, r, evs, nm, chain))
    for f, evs, p in segments(paths):
        polled = [e for e in evs if e.name == "polled"]
        ch = {}
        for e in polled:
            c = chan(ctx, e.args[0], e.selfv, "Timer", ("event", "notify"))
            ch.setdefault(c, []).append(e)
        lab = "iteration" if p is None else "exit"
        ctx.ob("the timer polls only its event and notification channels", lab, set(ch) <= {"event", "notify"} and
               all(len(v) == 1 for v in ch.values()), sfx(ctx, "unexpected poll", f, evs), "timer.rs")
        arms = [e for e in evs if e.name == "time::sleep"]
        sp = [e for e in evs if e.name == "spawned"]
        trig = [a for a in acts_of(ctx, evs) if a.k == "trigger"]
        want_arm = False
        for e in ch.get("event", ()):
            if e.x != "item":
                continue
            x = e.args[1]
            vs = variants(ctx, f, x, "SMREvent")
            phase = [v for v in vs if v in PHASE]
            n["event"] = n.get("event", 0) + 1
            if len(vs) == 1 and phase:
                n["arm " + vs[0]] = n.get("arm " + vs[0], 0) + 1
                want_arm = True
                good = len(arms) == 1 and len(sp) == 1 and sp[0].args and armed_with(ctx, f, sp[0].args[0], x, arms[0])
                if vs == ["NewRoundInfo"] and arms:
                    # the height never goes back, the round is that of the event
                    fa, o, w = arms[0].facts, e.selfv, arms[0].selfv
                    h0, h1, eh = (ctx.get(o, "Timer", "height"), ctx.get(w, "Timer", "height"),
                                  varfield(ctx, x, "NewRoundInfo", "height"))
                    ok_ = fa.same(ctx.get(w, "Timer", "round"), varfield(ctx, x, "NewRoundInfo", "round")) and \
                        (fa.same(h1, eh) or fa.same(h1, h0) and fa.le(eh, h0))
                    ctx.ob("the timer's height and round follow every new-round event", vs[0], ok_,
                           sfx(ctx, f"now {show(h1)}, {show(ctx.get(w, 'Timer', 'round'))}", f, evs), where(e))
                ctx.ob("an event that opens a phase arms exactly one timer for that very event", vs[0], good,
                       sfx(ctx, f"arms: {len(arms)}, tasks {[show(a)[:300] for s in sp for a in s.args]}", f, evs), where(e))
            elif phase:
                # not told apart on this path: nothing may depend on it
                ctx.ob("an event that opens a phase arms exactly one timer for that very event", "/".join(vs), False,
                       sfx(ctx, "the path does not tell whether the event opens a phase", f, evs), where(e))
        if not want_arm:
            ctx.ob("no timer is armed without an event that opens a phase", lab, not arms and not sp,
                   sfx(ctx, "armed", f, evs), "timer.rs")
        # (2) firing
        want = 0
        for e in ch.get("notify", ()):
            if e.x != "item":
                continue
            x = e.args[1]
            vs = variants(ctx, f, x, "SMREvent")
            phase = [v for v in vs if v in PHASE]
            if not phase:
                continue
            if len(vs) != 1:
                ctx.ob("a timer that fires triggers its own phase's timeout", "/".join(vs), False,
                       sfx(ctx, "the path does not tell the phases apart", f, evs), where(e))
                continue
            v = vs[0]
            want += 1
            n["fire " + v] = n.get("fire " + v, 0) + 1
            h, r = varfield(ctx, x, v, "height"), varfield(ctx, x, v, "round")
            H, R = ctx.get(e.selfv, "Timer", "height"), ctx.get(e.selfv, "Timer", "round")
            if not trig:
                n["stale"] = n.get("stale", 0) + 1
                ctx.ob("a timer is ignored only if the node has left its height or round", v,
                       f.query(LT(h, H)) is True or f.query(LT(r, R)) is True, sfx(ctx, "ignored", f, evs), where(e))
                continue
            t = trig[0]
            good = len(trig) == 1 and tname(t.tt) == PHASE[v] and tname(t.source) == "Timer" and f.same(t.height, h) and \
                f.same(t.round, r) and t.hash is EMPTYB and is_none(f, t.lock_round) and \
                t.chan is ctx.get(ctx.get(e.selfv, "Timer", "state_machine"), "SMRHandler", "tx")
            ctx.ob("a timer that fires triggers its own phase's timeout of its own height and round", v, good,
                   sfx(ctx, f"triggers {[repr(t)[:300] for t in trig]}", f, evs), where(e))
        ctx.ob("no timeout is triggered without a timer that fired", lab, len(trig) <= want, sfx(ctx, "triggers", f, evs), "timer.rs")
        # (3) the timer's idea of the current height and round is that of the events
        for e in evs:
            if e.name == "write" and e.x[0] == "self" and len(e.x) == 2 and e.x[1] in ("height", "round"):
                src = [q.args[1] for q in ch.get("event", ()) if q.x == "item" and
                       variants(ctx, f, q.args[1], "SMREvent") == ["NewRoundInfo"]]
                ctx.ob("the timer's height and round are those of a new-round event", e.x[1],
                       len(src) == 1 and (e.facts.same(e.args[0], varfield(ctx, src[0], "NewRoundInfo", e.x[1])) or
                                          e.facts.same(e.args[0], ctx.get(ch["event"][0].selfv, "Timer", e.x[1]))),
                       sfx(ctx, f"writes {show(e.args[0])}", f, evs), where(e))
        # (4) the task goes to sleep only when both channels are empty
        if p is not None and p.ret.op == "agg" and p.ret.a[2] == "Pending":
            n["pending"] = n.get("pending", 0) + 1
            good = all(len(ch.get(c, ())) == 1 and ch[c][0].x == "pending" for c in ("event", "notify"))
            ctx.ob("the timer waits only after both channels were found empty", "Pending", good, sfx(ctx, "waits", f, evs),
                   "timer.rs")
        elif p is not None:
            # an item taken out of a channel is not dropped on the way out
            for c in ch:
                for e in ch[c]:
                    if e.x == "item" and c == "notify" and any(v in PHASE for v in variants(ctx, f, e.args[1], "SMREvent")):
                        ctx.ob("a fired timer leads to an error only if the trigger could not be sent", "exit", bool(trig),
                               sfx(ctx, "lost", f, evs), where(e))
    for v in PHASE:
        ctx.floor("arms " + v, n.get("arm " + v, 0), 1)
        ctx.floor("fires " + v, n.get("fire " + v, 0), 1)
    ctx.floor("waits", n.get("pending", 0), 1)
    # (5) the spawned tasks
    k = 0
    for d, ts in tasks.items():
        for s, r, evs, nm, chain in ts:
            sends = [e for e in evs if e.name in SENDS]
            sleeps = [e for e in evs if e.name == "sleep"]
            inner = [e for e in evs if e.name == "spawned"]
            if sleeps:
                k += 1
                ctx.ob("a timer sleeps once and then hands its event over once", "timer task",
                       len(sleeps) == 1 and len(sends) + len(inner) == 1, "; ".join(nm), "timer.rs")
            for e in sends:
                k += 1
                x = e.args[1]
                good = isinstance(x, T) and x.op == "recv" and e.args[0] is ctx.get(S, "Timer", "sender") and \
                    chan(ctx, x.a[0], S, "Timer", ("event",)) == "event"
                ctx.ob("the timer task hands over the event it was armed with", "hand-over", good,
                       f"sends {show(x)} on {show(e.args[0])}", where(e))
    ctx.floor("timer task", k, 2)
    ctx.ob("the timer's own queue is the one it listens to", "Timer::new", timer_new(ctx), "", "timer.rs")


def armed_with(ctx, f, fut, x, sleep):
    """the spawned future carries the event and the sleep just created"""
    sub = list(subterms(fut))
    return any(t is x or (t.op == "recv" and f.same(t, x)) for t in sub) and \
        any(t is y for t in sub for y in sleep.args) and \
        any(t is ctx.get(S, "Timer", "sender") for t in sub)


def acts_of(ctx, evs):
    class P:
        pass
    p = P()
    p.evs = evs
    return acts(ctx, p)


def chan_hook():
    def h(eng, f, args, st, site, rty):
        st.ctr += 1
        c = mk("chan", mk("u", st.ctr))
        return [(st, agg("tuple", 0, "", (mk("tx", c), mk("rx", c))))]
    return h


def timer_new(ctx):
    eng = ctx.engine((), {"mpsc::unbounded": chan_hook()})
    a = [mk("sym", "evt"), mk("sym", "smr"), mk("sym", "interval"), mk("sym", "config")]
    outs = eng.root(ctx.fn("Timer::new"), a, St())
    ctx.done(eng, outs)
    good = bool(outs)
    for s, r in outs:
        tx, rx = ctx.get(r, "Timer", "sender"), ctx.get(r, "Timer", "notify")
        good = good and tx.op == "tx" and rx.op == "rx" and tx.a[0] is rx.a[0] and ctx.get(r, "Timer", "event") is a[0] and \
            ctx.get(r, "Timer", "state_machine") is a[1]
    return good


# ------------------------------------------------------------------------------------------------ C33
def phase_conf(ctx, f, v, what):
    """(numerator, denominator) of a phase in a DurationConfig"""
    return tuple_of(ctx.get(what, "DurationConfig", CONF[v] + "_ratio"), INT(10))


def tuple_of(a, b):
    return agg("tuple", 0, "", (a, b))


def tfield(ctx, t, i):
    return t.a[3 + i] if t.op == "agg" else mk("fld", t, None, i, None)


def c33(ctx):
    eng, paths = timer(ctx)
    n = {}
    for f, evs, p in segments(paths):
        arms = [e for e in evs if e.name == "time::sleep"]
        src = [e for e in evs if e.name == "polled" and e.x == "item" and
               chan(ctx, e.args[0], e.selfv, "Timer", ("event", "notify")) == "event"]
        for e in evs:
            if e.name == "write" and e.x[0] == "self" and len(e.x) > 1 and e.x[1] == "config":
                ctx.ob("the configuration changes only with a new-round event", ".".join(map(str, e.x[1:])),
                       len(src) == 1 and variants(ctx, f, src[0].args[1], "SMREvent") == ["NewRoundInfo"],
                       sfx(ctx, "writes", f, evs), where(e))
        for a in arms:
            if not src:
                continue
            x = src[0].args[1]
            vs = variants(ctx, f, x, "SMREvent")
            if len(vs) != 1 or vs[0] not in CONF:
                continue
            v = vs[0]
            old, new = src[0].selfv, a.selfv
            oc, nc = ctx.get(old, "Timer", "config"), ctx.get(new, "Timer", "config")
            want_i = ctx.get(oc, "TimerConfig", "interval")
            conf = {w: ctx.get(oc, "TimerConfig", CONF[w]) for w in CONF}
            rnd = ctx.get(old, "Timer", "round")
            if v == "NewRoundInfo":
                ni, ncf = varfield(ctx, x, v, "new_interval"), varfield(ctx, x, v, "new_config")
                rnd = varfield(ctx, x, v, "round")
                if is_some(f, ni):
                    want_i = someval(ctx, ni)
                elif not is_none(f, ni):
                    want_i = None
                if is_some(f, ncf):
                    conf = {w: phase_conf(ctx, f, w, someval(ctx, ncf)) for w in CONF}
                elif not is_none(f, ncf):
                    conf = None
            n[v] = n.get(v, 0) + 1
            good = want_i is not None and conf is not None and f.same(ctx.get(nc, "TimerConfig", "interval"), want_i) and \
                all(pairsame(ctx, f, ctx.get(nc, "TimerConfig", CONF[w]), conf[w]) for w in CONF)
            ctx.ob("the configuration in force is the latest one received", v, good,
                   sfx(ctx, f"now {show(nc)[:600]}", f, evs), where(a))
            if not good:
                continue
            base = mk("call", "Duration::from_millis", mk("bin", "Div", MUL(want_i, tfield(ctx, conf[v], 0)), tfield(ctx, conf[v], 1)))
            why = length(ctx, f, a.args[0], base, v, rnd)
            ctx.ob("the length of a timeout is interval x ratio x back-off", v, why is None,
                   sfx(ctx, f"{why}: {show(a.args[0])}", f, evs), where(a))
    for v in CONF:
        ctx.floor("timeout of " + v, n.get(v, 0), 1)
    # arithmetic: only on the operator's configuration, never on the round
    for kind, c, site, chain, f, s in eng.asserts:
        bad = [t for t in subterms(c) if t.op in ("fld", "cast", "trunc", "phi", "bin", "pow") and mentions_round(ctx, t)]
        ctx.ob("no round number makes the length overflow", kind, not bad, f"{show(c)}\n path: {pathdesc(f)}",
               f"{site} in " + " > ".join(last(q) for q, _ in chain))
    for what, site, chain, f, s in eng.panics:
        ctx.ob("no round number makes the length overflow", what, False, pathdesc(f), str(site))
    # the status's settings reach the timer: status -> trigger -> new-round event
    k = 0
    for source in ("State", "Timer"):
        for lock in (True, False):
            for v in ("NewHeight", "Proposal", "PrevoteQC", "PrecommitQC", "WalInfo", "BrakeTimeout", "ContinueRound"):
                eng2, ps, t, pre = smr(ctx, v, source, lock)
                for q in ps:
                    for a in acts(ctx, q):
                        if a.k == "smrevent" and tname(a.msg) == "NewRoundInfo":
                            ni, nf = ctx.f(a.msg, "new_interval"), ctx.f(a.msg, "new_config")
                            k += 1
                            if v == "NewHeight":
                                st = ctx.f(ctx.f(t, "trigger_type"), "0")
                                good = same_opt(ctx, a.facts, ni, ctx.get(st, "SMRStatus", "new_interval")) and \
                                    same_opt(ctx, a.facts, nf, ctx.get(st, "SMRStatus", "new_config"))
                            else:
                                good = is_none(a.facts, ni) and is_none(a.facts, nf)
                            ctx.ob("a new-round event carries exactly the settings of the new height's status", v, good,
                                   f"interval {show(ni)} config {show(nf)}\n path: {pathdesc(q.facts)}", where(a.e))
    ctx.floor("new-round event", k, 6)
    m = 0
    for lab, q, A in all_paths(ctx):
        for a in A:
            if a.k == "trigger" and tname(a.tt) == "NewHeight":
                st = ctx.f(a.tt, "0")
                hh, ii, cc = (ctx.get(st, "SMRStatus", z) for z in ("height", "new_interval", "new_config"))
                m += 1
                ctx.ob("the settings sent to the timer are those of the adopted status", lab, of_status(ctx, a.facts, hh, ii, cc),
                       desc(lab, q, f"height {show(hh)} interval {show(ii)} config {show(cc)}", A), where(a.e))
    ctx.floor("new height", m, 2)
    # the initial settings
    eng3 = ctx.engine((), {"mpsc::unbounded": chan_hook()})
    args = [mk("sym", "evt"), mk("sym", "smr"), mk("sym", "interval"), mk("sym", "config")]
    outs = eng3.root(ctx.fn("Timer::new"), args, St())
    ctx.done(eng3, outs)
    for s, r in outs:
        c = ctx.get(r, "Timer", "config")
        good = ctx.get(c, "TimerConfig", "interval") is args[2]
        if is_some(s.facts, args[3]):
            good = good and all(pairsame(ctx, s.facts, ctx.get(c, "TimerConfig", CONF[w]), phase_conf(ctx, s.facts, w, someval(ctx, args[3])))
                                for w in CONF)
        else:
            good = good and is_none(s.facts, args[3]) and all(
                x.op == "agg" and all(y.op == "int" and y.a[0] > 0 for y in x.a[3:])
                for x in (ctx.get(c, "TimerConfig", CONF[w]) for w in CONF))
        ctx.ob("the timer starts with the settings of the instance", "Timer::new", good, show(c)[:800], "timer.rs")
    eng4 = ctx.engine(())
    args = [mk("sym", "a%d" % i) for i in range(4)]
    outs = eng4.root(ctx.fn("DurationConfig::new"), args, St())
    ctx.done(eng4, outs)
    for s, r in outs:
        ctx.ob("the ratios of a configuration are those it was built from", "DurationConfig::new",
               all(ctx.get(r, "DurationConfig", CONF[w] + "_ratio") is args[i] for i, w in enumerate(CONF)), show(r), "lib.rs")


def of_status(ctx, f, h, i, c):
    """three values of one Status value"""
    if h.op == "fld" and fieldname(h) == "height":
        st = h.a[0]
        return same_opt(ctx, f, i, ctx.get(st, "Status", "interval")) and same_opt(ctx, f, c, ctx.get(st, "Status", "timer_config"))
    return False


def same_opt(ctx, f, a, b):
    if a is b or f.same(a, b):
        return True
    if is_none(f, a) and is_none(f, b):
        return True
    if is_some(f, a) and is_some(f, b):
        return f.same(someval(ctx, a), someval(ctx, b))
    return False


def pairsame(ctx, f, a, b):
    return a is b or all(f.same(tfield(ctx, a, i), tfield(ctx, b, i)) for i in (0, 1))


def mentions_round(ctx, t):
    return any(x.op == "fld" and fieldname(x) == "round" or x.op == "phi" and "round" in x.a[2] for x in subterms(t))


def factors(t):
    if t.op == "mul":
        return [y for x in t.a for y in factors(x)]
    return [t]


def length(ctx, f, d, base, v, rnd):
    """None if d = base * 2^min(round, CAP) (no back-off for the brake timer), else why not"""
    fs = factors(d)
    rest = [x for x in fs if not (x.op == base.op and f.same(x, base) or x is base)]
    if len(fs) - len(rest) != 1:
        return f"not interval x ratio ({show(base)})"
    if v == "Brake":
        return None if all(x is INT(1) for x in rest) else "the brake timeout is not doubled"
    exp = None
    for x in rest:
        if callname(x) == "pow" and x.a[1] is INT(2):
            e = x.a[2]
        elif x.op == "bin" and x.a[0] == "Shl" and x.a[1] is INT(1):
            e = x.a[2]
        elif x.op == "int":
            if x.a[0] not in [2 ** i for i in range(64)]:
                return "the factor is no power of two"
            e = INT(x.a[0].bit_length() - 1)
        else:
            return f"unexpected factor {show(x)}"
        if exp is not None:
            return "two back-off factors"
        exp = e
    if exp is None:
        exp = INT(0)
    return capped(f, exp, rnd)


def capped(f, e, rnd):
    """e = min(rnd, CAP) under the path facts"""
    c = INT(CAP)
    if e.op == "min" and {e.a[0], e.a[1]} == {rnd, c}:
        return None
    if e.op in ("cast", "trunc"):
        w = capped(f, e.a[0], rnd)
        if w is None and (f.le(e.a[0], c) or e.a[0].op == "min"):
            return None
        return w or "the round is cut off before it is capped"
    if f.same(e, rnd):
        return None if f.le(rnd, c) else "the back-off is not capped"
    if e.op == "int" and e.a[0] == CAP:
        return None if f.le(c, rnd) else f"the cap is applied to a round below {CAP}"
    if e.op == "int":
        return None if f.query(EQ(rnd, e)) is True else "constant back-off"
    return f"back-off {show(e)}"


# ------------------------------------------------------------------------------------------------ main loop
RUNARGS = ("raw_rx", "evt", "resp_rx", "sig_rx")
RUNATOMS = STATE_ATOMS | {"State::handle_msg", "State::handle_event", "State::handle_resp", "State::start_with_wal",
                          "State::report_error"}


def mainloop(ctx):
    if "looproot" not in ctx.cache:
        ctx.cache["looproot"] = run_root(ctx, "State::run", [SELF] + [mk("sym", a) for a in RUNARGS], atoms=RUNATOMS,
                                         name="mainloop", hooks={"recv": polling})
    return ctx.cache["looproot"]


def source(ctx, e):
    """which channel of the main loop was polled"""
    for a in RUNARGS:
        if any(t is mk("sym", a) for t in subterms(e.args[0])):
            return a
    return None


HANDLERS = {"State::handle_msg", "State::handle_event", "State::handle_resp", "parallel_verify",
            "UnboundedSender::unbounded_send"}


def calls_of(evs):
    """calls of the handlers: async ones when they are polled, plain ones when they are called"""
    plain = {e.name for e in evs}
    return [e for e in evs if e.name in HANDLERS or
            e.name.startswith("&mut ") and e.name[5:] in HANDLERS and e.name[5:] not in plain]


def relay(ctx):
    """a stream of the crate that only hands on a channel: every item once, in order, and never over before the channel is"""
    for short in sorted(ctx.prog.by_short):
        if short.endswith(" as Stream::poll_next") and short.split(" ")[0] not in ("StateMachine", "Timer"):
            eng, ps = run_root(ctx, short, [SELF, NOISE], atoms=(), name="relay/" + short)
            seen = set()
            for p in ps:
                r = p.ret
                got = {x for t in [r] + [l for l, v in p.facts.literals()] for x in subterms(t) if x.op == "recv"}
                c = next(iter(got), None)
                kind = "other"
                if r.op == "agg" and r.a[2] == "Pending" and not got:
                    kind = "pending"
                elif r.op == "agg" and r.a[2] == "Ready" and len(got) == 1 and c.a[0].op == "fld" and c.a[0].a[0] is S:
                    x = r.a[3]
                    if x is c or is_some(p.facts, c) and is_some(p.facts, x) and someval(ctx, x) is someval(ctx, c) or \
                            is_none(p.facts, c) and is_none(p.facts, x):
                        kind = "item"
                seen.add(kind)
                ctx.ob("a stream in between hands on each item as it is", short, kind != "other" and not p.evs and p.post is p.pre,
                       f"returns {show(r)[:300]}\n path: {pathdesc(p.facts)}", "smr/mod.rs")
            ctx.ob("a stream in between hands on each item as it is", short + ": presence", seen == {"pending", "item"}, str(sorted(seen)))
        if short.endswith(" as FusedStream::is_terminated"):
            eng, ps = run_root(ctx, short, [SELF], atoms=(), name="fused/" + short)
            for p in ps:
                ctx.ob("a stream in between is over only when its channel is", short, p.ret is FALSE, show(p.ret)[:300], "smr/mod.rs")


def c37(ctx):
    relay(ctx)
    eng, paths = mainloop(ctx)
    n = {}
    for f, evs, p in segments(paths):
        got = [e for e in evs if e.name == "polled" and e.x == "item"]
        calls = calls_of(evs)
        if p is not None and not any(e.name == "polled" for e in evs):
            continue
        ctx.ob("the main loop takes one message at a time", "iteration", len(got) <= 1, sfx(ctx, "two messages", f, evs), "process.rs")
        if not got:
            ctx.ob("the main loop acts only on what it received", "iteration", True)
            continue
        e = got[0]
        src, x = source(ctx, e), e.args[1]
        n[src] = n.get(src, 0) + 1
        node = e.selfv
        if src in ("raw_rx", "sig_rx"):
            c, m = tfield(ctx, x, 0), tfield(ctx, x, 1)
            tx = ctx.get(node, "State", "verify_sig_tx")
            fate = []
            for a in calls:
                if a.name == "State::handle_msg" and a.args[1] is c and a.args[2] is m:
                    fate.append("handled")
                elif a.name == "parallel_verify" and a.args[0] is c and a.args[1] is m and a.args[4] is tx and \
                        a.args[2] is ctx.get(node, "State", "util") and a.args[3] is ctx.get(node, "State", "authority"):
                    fate.append("verified")
                elif a.name == "UnboundedSender::unbounded_send" and a.args[0] is tx and pair_of(ctx, a.args[1], c, m):
                    fate.append("forwarded")
                else:
                    fate.append("?" + a.name)
            vs = variants(ctx, f, m, "OverlordMsg")
            if not fate:
                # only a message of a past height may be dropped
                ok_drop = src == "raw_rx" and not set(vs) & {"RichStatus", "Stop"} and past(ctx, f, m, node)
                if p is not None:
                    ok_drop = ok_drop or stopped(ctx, f, node)
                n["dropped"] = n.get("dropped", 0) + 1
                ctx.ob("a message is dropped unseen only if its height is past", src, ok_drop,
                       sfx(ctx, f"dropped, may be {vs}", f, evs), where(e))
            else:
                want = {"raw_rx": {"handled", "verified", "forwarded"}, "sig_rx": {"handled"}}[src]
                ctx.ob("a received message is processed exactly once, with its own context", src,
                       len(fate) == 1 and fate[0] in want, sfx(ctx, f"{fate}", f, evs), where(e))
        elif src == "evt":
            names = [a.name.replace("&mut ", "") for a in calls]
            if not names:
                ctx.ob("an event is skipped only without voting right or after a stop", "event", silent(ctx, f, node) or stopped(ctx, f, node),
                       sfx(ctx, "skipped", f, evs), where(e))
            else:
                ctx.ob("an event is handled exactly once", "event", names == ["State::handle_event"] and
                       is_item_of(ctx, f, calls[0].args[-1], x), sfx(ctx, str(names), f, evs), where(e))
        elif src == "resp_rx":
            names = [a.name.replace("&mut ", "") for a in calls]
            if not names:
                ctx.ob("a block check answer is skipped only without voting right", "answer", silent(ctx, f, node),
                       sfx(ctx, "skipped", f, evs), where(e))
            else:
                ctx.ob("a block check answer is handled exactly once", "answer", names == ["State::handle_resp"] and
                       is_item_of(ctx, f, calls[0].args[-1], x), sfx(ctx, str(names), f, evs), where(e))
        else:
            ctx.ob("the main loop listens to its four channels only", str(src), False, sfx(ctx, show(e.args[0]), f, evs), where(e))
    for s in RUNARGS:
        ctx.floor("main loop reads " + s, n.get(s, 0), 1)
    first = [e.name for p in paths for e in p.st.events() if e.name in ("State::start_with_wal", "loop")]
    ctx.ob("the node restores its log before it reads anything", "start", bool(first) and all(
        [e.name for e in p.st.events() if e.name in ("State::start_with_wal", "loop")][:2] == ["State::start_with_wal", "loop"] for p in paths),
        str(first), "process.rs")
    handler(ctx)
    wiring(ctx)


def is_item_of(ctx, f, a, x):
    """a is Some(x)"""
    return a.op == "agg" and a.a[2] == "Some" and (a.a[3] is x or f.same(a.a[3], x))


def pair_of(ctx, t, a, b):
    return tfield(ctx, t, 0) is a and tfield(ctx, t, 1) is b


def silent(ctx, f, node):
    return f.query(ctx.get(node, "State", "consensus_power")) is False


def stopped(ctx, f, node):
    return f.query(ctx.get(node, "State", "stopped")) is True


def past(ctx, f, m, node):
    """the height of the message is below the node's"""
    H = ctx.get(node, "State", "height")
    p = ctx.adt("OverlordMsg")
    for l, v in f.literals():
        for t in subterms(l):
            if t.op == "fld" and fieldname(t) == "height" and any(y is m for y in subterms(t)) and f.query(LT(t, H)) is True:
                return True
            if callname(t) in ("get_height",) and any(y is m for y in subterms(t)) and f.query(LT(t, H)) is True:
                return True
    return False


# ------------------------------------------------------------------------------------------------ wiring
def handler(ctx):
    """OverlordHandler::send_msg: the message and its context go into the channel once, or an error is returned"""
    m, c, h = mk("sym", "msg"), mk("sym", "ctx"), mk("sym", "handler")
    for okc in (True, False):
        def send(eng, f, args, st, site, rty, okc=okc):
            vals = [eng.deep(st, a) for a in args]
            st.emit(Ev("chan.send", tuple(vals), None, st.facts, site, None, None, st.chain))
            return [(st, ok(I.UNIT) if okc else err(mk("sym", "senderr")))]
        eng = ctx.engine((), {"UnboundedSender::unbounded_send": send})
        outs = eng.root(ctx.fn("OverlordHandler::send_msg"), [h, c, m], St())
        ctx.done(eng, outs)
        tx = ctx.get(h, "OverlordHandler", "0")
        for s, r in outs:
            sends = [e for e in flat(s.events()) if e.name == "chan.send"]
            good = len(sends) <= 1 and all(e.args[0] is tx and tfield(ctx, e.args[1], 1) is m and ctx_of(tfield(ctx, e.args[1], 0), c)
                                           for e in sends)
            if is_ok(s.facts, r):
                good = good and len(sends) == 1 and okc
            else:
                good = good and is_err(s.facts, r) and (not sends or not okc) and (bool(sends) or closed(s.facts))
            ctx.ob("sending through a handler puts the message into the instance's channel once or fails", "send_msg", good,
                   f"{show(r)[:200]} after {[show(a)[:200] for e in sends for a in e.args]}\n path: {pathdesc(s.facts)}", "overlord.rs")


def closed(f):
    return any(v and callname(t) == "is_closed" for l, v in f.literals() for t in subterms(l))


def ctx_of(t, c):
    """the caller's context, possibly with values added"""
    while True:
        if t is c:
            return True
        if callname(t) == "with_value":
            t = t.a[1]
            continue
        if t.op in ("mut", "call", "ucall") and any(x is c for x in t.a if isinstance(x, T)):
            return True
        return False


def wiring(ctx):
    hooks = {"mpsc::unbounded": chan_hook(), "recv": stream_hook}
    eng = ctx.engine(STATE_ATOMS | {"State::run"}, hooks)
    a = [mk("sym", n) for n in ("overlord", "init_height", "interval", "auth", "tconf")]
    outs = eng.root(ctx.fn("Overlord::run"), a, St())
    ctx.done(eng, outs)
    o = a[0]
    n = 0
    for s, r in outs:
        evs = flat(s.events())
        run = [e for e in evs if e.name == "State::run"]
        sp = [e for e in evs if e.name == "spawned"]
        bad = []
        n += 1
        if len(run) != 1:
            bad.append(f"{len(run)} main loops")
        else:
            st, raw, evt, resp, sig = run[0].args
            inside = lambda op, t: [x for x in subterms(t) if x.op == op]  # noqa
            sm = [x for e in sp for x in subterms(e.args[0]) if x.op == "agg" and last(x.a[0]) == "StateMachine"]
            tm = [x for e in sp for x in subterms(e.args[0]) if x.op == "agg" and last(x.a[0]) == "Timer"]
            if len(sp) != 2 or len(set(sm)) != 1 or len(set(tm)) != 1:
                bad.append(f"{len(sp)} tasks, {len(set(sm))} state machines, {len(set(tm))} timers")
            else:
                sm, tm = sm[0], tm[0]
                trig = ctx.f(sm, "trigger")
                es = ctx.f(sm, "event")
                ends = [tfield(ctx, es, 0), tfield(ctx, es, 1)]
                evt_rx = ctx.get(evt, "Event", "rx")
                tm_rx = ctx.get(ctx.f(tm, "event"), "Event", "rx")
                h1 = ctx.get(ctx.get(st, "State", "state_machine"), "SMRHandler", "tx")
                h2 = ctx.get(ctx.f(tm, "state_machine"), "SMRHandler", "tx")
                if not paired(h1, trig) or not paired(h2, trig):
                    bad.append("triggers do not reach the state machine")
                if sorted([paired(x, evt_rx) for x in ends]) != [False, True]:
                    bad.append("the node does not listen to one event channel of the state machine")
                if sorted([paired(x, tm_rx) for x in ends]) != [False, True] or evt_rx is tm_rx:
                    bad.append("the timer does not listen to the other event channel")
                if not paired(ctx.get(st, "State", "verify_sig_tx"), sig):
                    bad.append("verified messages do not reach the main loop")
                if not paired(ctx.get(st, "State", "resp_tx"), resp):
                    bad.append("block check answers do not reach the main loop")
                for fld, arg in (("height", a[1]), ("block_interval", a[2])):
                    if ctx.get(st, "State", fld) is not arg:
                        bad.append(fld)
                tmc = ctx.f(tm, "config")
                if ctx.get(tmc, "TimerConfig", "interval") is not a[2]:
                    bad.append("interval of the timer")
                for fld, src in (("address", "address"), ("function", "consensus"), ("util", "crypto"), ("wal", "wal")):
                    if not handed(ctx.get(st, "State", fld), ctx.get(o, "Overlord", src)):
                        bad.append(f"{fld} is not the instance's")
                if not handed(raw, ctx.get(o, "Overlord", "state_rx")):
                    bad.append("the main loop does not read the instance's channel")
                if not any(x is a[3] for x in subterms(ctx.get(st, "State", "authority"))):
                    bad.append("authority list")
        ctx.ob("the main loop, the state machine and the timer are started once and connected to each other", "Overlord::run", not bad,
               "; ".join(bad) + f"\n path: {pathdesc(s.facts)}", "overlord.rs")
    ctx.floor("Overlord::run", n, 1)
    # the handlers of an instance feed the channel its main loop reads
    eng = ctx.engine((), {"mpsc::unbounded": chan_hook()})
    outs = eng.root(ctx.fn("Overlord::new"), [mk("sym", x) for x in ("address", "consensus", "crypto", "wal")], St())
    ctx.done(eng, outs)
    for s, r in outs:
        tx = [t for t in subterms(ctx.get(r, "Overlord", "sender")) if t.op == "tx"]
        rx = [t for t in subterms(ctx.get(r, "Overlord", "state_rx")) if t.op == "rx"]
        ctx.ob("an instance's sender and receiver are one channel", "Overlord::new", len(tx) == len(rx) == 1 and paired(tx[0], rx[0]) and
               all(handed(ctx.get(r, "Overlord", x), mk("sym", x)) for x in ("address", "consensus", "crypto", "wal")),
               show(r)[:600], "overlord.rs")
    eng = ctx.engine(())
    outs = eng.root(ctx.fn("Overlord::get_handler"), [o], St())
    ctx.done(eng, outs)
    k = 0
    for s, r in outs:
        k += 1
        ctx.ob("a handler sends into the instance's channel", "get_handler",
               handed(ctx.get(r, "OverlordHandler", "0"), ctx.get(o, "Overlord", "sender")),
               show(r)[:300], "overlord.rs")
        ctx.ob("taking a handler leaves the instance able to give out more", "get_handler",
               not [e for e in s.events() if e.name == "write" and e.x[0] == "self"], "", "overlord.rs")
    ctx.floor("get_handler", k, 1)
    # the tasks run their stream until it ends
    for name in ("SMR::run", "Timer::run"):
        stream_task(ctx, name)


def paired(tx, rx):
    return tx.op == "tx" and rx.op == "rx" and tx.a[0] is rx.a[0]


def stream_hook(eng, ref, sv, st, site):
    """a task polls its stream: an item, or the end"""
    out = []
    for what, r in (("end", ready(NONE)), ("item", ready(some(mk("sym", "item"))))):
        s = st.copy()
        s.emit(Ev("stream", (sv,), None, s.facts, site, None, what, s.chain))
        out.append((s, r))
    return out


def stream_task(ctx, name):
    """the task polls its stream again after every item and ends with the stream"""
    eng = ctx.engine((), {"recv": stream_hook})
    me = mk("sym", "self")
    stream = ctx.get(me, "SMR", "state_machine") if name == "SMR::run" else me
    outs = eng.root(ctx.fn(name), [me], St())
    ctx.done(eng, outs)
    k = 0
    for s, r, pos, chain in eng.spawned:
        raw = []
        nd = s.trace
        while nd is not None and nd is not pos:
            raw.append(nd[1])
            nd = nd[0]
        raw.reverse()
        for e in raw:
            if e.name == "loop":
                for sub, f in e.x:
                    seq = [x.x for x in flat(sub) if x.name == "stream" and x.args[0] is stream]
                    k += 1
                    ctx.ob("the task goes on after every item of its stream", name, bool(seq) and "end" not in seq, str(seq), "mod.rs, timer.rs")
        tail = []
        for e in raw:
            tail = [] if e.name == "loop" else tail + flat([e])
        seq = [x.x for x in tail if x.name == "stream" and x.args[0] is stream]
        ctx.ob("the task ends exactly when its stream ends", name, bool(seq) and seq[-1] == "end" and
               all(x == "item" for x in seq[:-1]), str(seq), "mod.rs, timer.rs")
        k += 1
    ctx.floor("task of " + name, k, 2)
    for what, site, chain, f, s in eng.panics:
        ctx.ob("the task does not panic", name, False, what, str(site))


# ------------------------------------------------------------------------------------------------ C28
def c28(ctx):
    n = 0
    # a stop request: one Stop trigger, the node marked as stopped
    for lab, p, A in paths_of(ctx, "message Stop"):
        tr = [a for a in A if a.k == "trigger"]
        other = [a for a in A if a.k in ("broadcast", "transmit", "commit", "wal", "pverify", "sign", "col")]
        n += 1
        ctx.ob("a stop request reaches the state machine and marks the node as stopped", lab,
               len(tr) == 1 and tname(tr[0].tt) == "Stop" and not other and
               p.facts.query(ctx.get(p.post, "State", "stopped")) is True or
               ctx.get(p.post, "State", "stopped") is TRUE and len(tr) == 1 and tname(tr[0].tt) == "Stop" and not other,
               desc(lab, p, "", A), where(tr[0].e) if tr else "process.rs")
    ctx.floor("stop request", n, 1)
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "trigger" and tname(a.tt) == "Stop":
                ctx.ob("only a stop request stops the state machine", lab, lab == "message Stop", desc(lab, p, "", A), where(a.e))
        if lab != "message Stop":
            s = ctx.get(p.post, "State", "stopped")
            ctx.ob("only a stop request marks the node as stopped", lab, s is ctx.get(S, "State", "stopped"), desc(lab, p, show(s), A),
                   "process.rs")
    # main loop
    eng, paths = mainloop(ctx)
    seen = {"iter": 0, "exit": 0}
    for f, evs, p in segments(paths):
        got = [e for e in evs if e.name == "polled" and e.x == "item"]
        calls = calls_of(evs)
        for e in got:
            src = source(ctx, e)
            if p is None and src == "evt":
                seen["iter"] += 1
                ctx.ob("the main loop ends with the first event after a stop", "iteration", f.query(ctx.get(e.selfv, "State", "stopped")) is False,
                       sfx(ctx, "goes on", f, evs), where(e))
        if p is None:
            for e in got:
                if source(ctx, e) == "raw_rx":
                    m = tfield(ctx, e.args[1], 1)
                    if "Stop" in variants(ctx, f, m, "OverlordMsg"):
                        ctx.ob("a stop request is passed on whatever the node's height", "raw message", len(calls) == 1,
                               sfx(ctx, "dropped", f, evs), where(e))
            continue
        if not any(e.name == "polled" for e in evs):
            ctx.ob("the main loop ends only after a stop", "exit", False, sfx(ctx, "ends before the loop", f, evs), "process.rs")
            continue
        seen["exit"] += 1
        node = [e for e in evs if e.name == "polled"][-1].selfv
        ctx.ob("the main loop ends only after a stop", "exit", stopped(ctx, f, node), sfx(ctx, "ends", f, evs), "process.rs")
        ctx.ob("the node does nothing after its main loop has ended", "exit", not calls, sfx(ctx, str(calls), f, evs), "process.rs")
    ctx.floor("event in the main loop", seen["iter"], 1)
    ctx.floor("end of the main loop", seen["exit"], 1)
    # state machine
    k = 0
    for source_ in ("State", "Timer"):
        for lock in (True, False):
            for v in ("NewHeight", "Proposal", "PrevoteQC", "PrecommitQC", "WalInfo", "BrakeTimeout", "ContinueRound", "Stop"):
                eng2, ps, t, pre = smr(ctx, v, source_, lock)
                for q in ps:
                    ended = q.ret.op == "agg" and q.ret.a[2] == "Ready" and q.ret.a[3].op == "agg" and q.ret.a[3].a[2] == "None"
                    A = acts(ctx, q)
                    stops = [a for a in A if a.k == "smrevent" and tname(a.msg) == "Stop"]
                    k += 1
                    if v == "Stop":
                        ev = ctx.get(pre, "StateMachine", "event")
                        good = ended and len(stops) == 2 and len(A_events(A)) == 2 and \
                            {a.chan for a in stops} == {tfield(ctx, ev, 0), tfield(ctx, ev, 1)}
                        ctx.ob("the state machine tells the node and the timer to stop, and ends", v, good,
                               desc("SMR " + v, q, show(q.ret)[:200], A), "state_machine.rs")
                    else:
                        ctx.ob("the state machine ends only on a stop", v, not ended and not stops, desc("SMR " + v, q, show(q.ret)[:200], A),
                               "state_machine.rs")
    ctx.floor("state machine", k, 16)
    for what, item in (("empty queue", None), ("closed queue", "closed")):
        pre = symfields(ctx, "StateMachine", "m")
        hook = recv_hook(None) if item else (lambda eng, ref, sv, st, site: [(st, agg(POLL, 1, "Pending", ()))])
        eng2, ps = run_root(ctx, "StateMachine as Stream::poll_next", [SELF, NOISE], atoms=(), hooks={"recv": hook}, pre=pre,
                            name="smr/" + what)
        if item:
            ctx.ob("the state machine does not panic when the node is gone", what, bool(ps) and not eng2.panics,
                   str([x[:2] for x in eng2.panics])[:300], "state_machine.rs")
        for q in ps:
            if not item:
                ctx.ob("the state machine waits while nothing was sent to it", what, q.ret.op == "agg" and q.ret.a[2] == "Pending"
                       and not acts(ctx, q) and q.post is pre, desc("SMR " + what, q, show(q.ret)[:200], acts(ctx, q)), "state_machine.rs")
    # timer
    eng3, paths = timer(ctx)
    m = c = 0
    for f, evs, p in segments(paths):
        stop = [e for e in evs if e.name == "polled" and e.x == "item" and
                chan(ctx, e.args[0], e.selfv, "Timer", ("event", "notify")) == "event" and
                "Stop" in variants(ctx, f, e.args[1], "SMREvent")]
        ended = p is not None and p.ret.op == "agg" and p.ret.a[2] == "Ready" and p.ret.a[3].op == "agg" and p.ret.a[3].a[2] == "None"
        if stop:
            m += 1
            ctx.ob("the timer ends on a stop without arming anything", "Stop", ended and not [e for e in evs if e.name in (
                "time::sleep", "spawned", "UnboundedSender::unbounded_send")], sfx(ctx, "goes on", f, evs), where(stop[0]))
            continue
        closed_ = [e for e in evs if e.name == "polled" and e.x == "closed" and
                   chan(ctx, e.args[0], e.selfv, "Timer", ("event", "notify")) == "event"]
        if closed_:
            # a timer that reports an error instead is polled again at once, for ever
            c += 1
            ctx.ob("the timer ends when the state machine is gone", "closed channel", ended, sfx(ctx, "goes on", f, evs), where(closed_[0]))
        elif ended:
            ctx.ob("the timer ends only on a stop", "exit", False, sfx(ctx, "ends", f, evs), "timer.rs")
    ctx.floor("stop of the timer", m, 1)
    ctx.floor("closed channel of the timer", c, 1)
    for name in ("SMR::run", "Timer::run"):
        stream_task(ctx, name)


def A_events(A):
    return [a for a in A if a.k == "smrevent"]


# ------------------------------------------------------------------------------------------------ C46
def nothing(ctx, t):
    """an empty collection, or a struct whose collections are empty and whose optional parts are absent"""
    if t is EMPTYC:
        return True
    if t.op == "agg" and len(t.a) > 3:
        return all(x is INT(0) or nothing(ctx, x) or x.op == "agg" and x.a[2] == "None" for x in t.a[3:])
    return t.op in ("call", "ucall") and callname(t) in ("new", "default") and len(t.a) == 1


def c46(ctx):
    """what a node starts with"""
    hooks = {"mpsc::unbounded": chan_hook(), "recv": stream_hook}
    eng = ctx.engine(STATE_ATOMS | {"State::run", "AuthorityManage::contains"}, hooks)
    a = [mk("sym", n) for n in ("overlord", "init_height", "interval", "auth", "tconf")]
    outs = eng.root(ctx.fn("Overlord::run"), a, St())
    ctx.done(eng, outs)
    o = a[0]
    n = k = 0
    for s, r in outs:
        evs = flat(s.events())
        for run in (e for e in evs if e.name == "State::run"):
            n += 1
            f, st = run.facts, run.args[0]
            g = lambda x: ctx.get(st, "State", x)  # noqa
            au, ad = g("authority"), g("address")
            for name, ok_ in (
                    ("height", g("height") is a[1]), ("round", f.same(g("round"), INT(0))), ("interval", g("block_interval") is a[2]),
                    ("address", handed(ad, ctx.get(o, "Overlord", "address"))),
                    ("not stopped", f.query(g("stopped")) is False), ("no leader", f.query(g("is_leader")) is False),
                    ("authority list", au.op == "mut" and "update" in str(au.a[0]) and au.a[-1] is a[3] and any(nothing(ctx, x) for x in au.a if isinstance(x, T))),
                    ("voting right", callname(g("consensus_power")) == "contains" and g("consensus_power").a[-2] is au and
                     g("consensus_power").a[-1] is ad)):
                ctx.ob("a node starts with what it was given", name, ok_, sfx(ctx, show(st)[:900], f, evs), "State::new")
            for name in ("proposals", "votes", "chokes", "hash_with_block", "is_full_transaction"):
                ctx.ob("a node starts without messages and blocks", name, nothing(ctx, g(name)), show(g(name))[:300], "State::new")
        for e in evs:
            for x in {x for x in subterms(e.args[0]) if x.op == "agg" and last(x.a[0]) == "StateMachine"} if e.name == "spawned" else ():
                k += 1
                h = lambda y: ctx.f(x, y)  # noqa
                for name, ok_ in (
                        ("below every height", s.facts.same(h("height"), INT(0))), ("round", s.facts.same(h("round"), INT(0))),
                        ("between heights", h("step").op == "agg" and h("step").a[2] == "Commit"), ("no block", empty_hash(h("block_hash"))),
                        ("no lock", is_none(s.facts, h("lock")))):
                    ctx.ob("the voting state machine starts idle and unlocked", name, ok_, show(x)[:600], "StateMachine::new")
    ctx.floor("started nodes", n, 1)
    ctx.floor("state machines of started nodes", k, 1)


def empty_hash(t):
    return t is EMPTYB or callname(t) in ("new", "default") and len(t.a) == 1


RULES = {"C16": c16, "C28": c28, "C33": c33, "C37": c37, "C46": c46}

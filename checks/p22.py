"""P22: the peer's protocol version decides what is sent, in both roles."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from checks import p11, p21
from checks.p03 import INIT
from mc import wire
from mc.canon import canon
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, RPID, Outbox, capability, deliver, drain, events, inject, obj, props, reason

RULE = (
    "every history of up to two (three) announced protocol versions, including none, in every lifecycle state of both roles: the version dependent calls are judged "
    "by the version the peer announced last, compared as numbers; every redirection of a command against every version; all sequences of operations of a linked client and server "
    "up to the stated depth are compared, for every pair of versions, with the run where both have version 2.3"
)
ASSUMPTIONS = [
    "a call that is refused for its state and for the version may name either reason",
    "a peer that announced no version counts as 2.0, the oldest",
    "the client is not told the server's version when it connects to an existing pool unless the server sends it",
]
R = t.PipelineResultTypes
VERS = [None, "2.0", "2.1", "2.2", "2.3", "2.4", "2.10", "3.0", "1.0", "2.2.9", "2.3.0", "2.2.9.9", "2.0.5", "10.0", "1.99"]
FEW = [None, "2.1", "2.2", "2.3", "2.10", "3.0", "2.2.9"]
I = t.PSInvocationState
S = t.RunspacePoolState


def num(v: typing.Optional[str]) -> typing.Tuple[int, ...]:
    return tuple(int(x) for x in (v or "2.0").split("."))


def level(v: typing.Optional[str]) -> str:
    """The version of the model of P11 with the same places for redirections."""
    n = num(v)
    return "2.3" if n >= (2, 3) else "2.2" if n >= (2, 2) else "2.0"


def knows(v: typing.Optional[str]) -> bool:
    return level(v) == "2.3"


def refused(k: str, e: typing.Any, v: typing.Optional[str], what: str) -> None:
    same(k, "InvalidProtocolVersion", what)
    same((str(e.current_version), str(e.required_version)), (v or "2.0", "2.3"), "versions named by the exception")
    expect(isinstance(e, psrpcore.PSRPCoreError), "not a PSRPCoreError")
    expect((v or "2.0") in str(e) and "2.3" in str(e), "message %r does not name the versions", str(e))


# ------------------------------------------------------------------ resetting
CSTATES = ["new", "opening", "connecting", "opened", "disconnecting", "disconnected", "reconnected", "closing", "closed", "broken"]


def client_in(state: str, oid: typing.Iterator[int]) -> typing.Any:
    c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)

    def st(n: int) -> None:
        inject(c, False, "RunspacePoolState", obj(RunspaceState="<I32>%d</I32>" % n), oid=next(oid))
        events(c)

    if state == "new":
        return c
    if state == "connecting":
        c.connect()
        return c
    c.open()
    if state == "opening":
        return c
    st(2)
    same(c.state, S.Opened, "state")
    if state in ("disconnecting", "disconnected", "reconnected"):
        c.begin_disconnect()
    if state in ("disconnected", "reconnected"):
        c.disconnect()
    if state == "reconnected":
        c.reconnect()
    if state in ("closing", "closed"):
        c.begin_close()
    if state == "closed":
        c.close()
    if state == "broken":
        st(5)
    return c


def histories(tier: str):
    for h in itertools.product(VERS, repeat=1):
        yield h
    for h in itertools.product(VERS[1:], repeat=2):
        yield h
    if tier != "quick":
        for h in itertools.product(VERS[1:9], repeat=3):
            yield h


def gen_reset(tier: str):
    for st in CSTATES:
        for h in histories(tier):
            for late in (False, True):
                if late and h == (None,):
                    continue
                yield (st, h, late)


def run_reset(case, ctx: Ctx) -> None:
    st, h, late = case
    oid = itertools.count(1000)
    if late:
        c = client_in(st, oid)
        for v in h:
            if v:
                inject(c, False, "SessionCapability", capability(v), oid=next(oid))
                events(c)
    else:
        # the versions arrive before anything else
        real = psrpcore.ClientRunspacePool
        c = None

        def make(**kw: typing.Any) -> typing.Any:
            p = real(**kw)
            for v in h:
                if v:
                    inject(p, False, "SessionCapability", capability(v), oid=next(oid))
                    events(p)
            return p

        psrpcore.ClientRunspacePool = make  # type: ignore[assignment,misc]
        try:
            c = client_in(st, oid)
        finally:
            psrpcore.ClientRunspacePool = real  # type: ignore[misc]
    v = h[-1]
    out = Outbox(c)
    out.take()
    before = c.state
    ids = []
    for n in range(2):
        k, e = reason(c.reset_runspace_state)
        ctx.step()
        what = "resetting in state %s for a %s server" % (before, v)
        if not knows(v) and before == S.Opened:
            refused(k, e, v, what)
        elif before != S.Opened:
            expect(k in (("InvalidRunspacePoolState",) if knows(v) else ("InvalidRunspacePoolState", "InvalidProtocolVersion")), "%s: %s", what, k)
        else:
            same(k, "ok", what)
            ids.append(int(e))
        same(out.types(), ["ResetRunspaceState"] if k == "ok" else [], "messages sent")
        same(c.state, before, "state after " + what)
    same(len(set(ids)), len(ids), "call ids")
    if v:
        same(str(c.their_capability.protocolversion), v, "version kept of the peer")
    else:
        same(c.their_capability, None, "capability of the peer")
    ctx.state(st, h, late)


# ------------------------------------------------------------------ information records
PSTATES = ["new", "running", "restarted", "stopping", "stopped", "completed", "closed"]


def server_with(h: typing.Sequence[typing.Optional[str]], late: bool, oid: typing.Iterator[int]) -> typing.Any:
    s = psrpcore.ServerRunspacePool()
    for i, v in enumerate(h):
        if v and not (late and i):
            inject(s, True, "SessionCapability", capability(v), oid=next(oid), rpid=RPID)
    inject(s, True, "InitRunspacePool", INIT, oid=next(oid), rpid=RPID)
    events(s)
    same(s.state, S.Opened, "state")
    for i, v in enumerate(h):
        if v and late and i:
            inject(s, True, "SessionCapability", capability(v), oid=next(oid), rpid=RPID)
            events(s)
    return s


def gen_info(tier: str):
    for h in histories(tier):
        for late in (False, True) if len(h) > 1 else (False,):
            for st in PSTATES:
                yield (h, late, st)


def run_info(case, ctx: Ctx) -> None:
    h, late, st = case
    s = server_with(h, late, itertools.count(1000))
    sp = psrpcore.ServerPipeline(s, PIDS[0])
    if st != "new":
        sp.start()
    if st in ("completed", "restarted"):
        sp.complete()
    if st == "restarted":
        sp.start()
    if st in ("stopping", "stopped", "closed"):
        sp.begin_stop()
    if st in ("stopped", "closed"):
        sp.stop()
    if st == "closed":
        sp.close()
    out = Outbox(s)
    out.take()
    v, before = h[-1], sp.state
    for n in range(2):
        k, e = reason(sp.write_information, "text%d" % n, "source")
        ctx.step()
        what = "information record in state %s for a %s client" % (before, v)
        if before != I.Running:
            expect(k in (("InvalidPipelineState",) if knows(v) else ("InvalidPipelineState", "InvalidProtocolVersion")), "%s: %s", what, k)
        elif not knows(v):
            refused(k, e, v, what)
        else:
            same(k, "ok", what)
        same([(x[0], x[1]) for x in out.take()], [("InformationRecord", PIDS[0])] if k == "ok" else [], "messages sent")
        same(sp.state, before, "state after " + what)
    # everything else a pipeline can write does not depend on the version
    if before == I.Running:
        for m, a, typ in OTHERS:
            getattr(sp, m)(*a)
            same([x[0] for x in out.take()], [typ], "%s to a %s client" % (m, v))
            ctx.step()
    ctx.state(h, late, st)


OTHERS = [
    ("write_debug", ("x",), "DebugRecord"), ("write_verbose", ("x",), "VerboseRecord"), ("write_warning", ("x",), "WarningRecord"), ("write_output", ("x",), "PipelineOutput"),
    ("write_error", (t.NETException(Message="x"),), "ErrorRecord"), ("write_progress", ("a", 1, "b"), "ProgressRecord"),
    ("host_call", (t.HostMethodIdentifier.ReadLine,), "PipelineHostCall"), ("begin_stop", (), "PipelineState"), ("stop", (), "PipelineState"),
]


# ------------------------------------------------------------------ clients that follow each other
def gen_succession(tier: str):
    vs = FEW if tier == "quick" else VERS
    for h in itertools.product(vs[1:], repeat=2):
        yield h
    for h in itertools.product([v for v in FEW if v], repeat=3):
        yield h


def run_succession(h, ctx: Ctx) -> None:
    """Each version is that of another client which connects after the one before has disconnected."""
    s = psrpcore.ServerRunspacePool()
    sp = None
    for i, v in enumerate(h):
        c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        c.our_capability.protocolversion = t.PSVersion(v)
        if i == 0:
            c.open()
            deliver(c, s)
        else:
            s.connect()
            c.connect()
            deliver(c, s)
        deliver(s, c)
        same((c.state, s.state), (S.Opened, S.Opened), "states with client %d" % i)
        same(str(s.their_capability.protocolversion), v, "version the server knows")
        if i == 0:
            sp = psrpcore.ServerPipeline(s, PIDS[0])
            sp.start()
            drain(s)
        assert sp is not None
        for q in (sp, psrpcore.ServerPipeline(s, PIDS[i + 1])):
            if q is not sp:
                q.start()
                drain(s)
            k, e = reason(q.write_information, "m", "src")
            ctx.step()
            if knows(v):
                same(k, "ok", "information record for client %d of %s" % (i, h))
                same(len(drain(s)), 1, "payloads")
            else:
                refused(k, e, v, "information record for client %d of %s" % (i, h))
                same(s.data_to_send(), None, "data sent")
        c.begin_disconnect()
        c.disconnect()
        s.disconnect()
    ctx.state(h)


# ------------------------------------------------------------------ redirections
def gen_commands(tier: str):
    combos = list(itertools.product((0, 1, 2), repeat=5))
    for v in VERS:
        for c in combos:
            for n in (0, 1, 2) if tier != "quick" else (0,):
                yield ("combo", (v,), c, n)
    shapes = [(2, 0), (3, 0), (3, 1), (3, 2), (3, 3), (1, 0)]
    for h in histories(tier):
        for n, brk in shapes:
            yield ("shape", h, n, brk)


def run_commands(case, ctx: Ctx) -> None:
    kind, h = case[:2]
    c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    oid = itertools.count(1000)
    # the last announcement comes after the pool has been opened if there are several
    for i, v in enumerate(h):
        if v and not i:
            inject(c, False, "SessionCapability", capability(v), oid=next(oid))
    inject(c, False, "RunspacePoolState", obj(RunspaceState="<I32>2</I32>"), oid=next(oid))
    events(c)
    v = h[-1]
    cmds, ms = [], []
    cp = psrpcore.ClientPowerShell(c, pipeline_id=p11.new_pid())
    if kind == "combo":
        for j in range(1 + case[3]):
            cmd, m = psrpcore.Command("c%d" % j), p11.mcmd("c%d" % j)
            for s, k in zip(p11.STREAMS, case[2][j:] + case[2][:j]):
                if k:
                    p11.redirect(cmd, m, s, int([0, R.Output, R.Null][k]))
            cmds.append(cmd)
            ms.append(m)
    else:
        for j in range(case[2]):
            cmd, m = psrpcore.Command("c%d" % j, is_script=bool(j % 2)), p11.mcmd("c%d" % j, bool(j % 2))
            p11.redirect(cmd, m, "all", int(R.Output))
            cmd.merge_unclaimed = m["unclaimed"] = bool(j)
            cmds.append(cmd)
            ms.append(m)
    for i, (cmd, m) in enumerate(zip(cmds, ms)):
        cp.add_command(cmd)
        if kind == "shape" and case[3] >> i & 1:
            cp.add_statement()
            m["eos"] = True
    for i, x in enumerate(h):
        if x and i:
            inject(c, False, "SessionCapability", capability(x), oid=next(oid))
            events(c)
    (p, meta), body = p11.send(cp, level(v), look=True)
    ctx.step(2)
    p11.check_def(p, ms, level(v))
    p11.check_def(meta, ms, level(v))
    p11.finish(cp)
    # a metadata request has no version dependent part
    gm = psrpcore.ClientGetCommandMetadata(c, "x", arguments=["y"], pipeline_id=p11.new_pid())
    (p, meta), body = p11.send(gm, level(v))
    same([el.attrib.get("N") for el in p11.xml(body).find("MS")], ["Name", "CommandType", "Namespace", "ArgumentList"], "fields of a metadata request")
    p11.finish(gm)
    ctx.state(case)


# ------------------------------------------------------------------ nothing else depends on the version
class L(p21.W):
    """The linked peers of P21 with a version for each side."""

    def __init__(self, cv: str, sv: str) -> None:
        self.versions = {"c": cv, "s": sv}
        super().__init__()

    def settle(self) -> None:
        if not self.cp and not self.log:
            self.c.our_capability.protocolversion = t.PSVersion(self.versions["c"])
            self.s.our_capability.protocolversion = t.PSVersion(self.versions["s"])
        super().settle()


def opened(cv: str, sv: str) -> L:
    real_c, real_s = psrpcore.ClientRunspacePool, psrpcore.ServerRunspacePool

    def with_version(cls: typing.Any, v: str) -> typing.Any:
        def make(*a: typing.Any, **k: typing.Any) -> typing.Any:
            p = cls(*a, **k)
            p.our_capability.protocolversion = t.PSVersion(v)
            return p

        return make

    psrpcore.ClientRunspacePool, psrpcore.ServerRunspacePool = with_version(real_c, cv), with_version(real_s, sv)  # type: ignore[misc,assignment]
    try:
        return L(cv, sv)
    finally:
        psrpcore.ClientRunspacePool, psrpcore.ServerRunspacePool = real_c, real_s  # type: ignore[misc]


OWN = {"Merge" + x for x in ("Error", "Warning", "Verbose", "Debug", "Information")}


def tree(el: typing.Any) -> typing.Any:
    """The element without what depends on the number of redirections: reference ids and type name references."""
    kids = [tree(k) for k in el if k.attrib.get("N") not in OWN and k.tag not in ("TN", "TNRef")]
    return (el.tag, el.attrib.get("N"), el.text or "", kids)


def view(log: typing.List[typing.Any], cv: str, sv: str) -> typing.List[typing.Any]:
    """What must not depend on the versions."""
    out = []
    for x in log:
        if x[0] == "msg":
            typ, body = x[2], x[6]
            if typ == "SessionCapability":
                want = sv if x[1] == "c" else cv
                same(props(body.encode())["protocolversion"].text, want, "version announced")
                body = None
            elif typ == "CreatePipeline":
                body = tree(p11.xml(body.encode()))
            out.append((*x[:6], body))
        elif len(x) == 4 and x[1] == "SessionCapabilityEvent":
            out.append(x[:3])
        else:
            out.append(x)
    return out


BASE: typing.Dict[typing.Any, typing.Any] = {}
SEQ = [o for o in p21.ALPHA if o not in ("reset", "info0")]
END = [o for o in p21.END if o not in ("reset", "info0")]


def go(cv: str, sv: str, seq: typing.Sequence[str], ctx: Ctx) -> typing.List[typing.Any]:
    w = opened(cv, sv)
    for name in seq:
        w.do(name)
        ctx.step()
    for name in END:
        w.do(name)
        ctx.step()
    return view(w.log, cv, sv)


def gen_linked(tier: str):
    vs = ["2.0", "2.2", "2.3", "3.0"]
    pairs = [p for p in itertools.product(vs, repeat=2) if p != ("2.3", "2.3")]
    for k in range(2 if tier == "quick" else 3):
        for seq in itertools.product(SEQ, repeat=k):
            yield (seq, tuple(pairs))
    if tier == "quick":
        for seq in itertools.product(p21.CORE, repeat=2):
            yield (seq, (("2.0", "2.0"), ("2.2", "2.2"), ("3.0", "3.0")))


def run_linked(case, ctx: Ctx) -> None:
    seq, pairs = case
    want = go("2.3", "2.3", seq, ctx)
    for cv, sv in pairs:
        got = go(cv, sv, seq, ctx)
        for i, (a, b) in enumerate(itertools.zip_longest(want, got)):
            if a != b:
                fail("client %s, server %s, %s, step %d: with version 2.3 on both sides %.600r, now %.600r", cv, sv, list(seq), i, a, b)
    ctx.state(seq)


# ------------------------------------------------------------------ what is accepted
TRAFFIC: typing.List[typing.Any] = []


def traffic() -> typing.List[typing.Any]:
    """All messages of a session where both sides have version 2.3, as (to the server, type, pipeline, body)."""
    if not TRAFFIC:
        c, s = psrpcore.ClientRunspacePool(runspace_pool_id=RPID), psrpcore.ServerRunspacePool()
        boxes = (Outbox(c), Outbox(s))

        def swap() -> None:
            for to_server, box, dst in ((True, boxes[0], s), (False, boxes[1], c)):
                n = len(box.raw)
                for typ, pid, body in box.take():
                    if typ not in ("PublicKey", "EncryptedSessionKey"):
                        TRAFFIC.append((to_server, typ, pid, body))
                for p in box.raw[n:]:
                    dst.receive_data(p)
                for e in events(dst):
                    if type(e).__name__ in ("RunspacePoolHostCallEvent",):
                        c.host_response(e.ci, return_value="line")
                    elif type(e).__name__ == "PipelineHostCallEvent":
                        cp.host_response(e.ci, return_value="line")
                    elif type(e).__name__ in ("GetAvailableRunspacesEvent", "SetMaxRunspacesEvent", "ResetRunspaceStateEvent"):
                        s.runspace_availability_response(e.ci, 3 if type(e).__name__.startswith("Get") else True)

        c.open()
        swap(), swap()
        cp = psrpcore.ClientPowerShell(c, pipeline_id=PIDS[0], no_input=False)
        for i in range(2):
            cmd = psrpcore.Command("c%d" % i)
            cmd.redirect_all(R.Output)
            cp.add_command(cmd)
        sp = psrpcore.ServerPipeline(s, PIDS[0])
        cp.start()
        cp.send("in")
        cp.send_eof()
        swap()
        sp.start()
        for m, a, _ in OTHERS[:-2]:
            getattr(sp, m)(*a)
        sp.write_information("info", "src", time_generated=p21.NOW, computer="c", user="u", process_id=1, native_thread_id=2)
        s.host_call(t.HostMethodIdentifier.ReadLine)
        s.send_event(1, "sid", time_generated=p21.NOW, computer="c")
        swap(), swap()
        c.get_available_runspaces()
        c.set_max_runspaces(9)
        c.reset_runspace_state()
        swap(), swap(), swap()
        sp.complete()
        swap()
    return TRAFFIC


def received(server: bool, own: str, peer: typing.Optional[str], ctx: Ctx) -> typing.List[typing.Any]:
    pool = psrpcore.ServerRunspacePool() if server else psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    pool.our_capability.protocolversion = t.PSVersion(own)
    if server:
        pipe: typing.Any = psrpcore.ServerPipeline(pool, PIDS[0])
    else:
        pool.open()
        pipe = psrpcore.ClientPowerShell(pool, pipeline_id=PIDS[0])
        pipe.add_command("x")
    log: typing.List[typing.Any] = []
    for i, (to_server, typ, pid, body) in enumerate(traffic()):
        if to_server != server:
            if not server and typ == "CreatePipeline":
                pipe.start()
            elif not server and typ == "GetAvailableRunspaces":
                pool.get_available_runspaces()
            elif not server and typ == "SetMaxRunspaces":
                pool.set_max_runspaces(9)
            continue
        if typ == "SessionCapability":
            if peer is None:
                continue
            body = capability(peer)
        if server and "HostResponse" in typ:
            continue  # answers to calls that were not made here
        if typ == "RunspaceAvailability" and b"true" in body and b'"ci">3' in body and not server:
            continue  # the answer to the reset, which this client may not have been able to ask for
        inject(pool, server, typ, body, pid=pid, oid=500 + i, rpid=RPID)
        k, e = reason(pool.next_event)
        ctx.step()
        if typ == "SessionCapability":
            same((k, str(e.protocol_version)), ("ok", peer), "announced version")
            continue
        if k != "ok":
            log.append((typ, k))
            continue
        item = [typ, type(e).__name__, str(e.pipeline_id), pool.state, pipe.state]
        for a in sorted(dir(type(e))):
            if not a.startswith("_") and isinstance(getattr(type(e), a), property):
                v = getattr(e, a)
                item.append((a, [p11.got_cmd(x) for x in v.commands] if a == "pipeline" else canon(v)))
        log.append(item)
        same(pool.next_event(), None, "further events")
    return log


def gen_accepted(tier: str):
    vs = [v for v in VERS if v] if tier != "quick" else [v for v in FEW if v]
    for server in (False, True):
        for own in vs:
            for peer in vs + [None]:
                yield (server, own, peer)


def run_accepted(case, ctx: Ctx) -> None:
    server, own, peer = case
    if server not in BASE:
        BASE[server] = received(server, "2.3", "2.3", ctx)
        expect(len(BASE[server]) > 5, "only %d messages", len(BASE[server]))
        for x in BASE[server]:
            expect(len(x) > 2, "with version 2.3 on both sides %s fails", x)
    got = received(server, own, peer, ctx)
    same(got, BASE[server], "what a %s of version %s receives from a peer of version %s" % ("server" if server else "client", own, peer))
    ctx.state(case)


# ------------------------------------------------------------------ every version, many announcements, many clients
def gen_grid(tier: str):
    from mc.values import sizes

    ns = sizes(tier, 65536) + [2**31 - 1]
    for b in ns:
        for a in range(0, 5) if tier == "quick" else range(0, 20):
            yield ("%d.%d" % (a, b),)
        yield ("2.%d.%d" % (b % 7, b),)
        yield ("2.%d.%d.%d" % (b % 5, b, b),)
        yield ("%d.%d" % (b, b % 4),)
    for n in sizes(tier, 256 if tier == "quick" else 1024):
        for k in range(4):
            yield (n, k)


ALTERNATE = [("2.2", "2.3"), ("2.3", "2.1", "2.2"), ("2.3", "2.10", "2.2.9", "3.0"), ("2.1", "2.3", "2.3")]


def run_grid(case, ctx: Ctx) -> None:
    if len(case) == 1:
        history: typing.Sequence[str] = case
    else:
        n, k = case
        history = [ALTERNATE[k][i % len(ALTERNATE[k])] for i in range(n + 1)]
    # the server: each version is that of another client; the client: the server announces itself again
    s = psrpcore.ServerRunspacePool()
    c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    c.open()
    drain(c)
    oid = itertools.count(1000)
    inject(c, False, "RunspacePoolState", obj(RunspaceState="<I32>2</I32>"), oid=next(oid))
    events(c)
    sp = None
    ids = []
    for i, v in enumerate(history):
        if i:
            s.disconnect()
            s.connect()
        inject(s, True, "SessionCapability", capability(v), oid=next(oid), rpid=RPID)
        inject(s, True, "ConnectRunspacePool" if i else "InitRunspacePool", b"<S></S>" if i else INIT, oid=next(oid), rpid=RPID)
        inject(c, False, "SessionCapability", capability(v), oid=next(oid))
        events(s), events(c)
        if sp is None:
            sp = psrpcore.ServerPipeline(s, PIDS[0])
            sp.start()
        drain(s)
        last = i > len(history) - 4 or i % 16 == 0
        r, e = reason(sp.write_information, "m%d" % i, "src")
        if knows(v):
            same((r, len(drain(s)) if last else bool(drain(s))), ("ok", 1 if last else True), "information record %d for a client of %s" % (i, v))
        else:
            refused(r, e, v, "information record %d for a client of %s" % (i, v))
            same(s.data_to_send(), None, "data sent")
        r, e = reason(c.reset_runspace_state)
        if knows(v):
            same((r, bool(drain(c))), ("ok", True), "reset %d of a server of %s" % (i, v))
            ids.append(int(e))
        else:
            refused(r, e, v, "reset %d of a server of %s" % (i, v))
            same(c.data_to_send(), None, "data sent")
        if last:
            cmd, m = psrpcore.Command("c"), p11.mcmd("c")
            for st in p11.STREAMS:
                p11.redirect(cmd, m, st, int(R.Output))
            cp = psrpcore.ClientPowerShell(c, pipeline_id=p11.new_pid())
            cp.add_command(cmd)
            (q, meta), body = p11.send(cp, level(v), look=True)
            p11.check_def(q, [m], level(v))
            p11.finish(cp)
            drain(c)
            same((str(s.their_capability.protocolversion), str(c.their_capability.protocolversion)), (v, v), "version kept of the peer")
        ctx.step(3)
    same(len(set(ids)), len(ids), "call ids")
    ctx.state(case)


SCENARIOS = [
    Scenario("grid", gen_grid, run_grid, "all versions of major 0 to 4 (19) and minor 0 to 140 (300) and around each power of two and ten up to 65536, with and without further parts; up to 140 and 257 (300 and 1025) announcements and clients one after the other"),
    Scenario("reset", gen_reset, run_reset, "resetting in %d client situations x histories of up to 2 (3) of %d announced versions or none" % (len(CSTATES), len(VERS) - 1)),
    Scenario("information", gen_info, run_info, "information records in %d pipeline situations x histories of up to 2 (3) announced versions or none; the other %d calls always" % (len(PSTATES), len(OTHERS))),
    Scenario("succession", gen_succession, run_succession, "two and three clients of different versions connecting one after the other to a server with running pipelines"),
    Scenario("commands", gen_commands, run_commands, "3^5 redirections x %d versions, several commands and statements x histories of versions" % len(VERS)),
    Scenario("accepted", gen_accepted, run_accepted, "every kind of message received by both roles for pairs of own and announced versions"),
    Scenario("linked", gen_linked, run_linked, "all sequences of up to 1 (2) of %d operations for 15 pairs of versions against the run with 2.3 on both sides" % len(SEQ), chunk=2, timeout=120),
]

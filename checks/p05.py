"""P05: pipeline operations follow the lifecycle and illegal ones change nothing."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import PIDS, RPID, Outbox, capability, deliver, events, inject, obj, props, reason
from checks.p03 import INIT

RULE = (
    "all sequences of pipeline operations and incoming messages up to a depth for client PowerShell, client command "
    "metadata and server pipelines, plus linked client/server pairs with deliveries; after each step state, exception, "
    "queued messages, pipeline table and pool closability are compared with a reference automaton"
)
ASSUMPTIONS = ["the peer of the single sided scenarios is simulated by crafted messages", "completing a server pipeline is unconditional by design"]

I = t.PSInvocationState
NS, RUN, STG, STD, CMP, FAIL, DISC = I.NotStarted, I.Running, I.Stopping, I.Stopped, I.Completed, I.Failed, I.Disconnected
PID = PIDS[0]


class Err(Exception):
    def __init__(self, kind: str, allowed: typing.Sequence[typing.Any] = ()) -> None:
        self.kind = kind
        self.allowed = set(allowed)


class M:
    def __init__(self) -> None:
        self.state = NS
        self.reg = True
        self.calls: typing.Set[int] = set()
        self.cmds = 1
        self.pool_closed = False
        self.version = "2.3"


def need(m: M, *states: typing.Any) -> None:
    if m.state not in states:
        raise Err("InvalidPipelineState", states)


def start(kind: str):
    def f(m):
        need(m, NS, STD, CMP)
        if kind == "ps" and not m.cmds:
            raise Err("ValueError")
        m.state = RUN
        return ["CreatePipeline" if kind == "ps" else "GetCommandMetadata"]

    return f


def run_only(*msgs):
    def f(m):
        need(m, RUN)
        return list(msgs)

    return f


def begin_stop(server):
    def f(m):
        need(m, RUN, STG)
        m.state = STG
        return ["PipelineState:2"] if server else []

    return f


def close(m):
    need(m, NS, STD, STG, CMP, FAIL)
    m.reg = False
    return []


def pool_close(server):
    def f(m):
        if m.reg:
            raise Err("PSRPCoreError")
        m.pool_closed = True
        return ["RunspacePoolState:3"] if server else []

    return f


def respond(ci):
    def f(m):
        need(m, RUN)
        if ci not in m.calls:
            raise Err("any")
        m.calls.discard(ci)
        return ["PipelineHostResponse"]

    return f


def got_call(ci):
    def f(m):
        m.calls.add(ci)
        return []

    return f


def to(s):
    def f(m):
        m.state = s
        return []

    return f


def nothing(m):
    return []


CALL = '<Obj RefId="0"><MS><I64 N="ci">%d</I64><Obj N="mi" RefId="1"><ToString>ReadLine</ToString><I32>11</I32></Obj><Obj N="mp" RefId="2"><LST/></Obj></MS></Obj>'
STATE = {s: ("PipelineState", obj(PipelineState="<I32>%d</I32>" % int(s))) for s in I}


def client_ops(kind: str):
    ops: typing.Dict[str, typing.Tuple[typing.Callable, typing.Any]] = {
        "start": (start(kind), lambda p: p.start()),
        "send": (run_only("PipelineInput"), lambda p: p.send("x")),
        "send_eof": (run_only("EndOfPipelineInput"), lambda p: p.send_eof()),
        "begin_stop": (begin_stop(False), lambda p: p.begin_stop()),
        "respond1": (respond(1), lambda p: p.host_response(1, "r")),
        "close": (close, lambda p: p.close()),
        "pool_close": (pool_close(False), lambda p: p.runspace_pool.close()),
        "<call1": (got_call(1), ("PipelineHostCall", (CALL % 1).encode())),
        "<callv": (nothing, ("PipelineHostCall", (CALL % -100).encode())),
        "<output": (nothing, ("PipelineOutput", b"<S>o</S>")),
    }
    for s in I:
        ops["<" + s.name] = (to(s), STATE[s])
    return ops


CLIENT = {k: client_ops(k) for k in ("ps", "meta")}
C_ALL = list(CLIENT["ps"])
C_CORE = ["start", "send", "begin_stop", "respond1", "close", "pool_close", "<call1", "<Running", "<Stopped", "<Completed", "<Failed"]


def s_start(m):
    need(m, NS, STD, CMP)
    m.state = RUN
    return ["PipelineState:1"]


def s_complete(m):
    m.state = CMP
    return ["PipelineState:4"]


def s_stop(m):
    if m.state == STD:
        return []
    need(m, RUN, STG)
    m.state = STD
    return ["PipelineState:3+PipelineStopped"]


def s_info(m):
    if m.version < "2.3":
        raise Err("InvalidProtocolVersion" if m.state == RUN else "any")
    need(m, RUN)
    return ["InformationRecord"]


SERVER: typing.Dict[str, typing.Tuple[typing.Callable, typing.Any]] = {
    "start": (s_start, lambda p: p.start()),
    "complete": (s_complete, lambda p: p.complete()),
    "begin_stop": (begin_stop(True), lambda p: p.begin_stop()),
    "stop": (s_stop, lambda p: p.stop()),
    "close": (close, lambda p: p.close()),
    "pool_close": (pool_close(True), lambda p: p.runspace_pool.close()),
    "output": (run_only("PipelineOutput"), lambda p: p.write_output(1)),
    "none": (run_only("PipelineOutput"), lambda p: p.write_output(None)),
    "host_call": (run_only("PipelineHostCall"), lambda p: p.host_call(t.HostMethodIdentifier.ReadLine)),
    "host_void": (run_only("PipelineHostCall"), lambda p: p.host_call(t.HostMethodIdentifier.WriteLine1)),
    "error": (run_only("ErrorRecord"), lambda p: p.write_error(t.NETException(Message="e"))),
    "debug": (run_only("DebugRecord"), lambda p: p.write_debug("d")),
    "verbose": (run_only("VerboseRecord"), lambda p: p.write_verbose("v")),
    "warning": (run_only("WarningRecord"), lambda p: p.write_warning("w")),
    "progress": (run_only("ProgressRecord"), lambda p: p.write_progress("a", 1, "s")),
    "information": (s_info, lambda p: p.write_information("i", "src", time_generated=t.PSDateTime(2020, 1, 1), computer="c", user="u")),
    "<input": (nothing, ("PipelineInput", b"<S>o</S>")),
    "<eof": (nothing, ("EndOfPipelineInput", b"")),
}
S_ALL = list(SERVER)
S_CORE = ["start", "complete", "begin_stop", "stop", "close", "pool_close", "output", "host_call", "verbose", "<eof"]


def opened_client() -> typing.Any:
    c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    inject(c, False, "SessionCapability", capability("2.3"), oid=1001)
    inject(c, False, "RunspacePoolState", obj(RunspaceState="<I32>2</I32>"), oid=1002)
    events(c)
    return c


def opened_server(version: str = "2.3") -> typing.Any:
    s = psrpcore.ServerRunspacePool()
    inject(s, True, "SessionCapability", capability(version), oid=1001, rpid=RPID)
    inject(s, True, "InitRunspacePool", INIT, oid=1002, rpid=RPID)
    events(s)
    return s


def describe(m) -> str:
    typ, pid, body = m
    if typ in ("PipelineState", "RunspacePoolState"):
        p = props(body)
        key = "PipelineState" if typ == "PipelineState" else "RunspaceState"
        out = "%s:%s" % (typ, p[key].text)
        if "ExceptionAsErrorRecord" in p:
            e = p["ExceptionAsErrorRecord"].find(".//S[@N='FullyQualifiedErrorId']")
            out += "+" + (e.text if e is not None else "?")
    else:
        out = typ
    expect(pid == (None if typ == "RunspacePoolState" else PID), "%s sent for pipeline %s", typ, pid)
    return out


def run(case, ctx: Ctx) -> None:
    kind, variant, seq = case
    m = M()
    server = kind == "server"
    if server:
        m.version = variant or "2.3"
        pool = opened_server(m.version)
        pipe = psrpcore.ServerPipeline(pool, PID)
        table = SERVER
    else:
        pool = opened_client()
        table = CLIENT[kind]
        if kind == "ps":
            pipe = psrpcore.ClientPowerShell(pool, pipeline_id=PID)
            if variant == "empty":
                m.cmds = 0
            else:
                pipe.add_command("c")
        else:
            pipe = psrpcore.ClientGetCommandMetadata(pool, "n", pipeline_id=PID)
    out = Outbox(pool)
    out.take()
    due: typing.List[str] = []
    each = len(seq) < 4
    oid = 1
    for k, name in enumerate(seq):
        model, action = table[name]
        if not m.reg and (m.pool_closed or name not in ("close", "pool_close")):
            return  # closed: not part of the space (the prefix was covered)
        ctx.step()
        before = m.state
        err = None
        try:
            due += model(m)
        except Err as e:
            err = e
        where = "step %d (%s) in %s" % (k, name, before)
        if callable(action):
            kind2, val = reason(action, pipe)
        else:
            oid += 1
            inject(pool, server, action[0], action[1], pid=PID, oid=oid)
            kind2, val = reason(pool.next_event)
            if kind2 == "ok":
                expect(val is not None and val.message_type.name == action[0], "%s: event %r", where, val)
                same(val.pipeline_id, PID, where + " pipeline of the event")
        if err is None:
            expect(kind2 == "ok", "%s raised %s: %s", where, kind2, val)
        else:
            expect(kind2 != "ok", "%s was accepted", where)
            if err.kind != "any":
                same(kind2, err.kind, where)
            if err.kind == "InvalidPipelineState":
                same(val.current_state, before, where + " current state of the exception")
                exp = set(val.expected_states)
                expect(exp and exp <= err.allowed, "%s: exception names %r as allowed, allowed are %r", where, exp, err.allowed)
                expect(before.name in str(val), "%s: message %r does not name the state", where, str(val))
        same(pipe.state, m.state, where + " state")
        same(dict(pool.pipeline_table), {PID: pipe} if m.reg else {}, where + " pipeline table")
        same(pool.state, t.RunspacePoolState.Closed if m.pool_closed else t.RunspacePoolState.Opened, where + " pool state")
        if each:
            same([describe(x) for x in out.take()], due, where + " queued messages")
            due = []
        ctx.state(kind, variant, str(m.state), m.reg, m.pool_closed, tuple(m.calls), name)
    same([describe(x) for x in out.take()], due, "queued messages")
    ctx.outcome(kind, str(m.state), m.reg, m.pool_closed)


def gen_single(tier: str):
    d = 3
    for n in range(1, d + 1):
        for kind, variant, names in (("ps", "", C_ALL), ("meta", "", C_ALL), ("server", "", S_ALL)):
            for seq in itertools.product(names, repeat=n):
                if kind == "meta" and n == 3 and tier == "quick" and seq[0] != "start":
                    continue
                yield (kind, variant, seq)
    for n in range(1, 3):
        for seq in itertools.product(S_ALL, repeat=n):
            yield ("server", "2.2", ("start",) + seq)
            yield ("server", "2.2", seq)
        for seq in itertools.product(C_ALL, repeat=n):
            yield ("ps", "empty", seq)


def gen_states(tier: str):
    """Every operation in every state the client can be put in, also by two successive messages."""
    for kind in ("ps", "meta"):
        for a, b in itertools.product(I, repeat=2):
            for op in C_ALL:
                yield (kind, "", ("<call1", "<" + a.name, "<" + b.name, op))
    for a in (("start",), ("start", "begin_stop"), ("start", "stop"), ("start", "complete"), ("complete",), ("start", "begin_stop", "stop"),
              ("start", "stop", "start"), ("start", "complete", "start"), ("start", "complete", "start", "stop", "start")):
        for n in (1, 2):
            for op in itertools.product(S_ALL, repeat=n):
                yield ("server", "", a + op)


def gen_core(tier: str):
    n = 4 if tier == "quick" else 5
    for kind, names in (("ps", C_CORE), ("server", S_CORE)):
        for seq in itertools.product(names, repeat=n):
            yield (kind, "", seq)


LOOP_C = [
    ("start", "<Completed"), ("start", "<Running", "<Stopped"), ("start", "send", "begin_stop", "<Stopped"), ("start", "<call1", "respond1", "<Completed"),
    ("start", "send_eof", "<output", "<Completed"), ("start", "<callv", "<call1", "<Stopped"), ("<Failed", "<Running", "send"), ("<Running", "begin_stop"),
    ("start", "<Disconnected", "<Running", "<Completed"), ("<output",), ("close",), ("start",),
]
LOOP_S = [
    ("start", "complete"), ("start", "stop"), ("start", "begin_stop", "stop"), ("start", "output", "complete"), ("start", "host_call", "stop"),
    ("start", "error", "debug", "verbose", "warning", "progress", "information", "complete"), ("complete",), ("stop",), ("start", "<input", "<eof", "stop"),
    ("start", "none", "host_void", "begin_stop", "begin_stop", "stop", "stop"), ("begin_stop",), ("output",), ("start",),
]


def gen_loops(tier: str):
    """the same operations again and again, then each operation once"""
    for kind, loops, names in (("ps", LOOP_C, C_ALL), ("meta", LOOP_C, C_ALL), ("server", LOOP_S, S_ALL)):
        for loop in loops:
            for n in (10, 33, 70, 260) if tier == "quick" else (10, 33, 70, 130, 260, 520):
                for last in ((None,) if n > 100 else (None, *names)):
                    yield (kind, "", loop * n + (() if last is None else (last,)))
    yield ("ps", "", ("start",) + ("send",) * 33000)
    yield ("server", "", ("start",) + ("output",) * 33000)


# ------------------------------------------------------------- linked pair
LINK = ["c.start", "c.begin_stop", "c.send", "c.close", "s.start", "s.complete", "s.stop", "s.begin_stop", "s.out", "s.close", "c>s", "s>c"]


def gen_link(tier: str):
    n = 4 if tier == "quick" else 5
    for pre in (("c.start", "c>s", "s.start"), ("c.start", "c>s", "s.start", "s>c")):
        for seq in itertools.product(LINK, repeat=n - (1 if len(pre) == 3 else 0)):
            yield pre + seq


def run_link(case, ctx: Ctx) -> None:
    c, s = opened_client(), opened_server()
    for p in (c, s):
        while p.data_to_send():
            pass
    cp = psrpcore.ClientPowerShell(c, pipeline_id=PID).add_command("c")
    sp = psrpcore.ServerPipeline(s, PID)
    cs, ss = NS, NS
    creg = sreg = True
    wire_sc: typing.List[typing.Any] = []
    wire_cs: typing.List[str] = []
    ok = {
        "c.start": (NS, STD, CMP), "c.begin_stop": (RUN, STG), "c.send": (RUN,), "c.close": (NS, STD, STG, CMP, FAIL),
        "s.start": (NS, STD, CMP), "s.begin_stop": (RUN, STG), "s.stop": (RUN, STG, STD), "s.out": (RUN,),
        "s.close": (NS, STD, STG, CMP, FAIL), "s.complete": tuple(I),
    }
    act = {
        "c.start": cp.start, "c.begin_stop": cp.begin_stop, "c.send": lambda: cp.send("x"), "c.close": cp.close,
        "s.start": sp.start, "s.begin_stop": sp.begin_stop, "s.stop": sp.stop, "s.out": lambda: sp.write_output(1),
        "s.close": sp.close, "s.complete": sp.complete,
    }
    nxt = {"c.start": RUN, "c.begin_stop": STG, "s.start": RUN, "s.begin_stop": STG, "s.stop": STD, "s.complete": CMP}
    for k, name in enumerate(case):
        if (name[0] == "c" and not creg) or (name[0] == "s" and name != "s>c" and not sreg):
            return
        ctx.step()
        where = "step %d (%s)" % (k, name)
        if name == "s>c":
            if not creg:
                return
            evs = deliver(s, c)
            same([e.message_type.name for e in evs], [w if isinstance(w, str) else "PipelineState" for w in wire_sc], where + " events")
            for e, w in zip(evs, wire_sc):
                same(e.pipeline_id, PID, where)
                if not isinstance(w, str):
                    same(e.state, w, where + " announced state")
                    expect((e.reason is not None) == (w == STD), "%s: reason of %s is %r", where, w, e.reason)
                    if w == STD:
                        same(str(e.reason.FullyQualifiedErrorId), "PipelineStopped", where + " stop error")
                    cs = w
            wire_sc = []
        elif name == "c>s":
            if not sreg:
                return
            evs = deliver(c, s)
            same([e.message_type.name for e in evs], wire_cs, where + " events")
            wire_cs = []
        else:
            cur = cs if name[0] == "c" else ss
            kind, val = reason(act[name])
            if cur in ok[name]:
                expect(kind == "ok", "%s in %s raised %s %s", where, cur, kind, val)
                if not (name == "s.stop" and cur == STD):
                    if name in nxt:
                        if name[0] == "c":
                            cs = nxt[name]
                        else:
                            ss = nxt[name]
                            wire_sc.append(ss)
                if name == "s.out":
                    wire_sc.append("PipelineOutput")
                if name == "c.start":
                    wire_cs.append("CreatePipeline")
                if name == "c.send":
                    wire_cs.append("PipelineInput")
                if name == "c.close":
                    creg = False
                if name == "s.close":
                    sreg = False
            else:
                same(kind, "InvalidPipelineState", where + " in " + str(cur))
        same((cp.state, sp.state), (cs, ss), where + " states")
        same((PID in c.pipeline_table, PID in s.pipeline_table), (creg, sreg), where + " registered")
        ctx.state(str(cs), str(ss), creg, sreg, tuple(str(w) for w in wire_sc), tuple(wire_cs))
    ctx.outcome(str(cs), str(ss))


SCENARIOS = [
    Scenario("loops", gen_loops, run, "12/13 loops of 1-8 operations or messages repeated 10..260 (520) times, then every operation; 33000 inputs and outputs in one go", 4, timeout=300.0),
    Scenario("single", gen_single, run, "all sequences over 17-18 operations/messages, depth 3, three pipeline kinds", 32),
    Scenario("states", gen_states, run, "every operation in every reachable state", 32),
    Scenario("core", gen_core, run, "10/11 lifecycle operations, depth 4 (thorough 5)", 32),
    Scenario("linked", gen_link, run_link, "client and server pipeline with deliveries, 12 steps alphabet, depth 4 (thorough 5) after start", 32),
]

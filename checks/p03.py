"""P03: pool operations follow the lifecycle and illegal ones change nothing."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import PIDS, RPID, Outbox, capability, events, inject, obj, props, reason

RULE = (
    "all sequences of pool operations and incoming messages up to a depth, from the initial and from every lifecycle "
    "state, for both roles; after each step state, counts, pipelines, exception and queued messages are compared with "
    "a reference automaton"
)
ASSUMPTIONS = ["begin_close and begin_disconnect are unconditional by design", "the peer is simulated by crafted messages"]

S = t.RunspacePoolState
B, OPG, OP, CLD, CLG, BRK, DG, DD, CON = (
    S.BeforeOpen, S.Opening, S.Opened, S.Closed, S.Closing, S.Broken, S.Disconnecting, S.Disconnected, S.Connecting,
)
ERR = t.ErrorRecord(
    Exception=t.NETException(Message="boom"), CategoryInfo=t.ErrorCategoryInfo(), FullyQualifiedErrorId="boom"
)


class Base:
    """Common part of the reference automaton."""

    def __init__(self) -> None:
        self.state = B
        self.min = 0
        self.max = 0
        self.version: typing.Optional[str] = None
        self.pipes: typing.List[uuid.UUID] = []
        self.key = False
        self.rpid = RPID
        self.next_pid = 0


class Err(Exception):
    def __init__(self, kind: str, allowed: typing.Sequence[typing.Any] = ()) -> None:
        self.kind = kind
        self.allowed = set(allowed)


def need(m: Base, *states: typing.Any) -> None:
    if m.state not in states:
        raise Err("InvalidRunspacePoolState", states)


# ----- reference automaton: each function changes the model and returns the message types that must be queued
def mc_open(m):
    if m.state == OP:
        return []
    need(m, B)
    m.state = OPG
    return ["SessionCapability", "InitRunspacePool"]


def mc_connect(m):
    if m.state == OP:
        return []
    need(m, B, DD)
    m.state = CON
    return ["SessionCapability", "ConnectRunspacePool"]


def m_begin_close(m):
    m.state = CLG
    return ["RunspacePoolState:4"] if m.server else []


def m_close(m):
    if m.pipes:
        raise Err("PSRPCoreError" if m.state in (CLD, CLG, OP) else "any")
    need(m, CLD, CLG, OP)
    m.state = CLD
    return ["RunspacePoolState:3"] if m.server else []


def m_begin_disconnect(m):
    m.state = DG
    return []


def m_disconnect(m):
    need(m, OP, DG, DD)
    m.state = DD
    return []


def m_reconnect(m):
    need(m, DD, OP)
    m.state = OP
    return ["RunspacePoolState:2"] if m.server else []


def mc_avail(m):
    need(m, OP)
    return ["GetAvailableRunspaces"]


def mc_key(m):
    if m.key:
        return []
    need(m, OP)
    m.key = True
    return ["PublicKey"]


def mc_reset(m):
    if m.version is None or m.version < "2.3":
        raise Err("InvalidProtocolVersion" if m.state == OP else "any")
    need(m, OP)
    return ["ResetRunspaceState"]


def mc_setmax(v):
    def f(m):
        if m.state == B:
            m.max = v
            return []
        return [] if m.max == v else ["SetMaxRunspaces"]

    return f


def mc_setmin(v):
    def f(m):
        if m.state == B:
            m.min = v
            return []
        return [] if m.min == v else ["SetMinRunspaces"]

    return f


def m_pipe(m):
    m.pipes.append(PIDS[m.next_pid % len(PIDS)])
    m.next_pid += 1
    return []


def m_unpipe(m):
    if m.pipes:
        m.pipes.pop(0)
    return []


def mc_hostresp(m):
    need(m, OP)
    raise Err("any")


# ----- incoming, client
def in_cap(v):
    def f(m):
        m.version = v
        return []

    return f


def in_capsrv(v, rpid=RPID):
    def f(m):
        m.version = v
        if m.state == CON:
            if m.rpid != rpid:
                raise Err("PSRPCoreError")
            return []
        m.rpid = rpid
        return ["SessionCapability"]

    return f


def in_apd(m):
    if m.state == CON:
        m.state = OP
    return []


def in_state(s):
    def f(m):
        m.state = s
        return []

    return f


def in_init(m):
    m.min, m.max = 2, 7
    return []


def in_keyreq(m):
    return mc_key(m)


def in_user(m):
    return []


# ----- incoming, server
def s_init(m):
    m.min, m.max, m.state = 3, 9, OP
    return ["ApplicationPrivateData", "RunspacePoolState:2"]


def s_connect(m):
    m.state = OP
    return ["RunspacePoolInitData", "ApplicationPrivateData", "RunspacePoolState:2"]


def s_connect2(m):
    m.min, m.max = 4, 5
    return s_connect(m)


def s_op_connect(m):
    if m.state == OP:
        return []
    need(m, DD)
    m.state = CON
    return []


def s_broken(m):
    need(m, BRK, OP)
    m.state = BRK
    return ["RunspacePoolState:5+err"]


def s_event(m):
    need(m, OP)
    return ["UserEvent"]


def s_hostcall(m):
    need(m, OP)
    return ["RunspacePoolHostCall"]


def s_reqkey(m):
    if m.key:
        return []
    need(m, OP)
    m.key = True
    return ["PublicKeyRequest"]


def s_avail(m):
    raise Err("PSRPCoreError")


DICT = (
    '<Obj RefId="9"><TN RefId="9"><T>System.Management.Automation.PSPrimitiveDictionary</T><T>System.Collections.Hashtable</T>'
    "<T>System.Object</T></TN><DCT><En><S N=\"Key\">k</S><S N=\"Value\">v</S></En></DCT></Obj>"
)
INIT = obj(
    MinRunspaces="<I32>3</I32>", MaxRunspaces="<I32>9</I32>",
    PSThreadOptions='<Obj RefId="1"><ToString>Default</ToString><I32>0</I32></Obj>',
    ApartmentState='<Obj RefId="2"><ToString>Unknown</ToString><I32>2</I32></Obj>',
    HostInfo='<Obj RefId="3"><MS><B N="_isHostNull">true</B><B N="_isHostUINull">true</B><B N="_isHostRawUINull">true</B>'
             '<B N="_useRunspaceHost">true</B></MS></Obj>',
    ApplicationArguments=DICT,
)

# name -> (model step, message (type, body, event name, rpid) or callable on (pool))
CLIENT: typing.Dict[str, typing.Tuple[typing.Callable, typing.Any]] = {
    "open": (mc_open, lambda p, d: p.open()),
    "connect": (mc_connect, lambda p, d: p.connect()),
    "begin_close": (m_begin_close, lambda p, d: p.begin_close()),
    "close": (m_close, lambda p, d: p.close()),
    "begin_disconnect": (m_begin_disconnect, lambda p, d: p.begin_disconnect()),
    "disconnect": (m_disconnect, lambda p, d: p.disconnect()),
    "reconnect": (m_reconnect, lambda p, d: p.reconnect()),
    "available": (mc_avail, lambda p, d: p.get_available_runspaces()),
    "exchange_key": (mc_key, lambda p, d: p.exchange_key()),
    "reset": (mc_reset, lambda p, d: p.reset_runspace_state()),
    "set_max": (mc_setmax(7), lambda p, d: p.set_max_runspaces(7)),
    "set_min": (mc_setmin(2), lambda p, d: p.set_min_runspaces(2)),
    "host_response": (mc_hostresp, lambda p, d: p.host_response(1, None)),
    "new_pipeline": (m_pipe, lambda p, d: d.append(psrpcore.ClientPowerShell(p, pipeline_id=PIDS[len(d) % len(PIDS)]))),
    "close_pipeline": (m_unpipe, lambda p, d: next((x.close() for x in d if x.pipeline_id in p.pipeline_table), None)),
    "<cap2.3": (in_cap("2.3"), ("SessionCapability", capability("2.3"))),
    "<cap2.2": (in_cap("2.2"), ("SessionCapability", capability("2.2"))),
    "<apd": (in_apd, ("ApplicationPrivateData", obj(ApplicationPrivateData=DICT))),
    "<opened": (in_state(OP), ("RunspacePoolState", obj(RunspaceState="<I32>2</I32>"))),
    "<closed": (in_state(CLD), ("RunspacePoolState", obj(RunspaceState="<I32>3</I32>"))),
    "<broken": (in_state(BRK), ("RunspacePoolState", obj(RunspaceState="<I32>5</I32>"))),
    "<initdata": (in_init, ("RunspacePoolInitData", obj(MinRunspaces="<I32>2</I32>", MaxRunspaces="<I32>7</I32>"))),
    "<keyreq": (in_keyreq, ("PublicKeyRequest", b"<S></S>")),
}
for _s in S:
    CLIENT["<state%d" % int(_s)] = (in_state(_s), ("RunspacePoolState", obj(RunspaceState="<I32>%d</I32>" % int(_s))))
C_MAIN = [k for k in CLIENT if not k.startswith("<state")]
C_CORE = [k for k in C_MAIN if k not in ("<initdata", "set_min", "<cap2.2", "close_pipeline", "host_response", "<closed")]

OTHER = uuid.UUID(int=77)
SERVER: typing.Dict[str, typing.Tuple[typing.Callable, typing.Any]] = {
    "connect": (s_op_connect, lambda p, d: p.connect()),
    "begin_close": (m_begin_close, lambda p, d: p.begin_close()),
    "close": (m_close, lambda p, d: p.close()),
    "begin_disconnect": (m_begin_disconnect, lambda p, d: p.begin_disconnect()),
    "disconnect": (m_disconnect, lambda p, d: p.disconnect()),
    "reconnect": (m_reconnect, lambda p, d: p.reconnect()),
    "set_broken": (s_broken, lambda p, d: p.set_broken(ERR)),
    "send_event": (s_event, lambda p, d: p.send_event(1, "src", computer="c", time_generated=t.PSDateTime(2020, 1, 1))),
    "host_call": (s_hostcall, lambda p, d: p.host_call(t.HostMethodIdentifier.ReadLine)),
    "request_key": (s_reqkey, lambda p, d: p.request_key()),
    "availability": (s_avail, lambda p, d: p.runspace_availability_response(5, True)),
    "new_pipeline": (m_pipe, lambda p, d: d.append(psrpcore.ServerPipeline(p, PIDS[len(d) % len(PIDS)]))),
    "close_pipeline": (m_unpipe, lambda p, d: next((x.close() for x in d if x.pipeline_id in p.pipeline_table), None)),
    "<cap": (in_capsrv("2.3"), ("SessionCapability", capability("2.3"))),
    "<capother": (in_capsrv("2.2", OTHER), ("SessionCapability", capability("2.2"), OTHER)),
    "<init": (s_init, ("InitRunspacePool", INIT)),
    "<connect": (s_connect, ("ConnectRunspacePool", b"<S></S>")),
    "<connect45": (s_connect2, ("ConnectRunspacePool", obj(MinRunspaces="<I32>4</I32>", MaxRunspaces="<I32>5</I32>"))),
    "<data": (None, b""),
}


def s_data(m):
    return []


SERVER["<data"] = (s_data, b"")
S_MAIN = list(SERVER)
S_CORE = [k for k in S_MAIN if k not in ("<connect45", "close_pipeline", "availability", "<data")]

PREFIX_C = {
    "initial": (),
    "opened": ("open", "<cap2.3", "<apd", "<opened"),
    "opened_old": ("open", "<cap2.2", "<opened"),
    "piped": ("open", "<cap2.3", "<opened", "new_pipeline"),
    "disconnected": ("open", "<cap2.3", "<opened", "disconnect"),
    "reconnecting": ("open", "<opened", "begin_disconnect", "disconnect", "connect"),
    "connecting": ("connect",),
    "closing": ("open", "<cap2.3", "<opened", "begin_close"),
    "closed": ("open", "<cap2.3", "<opened", "close"),
    "broken": ("open", "<cap2.3", "<opened", "<broken"),
}
PREFIX_S = {
    "initial": (),
    "opened": ("<cap", "<init"),
    "piped": ("<cap", "<init", "new_pipeline"),
    "disconnected": ("<cap", "<init", "disconnect"),
    "connecting": ("<cap", "<init", "disconnect", "connect"),
    "reopened": ("<cap", "<init", "disconnect", "connect", "<cap", "<connect"),
    "closing": ("<cap", "<init", "begin_close"),
    "closed": ("<cap", "<init", "close"),
    "broken": ("<cap", "<init", "set_broken"),
}


def gen(role: str, prefix: str, depth: typing.Callable[[str], int], names: typing.Callable[[str], typing.List[str]]):
    def g(tier: str):
        for n in range(1, depth(tier) + 1):
            for seq in itertools.product(names(tier), repeat=n):
                yield (role, prefix, seq)

    return g


def gen_core(tier: str):
    """depth 4/5 from the initial state"""
    d = 3 if tier == "quick" else 4
    for role, names in (("c", C_CORE), ("s", S_CORE)):
        for n in range(1, d + 1):
            for seq in itertools.product(names, repeat=n):
                yield (role, "initial", seq)


def gen_prefix(tier: str):
    d = 2 if tier == "quick" else 3
    for role, names, pre in (("c", C_MAIN, PREFIX_C), ("s", S_MAIN, PREFIX_S)):
        for n in range(1, d + 1):
            for p in pre:
                for seq in itertools.product(names, repeat=n):
                    yield (role, p, seq)


def gen_deep(tier: str):
    """life cycle operations only, deeper"""
    lc = ["open", "connect", "begin_close", "close", "begin_disconnect", "disconnect", "reconnect", "<opened", "<apd", "<broken"]
    ls = ["connect", "begin_close", "close", "begin_disconnect", "disconnect", "reconnect", "set_broken", "<cap", "<init", "<connect"]
    d = 4 if tier == "quick" else 5
    for role, names in (("c", lc), ("s", ls)):
        for n in range(1, d + 1):
            for seq in itertools.product(names, repeat=n):
                yield (role, "initial" if role == "c" else "opened", seq)


def gen_states(tier: str):
    for a in S:
        for b in S:
            for op in C_MAIN:
                if not op.startswith("<"):
                    yield ("c", "initial", ("<cap2.3", "<state%d" % int(a), "<state%d" % int(b), op))


LOOP_C = [
    ("disconnect", "reconnect"), ("begin_disconnect", "disconnect", "reconnect"), ("disconnect", "connect", "<cap2.3", "<apd"),
    ("disconnect", "connect", "<initdata", "<opened"), ("set_max",), ("available",), ("reset",), ("exchange_key",), ("<cap2.2", "<cap2.3"),
    ("<state6", "<opened"), ("begin_close", "<opened"), ("<closed", "close", "<opened"), ("reconnect",), ("open", "connect"),
    ("new_pipeline", "close_pipeline"), ("new_pipeline", "disconnect", "reconnect", "close_pipeline"), ("<apd",), ("<keyreq",),
    ("<broken", "<opened"), ("set_min", "set_max", "disconnect", "disconnect", "reconnect", "reconnect"),
]
LOOP_S = [
    ("disconnect", "reconnect"), ("begin_disconnect", "disconnect", "reconnect"), ("disconnect", "connect", "<cap", "<connect"),
    ("disconnect", "connect", "<connect45"), ("send_event",), ("host_call",), ("request_key",), ("connect", "reconnect"),
    ("new_pipeline", "close_pipeline"), ("new_pipeline", "disconnect", "reconnect", "close_pipeline"), ("availability",), ("<init",),
    ("close", "<init"), ("set_broken", "<connect"), ("begin_close", "<connect"), ("<data",), ("set_broken",), ("close",),
]


def gen_loops(tier: str):
    """the same operations again and again, then each operation once"""
    for role, pre, loops, names in (("c", "opened", LOOP_C, C_MAIN), ("s", "opened", LOOP_S, S_MAIN)):
        for loop in loops:
            for n in (10, 33, 70, 260) if tier == "quick" else (10, 33, 70, 130, 260, 520):
                for last in ((None,) if n > 100 else (None, *names)):
                    yield (role, pre, loop * n + (() if last is None else (last, "disconnect", "reconnect")))
    yield ("c", "opened", ("available", "reset") * 16500)
    yield ("s", "opened", ("send_event", "host_call") * 16500)


def describe(m: typing.Tuple[str, typing.Any, bytes]) -> str:
    if m[0] == "RunspacePoolState":
        p = props(m[2])
        return "RunspacePoolState:%s%s" % (p["RunspaceState"].text, "+err" if "ExceptionAsErrorRecord" in p else "")
    return m[0]


def run(case, ctx: Ctx) -> None:
    role, prefix, seq = case
    server = role == "s"
    m = Base()
    m.server = server
    if server:
        pool = psrpcore.ServerRunspacePool()
        m.rpid = pool.runspace_pool_id
        table = SERVER
        pre = PREFIX_S[prefix]
    else:
        pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        m.min = m.max = 1
        table = CLIENT
        pre = PREFIX_C[prefix]
    out = Outbox(pool)
    pipes: typing.List[typing.Any] = []
    each = len(seq) % 2 == 1 or len(seq) > 3
    due: typing.List[str] = []
    oid = 0
    for k, name in enumerate((*pre, *seq)):
        ctx.step()
        model, action = table[name]
        before = (m.state, m.min, m.max, m.version, list(m.pipes), m.key, m.rpid)
        err = None
        try:
            if server and m.state == B and not callable(action):
                m.state = OPG
            due += model(m)
        except Err as e:
            err = e
        where = "step %d (%s)" % (k, name)
        if callable(action):
            kind, val = reason(action, pool, pipes)
        elif action == b"":
            pool.receive_data(psrpcore.PSRPPayload(b"", psrpcore.StreamType.default, None))
            kind, val = "ok", None
            same(events(pool), [], where)
        else:
            oid += 1
            inject(pool, server, action[0], action[1], oid=oid, rpid=action[2] if len(action) > 2 else RPID)
            kind, val = reason(pool.next_event)
            if kind == "ok":
                expect(val is not None and val.message_type.name == action[0], "%s: event %r", where, val)
                same(val.runspace_pool_id, action[2] if len(action) > 2 else RPID, where + " pool id of the event")
                same(val.pipeline_id, None, where + " pipeline id of the event")
            same(pool.next_event(), None, where + " second event")
        if err is None:
            expect(kind == "ok", "%s in %s raised %s: %s", where, before[0], kind, val)
        else:
            expect(kind != "ok", "%s was accepted in %s", where, before[0])
            if err.kind != "any":
                same(kind, err.kind, where + " in " + str(before[0]))
                expect(isinstance(val, psrpcore.PSRPCoreError), "%s: %r is no PSRPCoreError", where, val)
            if err.kind == "InvalidRunspacePoolState":
                same(val.current_state, before[0], where + " current state of the exception")
                exp = set(val.expected_states)
                expect(exp and exp <= err.allowed, "%s: exception names %r as allowed states, allowed are %r", where, exp, err.allowed)
                expect(before[0].name in str(val), "%s: message %r does not name the state", where, str(val))
        same(pool.state, m.state, where + " state")
        same((int(pool.min_runspaces), int(pool.max_runspaces)), (m.min, m.max), where + " runspace counts")
        same(list(pool.pipeline_table), m.pipes, where + " pipelines")
        cap = pool.their_capability
        same(None if cap is None else str(cap.protocolversion), m.version, where + " peer version")
        same(pool.runspace_pool_id, m.rpid, where + " pool id")
        if each:
            same([describe(x) for x in out.take()], due, where + " queued messages")
            due = []
        ctx.state(role, str(m.state), m.min, m.max, m.version, len(m.pipes), m.key, name)
    same([describe(x) for x in out.take()], due, "queued messages")
    same(pool.data_to_send(), None, "data after draining")
    ctx.outcome(role, str(m.state), m.version, len(m.pipes), m.key)


SCENARIOS = [
    Scenario("loops", gen_loops, run, "20/18 loops of 1-6 operations or messages repeated 10..260 (520) times, then every operation; 33000 requests in one go", 4, timeout=300.0),
    Scenario("core", gen_core, run, "all sequences over 17/15 operations and messages, depth 3 (thorough 4), initial state", 32),
    Scenario("prefix", gen_prefix, run, "all sequences over 23/19 operations, depth 2 (thorough 3), from 10/9 lifecycle states", 32),
    Scenario("deep", gen_deep, run, "lifecycle operations only, depth 4 (thorough 5)", 32),
    Scenario("states", gen_states, run, "client adopting every pair of server states, then every operation", 32),
]

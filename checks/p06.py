"""P06: concurrent pipelines and the pool never receive each other's traffic."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.core import Ctx, Scenario, expect, fail, same
from mc import wire
from mc.pools import PIDS, RPID, deliver, drain, events, inject, open_pair, reason

RULE = (
    "all interleavings of the scripts of up to three pipelines and the pool (both directions) with delivery steps and "
    "size limits; every event's source, content and order and every pipeline state is compared with the scripts"
)
ASSUMPTIONS = ["call ids of host calls are judged by P08"]
I = t.PSInvocationState

# operation -> (event class, state change, needs a running pipeline)
M = t.HostMethodIdentifier


def exc(m):
    return t.NETException(Message=m)


SRV: typing.Dict[str, typing.Tuple[typing.Callable, str, typing.Callable]] = {
    "out": (lambda p, x: p.write_output(x), "PipelineOutputEvent", lambda e: str(e.data)),
    "warn": (lambda p, x: p.write_warning(x), "WarningRecordEvent", lambda e: str(e.record.Message)),
    "verb": (lambda p, x: p.write_verbose(x), "VerboseRecordEvent", lambda e: str(e.record.Message)),
    "dbg": (lambda p, x: p.write_debug(x), "DebugRecordEvent", lambda e: str(e.record.Message)),
    "err": (lambda p, x: p.write_error(exc(x)), "ErrorRecordEvent", lambda e: str(e.record.Exception.Message)),
    "prog": (lambda p, x: p.write_progress(x, 1, "s"), "ProgressRecordEvent", lambda e: str(e.record.Activity)),
    "info": (lambda p, x: p.write_information(x, "src", computer="c", user="u"), "InformationRecordEvent",
             lambda e: str(e.record.MessageData)),
    "call": (lambda p, x: p.host_call(M.PromptForChoice, [x, "m", [], 0]), "PipelineHostCallEvent",
             lambda e: str(e.method_parameters[0])),
    "vcall": (lambda p, x: p.host_call(M.Write1, [x]), "PipelineHostCallEvent", lambda e: str(e.method_parameters[0])),
    "done": (lambda p, x: p.complete(), "PipelineStateEvent", lambda e: e.state.name),
    "stopping": (lambda p, x: p.begin_stop(), "PipelineStateEvent", lambda e: e.state.name),
    "stop": (lambda p, x: p.stop(), "PipelineStateEvent", lambda e: e.state.name),
}
STATE = {"done": I.Completed, "stopping": I.Stopping, "stop": I.Stopped}
CLI: typing.Dict[str, typing.Tuple[typing.Callable, str, typing.Callable]] = {
    "send": (lambda p, x: p.send(x), "PipelineInputEvent", lambda e: str(e.data)),
    "eof": (lambda p, x: p.send_eof(), "EndOfPipelineInputEvent", lambda e: ""),
}
POOL_S: typing.Dict[str, typing.Tuple[typing.Callable, str, typing.Callable]] = {
    "event": (lambda p, x: p.send_event(1, x, computer="c"), "UserEventEvent", lambda e: str(e.event.SourceIdentifier)),
    "pcall": (lambda p, x: p.host_call(M.PromptForChoice, [x, "m", [], 0]), "RunspacePoolHostCallEvent",
              lambda e: str(e.method_parameters[0])),
}
POOL_C: typing.Dict[str, typing.Tuple[typing.Callable, str, typing.Callable]] = {
    "avail": (lambda p, x: p.get_available_runspaces(), "GetAvailableRunspacesEvent", lambda e: ""),
    "reset": (lambda p, x: p.reset_runspace_state(), "ResetRunspaceStateEvent", lambda e: ""),
}
CONTENT = {v[1]: v[2] for d in (SRV, CLI, POOL_S, POOL_C) for v in d.values()}
CONTENT["RunspacePoolStateEvent"] = lambda e: e.state.name


PIDS = PIDS + [uuid.UUID(int=(i * 0x9E3779B97F4A7C15F39CC0605CEDC835) % (1 << 128)) for i in range(9, 1200)]


class World:
    def __init__(self, n: int, limit: typing.Optional[int], ctx: Ctx) -> None:
        self.ctx = ctx
        self.limit = limit
        self.c, self.s = open_pair()
        self.cp: typing.Dict[int, typing.Any] = {}
        self.sp: typing.Dict[int, typing.Any] = {}
        self.cstate: typing.Dict[int, typing.Any] = {}
        self.sstate: typing.Dict[int, typing.Any] = {}
        self.seq = 0
        # expected, not yet seen, per direction
        self.exp: typing.Dict[str, typing.List] = {"c": [], "s": []}
        self.fly: typing.Dict[str, typing.List] = {"c": [], "s": []}
        for i in range(n):
            self.begin(i)
            self.settle()

    def begin(self, i: int) -> None:
        cp = self.cp[i] = psrpcore.ClientPowerShell(self.c, pipeline_id=PIDS[i], no_input=False)
        cp.add_script("script %d" % i)
        sp = self.sp[i] = psrpcore.ServerPipeline(self.s, PIDS[i])
        cp.start()
        self.exp["s"].append(("CreatePipelineEvent", i, "script %d" % i, None))
        sp.start()
        self.exp["c"].append(("PipelineStateEvent", i, "Running", I.Running))
        self.cstate[i] = self.sstate[i] = I.Running

    def close(self, i: int) -> None:
        self.cp[i].close()
        self.sp[i].close()
        for d in (self.cp, self.sp, self.cstate, self.sstate):
            del d[i]

    def op(self, who: str, i: typing.Optional[int], name: str) -> None:
        self.seq += 1
        text = "%s%s-%s-%d" % (who, i, name, self.seq)
        self.ctx.step()
        if who == "W":
            # the connection is lost and made again; what waits to be sent is kept
            for p in (self.c, self.s):
                p.disconnect()
                p.reconnect()
            self.exp["c"].append(("RunspacePoolStateEvent", None, "Opened", None))
        elif who == "S" and i is None:
            fn, cls, _ = POOL_S[name]
            fn(self.s, text)
            self.exp["c"].append((cls, None, text, None))
        elif who == "C" and i is None:
            fn, cls, _ = POOL_C[name]
            fn(self.c, text)
            self.exp["s"].append((cls, None, "", None))
        elif who == "S":
            fn, cls, _ = SRV[name]
            st = self.sstate[i]
            ok = {"done": True, "stopping": st in (I.Running, I.Stopping),
                  "stop": st in (I.Running, I.Stopping, I.Stopped)}.get(name, st == I.Running)
            r, _ = reason(fn, self.sp[i], text)
            same(r, "ok" if ok else "InvalidPipelineState", "%s in state %s" % (name, st.name))
            if ok and not (name == "stop" and st == I.Stopped):
                new = STATE.get(name)
                self.exp["c"].append((cls, i, new.name if new else text, new))
                if new:
                    self.sstate[i] = new
        else:
            fn, cls, _ = CLI[name]
            ok = self.cstate[i] == I.Running
            r, _ = reason(fn, self.cp[i], text)
            same(r, "ok" if ok else "InvalidPipelineState", "%s in state %s" % (name, self.cstate[i].name))
            if ok:
                self.exp["s"].append((cls, i, text if name == "send" else "", None))
        self.states()

    def states(self) -> None:
        for i in self.cp:
            same(self.cp[i].state, self.cstate[i], "state of client pipeline %d" % i)
        for i in self.sp:
            same(self.sp[i].state, self.sstate[i], "state of server pipeline %d" % i)
        same(set(self.c.pipeline_table), {PIDS[i] for i in self.cp}, "client pipelines")
        same(set(self.s.pipeline_table), {PIDS[i] for i in self.sp}, "server pipelines")

    def seen(self, d: str, e: typing.Any) -> None:
        cls = type(e).__name__
        expect(self.exp[d], "event %s that nobody produced", cls)
        wcls, i, text, new = self.exp[d].pop(0)
        pid = None if i is None else PIDS[i]
        same((cls, e.pipeline_id), (wcls, pid), "event kind and source")
        same(e.runspace_pool_id, RPID, "pool id of the event")
        if cls == "CreatePipelineEvent":
            same(str(e.pipeline.commands[0].command_text), text, "pipeline definition")
            same(str(self.sp[i].metadata.commands[0].command_text), text, "pipeline definition stored")
        else:
            same(CONTENT[cls](e), text, "content of " + cls)
        if new is not None:
            self.cstate[i] = new
        self.states()
        self.ctx.step()

    def move(self, d: str) -> bool:
        """One payload to d and whatever events it completes."""
        src, dst = (self.s, self.c) if d == "c" else (self.c, self.s)
        p = src.data_to_send(self.limit)
        if p is None:
            return False
        dst.receive_data(p)
        while True:
            e = dst.next_event()
            if e is None:
                break
            same(p.pipeline_id, e.pipeline_id, "pipeline id of the payload")
            self.seen(d, e)
        return True

    def settle(self) -> None:
        for d in ("c", "s"):
            while self.move(d):
                pass
            expect(not self.exp[d], "events that never arrived: %s", self.exp[d][:3])

    def key(self) -> typing.Tuple:
        return (tuple((x.name for x in self.cstate.values())), tuple((x.name for x in self.sstate.values())),
                tuple((e[0], e[1]) for d in "cs" for e in self.exp[d]))


def merges(scripts: typing.Sequence[typing.Sequence]) -> typing.Iterator[typing.Tuple]:
    """All interleavings that keep each script's order."""
    if not any(scripts):
        yield ()
        return
    for k, sc in enumerate(scripts):
        if sc:
            rest = [s[1:] if j == k else s for j, s in enumerate(scripts)]
            for m in merges(rest):
                yield (sc[0],) + m


def script(who, i, *names):
    return [(who, i, n) for n in names]


SETS = {
    # server to client
    "s2": [script("S", 0, "out", "call", "done"), script("S", 1, "warn", "out", "stop"), script("S", None, "event", "pcall")],
    "s2b": [script("S", 0, "err", "prog", "stopping", "stop"), script("S", 1, "info", "dbg", "done")],
    "s3": [script("S", 0, "out", "done"), script("S", 1, "verb", "stop"), script("S", 2, "vcall", "done")],
    # client to server
    "c3": [script("C", 0, "send", "send", "eof"), script("C", 1, "send", "eof"), script("C", None, "avail", "reset")],
    # both
    "b2": [script("S", 0, "out", "done"), script("C", 0, "send", "eof"), script("S", 1, "out", "stop"), script("C", 1, "send")],
    "b1": [script("S", 0, "call", "done"), script("C", 1, "send", "send"), script("S", 1, "out", "done")],
    "r2": [script("S", 0, "call", "out", "done"), script("C", 1, "send"), script("S", 1, "out"), script("W", None, "lost")],
}
THOROUGH = {
    "s3x": [script("S", 0, "out", "warn", "done"), script("S", 1, "verb", "err", "stop"), script("S", 2, "vcall", "done"),
            script("S", None, "event")],
    "b3": [script("S", 0, "out", "done"), script("C", 0, "send", "eof"), script("S", 1, "out", "stop"),
           script("C", 1, "send", "eof"), script("S", None, "event")],
}


def gen(tier: str):
    sets = dict(SETS)
    if tier != "quick":
        sets.update(THOROUGH)
    for name, scripts in sets.items():
        n = sum(len(s) for s in scripts)
        for m in merges(scripts):
            masks: typing.Iterable[int]
            full = (1 << n) - 1
            if tier == "quick":
                masks = [0, full] + [1 << i for i in range(n - 1)] if n <= 6 else [0, full, full & 0x2A, 1 << (n // 2)]
            else:
                masks = range(1 << n) if n <= 6 else [0, full] + [1 << i for i in range(n)] + [full ^ (1 << i) for i in range(n)]
            for mask in masks:
                # 1: deliver one payload each way after the step
                for lim in ((None,) if mask not in (0, full) else (None, 400)):
                    yield (m, mask, lim)


def pipes(m) -> int:
    return 1 + max((i for _, i, _ in m if i is not None), default=-1)


def run(case, ctx: Ctx) -> None:
    m, mask, lim = case
    w = World(pipes(m), lim, ctx)
    for k, (who, i, name) in enumerate(m):
        w.op(who, i, name)
        if mask >> k & 1:
            w.move("c")
            w.move("s")
        ctx.state(w.key())
    w.settle()
    ctx.outcome(w.key())


# ------------------------------------------------ pipelines coming and going beside a running one
LIFE = ["begin0", "done0", "close0", "out0", "out1", "send1", "send0", "mc", "ms", "settle"]


def gen_life(tier: str):
    n = 5 if tier == "quick" else 6
    for k in range(n if tier == "quick" else 1, n + 1):
        for seq in itertools.product(range(len(LIFE)), repeat=k):
            # model based pruning: only sequences whose operations are possible
            st = "none"
            ok = True
            for a in seq:
                o = LIFE[a]
                if o == "begin0":
                    ok = st == "none"
                    st = "run"
                elif o == "done0":
                    ok = st == "run"
                    st = "done"
                elif o == "close0":
                    ok = st in ("none-x", "closable")
                    st = "none"
                elif o in ("out0", "send0"):
                    ok = st in ("run", "done", "closable")
                elif o == "settle":
                    st = "closable" if st == "done" else st
                if not ok:
                    break
            if ok and "begin0" in [LIFE[a] for a in seq]:
                yield seq


def run_life(case, ctx: Ctx) -> None:
    w = World(0, None, ctx)
    w.begin(1)
    w.settle()
    for a in case:
        o = LIFE[a]
        if o == "begin0":
            w.begin(0)
        elif o == "done0":
            w.op("S", 0, "done")
        elif o == "close0":
            w.close(0)
        elif o in ("out0", "out1"):
            w.op("S", int(o[3]), "out")
        elif o in ("send0", "send1"):
            w.op("C", int(o[4]), "send")
        elif o in ("mc", "ms"):
            w.move(o[1])
        else:
            w.settle()
        w.states()
        ctx.state(w.key(), o)
    w.settle()
    ctx.outcome(w.key())


# ------------------------------------------------------------ what concerns one pipeline leaves all else alone
KINDS: typing.Dict[str, typing.Callable] = {
    "plain": lambda c, p: psrpcore.ClientPowerShell(c, pipeline_id=p),
    "nested": lambda c, p: psrpcore.ClientPowerShell(c, pipeline_id=p, is_nested=True),
    "input": lambda c, p: psrpcore.ClientPowerShell(c, pipeline_id=p, no_input=False, add_to_history=True, history="h"),
    "meta": lambda c, p: psrpcore.ClientGetCommandMetadata(c, "*", pipeline_id=p),
}
STATES = ["NotStarted", "Running", "Stopping", "Stopped", "Completed", "Failed", "Disconnected"]
TO_CLIENT = ["state" + x for x in STATES] + ["stateErr", "out", "outnull", "warn", "verb", "dbg", "err", "prog", "info", "call", "vcall"]
TO_SERVER = ["create", "createnested", "meta", "input", "eof", "answer"]


def pstate(i: int, error: str = "") -> bytes:
    return ('<Obj RefId="0"><MS><I32 N="PipelineState">%d</I32>%s</MS></Obj>' % (i, error)).encode()


def gen_alone(tier: str):
    for ka, kb in itertools.product(KINDS, repeat=2):
        for sa, sb in itertools.product(STATES, repeat=2):
            if tier == "quick" and sa in ("Disconnected", "Stopping") and sb != "Running":
                continue
            yield ("c", ka, kb, sa, sb)
    for ka, kb in itertools.product(KINDS, repeat=2):
        for sa, sb in itertools.product(STATES[:5], repeat=2):
            yield ("s", ka, kb, sa, sb)


def snap(pool, pipes) -> typing.Tuple:
    return tuple(
        (p.pipeline_id, p.state.name, type(p.metadata).__name__, repr(sorted((k, repr(v)) for k, v in vars(p.metadata).items()))
         if p.metadata is not None else None, pool.pipeline_table.get(p.pipeline_id) is p)
        for p in pipes
    )


def pool_snap(pool) -> typing.Tuple:
    return (pool.state.name, pool.min_runspaces, pool.max_runspaces, pool.runspace_pool_id, list(pool.pipeline_table),
            repr(pool.application_private_data), repr(pool.application_arguments))


def run_alone(case, ctx: Ctx) -> None:
    side, ka, kb, sa, sb = case
    oid = itertools.count(100)
    c, s = open_pair()
    cps, sps = [], []
    # what waits in the table around the two: another one, never touched
    for i, k in enumerate((ka, kb, "nested", "plain")):
        cp = KINDS[k](c, PIDS[i])
        if k != "meta":
            cp.add_script("script %d" % i)
        sp = psrpcore.ServerPipeline(s, PIDS[i])
        cps.append(cp)
        sps.append(sp)
        st = (sa, sb, "Running", "Running")[i]
        if st != "NotStarted":
            cp.start()
            deliver(c, s)
            if side == "s":
                sp.start()
                if st == "Stopping":
                    sp.begin_stop()
                elif st == "Stopped":
                    sp.stop()
                elif st == "Completed":
                    sp.complete()
            deliver(s, c)
            if side == "c":
                inject(c, False, "PipelineState", pstate(I[st].value), PIDS[i], next(oid))
                events(c)
        same((cp if side == "c" else sp).state.name, st, "state of the pipeline that was set up")
    pool, pipes = (c, cps) if side == "c" else (s, sps)
    others = pipes[1:]
    before, pb = snap(pool, others), pool_snap(pool)

    def check(what: str) -> None:
        ctx.step()
        same(snap(pool, others), before, "the other pipelines after %s for one" % what)
        same(pool_snap(pool), pb, "the pool after %s for a pipeline" % what)
        ctx.state(case, what)

    rec = '<Obj RefId="0"><TN RefId="0"><T>System.Management.Automation.%s</T></TN><ToString>x</ToString><MS><S N="InformationalRecord_Message">x</S><B N="InformationalRecord_SerializeInvocationInfo">false</B></MS></Obj>'
    msgs: typing.List[typing.Tuple[str, str, bytes]] = []
    if side == "c":
        t_s = psrpcore.ServerRunspacePool()
        t_p = psrpcore.ServerPipeline(t_s, PIDS[0])
        t_p.start()
        t_p.stop()
        full = wire.msg(wire.frags(b"".join(p.data for p in drain(t_s)))[1].data).data
        same(full.count(b'N="PipelineState">3<'), 1, "state in the state message")
        error = full.replace(b"%", b"%%").replace(b'N="PipelineState">3<', b'N="PipelineState">%d<')
        for x in STATES:
            msgs.append(("state " + x, "PipelineState", pstate(I[x].value)))
            msgs.append(("state with an error " + x, "PipelineState", error % I[x].value))
        msgs += [("output", "PipelineOutput", b"<S>x</S>"), ("null output", "PipelineOutput", b"")]
        for r in ("Warning", "Verbose", "Debug"):
            msgs.append((r, r + "Record", (rec % (r + "Record")).encode()))
        for n, m in ((7, "ReadLine"), (-100, "WriteLine1")):
            msgs.append(("call", "PipelineHostCall", (
                '<Obj RefId="0"><MS><I64 N="ci">%d</I64><Obj N="mi" RefId="1"><TN RefId="0"><T>System.Management.Automation.Remoting.RemoteHostMethodId</T>'
                '<T>System.Enum</T></TN><ToString>x</ToString><I32>%d</I32></Obj><Obj N="mp" RefId="2"><LST /></Obj></MS></Obj>' % (n, M[m].value)).encode()))
    else:
        msgs += [("input", "PipelineInput", b"<S>x</S>"), ("end of input", "EndOfPipelineInput", b"")]
        src = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        for k in KINDS:
            cp = KINDS[k](src, PIDS[0])
            if k != "meta":
                cp.add_script("again")
            cp.start()
            b = b"".join(p.data for p in drain(src))
            m = wire.msg(wire.frags(b)[0].data)
            msgs.append(("create " + k, m.type, m.data))
        msgs.append(("answer", "PipelineHostResponse", (
            '<Obj RefId="0"><MS><I64 N="ci">7</I64><Obj N="mi" RefId="1"><TN RefId="0"><T>System.Management.Automation.Remoting.RemoteHostMethodId</T>'
            '<T>System.Enum</T></TN><ToString>x</ToString><I32>%d</I32></Obj><S N="mr">x</S></MS></Obj>' % M.ReadLine.value).encode()))
    me = pipes[0]
    for what, typ, body in msgs:
        inject(pool, side == "s", typ, body, PIDS[0], next(oid))
        ev = events(pool)
        same([(e.message_type.name, e.pipeline_id) for e in ev], [(typ, PIDS[0])], "event")
        if typ == "PipelineState":
            same(me.state.name, what.split()[-1], "state of the pipeline the message is for")
        check(what)
    # what the pipeline's owner does
    calls = (("begin_stop", "send", "send_eof", "close", "start", "host_response") if side == "c"
             else ("begin_stop", "stop", "complete", "start", "stop", "write_output", "close", "host_call"))
    drain(pool)
    for name in calls:
        args = {"send": ("x",), "write_output": ("x",), "host_response": (7, "x"), "host_call": (M.ReadLine, [])}.get(name, ())
        reason(getattr(me, name), *args)
        for p in drain(pool):
            same(p.pipeline_id, PIDS[0], "target of what %s sends" % name)
        if name in ("close", "start"):
            pool.pipeline_table[PIDS[0]] = me
            pb = pool_snap(pool)
        check(name)
    ctx.outcome(side, sa, sb)


# ------------------------------------------------------------ many pipelines at once
MANY_S = ["out", "warn", "verb", "dbg", "err", "prog", "info", "call", "vcall"]


def gen_many(tier: str):
    for n in (9, 17, 33, 65, 130, 260) + ((520, 1030) if tier == "thorough" else ()):
        for lim in (None, 700):
            for how in ("all", "stride", "reverse", "reuse"):
                yield (n, lim, how)


def run_many(case, ctx: Ctx) -> None:
    """n pipelines at the same time: everything they do, in different orders, while every third ends and is closed."""
    n, lim, how = case
    w = World(0, lim, ctx)
    if how == "reuse":
        # one after another under new ids beside a first one that stays
        w.begin(0)
        w.settle()
        for i in range(1, n):
            w.begin(i)
            w.op("S", i, MANY_S[i % 9])
            w.op("C", i, "send")
            w.op("S", 0, "out")
            w.settle()
            w.op("S", i, "stop" if i % 2 else "done")
            w.op("S", 0, "warn")
            w.settle()
            if i % 3:
                w.close(i)
            w.states() if i % 16 == 0 else None
            ctx.state(case, i)
        w.op("C", 0, "send")
        w.settle()
        ctx.outcome(case)
        return
    order = list(range(n))
    if how == "stride":
        k = 7
        while n % k == 0:
            k += 2
        order = [i * k % n for i in range(n)]
    elif how == "reverse":
        order.reverse()
    st = World.states
    quiet = lambda self: None
    try:
        World.states = quiet  # type: ignore[method-assign]
        for i in range(n):
            w.begin(i)
        w.settle()
        st(w)
        for k, i in enumerate(order):
            w.op("S", i, MANY_S[k % 9])
            w.op("C", i, "send" if k % 5 else "eof")
            if k % 11 == 0:
                w.op("S", None, "event")
                w.op("C", None, "avail")
        w.settle()
        st(w)
        for k, i in enumerate(order):
            if k % 3 == 0:
                w.op("S", i, "stop" if k % 2 else "done")
            w.op("S", order[-1 - k], "out")
        w.settle()
        st(w)
        for k, i in enumerate(order):
            if k % 6 == 0:
                w.close(i)
        st(w)
        w.op("W", None, "lost")
        for k, i in enumerate(order):
            if i in w.sp:
                w.op("S", i, "call")
            if i in w.cp:
                w.op("C", i, "send")
            if k % 16 == 0:
                w.move("c")
                w.move("s")
        w.settle()
        st(w)
    finally:
        World.states = st  # type: ignore[method-assign]
    ctx.state(case)
    ctx.outcome(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "9..260 (1030) pipelines at the same time, or one after another beside a first one, in 4 orders and 2 size limits", 1, timeout=300.0),
    Scenario("interleave", gen, run, "all merges of 6 script sets (2-3 pipelines and the pool, 5-8 operations), delivery after none, every or single steps; thorough: 2 more sets and all delivery masks", 32),
    Scenario("life", gen_life, run_life, "all possible sequences of 5 (thorough 6) of starting, finishing, closing and restarting a pipeline under the same id beside a running one, traffic and deliveries", 64),
    Scenario("alone", gen_alone, run_alone, "all pairs of 4 pipeline kinds x all pairs of states (7 at the client, 5 at the server), every kind of message and every call for one of them beside three others", 8),
]

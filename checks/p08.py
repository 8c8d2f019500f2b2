"""P08: each host call is answered at most once and reaches its own caller."""
import itertools
import typing

import psrpcore
from psrpcore import types as t

from mc.canon import canon
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, RPID, deliver, drain, events, inject, open_pair, reason, start_pair

RULE = (
    "all lists of up to three calls (pool, two pipelines; void and non-void) x all answer orders x answer kinds x "
    "delivery points, and all possible sequences of calls, deliveries and answers up to a depth; after every step all "
    "wrong answers (unknown, used, no-answer ids, values that cannot be sent) are tried; ids, methods, callers and "
    "values are compared with a reference model"
)
ASSUMPTIONS = ["argument and result encoding of the individual methods is judged by P09"]
MI = t.HostMethodIdentifier
# MS-PSRP 2.2.6: methods without a return value
VOID = set(
    "SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication Write1 Write2 WriteLine1 "
    "WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine SetForegroundColor "
    "SetBackgroundColor SetCursorPosition SetWindowPosition SetCursorSize SetBufferSize SetWindowSize SetWindowTitle "
    "FlushInputBuffer SetBufferContents1 SetBufferContents2 ScrollBufferContents PushRunspace PopRunspace".split()
)
METH = {"r": (MI.ReadLine, []), "n": (MI.GetName, []), "v": (MI.Write1, ["x"])}
ANS = ["value", "error", "both", "none"]


class Opaque:
    """Cannot be serialized: reading it fails."""

    @property
    def boom(self) -> None:
        raise ValueError("cannot be read")


def err(text: str):
    return t.ErrorRecord(
        Exception=t.NETException(Message=text), CategoryInfo=t.ErrorCategoryInfo(), FullyQualifiedErrorId="id " + text
    )


class World:
    def __init__(self, ctx: Ctx, pipes: int = 2, probe: bool = True) -> None:
        self.ctx = ctx
        self.probe = probe
        self.c, self.s = open_pair()
        self.pairs = [start_pair(self.c, self.s, PIDS[i]) for i in range(pipes)]
        self.calls: typing.List[typing.Tuple[int, typing.Optional[int], str]] = []
        self.fly_c: typing.List[typing.Optional[int]] = []
        self.open: typing.List[int] = []
        self.fly_s: typing.List[typing.Tuple[int, typing.Any, typing.Any]] = []
        self.used: typing.List[int] = []
        self.ids: typing.Dict[int, int] = {}  # ci -> index in calls
        self.n = 0

    def call(self, src: typing.Optional[int], m: str) -> None:
        who = self.s if src is None else self.pairs[src][1]
        ci = who.host_call(*METH[m])
        if METH[m][0].name in VOID:
            same(int(ci), -100, "call id of a call without an answer")
        else:
            expect(int(ci) != -100 and int(ci) not in self.ids, "call id %s is not new", ci)
            self.ids[int(ci)] = len(self.calls)
        self.calls.append((int(ci), src, m))
        self.fly_c.append(len(self.calls) - 1)
        self.ctx.step()

    def to_client(self) -> None:
        ev = deliver(self.s, self.c)
        same(len(ev), len(self.fly_c), "calls that reach the client")
        for e, k in zip(ev, self.fly_c):
            if k is None:
                same((type(e).__name__, e.state.name), ("RunspacePoolStateEvent", "Opened"), "state after the reconnection")
                continue
            ci, src, m = self.calls[k]
            same(
                (type(e).__name__, int(e.ci), e.pipeline_id, e.method_identifier.name),
                ("RunspacePoolHostCallEvent" if src is None else "PipelineHostCallEvent", ci,
                 None if src is None else PIDS[src], METH[m][0].name),
                "call at the client",
            )
            if ci != -100:
                self.open.append(ci)
        self.fly_c = []
        self.ctx.step()

    def reconnect(self) -> None:
        """The connection is lost and made again; calls in progress go on."""
        for p in (self.c, self.s):
            p.disconnect()
        for who in [self.s] + [p[1] for p in self.pairs]:
            n, _ = reason(who.host_call, *METH["r"])
            same(n, "InvalidRunspacePoolState", "a call while disconnected")
        for ci in self.open:
            n, _ = reason(self.c.host_response, ci, "x")
            same(n, "InvalidRunspacePoolState", "an answer while disconnected")
        for p in (self.c, self.s):
            p.reconnect()
        self.fly_c.append(None)
        self.ctx.step()

    def answer(self, ci: int, how: str, via: str) -> None:
        _, src, m = self.calls[self.ids[ci]]
        who = self.c if via == "pool" or src is None else self.pairs[src][0]
        self.n += 1
        v = "answer %d" % self.n if how in ("value", "both") else None
        e = err("err %d" % self.n) if how in ("error", "both") else None
        who.host_response(ci, v, e)
        self.open.remove(ci)
        self.used.append(ci)
        self.fly_s.append((ci, v, e))
        self.ctx.step()

    def to_server(self) -> None:
        ev = deliver(self.c, self.s)
        same(len(ev), len(self.fly_s), "answers that reach the server")
        for e, (ci, v, er) in zip(ev, self.fly_s):
            _, src, m = self.calls[self.ids[ci]]
            same(
                (type(e).__name__, int(e.ci), e.pipeline_id, e.method_identifier.name),
                ("RunspacePoolHostResponseEvent" if src is None else "PipelineHostResponseEvent", ci,
                 None if src is None else PIDS[src], METH[m][0].name),
                "answer at the server",
            )
            same(canon(e.result), canon(v), "result")
            if er is None:
                same(e.error, None, "error")
            else:
                expect(e.error is not None, "the error did not arrive")
                same((str(e.error.Exception.Message), str(e.error.FullyQualifiedErrorId)),
                     (str(er.Exception.Message), str(er.FullyQualifiedErrorId)), "error")
        self.fly_s = []
        self.ctx.step()

    def wrong(self) -> None:
        if not self.probe:
            return
        bad = [0, -100, -1, 999, *self.used, *(self.calls[k][0] for k in self.fly_c if k is not None)]
        for ci in bad:
            for who in [self.c] + [p[0] for p in self.pairs]:
                for args in (("x",), (None, err("e")), ()):
                    n, _ = reason(who.host_response, ci, *args)
                    expect(n != "ok", "answering call id %s is accepted", ci)
        for ci in self.open:
            n, _ = reason(self.c.host_response, ci, Opaque())
            expect(n != "ok", "a value that cannot be sent is accepted")
            n, _ = reason(self.c.host_response, ci, t.PSSecureString("s"))
            same(n, "MissingCipherError", "secure string before the key exchange")
        same([p.data for p in drain(self.c)], [], "data sent by refused answers") if not self.fly_s else None
        self.ctx.step()

    def key(self):
        f = lambda ids: tuple((self.calls[self.ids[c]][1:]) for c in ids)
        return (tuple(k if k is None else self.calls[k][1:] for k in self.fly_c), f(self.open), f([a[0] for a in self.fly_s]), f(self.used))

    def finish(self) -> None:
        self.to_client()
        self.wrong()
        for ci in list(self.open):
            self.answer(ci, "value", "pool")
        self.to_server()
        self.wrong()
        same(self.c.data_to_send(), None, "client data left")
        same(self.s.data_to_send(), None, "server data left")


SRC = [(None, "r"), (0, "r"), (1, "n"), (None, "v"), (0, "v")]


def gen_sets(tier: str):
    for n in (1, 2, 3):
        for calls in itertools.product(range(len(SRC)), repeat=n):
            k = sum(SRC[i][1] != "v" for i in calls)
            for order in itertools.permutations(range(k)):
                hows = itertools.product(ANS, repeat=k) if k < 3 or tier != "quick" else (
                    tuple(ANS[(j * a + b) % 4] for j in range(3)) for a in (0, 1) for b in range(4))
                for how in hows:
                    for mask in (0, 7):
                        yield (calls, order, how, mask)


def run_sets(case, ctx: Ctx) -> None:
    calls, order, how, mask = case
    w = World(ctx, probe=mask == 0)
    for i, k in enumerate(calls):
        w.call(*SRC[k])
        if mask:
            w.to_client()
    w.to_client()
    ids = list(w.open)
    w.wrong()
    for j, i in enumerate(order):
        w.answer(ids[i], how[i], "pool" if (i + j) % 2 else "own")
        ctx.state(w.key(), how)
        if mask:
            w.to_server()
    w.to_server()
    w.wrong()
    w.finish()
    ctx.outcome(w.key(), how)


OPS = ["cP", "c0", "c1", "cv", "dc", "ds", "a0", "al", "e0", "R"]


def gen_seq(tier: str):
    depth = 6 if tier == "quick" else 8

    def rec(seq, fly, opn, ans):
        if len(seq) == depth:
            yield tuple(seq)
            return
        for o in OPS:
            if tier == "quick" and o in ("cv", "e0"):
                continue
            if o == "R" and ("R" in seq or not seq):
                continue
            if o == "dc" and not fly or o == "ds" and not ans:
                continue
            if o in ("a0", "al", "e0") and not opn or o == "al" and opn < 2:
                continue
            if o[0] == "c" and fly + opn + ans >= 3:
                continue
            f, p, a = fly, opn, ans
            if o == "dc":
                f, p = 0, opn + fly
            elif o == "ds":
                a = 0
            elif o[0] in "ae":
                p, a = opn - 1, ans + 1
            elif o == "R":
                pass
            elif o != "cv":
                f += 1
            elif seq and seq[-1] == "cv":
                continue
            seq.append(o)
            yield from rec(seq, f, p, a)
            seq.pop()

    return rec([], 0, 0, 0)


def run_seq(case, ctx: Ctx) -> None:
    w = World(ctx, probe=False)
    for o in case:
        if o == "R":
            w.reconnect()
        elif o == "dc":
            w.to_client()
        elif o == "ds":
            w.to_server()
        elif o[0] in "ae":
            w.answer(w.open[-1 if o[1] == "l" else 0], "error" if o[0] == "e" else "value", "own")
        else:
            w.call(*{"cP": (None, "r"), "c0": (0, "r"), "c1": (1, "n"), "cv": (1, "v")}[o])
        ctx.state(w.key())
    w.probe = True
    w.finish()
    ctx.outcome(w.key())


def gen_methods(tier: str):
    for m in MI:
        for src in (None, 0):
            for how in ("value", "error", "none"):
                yield (m.name, src, how)


def run_methods(case, ctx: Ctx) -> None:
    name, src, how = case
    m = MI[name]
    same(bool(m.is_void()), name in VOID, "is_void of " + name)
    w = World(ctx, pipes=1)
    who = w.s if src is None else w.pairs[0][1]
    ci = int(who.host_call(m, []))
    expect((ci == -100) == (name in VOID), "call id %s of %s", ci, name)
    ev = deliver(w.s, w.c)
    same([(type(e).__name__, int(e.ci), e.method_identifier.name, e.pipeline_id) for e in ev],
         [("RunspacePoolHostCallEvent" if src is None else "PipelineHostCallEvent", ci, name, None if src is None else PIDS[0])], "call")
    ctx.step(2)
    args = {"value": (), "error": (None, err("e")), "none": ()}[how]
    if name in VOID:
        n, _ = reason(w.c.host_response, ci, *args)
        expect(n != "ok", "a call without an answer can be answered")
        same(w.c.data_to_send(), None, "data")
    else:
        w.c.host_response(ci, *args)
        n, _ = reason(w.c.host_response, ci, *args)
        expect(n != "ok", "a call can be answered twice")
        ev = deliver(w.c, w.s)
        same([(type(e).__name__, int(e.ci), e.method_identifier.name, e.pipeline_id) for e in ev],
             [("RunspacePoolHostResponseEvent" if src is None else "PipelineHostResponseEvent", ci, name,
               None if src is None else PIDS[0])], "answer")
    ctx.state(case)
    ctx.outcome(name, src)


def gen_foreign(tier: str):
    ids = [0, 1, 2, 99, 100, 2**31 - 1, 2**31, 2**63 - 1]
    for a in ids:
        for b in ids:
            if a != b:
                for src in ("pool", "pipe"):
                    for order in ((0, 1), (1, 0)):
                        for how in ANS:
                            yield (a, b, src, order, how)


def run_foreign(case, ctx: Ctx) -> None:
    """The server numbers its calls as it likes; -100 is that of the calls without an answer."""
    a, b, src, order, how = case
    w = World(ctx, pipes=1)
    pid = None if src == "pool" else PIDS[0]
    for ci, m in ((a, "ReadLine"), (-100, "Write1"), (b, "GetName")):
        body = (
            '<Obj RefId="0"><MS><I64 N="ci">%d</I64><Obj N="mi" RefId="1"><TN RefId="0"><T>System.Management.Automation.Remoting.RemoteHostMethodId</T>'
            "<T>System.Enum</T></TN><ToString>%s</ToString><I32>%d</I32></Obj>"
            '<Obj N="mp" RefId="2"><TN RefId="1"><T>System.Collections.ArrayList</T></TN><LST>%s</LST></Obj></MS></Obj>'
        ) % (ci, m, int(MI[m]), "<S>x</S>" if m == "Write1" else "")
        inject(w.c, False, "RunspacePoolHostCall" if pid is None else "PipelineHostCall", body.encode(), pid)
    ev = events(w.c)
    same([(int(e.ci), e.method_identifier.name, e.pipeline_id) for e in ev],
         [(a, "ReadLine", pid), (-100, "Write1", pid), (b, "GetName", pid)], "calls")
    expect(reason(w.c.host_response, -100, "x")[0] != "ok", "a call without an answer can be answered")
    who = w.c if pid is None else w.pairs[0][0]
    for i in order:
        ci = (a, b)[i]
        who.host_response(ci, *{"value": ("x",), "error": (None, err("e")), "both": ("x", err("e")), "none": ()}[how])
        expect(reason(who.host_response, ci, "x")[0] != "ok", "a call can be answered twice")
        ev = deliver(w.c, w.s)
        same([(type(e).__name__, int(e.ci), e.method_identifier.name, e.pipeline_id) for e in ev],
             [("RunspacePoolHostResponseEvent" if pid is None else "PipelineHostResponseEvent", ci, ("ReadLine", "GetName")[i], pid)], "answer")
        ctx.step()
    ctx.state(case)
    ctx.outcome(src, how)


def gen_many(tier: str):
    for n in (3, 10, 40, 100, 130, 260) + ((600, 1100) if tier == "thorough" else ()):
        for order in ("fifo", "lifo", "odd-even", "one by one", "two behind"):
            for mix in (((None, "r"),), ((0, "n"),), ((None, "r"), (0, "v"), (0, "r"), (1, "n"), (None, "v"))):
                yield (n, order, mix)
    yield (70000 if tier == "thorough" else 33000, "one by one", ((None, "r"), (0, "n")))


def run_many(case, ctx: Ctx) -> None:
    """Any number of calls, one after another or waiting for an answer at the same time."""
    n, order, mix = case
    w = World(ctx, probe=False)
    lag = {"one by one": 1, "two behind": 3}.get(order, n + 1)
    for i in range(n):
        w.call(*mix[i % len(mix)])
        if lag <= n:
            w.to_client()
            while len(w.open) >= lag:
                ci = w.open[0]
                w.answer(ci, ANS[i // 7 % 2], "own" if i % 2 else "pool")
                w.to_server()
                if i % 50 == 0:
                    for who in (w.c, w.pairs[0][0]):
                        expect(reason(who.host_response, ci, "x")[0] != "ok", "answering call id %d again is accepted", ci)
        if i % 64 == 0:
            ctx.state(i, order, mix)
    w.to_client()
    todo = list(w.open)
    if order == "lifo":
        todo.reverse()
    elif order == "odd-even":
        todo = todo[1::2] + todo[::2]
    for j, ci in enumerate(todo):
        w.answer(ci, ANS[j % 4], "own" if j % 3 else "pool")
        if j % 7 == 0:
            w.to_server()
    w.to_server()
    if n < 200:
        w.probe = True
    w.finish()
    ctx.outcome(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "3..260 (1100) calls of 3 mixes answered in 5 orders, and 33000 (70000) one after another", 1, timeout=300.0),
    Scenario("sets", gen_sets, run_sets, "all lists of 1-3 calls over 5 caller/kind pairs x answer orders x value/error/both/none x delivery points", 32),
    Scenario("sequences", gen_seq, run_seq, "all possible sequences of 6 (thorough 8) calls, deliveries, answers and a reconnection, at most 3 outstanding", 64),
    Scenario("foreign", gen_foreign, run_foreign, "all pairs of 8 call ids of another server x pool/pipeline x both orders of answering x answer kinds", 32),
    Scenario("methods", gen_methods, run_methods, "all host methods from pool and pipeline", 16),
]

"""P21: a call that fails leaves the pool and its peers' view untouched."""
import datetime
import itertools
import re
import typing

import psrpcore
from psrpcore import types as t

from checks.p08 import Opaque
from mc import wire
from mc.canon import canon
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import D, PIDS, RPID, drain, events, reason

RULE = (
    "a client and a server with four pipelines run all sequences of operations up to the stated depth; at the end (and, for calls that fail in every state, after every step) each call of "
    "the alphabet of failing calls is inserted; then a long fixed sequence of operations exercises everything.  Every return value, exception, state, count, message and event of "
    "the run is compared with the run of the same operations without the failing call"
)
ASSUMPTIONS = [
    "a failing call may use up a call id: runs are compared up to a renaming of call ids; fragment object ids are not compared",
    "values that cannot be sent are objects whose attributes cannot be read; keys and encrypted content are random and compared after decryption",
    "opening or connecting a pool whose arguments cannot be serialized is not covered (the pool is not open)",
    "a call that fails because of what the peer sent (next_event) is judged by P02",
]
MI = t.HostMethodIdentifier
NOW = datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)
RP, PI = t.RunspacePoolState, t.PSInvocationState


def secret() -> typing.Any:
    return t.PSSecureString("secret")


def bad_error() -> typing.Any:
    return t.ErrorRecord(Exception=t.NETException(Message="m"), CategoryInfo=t.ErrorCategoryInfo(), TargetObject=Opaque())


class W:
    """Both peers, four pipelines; writes down everything that can be observed."""

    def __init__(self, version: str = "2.3") -> None:
        self.log: typing.List[typing.Any] = []
        self.map: typing.Dict[typing.Tuple[str, int], int] = {}
        self.c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, application_arguments={"a": 1})
        self.s = psrpcore.ServerRunspacePool(application_private_data={"b": 2})
        if version != "2.3":
            self.c.our_capability.protocolversion = t.PSVersion(version)
            self.s.our_capability.protocolversion = t.PSVersion(version)
        self.cp: typing.List[typing.Any] = []
        self.sp: typing.List[typing.Any] = []
        self.reqs: typing.List[typing.Tuple[str, int]] = []
        self.calls: typing.Dict[typing.Any, typing.List[int]] = {}
        self.n = 0
        self.c.open()
        self.settle()
        for i in range(4):
            p = psrpcore.ClientPowerShell(self.c, pipeline_id=PIDS[i], no_input=False)
            if i != 3:
                p.add_script("s%d" % i)
            if i == 2:
                p.add_argument(Opaque())
            self.cp.append(p)
            if i < 3:
                self.sp.append(psrpcore.ServerPipeline(self.s, PIDS[i]))
        for i in range(2):
            self.cp[i].start()
            self.settle()
            self.sp[i].start()
        self.settle()
        self.obs()

    # -------------------------------------------------- observations
    def ci(self, space: str, v: typing.Any) -> typing.Any:
        if v is None or int(v) == -100:
            return v
        return self.map.setdefault((space, int(v)), len(self.map))

    def body(self, typ: str, b: bytes) -> typing.Any:
        if typ in ("PublicKey", "EncryptedSessionKey"):
            return None
        x = b.decode("utf-8")
        space = "h" if "Host" in typ else "r"
        x = re.sub(r'(N="ci">)(-?\d+)<', lambda m: "%s#%s<" % (m.group(1), self.ci(space, int(m.group(2)))), x)
        return re.sub(r"(<SS[^>]*>)[^<]*", r"\1", x)

    def obs(self) -> None:
        c, s = self.c, self.s
        self.log.append((
            "obs", c.state, s.state, c.min_runspaces, c.max_runspaces, s.min_runspaces, s.max_runspaces, sorted(map(str, c.pipeline_table)), sorted(map(str, s.pipeline_table)),
            [p.state for p in self.cp], [p.state for p in self.sp],
        ))

    def event(self, side: str, e: typing.Any) -> None:
        d = {}
        name = type(e).__name__
        for k in dir(type(e)):
            if k.startswith("_") or not isinstance(getattr(type(e), k), property):
                continue
            v = getattr(e, k)
            if k == "ci":
                v = self.ci("h" if "Host" in name else "r", v)
            elif k == "key":
                v = None
            elif k == "pipeline":
                v = [(x.command_text, [(a.name if hasattr(a, "name") else a[0]) for a in x.parameters]) for x in getattr(v, "commands", [])]
            else:
                v = canon(v)
            d[k] = v
        self.log.append((side, name, str(e.pipeline_id), sorted(d.items(), key=lambda x: x[0])))
        if name == "RunspacePoolHostCallEvent":
            self.calls.setdefault(None, []).append(int(e.ci))
        elif name == "PipelineHostCallEvent":
            self.calls.setdefault(PIDS.index(e.pipeline_id), []).append(int(e.ci))
        elif name in ("GetAvailableRunspacesEvent", "SetMaxRunspacesEvent", "SetMinRunspacesEvent", "ResetRunspaceStateEvent"):
            self.reqs.append((name, int(e.ci)))

    def settle(self) -> None:
        for _ in range(6):
            moved = False
            for side, a, b in (("s", self.c, self.s), ("c", self.s, self.c)):
                ps = drain(a)
                moved = moved or bool(ps)
                re_ = wire.Reassembler()
                for p in ps:
                    n = len(re_.done)
                    re_.feed(p.data)
                    for _, blob in re_.done[n:]:
                        m = wire.msg(blob)
                        self.log.append(("msg", side, m.type, str(m.pid), str(p.pipeline_id), p.stream_type.name, self.body(m.type, m.data)))
                    b.receive_data(p)
                while True:
                    k, e = reason(b.next_event)
                    if k != "ok":
                        self.log.append((side, "error", k))
                        continue
                    if e is None:
                        break
                    self.event(side, e)
            if not moved:
                return
        fail("the peers do not come to rest")

    # -------------------------------------------------- operations
    def do(self, name: str) -> None:
        self.n += 1
        k, r = reason(OPS[name], self)
        if k == "ok":
            r = None if r is None else self.ci("h" if "call" in name else "r", r) if isinstance(r, int) else r
        else:
            r = None
        self.log.append((name, k, r))
        self.obs()

    def answer(self, ok: bool = True) -> None:
        if self.reqs:
            name, ci = self.reqs.pop(0)
            self.s.runspace_availability_response(ci, 3 if name.startswith("GetA") else ok)

    def respond(self, who: typing.Any) -> None:
        if self.calls.get(who):
            ci = self.calls[who].pop(0)
            (self.c if who is None else self.cp[who]).host_response(ci, return_value="answer%d" % self.n)

    def disconnect(self) -> None:
        self.settle()
        self.c.begin_disconnect()
        self.c.disconnect()
        self.s.disconnect()

    def reconnect(self) -> None:
        self.c.reconnect()
        self.s.reconnect()


OPS: typing.Dict[str, typing.Callable[[W], typing.Any]] = {
    "settle": lambda w: w.settle(),
    "avail": lambda w: w.c.get_available_runspaces(),
    "max5": lambda w: w.c.set_max_runspaces(5),
    "min2": lambda w: w.c.set_min_runspaces(2),
    "reset": lambda w: w.c.reset_runspace_state(),
    "ans": lambda w: w.answer(),
    "no": lambda w: w.answer(False),
    "call": lambda w: w.s.host_call(MI.ReadLine),
    "call0": lambda w: w.sp[0].host_call(MI.ReadLine),
    "resp": lambda w: w.respond(None),
    "resp0": lambda w: w.respond(0),
    "out0": lambda w: w.sp[0].write_output("o%d" % w.n),
    "info0": lambda w: w.sp[0].write_information("i%d" % w.n, "src", time_generated=NOW, computer="c", user="u", process_id=1, native_thread_id=2),
    "err1": lambda w: w.sp[1].write_error(t.NETException(Message="e%d" % w.n)),
    "send0": lambda w: w.cp[0].send("i%d" % w.n),
    "eof1": lambda w: w.cp[1].send_eof(),
    "key": lambda w: w.c.exchange_key(),
    "reqkey": lambda w: w.s.request_key(),
    "event": lambda w: w.s.send_event(1, "sid%d" % w.n, time_generated=NOW, computer="c"),
    "done0": lambda w: w.sp[0].complete(),
    "stopping1": lambda w: w.cp[1].begin_stop(),
    "stop1": lambda w: w.sp[1].stop(),
    "disc": lambda w: w.disconnect(),
    "recon": lambda w: w.reconnect(),
    # only in the concluding part
    "out1": lambda w: w.sp[1].write_output("o%d" % w.n),
    "send1": lambda w: w.cp[1].send("i%d" % w.n),
    "call1": lambda w: w.sp[1].host_call(MI.GetName),
    "resp1": lambda w: w.respond(1),
    "max7": lambda w: w.c.set_max_runspaces(7),
    "sec0": lambda w: w.cp[0].send(secret()),
    "secout0": lambda w: w.sp[0].write_output([secret()]),
    "sstart2": lambda w: w.sp[2].start(),
    "start0": lambda w: (w.cp[0].start(), None)[1],
    "close0": lambda w: (w.cp[0].close(), w.sp[0].close()) and None,
    "close1": lambda w: (w.cp[1].close(), w.sp[1].close()) and None,
    "cclose2": lambda w: w.cp[2].close(),
    "stop2": lambda w: w.sp[2].stop(),
    "sclose2": lambda w: w.sp[2].close(),
    "cclose3": lambda w: w.cp[3].close(),
    "cclose": lambda w: w.c.close(),
    "sclose": lambda w: w.s.close(),
}
ALPHA = ["settle", "avail", "max5", "min2", "reset", "ans", "no", "call", "call0", "resp", "resp0", "out0", "info0", "err1", "send0", "eof1", "key", "reqkey", "event", "done0", "stopping1", "stop1", "disc", "recon"]
CORE = ["settle", "avail", "max5", "ans", "call", "call0", "resp0", "out0", "send0", "key", "done0", "stop1", "disc"]
END = (
    "out0 settle send0 out1 send1 event err1 settle avail max7 settle ans ans settle call call0 call1 settle resp resp0 resp1 resp resp0 settle info0 reset settle ans recon settle out1 send1 settle "
    "key settle sec0 secout0 settle sstart2 settle done0 stop1 stop2 settle start0 settle eof1 close0 close1 cclose2 sclose2 cclose3 settle min2 settle ans settle cclose sclose settle"
).split()


def pend(w: W, who: typing.Any) -> int:
    return w.calls.get(who, [None])[0] if w.calls.get(who) else None  # type: ignore[return-value]


# the failing calls; None: not applicable in this situation
NA = object()


def on(w: W, who: typing.Any, *a: typing.Any, **k: typing.Any) -> typing.Any:
    ci = pend(w, who)
    if ci is None:
        return NA
    return (w.c if who is None else w.cp[who]).host_response(ci, *a, **k)


def req(w: W, kind: str, value: typing.Any) -> typing.Any:
    for name, ci in w.reqs:
        if name.startswith(kind):
            return w.s.runspace_availability_response(ci, value)
    return NA


FAILS: typing.Dict[str, typing.Callable[[W], typing.Any]] = {
    # client pool
    "c.open": lambda w: w.c.open(), "c.connect": lambda w: w.c.connect(), "c.close": lambda w: w.c.close(), "c.disconnect": lambda w: w.c.disconnect(), "c.reconnect": lambda w: w.c.reconnect(),
    "c.avail": lambda w: w.c.get_available_runspaces(), "c.reset": lambda w: w.c.reset_runspace_state(), "c.key": lambda w: w.c.exchange_key(),
    "c.max opaque": lambda w: w.c.set_max_runspaces(Opaque()), "c.max text": lambda w: w.c.set_max_runspaces("many"), "c.min big": lambda w: w.c.set_min_runspaces(2**40), "c.max big": lambda w: w.c.set_max_runspaces(2**31),
    "c.response unknown": lambda w: w.c.host_response(999, return_value="x"), "c.response void": lambda w: w.c.host_response(-100, return_value="x"),
    "c.response opaque": lambda w: on(w, None, return_value=Opaque()), "c.response secret": lambda w: on(w, None, return_value=secret()), "c.response bad error": lambda w: on(w, None, error_record=bad_error()),
    "c.response nested": lambda w: on(w, None, return_value=["ok", {"k": Opaque()}]),
    "c.data 21": lambda w: w.c.data_to_send(21), "c.message opaque": lambda w: w.c.prepare_message(Opaque(), message_type=t.PSRPMessageType.PipelineInput, pipeline_id=PIDS[0]),
    "c.message no type": lambda w: w.c.prepare_message("x"), "c.message secret": lambda w: w.c.prepare_message(secret(), message_type=t.PSRPMessageType.PipelineInput, pipeline_id=PIDS[0]),
    # client pipelines
    "cp0.start": lambda w: w.cp[0].start(), "cp1.start": lambda w: w.cp[1].start(), "cp2.start opaque": lambda w: w.cp[2].start(), "cp3.start empty": lambda w: w.cp[3].start(),
    "cp0.send": lambda w: w.cp[0].send("x"), "cp0.send opaque": lambda w: w.cp[0].send(Opaque()), "cp0.send list opaque": lambda w: w.cp[0].send(["a", Opaque()]), "cp1.send secret": lambda w: w.cp[1].send(secret()),
    "cp2.send": lambda w: w.cp[2].send("x"), "cp0.eof": lambda w: w.cp[0].send_eof(), "cp2.eof": lambda w: w.cp[2].send_eof(), "cp0.close": lambda w: w.cp[0].close(), "cp1.close": lambda w: w.cp[1].close(),
    "cp0.stop": lambda w: w.cp[0].begin_stop(), "cp2.stop": lambda w: w.cp[2].begin_stop(), "cp0.response unknown": lambda w: w.cp[0].host_response(999, return_value="x"),
    "cp0.response opaque": lambda w: on(w, 0, return_value=Opaque()), "cp0.response bad error": lambda w: on(w, 0, error_record=bad_error()), "cp0.response both": lambda w: on(w, 0, return_value="x", error_record=bad_error()),
    "cp2.response": lambda w: w.cp[2].host_response(999), "cp3.parameter": lambda w: w.cp[3].add_parameter("p", 1), "cp3.argument": lambda w: w.cp[3].add_argument("x"),
    "cp3.parameters": lambda w: w.cp[3].add_parameters({"p": 1}),
    # server pool
    "s.connect": lambda w: w.s.connect(), "s.close": lambda w: w.s.close(), "s.disconnect": lambda w: w.s.disconnect(), "s.reconnect": lambda w: w.s.reconnect(),
    "s.event opaque": lambda w: w.s.send_event(1, "x", message_data=Opaque()), "s.event sender": lambda w: w.s.send_event(1, "x", sender={"a": Opaque()}), "s.event number": lambda w: w.s.send_event("x", "x"), "s.event": lambda w: w.s.send_event(1, "x", computer="c"),
    "s.broken opaque": lambda w: w.s.set_broken(bad_error()),
    "s.call opaque": lambda w: w.s.host_call(MI.Write1, [Opaque()]), "s.call answer opaque": lambda w: w.s.host_call(MI.Prompt, ["c", "m", [Opaque()]]), "s.call secret": lambda w: w.s.host_call(MI.Write1, [secret()]), "s.call": lambda w: w.s.host_call(MI.ReadLine),
    "s.key": lambda w: w.s.request_key(), "s.answer unknown": lambda w: w.s.runspace_availability_response(999, True), "s.answer unknown 0": lambda w: w.s.runspace_availability_response(0, 1),
    "s.answer count with text": lambda w: req(w, "GetA", "3"), "s.answer count with bool": lambda w: req(w, "GetA", True), "s.answer count big": lambda w: req(w, "GetA", 2**63),
    "s.answer set with count": lambda w: req(w, "Set", 1), "s.answer set with text": lambda w: req(w, "Set", "x"), "s.answer reset with count": lambda w: req(w, "Reset", 1), "s.answer none": lambda w: req(w, "Set", None),
    "s.data 0": lambda w: w.s.data_to_send(0), "s.message opaque": lambda w: w.s.prepare_message(Opaque(), message_type=t.PSRPMessageType.PipelineOutput, pipeline_id=PIDS[0]),
    # server pipelines
    "sp0.start": lambda w: w.sp[0].start(), "sp0.stop": lambda w: w.sp[0].stop(), "sp2.stop": lambda w: w.sp[2].stop(), "sp2.begin_stop": lambda w: w.sp[2].begin_stop(), "sp0.begin_stop": lambda w: w.sp[0].begin_stop(), "sp0.close": lambda w: w.sp[0].close(), "sp1.close": lambda w: w.sp[1].close(),
    "sp0.output": lambda w: w.sp[0].write_output("x"), "sp0.output opaque": lambda w: w.sp[0].write_output(Opaque()), "sp0.output deep": lambda w: w.sp[0].write_output({"a": [1, Opaque()]}), "sp1.output secret": lambda w: w.sp[1].write_output(secret()),
    "sp2.output": lambda w: w.sp[2].write_output("x"), "sp0.error opaque": lambda w: w.sp[0].write_error(t.NETException(Message="m"), target_object=Opaque()), "sp2.error": lambda w: w.sp[2].write_error(t.NETException(Message="m")),
    "sp0.information": lambda w: w.sp[0].write_information("m", "s", computer="c", user="u"), "sp0.information opaque": lambda w: w.sp[0].write_information(Opaque(), "s", computer="c", user="u"), "sp2.information": lambda w: w.sp[2].write_information("m", "s", computer="c", user="u"),
    "sp0.progress": lambda w: w.sp[0].write_progress("a", "x", "s"), "sp2.progress": lambda w: w.sp[2].write_progress("a", 1, "s"), "sp2.warning": lambda w: w.sp[2].write_warning("x"), "sp2.verbose": lambda w: w.sp[2].write_verbose("x"), "sp2.debug": lambda w: w.sp[2].write_debug("x"),
    "sp0.call opaque": lambda w: w.sp[0].host_call(MI.Write1, [Opaque()]), "sp0.call answer opaque": lambda w: w.sp[0].host_call(MI.ReadLine, [Opaque()]), "sp2.call": lambda w: w.sp[2].host_call(MI.ReadLine), "sp0.call": lambda w: w.sp[0].host_call(MI.ReadLine),
}
# these fail in every state the runs reach
ALWAYS = [
    "c.max opaque", "c.max text", "c.min big", "c.max big", "c.response unknown", "c.response void", "c.response opaque", "c.response bad error", "c.response nested", "c.data 21", "c.message opaque", "c.message no type", "cp2.start opaque", "cp3.start empty",
    "cp0.send opaque", "cp0.send list opaque", "cp2.send", "cp2.eof", "cp2.stop", "cp0.response unknown", "cp0.response opaque", "cp0.response bad error", "cp0.response both", "cp2.response", "cp3.parameter", "cp3.argument",
    "s.event opaque", "s.event sender", "s.event number", "s.broken opaque", "s.call opaque", "s.call answer opaque", "s.answer unknown", "s.answer count with text", "s.answer count with bool", "s.answer set with count", "s.answer set with text",
    "s.answer reset with count", "s.answer none", "s.data 0", "s.message opaque", "sp2.stop", "sp2.begin_stop", "sp0.output opaque", "sp0.output deep", "sp2.output", "sp0.error opaque", "sp2.error", "sp0.information opaque", "sp2.information", "sp0.progress", "sp2.progress", "sp2.warning",
    "sp2.verbose", "sp2.debug", "sp0.call opaque", "sp0.call answer opaque", "sp2.call",
]


def go(version: str, seq: typing.Sequence[str], inserts: typing.Dict[int, typing.Sequence[str]], ctx: Ctx, must: bool) -> typing.Optional[typing.List]:
    """Runs the operations with the failing calls after the given steps.  None if such a call did not fail."""
    w = W(version)
    mark = 0
    for i, name in enumerate(("",) + tuple(seq)):
        if name:
            w.do(name)
        for f in inserts.get(i, ()):
            before = len(w.log)
            k, r = reason(FAILS[f], w)
            if k == "ok":
                if r is NA:
                    if must:
                        continue
                    return None
                if must:
                    fail("%s did not fail after %s", f, seq[:i])
                return None
            ctx.step()
            ctx.outcome(f, k)
            w.obs()
            # the reported state right after the call is the one before it
            last = [x for x in w.log[:before] if x[0] == "obs"][-1]
            same(w.log[-1], last, "what both pools report after %s failed" % f)
            w.log.pop()
        mark = len(w.log)
    for name in END:
        w.do(name)
        ctx.step()
    return [mark, w.log]  # type: ignore[list-item]


def differ(a: typing.List, b: typing.List) -> str:
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return "step %d: without the failing call %.500r, with it %.500r" % (i, x, y)
    return ""


def compare(case: typing.Any, version: str, seq: typing.Sequence[str], plain: typing.List, inserts: typing.Dict[int, typing.Sequence[str]], ctx: Ctx, must: bool) -> bool:
    got = go(version, seq, inserts, ctx, must)
    if got is None:
        return False
    if got[1] != plain[1]:
        fail("after %s, then failing %s: %s", list(seq), inserts, differ(plain[1], got[1]))
    return True


def gen_single(tier: str):
    for v in ("2.3", "2.1"):
        n = 1 if tier == "quick" else 2
        for k in range(n + 1):
            for seq in itertools.product(ALPHA, repeat=k):
                if v == "2.1" and k == n:
                    continue
                yield (v, seq)


def run_single(case, ctx: Ctx) -> None:
    v, seq = case
    plain = go(v, seq, {}, ctx, False)
    assert plain is not None
    n = 0
    for f in FAILS:
        if compare(case, v, seq, plain, {len(seq): [f]}, ctx, False):
            n += 1
    expect(n > 20, "only %d calls fail after %s", n, seq)
    ctx.state(v, seq)


# ------------------------------------------------------------------ all failing calls one after the other
MEMO: typing.Dict[typing.Any, typing.Set[str]] = {}


def situation(w: W) -> typing.Any:
    last = [x for x in w.log if x[0] == "obs"][-1]
    return repr((last, [n for n, _ in w.reqs], {k: len(v) for k, v in w.calls.items()}))


def which(v: str, seq: typing.Sequence[str]) -> typing.List[str]:
    """The calls that fail after the sequence, each tried on its own."""

    def fresh() -> W:
        w = W(v)
        for name in seq:
            w.do(name)
        return w

    w = fresh()
    key = (v, situation(w), "key" in seq, "reqkey" in seq, "eof1" in seq)
    if key not in MEMO:
        out = set()
        for f in FAILS:
            if reason(FAILS[f], w)[0] == "ok":
                w = fresh()
            else:
                out.add(f)
        MEMO[key] = out
    return [f for f in FAILS if f in MEMO[key]]


def gen_group(tier: str):
    n = 2 if tier == "quick" else 3
    for v in ("2.1", "2.3"):
        for k in range(n + 1):
            if v == "2.1" and k == n:
                continue
            for seq in itertools.product(ALPHA, repeat=k):
                yield (v, seq)


def run_group(case, ctx: Ctx) -> None:
    v, seq = case
    plain = go(v, seq, {}, ctx, False)
    assert plain is not None
    calls = which(v, seq)
    # none of them may start to succeed because another one failed before it
    got = go(v, seq, {len(seq): calls + calls[::-1]}, ctx, False)
    if got is None:
        # the memo is only a guess about similar situations: find out one by one
        calls = [f for f in FAILS if go(v, seq, {len(seq): [f]}, ctx, False) is not None]
        got = go(v, seq, {len(seq): calls}, ctx, False)
        expect(got is not None, "after %s one of %s succeeds because others failed before it", seq, calls)
    assert got is not None
    if got[1] != plain[1]:
        fail("after %s, then failing %s: %s", list(seq), calls, differ(plain[1], got[1]))
    ctx.state(v, seq)


def gen_every(tier: str):
    n = 2 if tier == "quick" else 3
    for v in ("2.3", "2.1"):
        for k in range(n + 1):
            if v == "2.1" and k == n:
                continue
            for seq in itertools.product(CORE if k == 2 and tier == "quick" else ALPHA, repeat=k):
                yield (v, seq)


def run_every(case, ctx: Ctx) -> None:
    v, seq = case
    plain = go(v, seq, {}, ctx, False)
    assert plain is not None
    compare(case, v, seq, plain, {i: ALWAYS for i in range(len(seq) + 1)}, ctx, True)
    ctx.state(v, seq)


# ------------------------------------------------------------------ the same failing call many times
BEFORE = [(), ("avail", "max5", "settle", "call", "call0", "settle"), ("key", "settle", "out0", "send0"), ("done0", "stop1", "settle"), ("disc",)]


def gen_repeat(tier: str):
    for f in FAILS:
        for i in range(len(BEFORE)):
            for n in (2, 17, 140) if tier == "quick" else (2, 17, 140, 300, 1100):
                yield (f, i, n)


def run_repeat(case, ctx: Ctx) -> None:
    f, i, n = case
    seq = BEFORE[i]
    if i not in PLAIN:
        got = go("2.3", seq, {}, ctx, False)
        assert got is not None
        PLAIN[i] = got
    if compare(case, "2.3", seq, PLAIN[i], {len(seq): [f] * n}, ctx, False):
        ctx.state(case)
    else:
        expect(go("2.3", seq, {len(seq): [f]}, ctx, False) is None, "%s fails once after %s but not %d times", f, seq, n)


PLAIN: typing.Dict[int, typing.List] = {}
SCENARIOS = [
    Scenario("repeated", gen_repeat, run_repeat, "each of %d calls, where it fails, up to 140 (1100) times in %d situations" % (len(FAILS), len(BEFORE)), chunk=4, timeout=120),
    Scenario("single", gen_single, run_single, "each of %d calls, where it fails, after every sequence of up to 1 (2) of %d operations; protocol versions 2.3 and 2.1" % (len(FAILS), len(ALPHA)), chunk=1, timeout=120),
    Scenario("throughout", gen_every, run_every, "all of %d calls that always fail after every step of every sequence of up to 2 (3) of %d operations" % (len(ALWAYS), len(ALPHA)), chunk=4, timeout=60),
    Scenario("together", gen_group, run_group, "all calls that fail, in both orders, after every sequence of up to 2 (3) of %d operations" % len(ALPHA), chunk=8, timeout=120),
]

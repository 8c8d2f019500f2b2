"""P24: unrelated pools, objects and threads in one process never affect each other."""
import datetime
import decimal
import enum
import gc
import itertools
import os
import pickle
import queue
import re
import signal
import sys
import threading
import typing
import uuid
from xml.etree import ElementTree as ET

import psrpcore
from psrpcore import types as t

from mc.canon import prim
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, drain, events, reason

RULE = (
    "all interleavings of the steps of two sessions (each a client and a server pool); all pairs of library objects, one "
    "changed in every way, one observed; all schedules of two threads with one preemption at any source line of the "
    "library that is reached. Every observation is compared with the same session, object or "
    "operation alone in a fresh process"
)
ASSUMPTIONS = [
    "switches between threads happen between source lines of the library (calls into the interpreter and other packages are atomic)",
    "one pool or object is used by one thread at a time",
]
SRC = os.path.dirname(os.path.realpath(psrpcore.__file__)) + os.sep


# ------------------------------------------------------------------ describing
class Seen(list):
    """Already described."""


def desc(v: typing.Any, depth: int = 9, seen: typing.Optional[typing.List[typing.Any]] = None) -> typing.Any:
    """Everything that can be seen of a value, as nested tuples without addresses."""
    seen = [] if seen is None else seen
    if isinstance(v, Seen):
        return tuple(v)
    if isinstance(v, enum.Enum):
        return (type(v).__name__, v.name)
    p = prim(v)
    if p is not None and not isinstance(v, t.PSObject):
        return p
    if isinstance(v, type):
        return ("class", v.__name__)
    if callable(v) and not isinstance(v, t.PSObject):
        return ("callable",)
    if depth == 0:
        return ("deep", type(v).__name__)
    for i, x in enumerate(seen):
        if x is v:
            return ("ref", i)
    if p is None or isinstance(v, t.PSObject):
        seen.append(v)
    d = lambda x: desc(x, depth - 1, seen)
    body: typing.Any = p
    if isinstance(v, dict):
        body = tuple((d(k), d(x)) for k, x in dict.items(v))
    elif isinstance(v, list):
        body = tuple(d(x) for x in list.__iter__(v))
    elif isinstance(v, tuple):
        body = tuple(d(x) for x in v)
    elif isinstance(v, queue.Queue):
        body = tuple(d(x) for x in list(v.queue))
    elif isinstance(v, t.PSSecureString):
        n, x = reason(v.decrypt)
        body = prim(x) if n == "ok" else n
    meta: typing.Any = ()
    if isinstance(v, t.PSObject):
        m = v.PSObject
        ps = tuple(
            tuple((str(q.name), d(reason(q.get_value, v)[1])) for q in props)
            for props in (m.adapted_properties, m.extended_properties)
        )
        text = None  # of a secure string: encrypted with a random key
        if not isinstance(v, t.PSSecureString):
            n, x = reason(lambda: m.to_string)
            text = ADDRESS.sub("at 0x", x) if isinstance(x, str) else x if x is None else (n, type(x).__name__)
        own = sorted(a for a in object.__getattribute__(v, "__dict__") if not a.startswith("_") and a != "PSObject")
        meta = (tuple(str(n) for n in m.type_names), text, ps, tuple((a, d(getattr(v, a))) for a in own))
    rest = ()
    if not isinstance(v, (t.PSObject, queue.Queue)):
        pub = [a for a in dir(v) if not a.startswith("_")] if hasattr(v, "__dict__") and not isinstance(v, BaseException) else []
        got = []
        for a in pub:
            n, x = reason(getattr, v, a)
            if n != "ok" or not callable(x):
                got.append((a, n if n != "ok" else d(x)))
        rest = tuple(got)
    if isinstance(v, BaseException):
        body = str(v)
    return (type(v).__name__, body, meta, rest)


ADDRESS = re.compile("at 0x[0-9a-f]+")


class Opaque:
    @property
    def boom(self) -> None:
        raise ValueError("cannot be read")


# -------------------------------------------------------------------- sessions
WHEN = datetime.datetime(2020, 1, 2, 3, 4, 5, 6, tzinfo=datetime.timezone.utc)
MI = t.HostMethodIdentifier


class Session:
    """One client pool and its server pool; `log` holds everything seen."""

    def __init__(self, k: int, snaps: bool = True) -> None:
        self.k = k
        self.snaps = snaps  # else only the last state is looked at
        self.log: typing.List[typing.Any] = []
        self.secret = False
        self.calls: typing.List[int] = []
        self.reqs: typing.List[typing.Any] = []
        self.n = 0
        self.c = self.s = self.cp = self.sp = None

    def text(self) -> str:
        self.n += 1
        return "session %d text %d " % (self.k, self.n) + "ab"[self.k % 2] * 40

    def do(self, step: str) -> None:
        n, v = reason(getattr(self, "do_" + step))
        self.log.append((step, n, str(v) if n != "ok" else desc(v)))
        if self.snaps:
            self.log.append(self.snap())

    def snap(self) -> typing.Any:
        if self.c is None:
            return ()
        out = []
        for p in (self.c, self.s):
            out.append((
                p.state.name, int(p.min_runspaces), int(p.max_runspaces), str(p.runspace_pool_id),
                tuple(str(i) for i in p.pipeline_table), desc(p.application_arguments), desc(p.application_private_data),
                desc(p.their_capability), p.apartment_state.name, p.thread_options.name,
            ))
        for q in (self.cp, self.sp):
            out.append(None if q is None else (q.state.name, str(q.pipeline_id), desc(q.metadata)))
        return tuple(out)

    def seen(self, pool: typing.Any) -> typing.List[typing.Any]:
        out = Seen()
        while True:
            n, e = reason(pool.next_event)
            if n != "ok":
                out.append((n, str(e)))
                continue
            if e is None:
                return out
            kind = e.message_type.name
            if kind in ("PipelineHostCall", "RunspacePoolHostCall") and int(e.ci) != -100:
                self.calls.append(int(e.ci))
            elif kind in ("SetMaxRunspaces", "SetMinRunspaces", "ResetRunspaceState", "GetAvailableRunspaces"):
                self.reqs.append((int(e.ci), kind))
            if kind not in ("PublicKey", "EncryptedSessionKey"):  # random
                out.append(desc(e))
            else:
                out.append(kind)

    def do_new(self):
        k = self.k
        self.c = psrpcore.ClientRunspacePool(
            runspace_pool_id=uuid.UUID(int=0xC0FFEE << 64 | k), min_runspaces=k + 1, max_runspaces=k + 4,
            application_arguments={"arg": "of %d" % k} if k else None,
        )
        self.s = psrpcore.ServerRunspacePool(application_private_data={"data": "of %d" % k} if k else None)

    def do_open(self):
        self.c.open()

    def sent(self, p):
        """A packet as it is sent; what is encrypted has random contents."""
        data = bytes(p.data)
        return (len(data) if self.secret else data.hex(), p.stream_type.name, str(p.pipeline_id))

    def move(self, src, dst):
        out = Seen()
        for p in drain(src):
            out.append(self.sent(p))
            dst.receive_data(p)
        return Seen(out + self.seen(dst))

    def do_c2s(self):
        return self.move(self.c, self.s)

    def do_s2c(self):
        return self.move(self.s, self.c)

    def part(self, src, dst):
        p = src.data_to_send(120)
        out = Seen()
        if p is not None:
            out.append(self.sent(p))
            dst.receive_data(p)
        return Seen(out + self.seen(dst))

    def do_partc(self):
        return self.part(self.c, self.s)

    def do_parts(self):
        return self.part(self.s, self.c)

    def do_ready(self):
        self.do_new()
        self.do_open()
        return [self.do_c2s(), self.do_s2c(), self.do_pipe(), self.do_c2s(), self.sp.start(), self.do_s2c()]

    def do_pipe(self):
        self.cp = psrpcore.ClientPowerShell(self.c, pipeline_id=uuid.UUID(int=0xBEEF << 64 | self.k), no_input=False)
        self.cp.add_script(self.text()).add_parameter("p", self.k)
        self.sp = psrpcore.ServerPipeline(self.s, self.cp.pipeline_id)
        self.cp.start()

    def do_hcall(self):
        return self.s.host_call(MI.ReadLine if self.k % 2 else MI.GetName)

    def do_choice(self):
        return self.s.host_call(MI.PromptForChoice, ["c", "m", [], 0])

    def do_pcall(self):
        return self.sp.host_call(MI.GetWindowTitle if self.k % 2 else MI.ReadLine)

    def do_ans(self):
        self.c.host_response(self.calls.pop(0), self.text())

    def do_max(self):
        return self.c.set_max_runspaces(20 + self.k)

    def do_min(self):
        return self.c.set_min_runspaces(10 + self.k)

    def do_avail(self):
        return self.c.get_available_runspaces()

    def do_resp(self):
        ci, kind = self.reqs.pop(0)
        self.s.runspace_availability_response(ci, 30 + self.k if kind == "GetAvailableRunspaces" else self.k % 2 == 0)

    def do_key(self):
        self.secret = True
        self.c.exchange_key()

    def do_req(self):
        self.secret = True
        self.s.request_key()

    def do_sec(self):
        self.secret = True
        self.cp.send(t.PSSecureString(self.text()))

    def do_secout(self):
        self.secret = True
        self.sp.write_output(t.PSSecureString(self.text()))

    def do_input(self):
        x = t.PSCustomObject(Name=self.text())
        x.PSTypeNames.insert(0, "Type of %d" % self.k)
        self.cp.send([x, x, {"k": self.k}])

    def do_out(self):
        x = t.PSCustomObject(Name=self.text())
        x.PSTypeNames.insert(0, "Type of %d" % self.k)
        self.sp.write_output([x, x, {"k": self.k}, t.ConsoleColor.Red if self.k % 2 else t.ConsoleColor.Blue])

    def do_err(self):
        self.sp.write_error(t.NETException(Message=self.text()))

    def do_warn(self):
        self.sp.write_warning(self.text())

    def do_info(self):
        self.sp.write_information(
            self.text(), "s", WHEN, ["tag %d" % self.k] if self.k else None, user="u", computer="c", process_id=1,
            native_thread_id=2, managed_thread_id=3)

    def do_stop(self):
        self.sp.stop()

    def do_complete(self):
        self.sp.complete()

    def do_closep(self):
        self.cp.close()
        self.sp.close()

    def do_event(self):
        self.s.send_event(self.k, self.text(), time_generated=WHEN, computer="c")

    def do_disc(self):
        self.c.disconnect()
        self.s.disconnect()

    def do_reconn(self):
        self.c.reconnect()
        self.s.reconnect()

    def do_broken(self):
        self.s.set_broken(t.ErrorRecord(Exception=t.NETException(Message=self.text()), CategoryInfo=t.ErrorCategoryInfo()))

    def do_close(self):
        self.c.begin_close()
        self.c.close()

    def do_ask(self):
        """Through the helpers of the host."""
        h = psrpcore.ServerHostRequestor(self.sp if self.k % 2 else self.s)
        T = t.HostMethodIdentifier
        h.write_line(self.text(), *([t.ConsoleColor.Red, t.ConsoleColor.Blue] if self.k % 2 else []))
        cell = t.BufferCell(str(self.k), t.ConsoleColor.Red, t.ConsoleColor.Blue, t.BufferCellType.Complete)
        h.set_buffer_contents(self.k, 2, [[cell, cell], [cell, cell]])
        h.prompt_for_choice(self.text(), "m", [t.ChoiceDescription("&a %d" % self.k, "h")], 0)
        h.get_buffer_contents(1, 2, 3 + self.k, 4)
        h.get_window_size()

    def do_say(self):
        h = psrpcore.ClientHostResponder(self.cp if self.k % 2 else self.c)
        cell = t.BufferCell(str(self.k), t.ConsoleColor.Red, t.ConsoleColor.Blue, t.BufferCellType.Complete)
        h.prompt_for_choice(self.calls.pop(0), self.k)
        h.get_buffer_contents(self.calls.pop(0), [[cell, cell, cell]])
        h.get_window_size(self.calls.pop(0), 3 + self.k, 4)

    def do_meta(self):
        self.cp = psrpcore.ClientGetCommandMetadata(
            self.c, name="get-%d" % self.k, namespace=["n %d" % self.k] if self.k else None, pipeline_id=uuid.UUID(int=0xDEAD << 64 | self.k))
        self.sp = psrpcore.ServerPipeline(self.s, self.cp.pipeline_id)
        self.cp.start()

    def do_found(self):
        self.sp.start()
        self.sp.write_output(t.CommandMetadataCount(Count=1 + self.k))
        self.sp.write_output(t.PSCustomObject(Name=self.text(), Namespace="n", HelpUri="u", CommandType=t.CommandTypes.Cmdlet))

    def do_shell(self):
        self.sh = psrpcore.ClixmlShell()

    def do_shput(self):
        x = t.PSCustomObject(Name=self.text())
        for fn, v in (
            (self.sh.write_output, x), (self.sh.write_output, x), (self.sh.write_error, self.text()), (self.sh.write_verbose, self.text())):
            fn(v)

    def do_shget(self):
        text = self.sh.data_to_send()
        return Seen([text, desc(psrpcore.ClixmlOutput.from_clixml(text))])

    def do_bad(self):
        self.cp.send(Opaque())

    def do_connect(self):
        """A new client takes over."""
        self.s.disconnect()
        self.c = psrpcore.ClientRunspacePool(runspace_pool_id=self.s.runspace_pool_id)
        self.cp = None
        self.s.connect()
        self.c.connect()


SCRIPTS = {
    "open": "new open partc partc c2s s2c",
    "pcall": "ready pcall s2c ans c2s",
    "hcall": "ready hcall s2c ans c2s",
    "count": "ready max c2s resp s2c",
    "count2": "ready avail min c2s resp resp s2c",
    "frag": "ready input partc c2s partc",
    "outfrag": "ready out parts s2c info s2c",
    "key": "ready key c2s s2c sec c2s",
    "req": "ready req s2c c2s s2c secout s2c",
    "nokey": "ready sec secout s2c bad input c2s",
    "stop": "ready err stop s2c closep",
    "done": "ready warn complete s2c input",
    "link": "ready disc out reconn s2c",
    "events": "ready event event parts broken s2c",
    "connect": "ready connect c2s s2c event s2c",
    "close": "ready closep close event s2c",
    "host": "ready ask s2c say c2s",
    "meta": "ready meta c2s found s2c",
    "shell": "shell shput shget shput shget",
}


def alone(fn: typing.Callable[[], typing.Any]) -> typing.Any:
    """The result of fn in a process where nothing else happened."""
    r, w = os.pipe()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        try:
            gc.disable()
            os.close(r)
            signal.alarm(60)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("raised", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", "")


def solo(name: str, k: int) -> typing.List[typing.Any]:
    s = Session(k)
    for step in SCRIPTS[name].split():
        s.do(step)
    return s.log


REF: typing.Dict[typing.Any, typing.Any] = {}


def ref(key: typing.Any, fn: typing.Callable[[], typing.Any]) -> typing.Any:
    if key not in REF:
        REF[key] = alone(fn)
    n, v = REF[key]
    if n != "ok":
        fail("%s alone: %s %s", key, n, v)
    return v


def first_difference(a: typing.Any, b: typing.Any, path: str = "") -> str:
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) or type(a) is list and type(b) is list and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, "%s/%d" % (path, i))
    return "at %s: alone %.300r, together %.300r" % (path, a, b)


def merges(a: int, b: int, switches: int = 99) -> typing.Iterator[typing.Tuple[int, ...]]:
    for where in itertools.combinations(range(a + b), a):
        m = tuple(0 if i in where else 1 for i in range(a + b))
        if sum(x != y for x, y in zip(m, m[1:])) <= switches:
            yield m


def orders(a: str, b: str, tier: str) -> typing.List[typing.Tuple[int, ...]]:
    na, nb = len(SCRIPTS[a].split()), len(SCRIPTS[b].split())
    if tier == "thorough":
        return list(merges(na, nb))
    # the first step of both comes first, then everything
    return [(0, 1) + m for m in merges(na - 1, nb - 1, 3)]


def gen_sessions(tier: str):
    for a, b in itertools.combinations_with_replacement(list(SCRIPTS), 2):
        n = len(orders(a, b, tier))
        for k in range(0, n, 6):
            yield (a, b, tier, k, min(n, k + 6))


def forked(fn: typing.Callable[[], None]) -> None:
    """Runs fn where nothing has run before, so that what is done only once is done here."""
    n, v = alone(fn)
    if n != "ok":
        fail("%s %s", n, v)


def run_sessions(case, ctx: Ctx) -> None:
    a, b, tier, lo, hi = case
    names = (a, b)
    want = [ref(("session", n, k), lambda: solo(n, k)) for k, n in enumerate(names)]
    todo = orders(a, b, tier)[lo:hi]
    forked(lambda: [together(names, o, want) for o in todo] and None)
    for o in todo:
        ctx.step(len(o))
        ctx.state(a, b, o)
    ctx.outcome(names)


def together(names, order, want) -> None:
    ss = [Session(k) for k in range(len(names))]
    todo = [iter(SCRIPTS[n].split()) for n in names]
    for i in order:
        step = next(todo[i])
        ss[i].do(step)
    for k, n in enumerate(names):
        if ss[k].log != want[k]:
            fail("session %d (%s) of %s in the order %s: %s", k, n, names, "".join(map(str, order)), first_difference(want[k], ss[k].log))


def gen_many(tier: str):
    for n in SCRIPTS:
        yield (n, 20 if tier == "quick" else 400)


def run_many(case, ctx: Ctx) -> None:
    """The last of many sessions, of which every third is left unfinished."""
    name, count = case
    want = ref(("session", name, 1), lambda: solo(name, 1))

    def go() -> None:
        kept = []
        for i in range(count):
            for j, other in enumerate(SCRIPTS):
                s = Session(i + 2, False)
                for step in SCRIPTS[other].split()[: 3 if (i + j) % 3 == 0 else None]:
                    s.do(step)
                if i % 2:
                    kept.append(s)
        got = solo(name, 1)
        if got != want:
            fail("%s after %d other sessions: %s", name, count * len(SCRIPTS), first_difference(want, got))

    forked(go)
    ctx.step(count * len(SCRIPTS))
    ctx.state(name)
    ctx.outcome(name)


# --------------------------------------------------------------------- objects
def err(text: str) -> typing.Any:
    return t.ErrorRecord(Exception=t.NETException(Message=text), CategoryInfo=t.ErrorCategoryInfo(), FullyQualifiedErrorId="id")


@t.PSType(["Mine.Plain"], rehydrate=False, extended_properties=[t.PSNoteProperty("A"), t.PSNoteProperty("B", value=1, ps_type=t.PSInt)])
class Mine(t.PSObject):
    pass


@t.PSType(["Mine.Again"], extended_properties=[t.PSNoteProperty("A"), t.PSAliasProperty("L", "A")], adapted_properties=[t.PSNoteProperty("C")])
class Again(t.PSObject):
    pass


def parse(v: typing.Any) -> typing.Any:
    return t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)


def custom() -> typing.Any:
    x = t.PSCustomObject(a=[1, 2], b={"k": "v"})
    x.PSTypeNames.insert(0, "Own.Type")
    return x


def record(cls: typing.Any) -> typing.Any:
    return cls(Message="m")


def opened() -> Session:
    s = Session(0)
    s.do_ready()
    return s


def event_of(step: str, back: bool = True) -> typing.Any:
    s = opened()
    getattr(s, "do_" + step)()
    src, dst = (s.s, s.c) if back else (s.c, s.s)
    for p in drain(src):
        dst.receive_data(p)
    return events(dst)[-1]


def lib(name: str, *a: typing.Any, **k: typing.Any) -> typing.Callable[[], typing.Any]:
    return lambda: getattr(t, name)(*a, **k)


KINDS: typing.Dict[str, typing.Callable[[], typing.Any]] = {
    "object": lambda: t.PSObject(),
    "custom": custom,
    "custom0": lambda: t.PSCustomObject(),
    "list": lambda: t.PSList([1, [2]]),
    "dict": lambda: t.PSDict({"a": {"b": 1}}),
    "stack": lambda: t.PSStack([1]),
    "string": lambda: t.PSString("s"),
    "int": lambda: t.PSInt(1),
    "double": lambda: t.PSDouble(1.5),
    "char": lambda: t.PSChar("c"),
    "bytes": lambda: t.PSByteArray(b"ab"),
    "decimal": lambda: t.PSDecimal("1.5"),
    "guid": lambda: t.PSGuid(int=5),
    "datetime": lambda: t.PSDateTime(2020, 1, 2, nanosecond=100),
    "duration": lambda: t.PSDuration(days=1, nanoseconds=100),
    "version": lambda: t.PSVersion("1.2.3"),
    "xml": lambda: t.PSXml("<a/>"),
    "script": lambda: t.PSScriptBlock("s"),
    "secure": lambda: t.PSSecureString("s"),
    "exception": lambda: t.NETException(Message="m"),
    "category": lambda: t.ErrorCategoryInfo(),
    "details": lambda: t.ErrorDetails(Message="m"),
    "error": lambda: err("e"),
    "info": lambda: t.InformationRecord.create(
        "m", "s", time_generated=WHEN, user="u", computer="c", process_id=1, native_thread_id=2, managed_thread_id=3),
    "progress": lambda: t.ProgressRecord(Activity="a", ActivityId=1, StatusDescription="s"),
    "warning": lambda: record(t.WarningRecord),
    "verbose": lambda: record(t.VerboseRecord),
    "debug": lambda: record(t.DebugRecord),
    "invocation": lambda: t.InvocationInfo(),
    "hostinfo": lambda: t.HostInfo(),
    "hostdata": lambda: t.HostDefaultData(
        ForegroundColor=t.ConsoleColor.Red, BackgroundColor=t.ConsoleColor.Blue, CursorPosition=t.Coordinates(1, 2),
        WindowPosition=t.Coordinates(3, 4), CursorSize=5, BufferSize=t.Size(6, 7), WindowSize=t.Size(8, 9),
        MaxWindowSize=t.Size(10, 11), MaxPhysicalWindowSize=t.Size(12, 13), WindowTitle="w"),
    "size": lambda: t.Size(1, 2),
    "coordinates": lambda: t.Coordinates(1, 2),
    "mine": lambda: Mine(A=[1]),
    "again": lambda: Again(A=[1]),
    "command": lambda: psrpcore.Command("c").add_parameter("p", [1]) if hasattr(psrpcore.Command, "add_parameter") else psrpcore.Command("c"),
    "command0": lambda: psrpcore.Command("c"),
    "powershell": lambda: psrpcore.PowerShell(),
    "metadata": lambda: psrpcore.GetMetadata(name="*"),
    "clientpool": lambda: psrpcore.ClientRunspacePool(runspace_pool_id=uuid.UUID(int=7)),
    "serverpool": lambda: opened().s,
    "clientopen": lambda: opened().c,
    "pipeline": lambda: opened().cp.metadata,
    "serverpipeline": lambda: opened().sp.metadata,
    "clixmlout": lambda: psrpcore.ClixmlOutput(),
    "clixmlparsed": lambda: psrpcore.ClixmlOutput.from_clixml("#< CLIXML\n" + t.serialize_clixml([custom(), 1], None)),
    "p:custom": lambda: parse(custom()),
    "p:custom0": lambda: parse(t.PSCustomObject()),
    "p:mine": lambda: parse(Mine(A=[1])),
    "p:again": lambda: parse(Again(A=[1])),
    "p:foreign": lambda: t.deserialize(ET.fromstring(
        '<Obj RefId="0"><TN RefId="0"><T>Far.Away</T><T>System.Object</T></TN><ToString>x</ToString><MS><S N="a">1</S></MS></Obj>'), None),
    "p:untyped": lambda: t.deserialize(ET.fromstring('<Obj RefId="0"><MS><S N="a">1</S></MS></Obj>'), None),
    "p:farlist": lambda: t.deserialize(ET.fromstring(
        '<Obj RefId="0"><TN RefId="0"><T>Far.List</T></TN><LST><S>1</S></LST></Obj>'), None),
    "p:extprim": lambda: t.deserialize(ET.fromstring('<Obj RefId="0"><S>v</S><MS><S N="a">1</S></MS></Obj>'), None),
    "p:list": lambda: parse([1, {"a": 2}]),
    "p:dict": lambda: parse({"a": [1]}),
    "p:error": lambda: parse(err("e")),
    "p:info": lambda: parse(KINDS["info"]()),
    "p:progress": lambda: parse(KINDS["progress"]()),
    "p:string": lambda: parse("s"),
    "p:int": lambda: parse(5),
    "p:int2": lambda: parse(t.PSInt(5)),
    "p:char": lambda: parse(t.PSChar("c")),
    "p:double": lambda: parse(t.PSDouble(1.5)),
    "p:bytes": lambda: parse(b"ab"),
    "p:decimal": lambda: parse(t.PSDecimal("1.5")),
    "p:guid": lambda: parse(t.PSGuid(int=5)),
    "p:datetime": lambda: parse(t.PSDateTime(2020, 1, 2, nanosecond=100)),
    "p:duration": lambda: parse(t.PSDuration(days=1, nanoseconds=100)),
    "p:version": lambda: parse(t.PSVersion("1.2.3")),
    "p:xml": lambda: parse(t.PSXml("<a/>")),
    "p:script": lambda: parse(t.PSScriptBlock("s")),
    "p:uri": lambda: parse(t.PSUri("u:x")),
    "p:stack": lambda: parse(t.PSStack([1])),
    "p:queue": lambda: parse(queue.Queue()),
    "clientpool2": lambda: psrpcore.ClientRunspacePool(runspace_pool_id=uuid.UUID(int=8)),
    "p:class": lambda: parse(Plain()),
    "e:out": lambda: event_of("out").data,
    "e:err": lambda: event_of("err").record,
    "e:warn": lambda: event_of("warn").record,
    "e:info": lambda: event_of("info").record,
    "e:call": lambda: event_of("choice").method_parameters,
    "e:user": lambda: event_of("event").event,
    "e:input": lambda: event_of("input", False).data,
    "enum": lambda: t.ConsoleColor.Red,
    "flags": lambda: t.ControlKeyStates(3) if hasattr(t, "ControlKeyStates") else t.ConsoleColor.Blue,
}


def related(a: type, b: type) -> bool:
    return a is not b and (issubclass(a, b) or issubclass(b, a))


CLASSES = {
    "new:" + n: c
    for n, c in sorted(vars(t).items())
    if isinstance(c, type) and issubclass(c, t.PSObject) and c is not t.PSObject and not issubclass(c, enum.Enum)
}


def blank(c: type) -> typing.Any:
    """As it is made before the content of a message is filled in, where that is possible."""
    n, v = reason(c.__new__, c)
    return v if n == "ok" else n


for _n, _c in CLASSES.items():
    KINDS[_n] = lambda c=_c: blank(c)


class Plain:
    def __init__(self) -> None:
        self.a = [1]
        self.b = {"k": 1}


def change(v: typing.Any, depth: int = 4) -> int:
    """Changes everything that can be changed of v and of what it holds."""
    n = 0

    def attempt(fn: typing.Callable, *a: typing.Any) -> None:
        nonlocal n
        try:
            fn(*a)
            n += 1
        except Exception:
            pass

    if isinstance(v, (enum.Enum, type)) or depth == 0 or callable(v) and not isinstance(v, t.PSObject):
        return 0
    inner: typing.List[typing.Any] = []
    if isinstance(v, dict):
        inner += list(dict.values(v))
        attempt(dict.__setitem__, v, "changed", "changed")
    elif isinstance(v, list):
        inner += list(list.__iter__(v))
        attempt(list.append, v, "changed")
    elif isinstance(v, queue.Queue):
        inner += list(v.queue)
        attempt(v.put, "changed")
    if isinstance(v, t.PSObject):
        m = v.PSObject
        if prim(v) is not None and depth < 4:
            return n  # the default value of a property is shared by the objects of a class, like any default in Python
        for p in list(m.adapted_properties) + list(m.extended_properties):
            got = reason(p.get_value, v)
            if got[0] == "ok":
                inner.append(got[1])
            attempt(p.set_value, "changed", v)
            attempt(p.set_value, 77, v)
        attempt(t.add_note_property, v, "Changed", "changed")
        attempt(t.add_alias_property, v, "ChangedAlias", "Changed")
        attempt(t.add_script_property, v, "ChangedScript", lambda s: "changed")
        attempt(m.type_names.insert, 0, "Changed.Type")
        attempt(setattr, m, "to_string", "changed")
    if hasattr(v, "__dict__"):
        for a, x in list(object.__getattribute__(v, "__dict__").items()):
            if a.startswith("_") or a == "PSObject":
                continue
            inner.append(x)
            if isinstance(x, (str, int)) and not isinstance(x, enum.Enum):
                attempt(setattr, v, a, "changed")
    for x in inner:
        n += change(x, depth - 1)
    if isinstance(v, t.PSObject):
        for p in list(v.PSObject.adapted_properties) + list(v.PSObject.extended_properties):
            attempt(setattr, p, "name", p.name + "Changed")
    return n


def view(v: typing.Any) -> typing.Any:
    n, x = reason(desc, v)  # a blank object may not have a text yet
    return x if n == "ok" else n


def solo_kind(name: str) -> typing.Any:
    return view(KINDS[name]())


def gen_objects(tier: str):
    names = [n for n in KINDS if n not in CLASSES]
    for a in names:
        for i in range(0, len(names), 8):
            yield (a, names[i : i + 8])
    for a, c in CLASSES.items():
        yield (a, [a, "custom", "mine"] + [b for b, d in CLASSES.items() if related(c, d)])


def run_objects(case, ctx: Ctx) -> None:
    a, bs = case
    want = {b: ref(("kind", b), lambda: solo_kind(b)) for b in bs}

    def go() -> None:
        for b in bs:
            before = KINDS[b]()
            reason(change, KINDS[a]())
            for what, v in (("made before", before), ("made after", KINDS[b]())):
                got = view(v)
                if got != want[b]:
                    fail("%s %s a %s was changed: %s", b, what, a, first_difference(want[b], got))

    forked(go)
    for b in bs:
        ctx.step(2)
        ctx.state(a, b)
    ctx.outcome(a)


# --------------------------------------------------------------------- threads
def op_new_class() -> typing.Any:
    @t.PSType(["Made.Here"], rehydrate=False, adapted_properties=[t.PSNoteProperty("X", ps_type=t.PSInt64)])
    class Here(t.PSObject):
        pass

    x = Here(X=5)
    t.add_note_property(x, "Y", "y")
    return desc(parse(x)), desc(x)


def op_handshake() -> typing.Any:
    s = Session(1, False)
    for step in ("new", "open", "c2s", "s2c"):
        s.do(step)
    return s.log, s.snap()


def op_steps(*steps: str) -> typing.Callable[[], typing.Callable[[], typing.Any]]:
    """The session is made ready beforehand; the steps are what is interrupted."""

    def prepare() -> typing.Callable[[], typing.Any]:
        s = Session(1, False)
        s.do_ready()

        def go() -> typing.Any:
            for x in steps:
                s.do(x)
            return s.log, s.snap()

        return go

    return prepare


def op(fn: typing.Callable[[], typing.Any]) -> typing.Callable[[], typing.Callable[[], typing.Any]]:
    return lambda: fn


def text_of(v: typing.Any) -> str:
    return ET.tostring(t.serialize(v, None)).decode()


SHARED = {
    "tree": lambda: [custom(), {"a": lambda: [1.5, None, True, "x\n", t.PSChar("c")]}, t.PSInt64(5), t.PSDateTime(2020, 1, 2), t.PSDuration(days=1), t.PSVersion("1.2")],
    "records": lambda: [KINDS["error"](), KINDS["info"](), KINDS["progress"]()],
    "enums": lambda: [t.ConsoleColor.Red, t.ConsoleColor.Blue, t.ConsoleColor.Red, t.RemoteStreamOptions.AddInvocationInfo],
    "mine": lambda: [Mine(A=1), Again(A=2), Mine(A=3)],
}
OPS: typing.Dict[str, typing.Callable[[], typing.Callable[[], typing.Any]]] = {
    "write tree": op(lambda: text_of([custom(), {"a": [1.5, None, True, "x\n", t.PSChar("c")]}, t.PSDateTime(2020, 1, 2), t.PSDuration(days=1)])),
    "write records": op(lambda: text_of([KINDS["error"](), KINDS["info"](), KINDS["progress"]()])),
    "write enums": op(lambda: text_of([t.ConsoleColor.Red, t.ConsoleColor.Blue, t.ConsoleColor.Red, t.RemoteStreamOptions.AddInvocationInfo])),
    "write mine": op(lambda: text_of([Mine(A=1), Again(A=2), Mine(A=3), Plain()])),
    "read tree": op(lambda: desc(t.deserialize(ET.fromstring(ref(("text", "tree"), lambda: text_of(SHARED["tree"]()))), None))),
    "read records": op(lambda: desc(t.deserialize(ET.fromstring(ref(("text", "records"), lambda: text_of(SHARED["records"]()))), None))),
    "read enums": op(lambda: desc(t.deserialize(ET.fromstring(ref(("text", "enums"), lambda: text_of(SHARED["enums"]()))), None))),
    "read mine": op(lambda: desc(t.deserialize(ET.fromstring(ref(("text", "mine"), lambda: text_of(SHARED["mine"]()))), None))),
    "new class": op(op_new_class),
    "clixml": op(lambda: desc(psrpcore.ClixmlOutput.from_clixml("#< CLIXML\n" + t.serialize_clixml([("w", t.ClixmlStream.WARNING), custom()], None)))),
    "numbers": op(lambda: desc([t.PSInt(7) // 2, t.PSByte(250) + 5, t.PSDateTime(2020, 1, 2) - t.PSDateTime(2020, 1, 1), str(t.PSDuration(days=-1)),
                                t.PSVersion("1.2") < t.PSVersion("1.10")])),
    "handshake": op(op_handshake),
    "hcall": op_steps("hcall", "pcall", "s2c", "ans", "ans", "c2s"),
    "count": op_steps("max", "avail", "c2s", "resp", "resp", "s2c"),
    "key": op_steps("key", "c2s", "s2c", "sec", "secout", "c2s", "s2c"),
    "pipe": op_steps("input", "c2s", "out", "err", "stop", "s2c", "closep"),
    "link": op_steps("disc", "reconn", "s2c", "event", "connect", "c2s", "s2c", "broken", "s2c"),
}


LINES: typing.Dict[typing.Any, typing.Tuple[str, typing.Set[typing.Optional[int]]]] = {}


class Racer:
    """Runs one operation in a thread of its own that stops before the n-th of its new lines."""

    def __init__(self, go: typing.Callable[[], typing.Any], stop: typing.Optional[typing.Tuple[str, int, int]], traced: bool = True) -> None:
        self.go_fn = go
        self.stop = stop
        self.traced = traced
        self.result: typing.Any = None
        self.stopped = threading.Event()  # at the preemption point or at the end
        self.resume = threading.Event()
        self.done = threading.Event()
        self.hit = False
        self.points: typing.Dict[typing.Tuple[str, int], int] = {}
        self.thread = threading.Thread(target=self.main, daemon=True)

    def trace(self, frame, event, arg):
        code = frame.f_code
        if self.hit or not code.co_filename.startswith(SRC):
            return None
        if self.stop is not None:
            if code not in LINES:
                LINES[code] = (code.co_filename[len(SRC):], {ln for _, _, ln in code.co_lines()})
            f, lines = LINES[code]
            if f != self.stop[0] or self.stop[1] not in lines:
                return None
        return self.line

    def line(self, frame, event, arg):
        if self.hit:
            return None
        if event == "line":
            k = (frame.f_code.co_filename[len(SRC):], frame.f_lineno)
            n = self.points[k] = self.points.get(k, 0) + 1
            if self.stop is not None and not self.hit and k == self.stop[:2] and n == self.stop[2]:
                self.hit = True
                sys.settrace(None)
                self.stopped.set()
                self.resume.wait()
        return self.line

    def main(self) -> None:
        if self.traced:
            sys.settrace(self.trace)
        try:
            self.result = ("ok", self.go_fn())
        except BaseException as e:
            self.result = ("raised", type(e).__name__, str(e))
        finally:
            sys.settrace(None)
        self.done.set()
        self.stopped.set()


POINTS: typing.Dict[str, typing.List[typing.Tuple[str, int, int]]] = {}


def find_points(name: str) -> typing.List[typing.Tuple[str, int, int]]:
    r = Racer(OPS[name](), None)
    r.thread.start()
    r.thread.join()
    out = []
    for (f, ln), n in r.points.items():
        for i in sorted({1, 2, n} & set(range(1, n + 1))):
            out.append((f, ln, i))
    out.sort(key=lambda p: p[2])
    return out


def points(name: str) -> typing.List[typing.Tuple[str, int, int]]:
    if name not in POINTS:
        r = alone(lambda: find_points(name))
        POINTS[name] = r[1] if r[0] == "ok" else []
    return POINTS[name]


def solo_op(name: str) -> typing.Any:
    return ("ok", OPS[name]()())


def gen_threads(tier: str):
    names = list(OPS)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if tier == "quick" and (j - i) % len(names) not in (0, 1):
                continue
            n = len([p for p in points(a) if tier == "thorough" or p[2] <= (2 if a == b and not OPS[a].__qualname__.startswith("op_steps") else 1)])
            for k in range(0, n, 8):
                yield (a, b, k, min(n, k + 8))


def run_threads(case, ctx: Ctx) -> None:
    """a stops before each of its lines in turn, b runs from beginning to end, a goes on."""
    a, b, lo, hi = case
    want = {x: ref(("op", x), lambda: solo_op(x)) for x in {a, b}}
    for x in ("tree", "records", "enums", "mine"):
        ref(("text", x), lambda: text_of(SHARED[x]()))
    todo = points(a)[lo:hi]
    if a == b:  # each where nothing has run before
        for p in todo:
            forked(lambda: race(a, b, p, want))
    else:
        forked(lambda: [race(a, b, p, want) for p in todo] and None)
    for p in todo:
        ctx.step(2)
        ctx.state(a, b, p)
    ctx.outcome(a, b)


def race(a, b, p, want) -> None:
    ra, rb = Racer(OPS[a](), p), Racer(OPS[b](), None, False)
    ra.thread.start()
    ra.stopped.wait(20)
    rb.thread.start()
    rb.done.wait(1.0 if ra.hit else 20)  # it may have to wait for something a holds
    ra.resume.set()
    if not ra.done.wait(20) or not rb.done.wait(20):
        fail("%s and %s with a switch before %s line %d do not end", a, b, p[0], p[1])
    for x, r in ((a, ra), (b, rb)):
        if r.result != want[x]:
            fail("%s, %s interrupted at %s line %d (time %d): %s", x, a, *p, first_difference(want[x], r.result))


SCENARIOS = [
    Scenario("objects", gen_objects, run_objects, "all pairs of %d kinds of library objects: one changed in every way, one observed" % len(KINDS), 4),
    Scenario("sessions", gen_sessions, run_sessions, "all interleavings (quick: those with up to 3 switches after the first step) of the steps of all pairs of %d sessions of 5-7 steps" % len(SCRIPTS), 8, 60.0),
    Scenario("many", gen_many, run_many, "each session as the last of many (quick: 20 of each kind, thorough: 400), some unfinished, some kept", 1, 300.0),
    Scenario("threads", gen_threads, run_threads, "all pairs of %d operations in two threads, one preemption at every line reached (1st, 2nd, last time)" % len(OPS), 8, 120.0),
]

"""P23: what is sent is what the protocol describes, and what the protocol describes is understood."""
import base64
import itertools
import re
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc import wire
from mc.canon import canon, text
from mc.clixml import ANY, Dict, Enum, List, O, OneOf, Opt, T, differs, parse, write
from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import PIDS, RPID, deliver, drain, events, inject, open_pair, start_pair
from mc.values import NAMES, VALUES
from checks import p04, p09, p11, p12

RULE = (
    "every kind of message over products of its fields: what is sent is read by a strict, independent CLIXML reader and "
    "compared with the structure MS-PSRP gives (names, types, values, header); the same structures written by an independent "
    "writer with the fields in any order are received as what they say"
)
ASSUMPTIONS = [
    "the order of fields and dictionary entries, the numbering of objects and the type names of lists carry no meaning",
    "a count of runspaces may be written as I32 or I64",
    "the fields a receiver derives itself (positions as text, paths of the script) are not compared",
]
SMA = "System.Management.Automation."
LONG = [0, 1, -1, 5, 2**31 - 1]


class Box:
    """Everything a pool sends, with the envelope checked."""

    def __init__(self, pool: typing.Any, server: bool) -> None:
        self.pool, self.server = pool, server
        self.re = wire.Reassembler()
        self.payloads: typing.List[typing.Any] = []

    def take(self) -> typing.List[wire.Msg]:
        n = len(self.re.done)
        for p in drain(self.pool):
            self.payloads.append(p)
            k = len(self.re.done)
            self.re.feed(p.data)
            for _, blob in self.re.done[k:]:
                m = wire.msg(blob)
                same(m.pid, p.pipeline_id, "pipeline of the payload and of the message")
                same(m.dest, 1 if self.server else 2, "destination of a " + m.type)
                if not (self.server and m.type == "SessionCapability" and m.rpid.int == 0):  # as PowerShell does
                    same(m.rpid, RPID, "pool of a " + m.type)
        return [wire.msg(b) for _, b in self.re.done[n:]]

    def move(self, to: typing.Any) -> typing.List[typing.Any]:
        self.take()
        for p in self.payloads:
            to.receive_data(p)
        self.payloads.clear()
        return events(to)


def look(m: wire.Msg, typ: str, pid: typing.Any, tree: typing.Any) -> None:
    same((m.type, m.pid), (typ, pid), "message")
    d = differs(parse(m.data), tree, typ)
    expect(d is None, "%s", d)


# ------------------------------------------------------------------ trees
def value(v: typing.Any) -> typing.Any:
    """Tree of a plain value."""
    if v is None or isinstance(v, bool) or type(v) is str:
        return v
    if type(v) is int:
        return v if -(2**31) <= v < 2**31 else T("I64", v)
    if isinstance(v, float):
        return T("Sg", ANY)
    if isinstance(v, t.PSVersion):
        return T("Version", str(v))
    if isinstance(v, uuid.UUID):
        return T("G", str(v))
    if isinstance(v, bytes):
        return T("BA", base64.b64encode(v).decode())
    if isinstance(v, list):
        return List(*[value(x) for x in v])
    if isinstance(v, dict):
        return Dict([(value(k), value(x)) for k, x in v.items()])
    return T("DT", ANY)


def size(x: typing.Any) -> O:
    return O({"width": int(x.Width), "height": int(x.Height)})


def coord(x: typing.Any) -> O:
    return O({"x": int(x.X), "y": int(x.Y)})


def host_tree(spec: typing.Any) -> O:
    """HostInfo, MS-PSRP 2.2.3.14."""
    flags, k = spec if spec is not None else (15, None)
    ms: typing.Dict[str, typing.Any] = {n: bool(flags & (1 << i)) for i, n in enumerate(("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"))}
    if k is not None:
        h = p04.host_default(k)
        H = SMA + "Host."
        data = [
            (0, "System.ConsoleColor", int(h.ForegroundColor.value)), (1, "System.ConsoleColor", int(h.BackgroundColor.value)),
            (2, H + "Coordinates", coord(h.CursorPosition)), (3, H + "Coordinates", coord(h.WindowPosition)), (4, "System.Int32", int(h.CursorSize)),
            (5, H + "Size", size(h.BufferSize)), (6, H + "Size", size(h.WindowSize)), (7, H + "Size", size(h.MaxWindowSize)),
            (8, H + "Size", size(h.MaxPhysicalWindowSize)), (9, "System.String", str(h.WindowTitle)),
        ]
        ms["_hostDefaultData"] = O({"data": Dict([(i, O({"T": n, "V": v})) for i, n, v in data])})
    return O(ms)


def capability(**kw: typing.Any) -> O:
    return O({"PSVersion": T("Version", "2.0"), "protocolversion": T("Version", "2.3"), "SerializationVersion": T("Version", "1.1.0.1"), "TimeZone": Opt(None), **kw})


PRIMD = [SMA + "PSPrimitiveDictionary", "System.Collections.Hashtable", "System.Object"]


def init_tree(cfg: typing.Any) -> O:
    ap, th, cnt, args, hs = cfg
    a = p04.pick(p04.ARGS, args)
    lo, hi = p04.pick(p04.COUNTS, cnt)
    return O({
        "MinRunspaces": lo, "MaxRunspaces": hi, "PSThreadOptions": Enum(SMA + "Runspaces.PSThreadOptions", th), "ApartmentState": Enum("System.Threading.ApartmentState", ap),
        "HostInfo": host_tree(hs), "ApplicationArguments": Dict([(value(k), value(v)) for k, v in (a or {}).items()], tn=PRIMD),
    })


def apd_tree(apd: typing.Any) -> O:
    d = [(value(k), value(v)) for k, v in (p04.pick(p04.APD, apd) or {}).items()]
    for k, v in d:
        if k == "PSVersionTable" and isinstance(v, O):
            v.more = True  # the server adds what it knows
    return O({"ApplicationPrivateData": Dict(d, tn=PRIMD, more=True)})


def state_tree(kind: str, v: int, err: typing.Any = None) -> O:
    return O({kind: v, "ExceptionAsErrorRecord": Opt(err)})


# ------------------------------------------------------------------ the handshake
def gen_handshake(tier: str):
    for x in itertools.chain(p04.gen_config(tier), p04.gen_hosts(tier)):
        if x[3] == "open" and x[2] in (None, 500):
            yield x[:2]


def run_handshake(case, ctx: Ctx) -> None:
    cfg, apd = case
    c = p04.make_client(cfg)
    kw = {} if p04.pick(p04.APD, apd) is None else {"application_private_data": p04.copy(p04.pick(p04.APD, apd))}
    s = psrpcore.ServerRunspacePool(**kw)
    cb, sb = Box(c, False), Box(s, True)
    c.open()
    ms = cb.take()
    same([m.type for m in ms], ["SessionCapability", "InitRunspacePool"], "messages that open a pool")
    look(ms[0], "SessionCapability", None, capability())
    look(ms[1], "InitRunspacePool", None, init_tree(cfg))
    cb.move(s)
    ms = sb.take()
    same([m.type for m in ms], ["SessionCapability", "ApplicationPrivateData", "RunspacePoolState"], "answer to an opened pool")
    look(ms[0], "SessionCapability", None, capability())
    look(ms[1], "ApplicationPrivateData", None, apd_tree(apd))
    look(ms[2], "RunspacePoolState", None, state_tree("RunspaceState", 2))
    sb.move(c)
    # another client connects
    n = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    nb = Box(n, False)
    n.connect()
    ms = nb.take()
    same([m.type for m in ms], ["SessionCapability", "ConnectRunspacePool"], "messages that connect a pool")
    look(ms[0], "SessionCapability", None, capability())
    expect(differs(parse(ms[1].data), "") is None or differs(parse(ms[1].data), O({"MinRunspaces": ANY, "MaxRunspaces": ANY})) is None, "body of ConnectRunspacePool: %s", ms[1].data)
    nb.move(s)
    ms = sb.take()
    got = {m.type: m for m in ms}
    lo, hi = p04.pick(p04.COUNTS, cfg[2])
    look(got["RunspacePoolInitData"], "RunspacePoolInitData", None, O({"MinRunspaces": lo, "MaxRunspaces": hi}))
    look(got["ApplicationPrivateData"], "ApplicationPrivateData", None, apd_tree(apd))
    if "SessionCapability" in got:
        look(got["SessionCapability"], "SessionCapability", None, capability())
    if "RunspacePoolState" in got:
        look(got["RunspacePoolState"], "RunspacePoolState", None, state_tree("RunspaceState", 2))
    ctx.step(3)
    ctx.state(repr(case))
    ctx.outcome(tuple(m.type for m in ms))


# ------------------------------------------------------------------ the handshake of another implementation
def gen_foreign(tier: str):
    for x in gen_handshake(tier):
        for turn in (0, -1, 1, 3) if tier == "quick" else (0, -1, 1, 2, 3, 4, 5):
            if tier == "quick" and turn and (sum(x[0][:4]) + x[1]) % 3 != turn % 3:
                continue
            yield (*x, turn, (turn + x[1]) % 2 == 0)


def run_foreign(case, ctx: Ctx) -> None:
    cfg, apd, turn, extra = case
    cap = write(capability(PSVersion=T("Version", "5.1"), TimeZone=Opt(T("BA", "AAEAAAD/////AQAAAA==") if extra else None)), turn, extra)
    s = psrpcore.ServerRunspacePool()
    inject(s, True, "SessionCapability", cap, rpid=RPID, oid=1)
    a, h, dts = p04.ARGS[cfg[3]] if isinstance(cfg[3], int) else cfg[3], cfg[4], "2021-02-03T04:05:06.0000078Z"
    tree = init_tree(cfg)
    for i, (k, v) in enumerate(tree.ms["ApplicationArguments"].items):
        if isinstance(v, T) and v.value is ANY:
            tree.ms["ApplicationArguments"].items[i] = (k, T(v.tag, "1.5" if v.tag == "Sg" else dts))
    inject(s, True, "InitRunspacePool", write(tree, turn, extra, refs=turn == 0, early=turn != 1), rpid=RPID, oid=2)
    events(s)
    lo, hi = p04.pick(p04.COUNTS, cfg[2])
    same((int(s.min_runspaces), int(s.max_runspaces)), (lo, hi), "runspace counts")
    same((canon(s.apartment_state), canon(s.thread_options)), (("ApartmentState", cfg[0]), ("PSThreadOptions", cfg[1])), "settings")
    same(canon(s.host), canon(p04.host(h) or t.HostInfo()), "host")
    same(sorted(map(repr, p04.data(s.application_arguments))), sorted(map(repr, p04.data(a or {}))), "application arguments")
    same(canon(s.their_capability.PSVersion), canon(t.PSVersion("5.1")), "version of the peer")
    # the server's part
    c = p04.make_client(cfg)
    c.open()
    drain(c)
    inject(c, False, "SessionCapability", cap, oid=1)
    at = apd_tree(apd)
    inject(c, False, "ApplicationPrivateData", write(at, turn, extra), oid=2)
    inject(c, False, "RunspacePoolState", write(state_tree("RunspaceState", 2), turn, extra), oid=3)
    events(c)
    same(canon(c.state), ("RunspacePoolState", 2), "state of the client")
    same(sorted(map(repr, p04.data(c.application_private_data))), sorted(map(repr, p04.data(p04.pick(p04.APD, apd) or {}))), "application private data")
    n = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    n.connect()
    drain(n)
    inject(n, False, "SessionCapability", cap, oid=1)
    inject(n, False, "RunspacePoolInitData", write(O({"MinRunspaces": lo, "MaxRunspaces": hi}), turn, extra), oid=2)
    inject(n, False, "ApplicationPrivateData", write(at, turn, extra), oid=3)
    events(n)
    same((canon(n.state), int(n.min_runspaces), int(n.max_runspaces)), (("RunspacePoolState", 2), lo, hi), "connected client")
    ctx.step(6)
    ctx.state(repr(case))


# ------------------------------------------------------------------ messages of an opened pool
def pool_ops():
    for v in (1, 2, 7, 2**31 - 1):
        yield ("max", v)
        if v < 3:
            yield ("min", v)
    yield ("get",)
    yield ("reset",)
    for ok in (True, False):
        yield ("ok", ok)
    for v in (0, 1, 2**31 - 1, 2**31, 2**40):
        yield ("count", v)
    yield ("key",)
    yield ("want-key",)
    yield ("event",)


def gen_pool(tier: str):
    ops = list(pool_ops())
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for seq in itertools.product(ops if n < 3 else ops[::2] if tier == "quick" or n == 4 else ops, repeat=n):
            yield seq


def run_pool(seq, ctx: Ctx) -> None:
    c, s = open_pair({"max_runspaces": 3})
    cb, sb = Box(c, False), Box(s, True)
    ci = 0
    key = asked = False
    for o in seq:
        kind = o[0]
        if kind in ("max", "min", "get", "reset", "ok", "count"):
            ci += 1
            if kind == "max":
                got, typ, f = c.set_max_runspaces(o[1]), "SetMaxRunspaces", {"MaxRunspaces": o[1]}
            elif kind == "min":
                got, typ, f = c.set_min_runspaces(o[1]), "SetMinRunspaces", {"MinRunspaces": o[1]}
            elif kind == "ok":
                got, typ, f = c.set_max_runspaces(100 + ci), "SetMaxRunspaces", {"MaxRunspaces": 100 + ci}
            elif kind == "reset":
                got, typ, f = c.reset_runspace_state(), "ResetRunspaceState", {}
            else:
                got, typ, f = c.get_available_runspaces(), "GetAvailableRunspaces", {}
            if got is None:  # nothing to change
                ci -= 1
                same(cb.take(), [], "messages")
                continue
            ms = cb.take()
            same(len(ms), 1, "messages")
            look(ms[0], typ, None, O({**f, "ci": T("I64", int(got))}))
            ev = cb.move(s)
            if kind in ("ok", "count"):
                s.runspace_availability_response(ev[0].ci, o[1])
                ms = sb.take()
                same(len(ms), 1, "answers")
                look(ms[0], "RunspaceAvailability", None, O({"SetMinMaxRunspacesResponse": o[1] if kind == "ok" else OneOf(T("I64", o[1]), o[1]), "ci": T("I64", int(got))}))
                sb.move(c)
        elif kind == "key":
            c.exchange_key()
            ms = cb.take()
            same(len(ms), 0 if key else 1, "messages of a key exchange")
            if not key:
                look(ms[0], "PublicKey", None, O({"PublicKey": ANY}))
                blob = base64.b64decode(parse(ms[0].data).ms["PublicKey"], validate=True)
                # PUBLICKEYSTRUC + RSAPUBKEY of a 2048 bit key, exponent 65537
                same((blob[:8].hex(), blob[8:12], int.from_bytes(blob[12:16], "little"), int.from_bytes(blob[16:20], "little"), len(blob)),
                     ("06020000" + "00a40000", b"RSA1", 2048, 65537, 20 + 256), "public key blob")
            cb.move(s)
            ms = sb.take()
            same(len(ms), 0 if key else 1, "answer of a key exchange")
            if not key:
                look(ms[0], "EncryptedSessionKey", None, O({"EncryptedSessionKey": ANY}))
                blob = base64.b64decode(parse(ms[0].data).ms["EncryptedSessionKey"], validate=True)
                same((blob[:8].hex(), blob[8:12].hex(), len(blob)), ("01020000" + "10660000", "00a40000", 12 + 256), "session key blob")
            sb.move(c)
            key = True
        elif kind == "want-key":
            s.request_key()
            ms = sb.take()
            expect(len(ms) == (0 if key else 1) or (asked and not ms), "%d messages ask for a key", len(ms))
            asked = True
            if ms:
                look(ms[0], "PublicKeyRequest", None, "")
                sb.payloads.clear()
        else:
            s.send_event(7, "sid", sender="x", source_args=[1, "a"], message_data=True, computer="cn")
            ms = sb.take()
            same(len(ms), 1, "events sent")
            look(ms[0], "UserEvent", None, O({
                "PSEventArgs.EventIdentifier": 7, "PSEventArgs.SourceIdentifier": "sid", "PSEventArgs.TimeGenerated": T("DT", ANY), "PSEventArgs.Sender": "x",
                "PSEventArgs.SourceArgs": List(1, "a"), "PSEventArgs.MessageData": True, "PSEventArgs.ComputerName": "cn", "PSEventArgs.RunspaceId": T("G", str(RPID)),
            }))
        ctx.step()
    ctx.state(seq)


# ------------------------------------------------------------------ host messages
STRUCTS = {
    "Coordinates": ("x", "y"), "Size": ("width", "height"), "Rectangle": ("left", "top", "right", "bottom"),
    "BufferCell": ("character", "foregroundColor", "backgroundColor", "bufferCellType"), "ChoiceDescription": ("label", "helpMessage"),
    "KeyInfo": ("virtualKeyCode", "character", "controlKeyState", "keyDown"),
}


def hv(s: typing.Any) -> typing.Any:
    """Tree of an argument or result of a host method, MS-PSRP 2.2.6.1."""
    if not isinstance(s, tuple):
        return s
    n, a = s[0], s[1:]
    if s == p09.ANY_COLOR:
        return OneOf(*range(16))
    if n == "list":
        if a and all(isinstance(x, tuple) and x[:1] == ("list",) and len(x) > 1 and x[1][0] == "BufferCell" for x in a):
            return O({"mae": List(*[hv(y) for x in a for y in x[1:]]), "mal": List(len(a), len(a[0]) - 1)})
        return List(*[hv(x) for x in a])
    if n == "dict":
        return Dict([(hv(k), hv(v)) for k, v in a])
    if n in p09.ENUMS:
        return a[0]
    if n == "PSChar":
        return T("C", a[0])
    if n == "PSVersion":
        return T("Version", ".".join(map(str, a)))
    if n == "PSGuid":
        return T("G", str(uuid.UUID(int=a[0])))
    if n == "PSInt64":
        return T("I64", a[0])
    if n == "PSSecureString":
        return T("SS", ANY)
    if n in STRUCTS:
        return O({k: hv(v) for k, v in zip(STRUCTS[n], a)})
    if n == "PSCredential":
        return OneOf(O({"UserName": a[0], "Password": hv(a[1])}), O(props={"UserName": a[0], "Password": hv(a[1])}))
    if n == "FieldDescription":
        return O({"name": a[0], "parameterTypeName": a[1], "parameterTypeFullName": a[2], "parameterAssemblyFullName": a[3], "label": OneOf("", None) if a[4] is None else a[4], "helpMessage": OneOf("", None) if a[5] is None else a[5], "isMandatory": a[6],
                  "metadata": ANY, "modifiedByRemotingProtocol": False, "isFromRemoteHost": False})
    expect(n == "ProgressRecord", "no tree for %s", n)
    return O({"Activity": a[0], "ActivityId": a[1], "StatusDescription": a[2], "CurrentOperation": a[3], "ParentActivityId": a[4], "PercentComplete": a[5],
              "Type": Enum(SMA + "ProgressRecordType", a[6][1]), "SecondsRemaining": a[7]})


MINUM = {m: i + 1 for i, m in enumerate(
    "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication ReadLine "
    "ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 "
    "PromptForCredential2 PromptForChoice GetForegroundColor SetForegroundColor GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition "
    "SetWindowPosition GetCursorSize SetCursorSize GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize "
    "GetKeyAvailable ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed GetRunspace "
    "PromptForChoiceMultipleSelection".split())}
VOID = {6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 28, 30, 32, 34, 36, 38, 40, 42, 47, 48, 49, 51, 52, 53}


def mi_tree(name: str) -> O:
    return Enum(SMA + "Remoting.RemoteHostMethodId", MINUM[name], name)


def call_tree(name: str, exp: typing.Any, ci: int) -> O:
    return O({"ci": T("I64", ci), "mi": mi_tree(name), "mp": List(*[hv(x) for x in exp])})


def run_call(case, ctx: Ctx) -> None:
    m, kw, mi, exp = case
    w = p09.world()
    c, s, cp, sp = w
    sb = Box(s, True)
    for who in (s, sp):
        ci = getattr(psrpcore.ServerHostRequestor(who), m)(**{k: p09.mk(v) for k, v in kw})
        same(ci is None, MINUM[mi] in VOID, "whether %s is answered" % mi)
        ms = sb.take()
        same(len(ms), 1, "messages")
        look(ms[0], "RunspacePoolHostCall" if who is s else "PipelineHostCall", None if who is s else PIDS[0], call_tree(mi, exp, -100 if ci is None else int(ci)))
        ev = sb.move(c)
        if ci is not None:
            c.host_response(ev[0].ci)
            deliver(c, s)
        ctx.step()
    p09._CACHE["w"] = w
    ctx.state("call", case)
    ctx.outcome(mi)


def run_answer(case, ctx: Ctx) -> None:
    req, reqkw, m, kw, exp = case
    w = p09.world()
    c, s, cp, sp = w
    cb = Box(c, False)
    for who, back in ((s, c), (sp, cp)):
        ci = getattr(psrpcore.ServerHostRequestor(who), req)(**{k: p09.mk(v) for k, v in reqkw})
        ev = deliver(s, c)
        getattr(psrpcore.ClientHostResponder(back), m)(ev[0].ci, **{k: p09.mk(v) for k, v in kw})
        ms = cb.take()
        same(len(ms), 1, "messages")
        look(ms[0], "RunspacePoolHostResponse" if who is s else "PipelineHostResponse", None if who is s else PIDS[0],
             O({"ci": T("I64", int(ci)), "mi": mi_tree(ev[0].method_identifier.name), "mr": hv(exp), "me": Opt(None)}))
        cb.move(s)
        ctx.step()
    p09._CACHE["w"] = w
    ctx.state("answer", case)
    ctx.outcome(m)


def turned(cases: typing.Callable, every: int):
    def gen(tier: str):
        for i, x in enumerate(cases("quick")):
            if tier == "quick" and i % every:
                continue
            for turn in (0, -1, 1) if tier == "quick" else (0, -1, 1, 2, 3, 5):
                yield (x, turn, (i + turn) % 2 == 0)

    return gen


def has(x: typing.Any, what: typing.Any) -> bool:
    return x == what or (isinstance(x, tuple) and (x[:1] == what or any(has(y, what) for y in x)))


def run_foreign_call(case, ctx: Ctx) -> None:
    (m, kw, mi, exp), turn, extra = case
    w = p09.world()
    c, s, cp, sp = w
    # PowerShell leaves the label and the help message of a field empty when there is none
    exp = tuple(p09.color(7) if x == p09.ANY_COLOR else received(x) for x in exp)
    for k, (typ, pid, back) in enumerate((("RunspacePoolHostCall", None, c), ("PipelineHostCall", PIDS[0], cp))):
        ci = -100 if MINUM[mi] in VOID else 900 + k
        tree = call_tree(mi, exp, ci)
        inject(c, False, typ, write(named(tree), turn, extra, refs=turn == 0, early=turn != 1), pid=pid, oid=10**6 + next(COUNT))
        ev = events(c)
        same([type(e).__name__ for e in ev], [typ + "Event"], "events")
        e = ev[0]
        same((int(e.ci), e.method_identifier.name, e.pipeline_id), (ci, mi, pid), "call")
        got = [p09.d(p) for p in e.method_parameters]
        same(len(got), len(exp), "number of parameters")
        for i, (a, b) in enumerate(zip(got, exp)):
            b = received(p09.specs(b))
            expect(p09.match(a, b), "parameter %s of %s: expected %.400r, got %.400r", i, mi, b, a)
        if ci > 0:
            back.host_response(ci)
            drain(c)
        ctx.step()
    p09._CACHE["w"] = w
    ctx.state(case)


def received(s: typing.Any) -> typing.Any:
    if isinstance(s, tuple):
        if s[:1] == ("FieldDescription",):
            return (*s[:5], s[5] or "", s[6] or "", s[7])
        return tuple(received(x) for x in s)
    return s


def named(tree: typing.Any) -> typing.Any:
    """Gives lists the type names another implementation uses and unknowns a value."""
    if isinstance(tree, O):
        if tree.kind == "LST" and tree.tn is None:
            tree.tn = ["System.Collections.ArrayList", "System.Object"]
        if tree.kind == "DCT" and tree.tn is None:
            tree.tn = ["System.Collections.Hashtable", "System.Object"]
        for d in (tree.ms, tree.props):
            for k in d:
                d[k] = List(tn=["System.Collections.ObjectModel.Collection`1[[System.Attribute]]", "System.Object"]) if d[k] is ANY else named(d[k])
        if tree.kind == "DCT":
            tree.items = [(named(a), named(b)) for a, b in tree.items]
        elif tree.items:
            tree.items = [named(a) for a in tree.items]
    elif isinstance(tree, OneOf):
        for a in tree.alts:
            named(a)
    elif isinstance(tree, Opt):
        return Opt(named(tree.value))
    return tree


COUNT = itertools.count()


def no_secret(cases: typing.Callable):
    """Encrypted answers cannot be written without the session key."""
    def gen(tier: str):
        for x in cases(tier):
            if not has(x[-1], ("PSSecureString",)):
                yield x

    return gen


def run_foreign_answer(case, ctx: Ctx) -> None:
    (req, reqkw, m, kw, exp), turn, extra = case
    w = p09.world()
    c, s, cp, sp = w
    for who, typ, pid in ((s, "RunspacePoolHostResponse", None), (sp, "PipelineHostResponse", PIDS[0])):
        ci = getattr(psrpcore.ServerHostRequestor(who), req)(**{k: p09.mk(v) for k, v in reqkw})
        e = deliver(s, c)[0]
        tree = O({"ci": T("I64", int(ci)), "mi": mi_tree(e.method_identifier.name), "mr": hv(exp)})
        inject(s, True, typ, write(named(tree), turn, extra, refs=turn == 0, early=turn != 1), pid=pid, oid=10**6 + next(COUNT))
        ev = events(s)
        same([(type(x).__name__, int(x.ci), x.pipeline_id) for x in ev], [(typ + "Event", int(ci), pid)], "events")
        got, want = p09.d(ev[0].result), p09.specs(exp)
        if isinstance(want, tuple) and want[0] == "dict":  # entries were moved about
            same(isinstance(got, tuple) and sorted(map(repr, got)), sorted(map(repr, want)), "result of " + m)
        else:
            expect(p09.match(got, want), "result of %s: expected %.400r, got %.400r", m, want, got)
        c.host_response(int(ci))
        drain(c)
        ctx.step()
    p09._CACHE["w"] = w
    ctx.state(case)


# ------------------------------------------------------------------ records
def vtree(name: typing.Optional[str]) -> typing.Any:
    return None if name is None or name == "none" else ANY


def inv_fields(spec: dict) -> typing.Dict[str, typing.Any]:
    g = {k: spec.get(k) for k in p12.INV}
    out: typing.Dict[str, typing.Any] = {
        "InvocationInfo_BoundParameters": ANY, "InvocationInfo_UnboundArguments": ANY,
        "InvocationInfo_CommandOrigin": ANY if g["CommandOrigin"] is None else Enum(SMA + "CommandOrigin", g["CommandOrigin"]),
        "InvocationInfo_ExpectingInput": g["ExpectingInput"], "InvocationInfo_InvocationName": g["InvocationName"],
        "InvocationInfo_Line": OneOf(g["Line"], "") if g["Line"] is None else g["Line"], "InvocationInfo_OffsetInLine": g["OffsetInLine"],
        "InvocationInfo_HistoryId": None if g["HistoryId"] is None else T("I64", g["HistoryId"]), "InvocationInfo_PipelineLength": g["PipelineLength"],
        "InvocationInfo_PipelinePosition": g["PipelinePosition"], "InvocationInfo_ScriptLineNumber": g["ScriptLineNumber"], "InvocationInfo_ScriptName": g["ScriptName"],
    }
    m = g["MyCommand"]
    if m is not None:
        out.update({
            "CommandInfo_CommandType": Enum(SMA + "CommandTypes", m[0]), "CommandInfo_Definition": m[2], "CommandInfo_Name": m[1],
            "CommandInfo_Visibility": Enum(SMA + "SessionStateEntryVisibility", m[3]),
        })
    e = g["DisplayScriptPosition"]
    if e is None:
        out["SerializeExtent"] = False
    else:
        out.update({"SerializeExtent": True, "ScriptExtent_File": e[0], "ScriptExtent_StartLineNumber": e[1], "ScriptExtent_StartColumnNumber": e[2],
                    "ScriptExtent_EndLineNumber": e[3], "ScriptExtent_EndColumnNumber": e[4]})
    return out


def iter_field(name: str, it: typing.Any) -> typing.Dict[str, typing.Any]:
    return {} if it is None else {name: List(*it)}


def gen_records(tier: str):
    for kind, g in (("info", p12.gen_info), ("error", p12.gen_error), ("progress", p12.gen_progress), ("information", p12.gen_information), ("event", p12.gen_user)):
        for i, x in enumerate(g("quick")):
            if tier != "quick" or i < 400 or i % 5 == 0:
                yield (kind, x)


def exc_tree(k: int) -> typing.Any:
    e = p12.EXC[k]
    inner = O(props={"Message": "inner", "HResult": 5}, more=True, tn="System.Exception") if "InnerException" in e else None
    return O(props={"Message": e["Message"], "HResult": e.get("HResult"), "Source": e.get("Source"), "StackTrace": e.get("StackTrace"), "HelpLink": e.get("HelpLink"),
                    "TargetSite": e.get("TargetSite"), "Data": Dict([("k", 1)]) if "Data" in e else None, "InnerException": inner})


def err_tree(s: dict) -> O:
    c = s["cat"] or (0, None, None, None, None)
    ex = exc_tree(s["exc"][0])
    ex.tn = "My.Exception" if s["exc"][1] else "System.Exception"
    d = s["det"]
    ms: typing.Dict[str, typing.Any] = {
        "Exception": ex, "TargetObject": vtree(s["target"]), "FullyQualifiedErrorId": s["fqid"], "InvocationInfo": ANY, "ErrorCategory_Category": c[0], "ErrorCategory_Activity": c[1],
        "ErrorCategory_Reason": c[2], "ErrorCategory_TargetName": c[3], "ErrorCategory_TargetType": c[4], "SerializeExtendedInfo": s["inv"] is not None,
        "ErrorCategory_Message": "%s (%s:%s) [%s], %s" % (t.ErrorCategory(c[0]).name, c[3] or "", c[4] or "", c[1] or "", c[2] or ""),
        "ErrorDetails_Message": Opt(d[0] if d else None), "ErrorDetails_RecommendedAction": Opt(d[1] if d else None), "ErrorDetails_ScriptStackTrace": Opt(s["trace"]),
    }
    more = False
    if s["inv"] is not None:
        ms.update(inv_fields(s["inv"]))
        ms.update(iter_field("PipelineIterationInfo", s["it"]))
        more = True
    return O(ms, tn=SMA + "ErrorRecord", text=(d or ("",))[0] or p12.EXC[s["exc"][0]]["Message"], more=more)


def run_record(case, ctx: Ctx) -> None:
    kind, x = case
    c, s, cp, sp = p12.world()
    sb = Box(s, True)
    pid: typing.Any = PIDS[0]
    if kind == "info":
        k, msg, inv, it = x
        kw: typing.Dict[str, typing.Any] = {}
        if inv is not None:
            kw["invocation_info"] = p12.inv_make(inv)
        if it is not None:
            kw["pipeline_iteration_info"] = list(it)
        getattr(sp, "write_" + k)(msg, **kw)
        typ = k.capitalize() + "Record"
        ms: typing.Dict[str, typing.Any] = {"InformationalRecord_Message": msg, "InformationalRecord_SerializeInvocationInfo": inv is not None}
        if inv is not None:
            ms.update(inv_fields(inv))
            ms.update(iter_field("InformationalRecord_PipelineIterationInfo", it))
        tree = O(ms, tn=[SMA + typ, SMA + "InformationalRecord", "System.Object"], more=inv is not None)
    elif kind == "error":
        sp.write_error(**p12.err_kwargs(x))
        typ, tree = "ErrorRecord", err_tree(x)
    elif kind == "progress":
        kw = {k: v for k, v in x.items() if v is not None}
        if "record_type" in kw:
            kw["record_type"] = t.ProgressRecordType(kw["record_type"])
        sp.write_progress(**kw)
        w = {k: (p12.PDEF.get(k) if v is None else v) for k, v in x.items()}
        typ = "ProgressRecord"
        tree = O({"Activity": w["activity"], "ActivityId": w["activity_id"], "StatusDescription": w["status_description"], "CurrentOperation": w["current_operation"],
                  "ParentActivityId": w["parent_activity_id"], "PercentComplete": w["percent_complete"], "Type": Enum(SMA + "ProgressRecordType", w["record_type"]),
                  "SecondsRemaining": w["seconds_remaining"]})
    elif kind == "information":
        sp.write_information(**p12.info_kwargs(x))
        typ = "InformationRecord"

        def u32(v: typing.Any, de: typing.Any = ANY) -> typing.Any:
            return T("U32", de if v is None else v)

        tree = O({"MessageData": vtree(x["message_data"]), "Source": x["source"], "TimeGenerated": T("DT", ANY), "Tags": List(*(x["tags"] or ())), "User": ANY if x["user"] is None else x["user"],
                  "Computer": ANY if x["computer"] is None else x["computer"], "ProcessId": u32(x["process_id"]), "NativeThreadId": u32(x["native_thread_id"]),
                  "ManagedThreadId": u32(x["managed_thread_id"], 0)})
    else:
        kw = {k: v for k, v in x.items() if v is not None}
        for k in ("sender", "message_data"):
            if k in kw:
                kw[k] = VALUES[kw[k]]()
        if "source_args" in kw:
            kw["source_args"] = [VALUES[y]() for y in kw["source_args"]]
        if "time_generated" in kw:
            kw["time_generated"] = p12.dt(kw["time_generated"])
        s.send_event(**kw)
        typ, pid = "UserEvent", None
        tree = O({
            "PSEventArgs.EventIdentifier": x["event_identifier"], "PSEventArgs.SourceIdentifier": x["source_identifier"], "PSEventArgs.TimeGenerated": T("DT", ANY),
            "PSEventArgs.Sender": vtree(x["sender"]), "PSEventArgs.SourceArgs": List(*[vtree(y) for y in x["source_args"] or ()]), "PSEventArgs.MessageData": vtree(x["message_data"]),
            "PSEventArgs.ComputerName": ANY if x["computer"] is None else x["computer"], "PSEventArgs.RunspaceId": T("G", str(RPID)),
        })
    m = sb.take()
    same(len(m), 1, "messages")
    look(m[0], typ, pid, tree)
    ctx.step()
    ctx.state(kind, repr(x))
    ctx.outcome(kind)


# ------------------------------------------------------------------ states, input, output, several messages
def gen_data(tier: str):
    for n in NAMES:
        for how in ("out", "in", "arg"):
            yield (how, (n,))
    for p in itertools.product(NAMES, repeat=2):
        yield ("out", p)
        yield ("same", p)
    for how in ("complete", "stop", "close", "broken", "closed", "eof"):
        yield (how, ())


def run_data(case, ctx: Ctx) -> None:
    how, ns = case
    c, s = open_pair()
    if how == "arg":
        cp = psrpcore.ClientPowerShell(c, pipeline_id=PIDS[0])
        v = VALUES[ns[0]]()
        cp.add_command("a").add_parameter("p", v).add_argument(v)
        psrpcore.ServerPipeline(s, PIDS[0])
        cp.start()
        ms = Box(c, False).take()
        same([(m.type, m.pid) for m in ms], [("CreatePipeline", PIDS[0])], "messages")
        parse(ms[0].data)
        ctx.state(case)
        return
    cp, sp = start_pair(c, s, PIDS[0], no_input=False)
    cb, sb = Box(c, False), Box(s, True)
    if how in ("out", "same"):
        vals = [VALUES[n]() for n in ns]
        if how == "same":  # the same objects again in another message
            vals = vals + vals + [list(vals)]
        for v in vals:
            sp.write_output(v)
        ms = sb.take()
        same([m.type for m in ms], ["PipelineOutput"] * len(vals), "messages")
        first: typing.Dict[int, bytes] = {}
        for m, v in zip(ms, vals):
            if m.data:
                parse(m.data)
            else:
                same(v, None, "value sent as nothing")
            if v is not None:
                same(first.setdefault(id(v), m.data), m.data, "the same value in two messages")
    elif how == "in":
        cp.send(VALUES[ns[0]]())
        ms = cb.take()
        same([m.type for m in ms], ["PipelineInput"], "messages")
        parse(ms[0].data)
    elif how == "eof":
        cp.send_eof()
        same([(m.type, m.pid, m.data) for m in cb.take()], [("EndOfPipelineInput", PIDS[0], b"")], "end of input")
    elif how == "complete":
        sp.complete()
        ms = sb.take()
        same(len(ms), 1, "messages")
        look(ms[0], "PipelineState", PIDS[0], state_tree("PipelineState", 4))
    elif how == "stop":
        sp.stop()
        ms = sb.take()
        same(len(ms), 1, "messages")
        look(ms[0], "PipelineState", PIDS[0], state_tree("PipelineState", 3, O(tn=SMA + "ErrorRecord", text="The pipeline has been stopped.", more=True, ms={
            "Exception": O(tn=[SMA + "PipelineStoppedException", SMA + "RuntimeException", "System.SystemException", "System.Exception", "System.Object"], more=True,
                           props={"Message": "The pipeline has been stopped."}),
            "FullyQualifiedErrorId": "PipelineStopped", "ErrorCategory_Category": 14, "ErrorCategory_Reason": "PipelineStoppedException", "TargetObject": None})))
    elif how == "broken":
        s.set_broken(t.ErrorRecord(Exception=t.NETException(Message="boo"), CategoryInfo=t.ErrorCategoryInfo(Category=t.ErrorCategory.DeviceError)))
        ms = [m for m in sb.take() if m.type == "RunspacePoolState"]
        same(len(ms), 1, "messages")
        look(ms[0], "RunspacePoolState", None, state_tree("RunspaceState", 5, O(
            tn=SMA + "ErrorRecord", text="boo", more=True, ms={"Exception": O(props={"Message": "boo"}, more=True), "ErrorCategory_Category": 3})))
    ctx.step()
    ctx.state(case)
    ctx.outcome(how)


# ------------------------------------------------------------------ pipelines
STREAMS = ["error", "warning", "verbose", "debug", "information"]
CMDS: typing.List[typing.Tuple] = [
    # text, script, local scope, parameters, redirections, unclaimed, end of statement
    ("Get-Item", False, None, (), (), False, False),
    ("a", False, True, (("p", 1), (None, "v"), ("sw", None)), (("error", 1),), False, True),
    ("caf\u00e9 <&>\n", True, False, ((None, True), ("p", "x"), ("p", "y")), (("warning", 1), ("verbose", 8)), True, False),
    ("", True, None, ((None, None),), (("error", 8), ("debug", 1), ("information", 1)), False, True),
]
PROPTS: typing.Dict[str, typing.List[typing.Any]] = {
    "add_to_history": [False, True], "apartment_state": [2, 0, 1], "history": [None, "", "h <\n"], "is_nested": [False, True], "no_input": [True, False],
    "remote_stream_options": [0, 1, 2, 4, 8, 15], "redirect_shell_error_to_out": [True, False], "host": [None, (0, 3), (9, None)],
}


def gen_pipelines(tier: str):
    base = {k: v[0] for k, v in PROPTS.items()}
    for v in ("2.1", "2.2", "2.3"):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product(range(4), repeat=n):
                yield (v, seq, base)
    for k1, k2 in itertools.combinations(PROPTS, 2):
        for a, b in itertools.product(PROPTS[k1], PROPTS[k2]):
            yield ("2.3", (1, 2), dict(base, **{k1: a, k2: b}))


def cmd_tree(c: typing.Tuple, version: str) -> O:
    txt, script, scope, params, red, unclaimed, _ = c
    rd = dict(red)

    def res(v: int) -> O:
        return Enum(SMA + "Runspaces.PipelineResultTypes", v)

    my = rd.get("error") == 1
    ms: typing.Dict[str, typing.Any] = {
        "Cmd": txt, "IsScript": script, "UseLocalScope": scope, "Args": List(*[O({"N": n, "V": v}) for n, v in params]), "MergeMyResult": res(2 if my else 0),
        "MergeToResult": res(1 if my else 0), "MergePreviousResults": res(3 if unclaimed else 0),
    }
    if version >= "2.2":
        for s in STREAMS[: 5 if version >= "2.3" else 4]:
            ms["Merge" + s.capitalize()] = res(rd.get(s, 0))
    return O(ms)


def ps_tree(cmds: typing.List[typing.Tuple], version: str, o: dict) -> O:
    statements: typing.List[typing.List[typing.Tuple]] = [[]]
    for c in cmds:
        statements[-1].append(c)
        if c[6]:
            statements.append([])
    statements = [x for x in statements if x]
    lists = [List(*[cmd_tree(c, version) for c in x]) for x in statements]
    ps: typing.Dict[str, typing.Any] = {"Cmds": lists[0], "IsNested": o["is_nested"], "History": o["history"], "RedirectShellErrorOutputPipe": o["redirect_shell_error_to_out"]}
    extra = [O({"Cmds": x}) for x in lists]
    full = List(*extra) if len(lists) > 1 else None
    ps["ExtraCmds"] = Opt(full)
    if cmds[-1][6]:  # a last statement without commands, as PowerShell has it after AddStatement()
        ps["ExtraCmds"] = OneOf(List(*extra, O({"Cmds": List()})), full)
    return O({
        "NoInput": o["no_input"], "ApartmentState": Enum("System.Threading.ApartmentState", o["apartment_state"]), "AddToHistory": o["add_to_history"],
        "RemoteStreamOptions": Enum(SMA + "RemoteStreamOptions", o["remote_stream_options"]), "HostInfo": host_tree(o["host"]), "PowerShell": O(ps), "IsNested": o["is_nested"],
    })


def run_pipeline(case, ctx: Ctx) -> None:
    version, seq, o = case
    c = p11.client(version)
    cb = Box(c, False)
    pid = p11.new_pid()
    cp = psrpcore.ClientPowerShell(c, pipeline_id=pid, **dict(
        o, apartment_state=t.ApartmentState(o["apartment_state"]), remote_stream_options=t.RemoteStreamOptions(o["remote_stream_options"]), host=p04.host(o["host"])))
    cmds = [CMDS[i] for i in seq]
    for txt, script, scope, params, red, unclaimed, eos in cmds:
        x = psrpcore.Command(txt, is_script=script, use_local_scope=scope)
        for n, v in params:
            x.add_parameter(n, v)
        for st, to in red:
            getattr(x, "redirect_" + st)(t.PipelineResultTypes(to))
        x.merge_unclaimed = unclaimed
        x.end_of_statement = eos
        cp.add_command(x)
    cp.start()
    ms = cb.take()
    same(len(ms), 1, "messages")
    look(ms[0], "CreatePipeline", pid, ps_tree(cmds, version, o))
    p11.finish(cp)
    drain(c)
    ctx.step()
    ctx.state(repr(case))


def gen_metadata(tier: str):
    for i, x in enumerate(p11.gen_meta(tier)):
        if tier != "quick" or i % 3 == 0:
            yield x


def run_metadata(case, ctx: Ctx) -> None:
    name, ty, ns, args = case
    c = p11.client("2.3")
    cb = Box(c, False)
    kw: typing.Dict[str, typing.Any] = {}
    if ty is not None:
        kw["command_type"] = t.CommandTypes(ty)
    if ns is not None:
        kw["namespace"] = list(ns)
    if args is not None:
        kw["arguments"] = [VALUES[a]() for a in args]
    pid = p11.new_pid()
    gp = psrpcore.ClientGetCommandMetadata(c, list(name) if isinstance(name, list) else name, pipeline_id=pid, **kw)
    gp.start()
    ms = cb.take()
    same(len(ms), 1, "messages")
    look(ms[0], "GetCommandMetadata", pid, O({
        "Name": List(*(name if isinstance(name, list) else [name])), "CommandType": Enum(SMA + "CommandTypes", 0x17F if ty is None else ty), "Namespace": None if ns is None else List(*ns),
        "ArgumentList": None if args is None else List(*[vtree(a) for a in args])}))
    p11.finish(gp)
    drain(c)
    ctx.step()
    ctx.state(repr(case))


# ------------------------------------------------------------------ the key exchange with another implementation
# an RSA key of the simulated peer (only used here)
RSA_N = int(
    "9501f1ab4a074d61084b6e693fa75ee306b2d37be59432b3d076c7c70b0e6dae7b921ec6e02bac5271eeac5aa9e8c43b5768cab43ac3a5869a470adc9556e0c8"
    "f00dd50bbeaa81f5041780eb1ee5b0a0f70b6e8700222bfcaca60fa54b0291c7069aa18ba3c3bfb92be4b22f026fb61b7ee17d5f194ce49e2c2d3082236c4063"
    "ae48f4c58f42c0cde7a884959114d9f0a29cce43cb1fa5245cc20cc3ebe499144bb3c5e9bbb5f3ecc9f2331d7c0957e90a835f87001a47f60df2b54c06db5748"
    "3ca2c473a8e24f40d2922356ece7747eda68e69dc2b8000cf6b146764cd639c8a8ce5c17568328d46d1432a708a97dd0c41d221c7dbe8463ab0259575d2d6c43", 16)
RSA_D = int(
    "15112a2f3f4f48fdd9b57b26c9d2039f7904c1455870229e90c556dd0d64e78083cd64f01ccfd706265cad9e0775f6ba50a88755906b271f844cea98a8d9eddf"
    "d049b295612de4eab8307e10bfff55f28889553ab2d13e7510493150a6432fa042396fe4b8f46cf51daa3ef8ca112bee1ad07f8ccef19744a941650501443780"
    "c58d1095a54eae14510e7a7c8a768847e987896de21b2a752bc5c2e734f13eb187d0a3ef78557e074a2cc49e7f989ff3e3cfc70bf1701cad87a01790ca93be2c"
    "6f6082eb197fc5e5a50908e0bc6e578c744ba4dee7effca58ddbc3d708377a3756ae194f1ee1d55c1c54a6b7198d0e1c53b30bbcd5b4841433657977177a481", 16)
SECRETS = ["", "a", "pass word", "1234567", "12345678", "123456789", "\u00e9\u20ac", "\U0001f600", "x" * 15, "y" * 16, "z" * 4000, "\0", "_x0041_ <&>"]
SESSION = [bytes(range(32)), bytes(32), b"\xff" * 32, b"\0" + bytes(range(1, 32)), bytes(range(31)) + b"\0"]


def aes(key: bytes) -> typing.Any:
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    return Cipher(algorithms.AES(key), modes.CBC(bytes(16)))


def seal(key: bytes, plain: str) -> str:
    """A secure string as MS-PSRP 2.2.5.1.24 has it: AES-256-CBC without IV, PKCS#7 padding, UTF-16LE."""
    b = plain.encode("utf-16-le", "surrogatepass")
    n = 16 - len(b) % 16
    e = aes(key).encryptor()
    return base64.b64encode(e.update(b + bytes([n]) * n) + e.finalize()).decode()


def unseal(key: bytes, blob: str) -> str:
    d = aes(key).decryptor()
    b = d.update(base64.b64decode(blob, validate=True)) + d.finalize()
    expect(len(b) >= 16 and 1 <= b[-1] <= 16 and b[-b[-1]:] == b[-1:] * b[-1], "padding of a secure string")
    return b[: -b[-1]].decode("utf-16-le", "surrogatepass")


def gen_foreign_key(tier: str):
    for begun in ("client", "server"):
        for k in range(len(SESSION)):
            for fill in (1, 255) if tier == "quick" else (1, 2, 77, 128, 254, 255):
                yield ("client", begun, k, fill)
        yield ("server", begun, 0, 0)


def run_foreign_key(case, ctx: Ctx) -> None:
    side, begun, k, fill = case
    c, s = open_pair()
    cp, sp = start_pair(c, s, PIDS[0], no_input=False)
    pool = c if side == "client" else s
    box = Box(pool, side == "server")
    oid = 10**6 + 1
    if side == "client":
        if begun == "client":
            c.exchange_key()
        else:
            inject(c, False, "PublicKeyRequest", b"<S></S>", oid=oid)
            events(c)
        ms = box.take()
        same([m.type for m in ms], ["PublicKey"], "messages")
        blob = base64.b64decode(parse(ms[0].data).ms["PublicKey"], validate=True)
        e, n = int.from_bytes(blob[16:20], "little"), int.from_bytes(blob[20:], "little")
        key = SESSION[k]
        block = b"\0\2" + bytes([fill]) * (256 - 3 - len(key)) + b"\0" + key  # PKCS#1 v1.5
        wrapped = pow(int.from_bytes(block, "big"), e, n).to_bytes(256, "little")
        reply = base64.b64encode(bytes.fromhex("0102000010660000" + "00a40000") + wrapped).decode()
        inject(c, False, "EncryptedSessionKey", write(O({"EncryptedSessionKey": reply})), oid=oid + 1)
        same([type(x).__name__ for x in events(c)], ["EncryptedSessionKeyEvent"], "events")
    else:
        if begun == "server":
            s.request_key()
            same([m.type for m in box.take()], ["PublicKeyRequest"], "messages")
        blob = bytes.fromhex("0602000000a40000") + b"RSA1" + (2048).to_bytes(4, "little") + (65537).to_bytes(4, "little") + RSA_N.to_bytes(256, "little")
        inject(s, True, "PublicKey", write(O({"PublicKey": base64.b64encode(blob).decode()})), oid=oid)
        events(s)
        ms = box.take()
        same([m.type for m in ms], ["EncryptedSessionKey"], "messages")
        reply = base64.b64decode(parse(ms[0].data).ms["EncryptedSessionKey"], validate=True)
        block = pow(int.from_bytes(reply[12:], "little"), RSA_D, RSA_N).to_bytes(256, "big")
        expect(block[:2] == b"\0\2", "the session key is not wrapped for the public key that was sent")
        key = block[block.index(b"\0", 2) + 1:]
        same(len(key), 32, "length of the session key")
    for i, plain in enumerate(SECRETS):
        ctx.step()
        (cp.send if side == "client" else sp.write_output)(t.PSSecureString(plain))
        ms = box.take()
        same((len(ms), ms[0].type), (1, "PipelineInput" if side == "client" else "PipelineOutput"), "messages")
        got = parse(ms[0].data)
        expect(isinstance(got, T) and got.tag == "SS", "a secure string is sent as %.100r", got)
        same(unseal(key, got.value), plain, "secure string read by another implementation")
        body = "<SS>%s</SS>" % seal(key, plain)
        inject(pool, side == "server", "PipelineOutput" if side == "client" else "PipelineInput", body.encode(), pid=PIDS[0], oid=oid + 10 + i)
        ev = events(pool)
        same(len(ev), 1, "events")
        same(text(ev[0].data.decrypt()), plain, "secure string of another implementation")
    ctx.state(case)
    ctx.outcome(side, begun)


SCENARIOS = [
    Scenario("pipelines", gen_pipelines, run_pipeline, "1 to 3 (4) of 4 commands in every order and division for 3 versions, all pairs of option values", 32),
    Scenario("metadata", gen_metadata, run_metadata, "every third (every) combination of names, types, namespaces and arguments", 32),
    Scenario("pool", gen_pool, run_pool, "all sequences of up to 3 (4) of 18 (9) pool messages", 64),
    Scenario("data", gen_data, run_data, "every value as input, output and argument, every ordered pair, the same objects twice; states", 32),
    Scenario("handshake", gen_handshake, run_handshake, "settings x counts x arguments x hosts x private data: open, and connect by another client", 32),
    Scenario("foreign-handshake", gen_foreign, run_foreign, "the same structures written with their fields in 4 (7) orders, with and without an unknown field", 32),
    Scenario("calls", p09.gen_calls, run_call, "all requestor methods x argument products, from pool and pipeline", 64),
    Scenario("answers", p09.gen_answers, run_answer, "all responder methods x answer domains, to pool and pipeline", 64),
    Scenario("foreign-calls", turned(p09.gen_calls, 1), run_foreign_call, "every host call written by another implementation, 3 (6) orders of fields", 64),
    Scenario("foreign-answers", turned(no_secret(p09.gen_answers), 1), run_foreign_answer, "every answer without secrets written by another implementation, 3 (6) orders of fields", 64),
    Scenario("foreign-key", gen_foreign_key, run_foreign_key, "key exchange with another implementation: who begins x 5 session keys x 2 (6) paddings, then 13 secrets each way"),
    Scenario("records", gen_records, run_record, "records of every kind over their field products", 64),
]

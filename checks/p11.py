"""P11: a pipeline definition arrives at the server exactly as built."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.canon import canon, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import RPID, Outbox, capability, deliver, drain, events, inject, obj, reason, xml
from mc.values import NAMES, VALUES, sizes
from mc import wire
from checks.p04 import host
from checks.p05 import opened_server

RULE = (
    "all pipelines of up to three commands over command kinds, scopes, statement breaks and parameter lists, every value "
    "of the value alphabet in every parameter position, all redirection combinations and call sequences, all option "
    "combinations, per peer protocol version; all interleavings of building two pipelines; restarts; the received "
    "definition is compared field by field with an independent model of what was built"
)
ASSUMPTIONS = [
    "the end of the last statement is not observable",
    "discarding errors (Null) leaves the version 2.0 error merge as it was, as PowerShell does",
]
R = t.PipelineResultTypes
VERSIONS = ["2.0", "2.1", "2.2", "2.3"]
STREAMS = ["error", "warning", "verbose", "debug", "information"]


class W:
    """Cached peers of a worker process."""

    pools: typing.Dict[typing.Any, typing.Any] = {}
    n = itertools.count(1)


def client(version: str, apartment: int = 2) -> typing.Any:
    k = ("c", version, apartment)
    if k not in W.pools:
        c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, apartment_state=t.ApartmentState(apartment))
        inject(c, False, "SessionCapability", capability(version), oid=1001)
        inject(c, False, "RunspacePoolState", obj(RunspaceState="<I32>2</I32>"), oid=1002)
        events(c)
        W.pools[k] = c
    return W.pools[k]


def server() -> typing.Any:
    if "s" not in W.pools:
        W.pools["s"] = opened_server()
        drain(W.pools["s"])
    return W.pools["s"]


def new_pid() -> uuid.UUID:
    return uuid.UUID(int=0xB0000000000000000000000000000000 + next(W.n))


# ------------------------------------------------------------------ model of a definition
def mcmd(name: str, script: bool = False, scope: typing.Any = None) -> dict:
    return {"text": text(name), "script": script, "scope": scope, "params": [], "eos": False, "unclaimed": False,
            "my": 0, "to": 0, **{s: 0 for s in STREAMS}}


def m_redirect(m: dict, stream: str, to: int) -> None:
    if stream == "all":
        for s in STREAMS:
            m_redirect(m, s, to)
        return
    if stream == "error":
        if to == 0:
            m["my"] = m["to"] = 0
        elif to == int(R.Output):
            m["my"], m["to"] = int(R.Error), to
    m[stream] = to


def on_wire(m: dict, version: str, last: bool) -> typing.Tuple:
    keep = STREAMS if version >= "2.3" else STREAMS[:4] if version >= "2.2" else []
    return (
        m["text"], m["script"], m["scope"], tuple((n if n is None else text(n), v) for n, v in m["params"]),
        True if last else m["eos"], m["unclaimed"], m["my"], m["to"], tuple(m[s] if s in keep else 0 for s in STREAMS),
    )


def got_cmd(c: typing.Any) -> typing.Tuple:
    for n in ("merge_my", "merge_to", *("merge_" + s for s in STREAMS)):
        expect(isinstance(getattr(c, n), R), "%s is a %s", n, type(getattr(c, n)).__name__)
    expect(isinstance(c.is_script, bool) and isinstance(c.command_text, str), "command text or kind has the wrong type")
    return (
        text(c.command_text), c.is_script, c.use_local_scope,
        tuple((n if n is None else text(n), canon(v)) for n, v in c.parameters), bool(c.end_of_statement), c.merge_unclaimed,
        int(c.merge_my.value), int(c.merge_to.value), tuple(int(getattr(c, "merge_" + s).value) for s in STREAMS),
    )


OPT_FIELDS = ["add_to_history", "apartment_state", "history", "host", "is_nested", "no_input", "remote_stream_options",
              "redirect_shell_error_to_out"]
DEFAULTS = {"add_to_history": False, "apartment_state": 2, "history": None, "host": None, "is_nested": False, "no_input": True,
            "remote_stream_options": 0, "redirect_shell_error_to_out": True}


def got_options(p: typing.Any) -> typing.Dict[str, typing.Any]:
    expect(isinstance(p.apartment_state, t.ApartmentState), "apartment state is a %s", type(p.apartment_state).__name__)
    expect(isinstance(p.remote_stream_options, t.RemoteStreamOptions), "stream options are %s", type(p.remote_stream_options).__name__)
    for b in ("add_to_history", "is_nested", "no_input", "redirect_shell_error_to_out"):
        expect(isinstance(getattr(p, b), bool), "%s is no bool", b)
    return {
        "add_to_history": p.add_to_history, "apartment_state": int(p.apartment_state.value),
        "history": None if p.history is None else text(p.history), "host": canon(p.host), "is_nested": p.is_nested, "no_input": p.no_input,
        "remote_stream_options": int(p.remote_stream_options.value), "redirect_shell_error_to_out": p.redirect_shell_error_to_out,
    }


def check_def(p: typing.Any, cmds: typing.List[dict], version: str, opts: typing.Optional[dict] = None) -> None:
    same([got_cmd(c) for c in p.commands], [on_wire(m, version, i == len(cmds) - 1) for i, m in enumerate(cmds)], "received commands")
    want = dict(DEFAULTS, **(opts or {}))
    want["host"] = canon(host(want["host"]) or t.HostInfo())
    same(got_options(p), want, "received options")


def check_body(body: bytes, version: str) -> None:
    """The merge fields on the wire are exactly those of the version."""
    want = {"MergeMyResult", "MergeToResult", "MergePreviousResults"}
    if version >= "2.2":
        want |= {"MergeError", "MergeWarning", "MergeVerbose", "MergeDebug"}
    if version >= "2.3":
        want |= {"MergeInformation"}
    n = 0
    for el in xml(body).iter("MS"):
        names = [c.attrib.get("N") for c in el]
        if "Cmd" in names and "Args" in names and "IsScript" in names:
            n += 1
            same({x for x in names if x.startswith("Merge")}, want, "merge fields sent to a %s peer" % version)
    expect(n > 0, "no command on the wire")


def send(cp: typing.Any, version: str, look: bool = False) -> typing.Tuple[typing.Any, bytes]:
    """Starts the pipeline and returns (event pipeline, message body)."""
    s = server()
    sp = psrpcore.ServerPipeline(s, cp.pipeline_id)
    cp.start()
    same(cp.state, t.PSInvocationState.Running, "state after start")
    raw = b""
    re = wire.Reassembler()
    for p in drain(cp.runspace_pool):
        same(p.pipeline_id, cp.pipeline_id, "pipeline of the payload")
        re.feed(p.data)
        s.receive_data(p)
    same(len(re.done), 1, "messages sent by start")
    m = wire.msg(re.done[0][1])
    ev = events(s)
    kind = "GetCommandMetadata" if isinstance(cp, psrpcore.ClientGetCommandMetadata) else "CreatePipeline"
    same((m.type, m.pid), (kind, cp.pipeline_id), "message sent by start")
    same([(type(e).__name__, e.pipeline_id) for e in ev], [(kind + "Event", cp.pipeline_id)], "events")
    if look:
        check_body(m.data, version)
    meta = sp.metadata
    expect(type(meta) is type(ev[0].pipeline), "server metadata is a %s", type(meta).__name__)
    sp.close()
    same(s.data_to_send(), None, "answer to the definition")
    return (ev[0].pipeline, meta), m.data


def finish(cp: typing.Any) -> None:
    if cp.state == t.PSInvocationState.Running:
        cp.begin_stop()
    cp.close()


def completed(cp: typing.Any) -> None:
    inject(cp.runspace_pool, False, "PipelineState", obj(PipelineState="<I32>4</I32>"), pid=cp.pipeline_id, oid=5000 + next(W.n))
    events(cp.runspace_pool)
    same(cp.state, t.PSInvocationState.Completed, "state")


# ------------------------------------------------------------------ building
PARAMS: typing.List[typing.Tuple] = [
    (), (("arg", "int"),), (("switch", "S"),), (("named", "N", "none"),), (("named", "N", "str"),), (("arg", "none"), ("named", "", "false")),
    (("named", "B", "true"), ("arg", "str"), ("named", "A", "int")), (("named", "A", "int"), ("named", "A", "str")), (("many",),),
    (("arg", "list"), ("arg", "dict"), ("many",), ("arg", "empty")),
]


def apply_params(b: typing.Any, m: dict, ps: typing.Tuple) -> None:
    """b: ClientPowerShell or Command"""
    for p in ps:
        if p[0] == "arg":
            r = b.add_argument(VALUES[p[1]]())
            m["params"].append((None, canon(VALUES[p[1]]())))
        elif p[0] == "switch":
            r = b.add_parameter(p[1])
            m["params"].append((p[1], ("PSBool", True)))
        elif p[0] == "many":
            r = b.add_parameters(Zeta=1, Alpha="a", switch=True)
            m["params"] += [("Zeta", ("PSInt", 1)), ("Alpha", ("PSString", "a")), ("switch", ("PSBool", True))]
        else:
            r = b.add_parameter(p[1], VALUES[p[2]]())
            m["params"].append((p[1], canon(VALUES[p[2]]())))
        expect(r is b, "building does not return the object itself")


def add(cp: typing.Any, ms: typing.List[dict], c: typing.Tuple, i: int) -> None:
    """c: (kind, scope, break, params)"""
    kind, scope, brk, ps = c
    name = "Cmd-%d" % i
    if kind == "cmd":
        r = cp.add_command(name) if scope is None else cp.add_command(name, use_local_scope=scope)
        m = mcmd(name, False, scope)
    elif kind == "script":
        r = cp.add_script(name) if scope is None else cp.add_script(name, use_local_scope=scope)
        m = mcmd(name, True, scope)
    else:
        r = cp.add_command(psrpcore.Command(name, is_script=kind == "oscript", use_local_scope=scope))
        m = mcmd(name, kind == "oscript", scope)
    expect(r is cp, "adding a command does not return the pipeline")
    ms.append(m)
    apply_params(cp, m, PARAMS[ps])
    if brk:
        expect(cp.add_statement() is cp, "adding a statement does not return the pipeline")
        m["eos"] = True


def gen_commands(tier: str):
    kinds = [("cmd", None), ("script", None), ("cmd", True), ("script", False), ("obj", None), ("oscript", True), ("script", True), ("cmd", False)]
    full = [(k, s, b, p) for k, s in kinds for b in (False, True) for p in range(len(PARAMS))]
    for c in full:
        yield (c,)
    small = [(k, s, b, p) for k, s in kinds[:6] for b in (False, True) for p in ((0, 2, 5, 6, 9) if tier == "quick" else range(len(PARAMS)))]
    for c in itertools.product(small, repeat=2):
        yield c
    tri = [(k, s, b, p) for k, s in kinds[: 4 if tier == "quick" else 6] for b in (False, True) for p in ((0, 6) if tier == "quick" else (0, 3, 6))]
    for c in itertools.product(tri, repeat=3):
        yield c
    for n in (4, 5) if tier == "quick" else (4, 5, 6, 7):
        for brks in itertools.product((False, True), repeat=n):
            yield tuple(("cmd" if i % 2 else "script", None, b, i % 3) for i, b in enumerate(brks))


def run_commands(case, ctx: Ctx) -> None:
    c = client("2.3")
    cp = psrpcore.ClientPowerShell(c, pipeline_id=new_pid())
    ms: typing.List[dict] = []
    for i, k in enumerate(case):
        add(cp, ms, k, i)
        ctx.step()
    (p, meta), body = send(cp, "2.3")
    check_def(p, ms, "2.3")
    check_def(meta, ms, "2.3")
    ctx.state("cmds", tuple(on_wire(m, "2.3", False) for m in ms))
    finish(cp)


# ------------------------------------------------------------------ sequences of parameters of one command
PSEQ: typing.List[typing.Tuple] = [(None, 1), (None, "b"), ("n", 1), ("n", 2), ("N", 1), ("m", 1), ("n", None), ("m", True), (None, None), ("", 1)]


def gen_params(tier: str):
    for k in range(4):
        for c in itertools.product(range(len(PSEQ)), repeat=k):
            for how in ("pipeline", "command"):
                yield (how, c)
    for c in itertools.product(range(5 if tier == "quick" else 7), repeat=4):
        yield ("pipeline", c)
    for c in itertools.product((0, 2, 3) if tier == "quick" else range(5), repeat=6 if tier == "quick" else 5):
        yield ("pipeline", c)


def run_params(case, ctx: Ctx) -> None:
    how, seq = case
    cp = psrpcore.ClientPowerShell(client("2.3"), pipeline_id=new_pid())
    m = mcmd("c")
    cmd = psrpcore.Command("c")
    cp.add_command(cmd)
    b = cp if how == "pipeline" else cmd
    for i in seq:
        n, v = PSEQ[i]
        r = b.add_argument(v) if n is None else b.add_parameter(n, v)
        expect(r is b, "building does not return the object itself")
        m["params"].append((n, canon(v)))
        ctx.step()
    (p, meta), _ = send(cp, "2.3")
    check_def(p, [m], "2.3")
    check_def(meta, [m], "2.3")
    ctx.state("params", case)
    finish(cp)


# ------------------------------------------------------------------ values
def gen_values(tier: str):
    for n in NAMES:
        for pos in ("arg", "named", "list", "dict", "objarg", "metadata"):
            yield (pos, n)
    for a, b in itertools.product(NAMES, repeat=2):
        yield ("two", a, b)


def run_values(case, ctx: Ctx) -> None:
    c = client("2.3")
    pos, names = case[0], case[1:]

    def vals():
        return [VALUES[n]() for n in names]

    if pos == "metadata":
        gp = psrpcore.ClientGetCommandMetadata(c, "*", arguments=vals(), pipeline_id=new_pid())
        (p, meta), _ = send(gp, "2.3")
        same([canon(x) for x in p.arguments], [canon(x) for x in vals()], "metadata arguments")
        finish(gp)
        return
    cp = psrpcore.ClientPowerShell(c, pipeline_id=new_pid())
    m = mcmd("c")
    if pos == "objarg":
        cmd = psrpcore.Command("c")
        expect(cmd.add_argument(vals()[0]) is cmd, "add_argument")
        expect(cmd.add_parameters(p=vals()[0]) is cmd, "add_parameters")
        cp.add_command(cmd)
        m["params"] = [(None, canon(vals()[0])), ("p", canon(vals()[0]))]
    else:
        cp.add_command("c")
        if pos == "arg":
            cp.add_argument(vals()[0])
            m["params"] = [(None, canon(vals()[0]))]
        elif pos == "named":
            cp.add_parameter("p", vals()[0])
            m["params"] = [("p", canon(vals()[0]))]
        elif pos == "list":
            cp.add_argument([vals()[0], 1, vals()[0]])
            m["params"] = [(None, canon([vals()[0], 1, vals()[0]]))]
        elif pos == "dict":
            cp.add_argument({"a": vals()[0], "b": vals()[0]})
            m["params"] = [(None, canon({"a": vals()[0], "b": vals()[0]}))]
        else:
            x, y = vals()
            cp.add_argument(x).add_parameter("y", y).add_statement().add_script("d").add_argument(x)
            m["params"] = [(None, canon(vals()[0])), ("y", canon(vals()[1]))]
            m["eos"] = True
    ms = [m]
    if pos == "two":
        m2 = mcmd("d", True)
        m2["params"] = [(None, canon(vals()[0]))]
        ms.append(m2)
    ctx.step(len(ms))
    (p, meta), _ = send(cp, "2.3")
    check_def(p, ms, "2.3")
    check_def(meta, ms, "2.3")
    ctx.state(case)
    finish(cp)


# ------------------------------------------------------------------ redirections
OPS = [(s, to) for s in [*STREAMS, "all"] for to in (0, int(R.Output), int(R.Null))]
BAD = sorted({int(x) for x in R} - {0, int(R.Output), int(R.Null)})


def gen_redirect(tier: str):
    for v in VERSIONS:
        for combo in itertools.product((0, 1, 2), repeat=5):
            for un in (False, True):
                yield ("combo", v, combo, un)
        for ops in itertools.product(OPS, repeat=2):
            yield ("seq", v, ops)
        for a, b in itertools.product(OPS, repeat=2):
            yield ("two", v, a, b)
    for s in [*STREAMS, "all"]:
        yield ("default", s)
        for b in BAD:
            for pre in [None, *OPS]:
                yield ("bad", s, b, pre)
    if tier != "quick":
        for v in VERSIONS:
            for ops in itertools.product(OPS, repeat=3):
                yield ("seq", v, ops)


def redirect(cmd: typing.Any, m: dict, s: str, to: int) -> None:
    getattr(cmd, "redirect_" + s)(R(to))
    m_redirect(m, s, to)


def run_redirect(case, ctx: Ctx) -> None:
    kind = case[0]
    version = case[1] if kind in ("combo", "seq", "two") else "2.3"
    cp = psrpcore.ClientPowerShell(client(version), pipeline_id=new_pid())
    cmd, m = psrpcore.Command("c"), mcmd("c")
    cmds, ms = [cmd], [m]
    if kind == "combo":
        for s, k in zip(STREAMS, case[2]):
            if k:
                redirect(cmd, m, s, int([0, R.Output, R.Null][k]))
        cmd.merge_unclaimed = m["unclaimed"] = case[3]
    elif kind == "seq":
        for s, to in case[2]:
            redirect(cmd, m, s, to)
    elif kind == "two":
        cmds.append(psrpcore.Command("d"))
        ms.append(mcmd("d"))
        redirect(cmd, m, *case[2])
        redirect(cmds[1], ms[1], *case[3])
        cmds[1].merge_unclaimed = ms[1]["unclaimed"] = True
    elif kind == "default":
        getattr(cmd, "redirect_" + case[1])()
        m_redirect(m, case[1], int(R.Output))
    else:
        _, s, b, pre = case
        if pre:
            redirect(cmd, m, *pre)
        r, _ = reason(getattr(cmd, "redirect_" + s), R(b))
        same(r, "ValueError", "redirecting to %s" % R(b))
    # the client's own view
    for c, mm in zip(cmds, ms):
        same(got_cmd(c)[5:], on_wire(mm, "2.3", False)[5:], "redirections of the command built")
        cp.add_command(c)
    ctx.step(2)
    (p, meta), _ = send(cp, version, look=True)
    check_def(p, ms, version)
    check_def(meta, ms, version)
    ctx.state("red", version, tuple(on_wire(x, version, False) for x in ms))
    finish(cp)


# ------------------------------------------------------------------ options
def gen_options(tier: str):
    rso = (0, 1, 2, 8, 15) if tier == "quick" else range(16)
    for v in ("2.0", "2.3") if tier != "quick" else ("2.3",):
        for pool_ap, ap, hist, at, nest, noin, ro, rse, h in itertools.product(
            (0, 1, 2), (None, 0, 1, 2), (None, "", "h\n_x000A_<"), (False, True), (False, True), (False, True), rso, (True, False),
            (None, (0, 0), (9, None)),
        ):
            if tier == "quick" and (at + nest + noin + rse) % 2 and h is not None:
                continue
            yield (v, pool_ap, {"apartment_state": ap, "history": hist, "add_to_history": at, "is_nested": nest, "no_input": noin,
                                "remote_stream_options": ro, "redirect_shell_error_to_out": rse, "host": h})
    for flags in range(16):
        for k in (None, 0, 1, 2, 3):
            yield ("2.3", 2, {"host": (flags, k)})


def run_options(case, ctx: Ctx) -> None:
    version, pool_ap, opts = case
    kw = {k: v for k, v in opts.items() if v != DEFAULTS[k] or k == "apartment_state"}
    if kw.get("apartment_state", 0) is None:
        del kw["apartment_state"]
    real = dict(kw)
    if "apartment_state" in real:
        real["apartment_state"] = t.ApartmentState(real["apartment_state"])
    if "host" in real:
        real["host"] = host(real["host"])
    if "remote_stream_options" in real:
        real["remote_stream_options"] = t.RemoteStreamOptions(real["remote_stream_options"])
    cp = psrpcore.ClientPowerShell(client(version, pool_ap), pipeline_id=new_pid(), **real)
    cp.add_script("x")
    ctx.step()
    (p, meta), _ = send(cp, version)
    want = dict(kw)
    if "apartment_state" not in want:
        want["apartment_state"] = pool_ap
    check_def(p, [mcmd("x", True)], version, want)
    check_def(meta, [mcmd("x", True)], version, want)
    ctx.state("opt", pool_ap, repr(opts))
    finish(cp)


# ------------------------------------------------------------------ command metadata
TEXTS = ["a", "", "*", "caf\u00e9_x000A_\n<&>", "\U0001f600"]


def gen_meta(tier: str):
    names: typing.List[typing.Any] = [*TEXTS, [], *[[x] for x in TEXTS], ["b", "a", "b"], TEXTS]
    types = [None, *(1 << i for i in (0, 1, 2, 3, 4, 5, 6, 8)), 0, 3, 0x17F, 0x101]
    ns: typing.List[typing.Any] = [None, [], ["n"], TEXTS]
    args: typing.List[typing.Any] = [None, [], ["int"], ["str", "none", "list", "dict"], ["custom", "custom"]]
    for n, ty, s, a in itertools.product(names, types, ns, args):
        yield (n, ty, s, a)


def run_meta(case, ctx: Ctx) -> None:
    name, ty, ns, args = case
    kw: typing.Dict[str, typing.Any] = {}
    if ty is not None:
        kw["command_type"] = t.CommandTypes(ty)
    if ns is not None:
        kw["namespace"] = list(ns)
    if args is not None:
        kw["arguments"] = [VALUES[a]() for a in args]
    gp = psrpcore.ClientGetCommandMetadata(client("2.3"), list(name) if isinstance(name, list) else name, pipeline_id=new_pid(), **kw)
    (p, meta), body = send(gp, "2.3")
    for x in (p, meta):
        expect(isinstance(x.command_type, t.CommandTypes), "command type is a %s", type(x.command_type).__name__)
        same(int(x.command_type.value), int(t.CommandTypes.All.value) if ty is None else ty, "command types")
        same([text(i) for i in x.name], [text(i) for i in (name if isinstance(name, list) else [name])], "names")
        same(None if x.namespace is None else [text(i) for i in x.namespace], None if ns is None else [text(i) for i in ns], "namespaces")
        same(None if x.arguments is None else [canon(i) for i in x.arguments],
             None if args is None else [canon(VALUES[a]()) for a in args], "arguments")
    ctx.step()
    ctx.state("meta", repr(case))
    finish(gp)


# ------------------------------------------------------------------ text of commands and parameter names
def gen_text(tier: str):
    ab = ["a", "_", "x", "0", "\n", "<", "&", "\"", "\u00e9", "\U0001f600", "\x00", "\ufffe", " "]
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for s in itertools.product(ab, repeat=n):
            yield "".join(s)
    for s in ("_x000A_", "_x000a_", "_x005F_x000A_", "x" * 5000, "]]>", "<!--", "&amp;", "\r\n"):
        yield s


def run_text(s: str, ctx: Ctx) -> None:
    cp = psrpcore.ClientPowerShell(client("2.3"), pipeline_id=new_pid())
    cp.add_command(s).add_parameter(s, s).add_script(s).add_argument(s)
    a, b = mcmd(s), mcmd(s, True)
    a["params"] = [(s, ("PSString", text(s)))]
    b["params"] = [(None, ("PSString", text(s)))]
    (p, meta), _ = send(cp, "2.3")
    check_def(p, [a, b], "2.3")
    ctx.step()
    ctx.state("text", text(s))
    finish(cp)


# ------------------------------------------------------------------ interleaved building, restarts, errors
SCRIPTS: typing.List[typing.Tuple] = [
    (("add", ("cmd", None, False, 0)), ("p", ("arg", "int")), ("start",)),
    (("add", ("script", True, True, 2)), ("add", ("cmd", None, False, 4)), ("start",)),
    (("add", ("obj", None, False, 8)), ("red", ("all", int(R.Output))), ("start",)),
    (("add", ("cmd", None, True, 0)), ("p", ("named", "x", "list")), ("start",), ("again",)),
    (("add", ("oscript", False, False, 1)), ("start",), ("again",), ("add", ("cmd", None, False, 3)), ("again",)),
    (("start0",), ("add", ("cmd", None, False, 5)), ("start",)),
    (("p0",), ("stmt0",), ("add", ("script", None, False, 0)), ("scope0",), ("start",)),
    (("add", ("cmd", None, False, 0)), ("badred", ("error", BAD[0])), ("p", ("switch", "w")), ("start",)),
    (("meta", "a"), ("start",), ("again",)),
]


def merges(a: int, b: int):
    for pos in itertools.combinations(range(a + b), a):
        p = set(pos)
        yield tuple(0 if i in p else 1 for i in range(a + b))


def gen_two(tier: str):
    for a, b in itertools.product(range(len(SCRIPTS)), repeat=2):
        for order in merges(len(SCRIPTS[a]), len(SCRIPTS[b])):
            yield (a, b, order)


class Build:
    def __init__(self, script, c) -> None:
        self.script = script
        self.pos = 0
        self.ms: typing.List[dict] = []
        self.body: typing.Optional[bytes] = None
        self.meta = script[0][0] == "meta"
        if self.meta:
            self.cp: typing.Any = psrpcore.ClientGetCommandMetadata(c, script[0][1], pipeline_id=new_pid())
        else:
            self.cp = psrpcore.ClientPowerShell(c, pipeline_id=new_pid())

    def step(self) -> None:
        op = self.script[self.pos]
        self.pos += 1
        cp, ms = self.cp, self.ms
        if op[0] == "add":
            add(cp, ms, op[1], len(ms))
            self.body = None
        elif op[0] == "p":
            apply_params(cp, ms[-1], (op[1],))
        elif op[0] == "red":
            redirect(cp.metadata.commands[-1], ms[-1], *op[1])
        elif op[0] == "badred":
            same(reason(getattr(cp.metadata.commands[-1], "redirect_" + op[1][0]), R(op[1][1]))[0], "ValueError", "bad redirection")
        elif op[0] == "start0":
            same(reason(cp.start)[0], "ValueError", "start without a command")
            same(cp.state, t.PSInvocationState.NotStarted, "state")
            same(cp.runspace_pool.data_to_send(), None, "data sent")
        elif op[0] == "p0":
            same(reason(cp.add_parameter, "p")[0], "ValueError", "parameter without a command")
            same(reason(cp.add_argument, 1)[0], "ValueError", "argument without a command")
        elif op[0] == "stmt0":
            cp.add_statement()
        elif op[0] == "scope0":
            same(reason(cp.add_command, psrpcore.Command("x"), use_local_scope=True)[0], "TypeError", "scope for a command object")
        elif op[0] in ("start", "again"):
            if op[0] == "again":
                completed(cp)
            (p, meta), body = send(cp, "2.3", look=not self.meta)
            if self.body is not None:
                same(body, self.body, "definition sent by another start")
            self.body = body
            if self.meta:
                same((list(p.name), list(meta.name)), (["a"], ["a"]), "names")
            else:
                check_def(p, ms, "2.3")
                check_def(meta, ms, "2.3")


def run_two(case, ctx: Ctx) -> None:
    a, b, order = case
    c = client("2.3")
    bs = [Build(SCRIPTS[a], c), Build(SCRIPTS[b], c)]
    for w in order:
        bs[w].step()
        ctx.step()
        ctx.state("two", a, b, bs[0].pos, bs[1].pos)
    for x in bs:
        finish(x.cp)


# the same command object used twice and in two pipelines
def gen_reuse(tier: str):
    for v in VERSIONS:
        for ps in range(len(PARAMS)):
            for op in OPS:
                yield (v, ps, op)


def run_reuse(case, ctx: Ctx) -> None:
    v, ps, op = case
    cmd, m = psrpcore.Command("c", use_local_scope=True), mcmd("c", False, True)
    apply_params(cmd, m, PARAMS[ps])
    redirect(cmd, m, *op)
    c = client(v)
    for ms in ([m], [m, m], [m, mcmd("mid"), m]):
        cp = psrpcore.ClientPowerShell(c, pipeline_id=new_pid())
        for x in ms:
            cp.add_command(cmd if x is m else "mid")
        (p, meta), _ = send(cp, v, look=True)
        check_def(p, ms, v)
        check_def(meta, ms, v)
        finish(cp)
        ctx.step()
    ctx.state("reuse", case)


# ------------------------------------------------------------------ how many and how long
def gen_many(tier: str):
    few = [n for n in sizes(tier, 1100) if n and (n < 20 or n % 3 == 0 or n > 250)]
    for n in sizes(tier, 70000 if tier == "quick" else 100001):
        yield ("text", n)
    for n in few:
        for k in ("commands", "statements", "named", "arguments", "same", "nested", "names"):
            if n < 600 or k in ("arguments", "names", "named"):
                yield (k, n)
    yield ("pipelines", 300, False)
    yield ("pipelines", 70 if tier == "quick" else 200, True)


def run_many(case, ctx: Ctx) -> None:
    k, n = case[:2]
    if k == "names":
        run_meta((["name%d" % i for i in range(n)], 8, ["ns%d" % (i % 9) for i in range(n)], [NAMES[i % 44] for i in range(n)]), ctx)
        run_meta((["*"] * n, None, None, None), ctx)
        return
    if k == "text":
        run_text("n" * n, ctx)
        run_text(("caf\u00e9 _x0041_ " * (n // 12 + 1))[:n], ctx)
        cp = psrpcore.ClientPowerShell(client("2.3"), pipeline_id=new_pid(), history="h" * n)
        cp.add_command("c")
        (p, meta), _ = send(cp, "2.3")
        check_def(p, [mcmd("c")], "2.3", {"history": "h" * n})
        finish(cp)
        ctx.step(3)
        ctx.state("many", case)
        return
    if k == "pipelines":
        c = client("2.3")
        cp = None
        for i in range(n):
            if cp is None or not case[2]:
                cp = psrpcore.ClientPowerShell(c, pipeline_id=new_pid())
                ms: typing.List[dict] = []
            add(cp, ms, (("cmd", "script")[i % 2], None, i % 3 == 0, i % 9), i)
            (p, meta), _ = send(cp, "2.3")
            check_def(p, ms, "2.3")
            ctx.step()
            if case[2]:
                completed(cp)
            else:
                finish(cp)
        ctx.state("many", case)
        return
    cp = psrpcore.ClientPowerShell(client("2.3"), pipeline_id=new_pid())
    ms = []
    if k in ("commands", "statements"):
        for i in range(n):
            add(cp, ms, (("cmd", "script", "obj")[i % 3], (None, True, False)[i // 3 % 3], k == "statements" and (i % 2 == 0 or n < 40), i % 8), i)
    elif k == "same":
        cmd = psrpcore.Command("c").add_parameter("p", 1)
        for i in range(n):
            cp.add_command(cmd)
            m = mcmd("c")
            m["params"] = [("p", canon(1))]
            ms.append(m)
    elif k == "nested":
        cp.add_command("c")
        ms.append(mcmd("c"))
        v: typing.Any = 1
        for i in range(min(n, 60)):
            v = [v] if i % 2 else {"k": v}
        cp.add_argument(v)
        cp.add_argument(list(range(n)))
        cp.add_parameter("d", {"k%d" % i: i for i in range(n)})
        ms[0]["params"] = [(None, canon(v)), (None, canon(list(range(n)))), ("d", canon({"k%d" % i: i for i in range(n)}))]
    else:
        cp.add_command("c")
        ms.append(mcmd("c"))
        for i in range(n):
            x = VALUES[NAMES[i % 44]]
            nm = None if k == "arguments" and i % 5 else "p%d" % (i % 200)
            if nm is None:
                cp.add_argument(x())
            else:
                cp.add_parameter(nm, x())
            ms[0]["params"].append((nm, canon(x())))
    (p, meta), _ = send(cp, "2.3")
    check_def(p, ms, "2.3")
    check_def(meta, ms, "2.3")
    ctx.step(n)
    ctx.state("many", case)
    finish(cp)


# ------------------------------------------------------------------ definitions written by another implementation
LISTN = "<T>System.Collections.Generic.List`1[[System.Management.Automation.PSObject, System.Management.Automation, Version=3.0.0.0]]</T><T>System.Object</T>"


class Enc:
    """Writes a definition the way PowerShell does; the order of fields is turned by `turn`."""

    def __init__(self, turn: int, extra: bool) -> None:
        self.turn, self.extra = turn, extra
        self.n = itertools.count(1)
        self.names: typing.Dict[str, int] = {}

    def tn(self, names: str) -> str:
        if self.turn:
            # fields are moved about: every object has its own list of type names
            return '<TN RefId="%d">%s</TN>' % (next(self.n), names)
        if names in self.names:
            return '<TNRef RefId="%d" />' % self.names[names]
        self.names[names] = len(self.names)
        return '<TN RefId="%d">%s</TN>' % (self.names[names], names)

    def fields(self, fs: typing.List[str]) -> str:
        if self.extra:
            fs = fs + ['<S N="SomethingNew">x</S>']
        k = self.turn % len(fs) if self.turn >= 0 else 0
        fs = fs[k:] + fs[:k]
        if self.turn < 0:
            fs = fs[::-1]
        return "<MS>%s</MS>" % "".join(fs)

    def obj(self, name: str, inner: typing.Callable[[], str], names: str = "") -> str:
        rid = next(self.n)
        tn = self.tn(names) if names else ""
        return '<Obj%s RefId="%d">%s%s</Obj>' % (' N="%s"' % name if name else "", rid, tn, inner())

    def enum(self, name: str, typ: str, v: int, txt: str) -> str:
        return self.obj(name, lambda: "<ToString>%s</ToString><I32>%d</I32>" % (txt, v), "<T>%s</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T>" % typ)

    def lst(self, name: str, items: typing.Sequence[typing.Callable[[], str]]) -> str:
        return self.obj(name, lambda: "<LST>%s</LST>" % "".join(i() for i in items), LISTN)

    def plain(self, tag: str, name: str, v: typing.Any) -> str:
        if v is None:
            return '<Nil N="%s" />' % name
        x = ("true" if v else "false") if tag == "B" else str(v).replace("&", "&amp;").replace("<", "&lt;")
        return '<%s N="%s">%s</%s>' % (tag, name, x, tag)

    def cmd(self, m: dict, version: str) -> str:
        def res(name: str, v: int) -> str:
            return self.enum(name, "System.Management.Automation.Runspaces.PipelineResultTypes", v, str(v))

        def arg(a: typing.Tuple) -> typing.Callable[[], str]:
            return lambda: self.obj("", lambda: self.fields([self.plain("S", "N", a[0]), self.plain("S" if isinstance(a[1], str) else "I32", "V", a[1])]))

        def body() -> str:
            fs = [
                self.plain("S", "Cmd", m["wire"]), self.plain("B", "IsScript", m["script"]), self.plain("B", "UseLocalScope", m["scope"]), res("MergeMyResult", m["my"]), res("MergeToResult", m["to"]),
                res("MergePreviousResults", int(R.Error | R.Output) if m["unclaimed"] else 0), self.lst("Args", [arg(a) for a in m["args"]]),
            ]
            for i, st in enumerate(STREAMS):
                if version >= ("2.3" if i == 4 else "2.2"):
                    fs.append(res("Merge" + st.capitalize(), m[st]))
            return self.fields(fs)

        return self.obj("", body)

    def whole(self, ms: typing.List[dict], version: str, o: dict) -> str:
        statements: typing.List[typing.List[dict]] = [[]]
        for m in ms:
            statements[-1].append(m)
            if m["eos"]:
                statements.append([])
        statements = [x for x in statements if x]

        def lists(x: typing.List[dict]) -> typing.List[typing.Callable[[], str]]:
            return [lambda m=m: self.cmd(m, version) for m in x]  # type: ignore[misc]

        def ps() -> str:
            fs = [self.plain("B", "IsNested", o["is_nested"])]
            if len(statements) > 1:
                fs.append(self.lst("ExtraCmds", [lambda x=x: self.obj("", lambda: self.fields([self.lst("Cmds", lists(x))])) for x in statements]))  # type: ignore[misc]
            elif o["nil_extra"]:
                fs.append('<Nil N="ExtraCmds" />')
            fs += [self.lst("Cmds", lists(statements[0])), self.plain("S", "History", o["history"]), self.plain("B", "RedirectShellErrorOutputPipe", o["redirect_shell_error_to_out"])]
            return self.fields(fs)

        return self.obj("", lambda: self.fields([
            self.plain("B", "NoInput", o["no_input"]), self.enum("ApartmentState", "System.Threading.ApartmentState", o["apartment_state"], "x"),
            self.enum("RemoteStreamOptions", "System.Management.Automation.RemoteStreamOptions", o["remote_stream_options"], "y"), self.plain("B", "AddToHistory", o["add_to_history"]),
            self.obj("HostInfo", lambda: self.fields([self.plain("B", x, True) for x in ("_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost")])),
            self.obj("PowerShell", ps), self.plain("B", "IsNested", o["is_nested"]),
        ]))


def fcmd(i: int, eos: bool, k: int) -> dict:
    wire_text = ["Get-Item", "caf_x00E9_ <&", "_x005F_x0041_", ""][k % 4] + str(i)
    m = mcmd(wire_text.replace("_x00E9_", "\u00e9").replace("_x005F_", "_"), bool(k & 1), [None, True, False][k % 3])
    args = [(), ((None, 1),), (("-n", "v"), (None, None), ("p", 5)), (("a", None), ("a", "x"))][k % 4]
    m.update(wire=wire_text, args=args, eos=eos, unclaimed=k % 5 == 1, my=[0, 2][k % 2], to=[0, 1][k % 2])
    for j, st in enumerate(STREAMS):
        m[st] = [0, 1, 3][(k + j) % 3]
    for n, v in args:
        m["params"].append((n, canon(v)))
    return m


def gen_foreign(tier: str):
    for version in VERSIONS:
        for turn in range(-1, 9):
            for extra in (False, True):
                for n in range(1, 4):
                    for brks in itertools.product((False, True), repeat=n - 1):
                        for k in range(6 if tier == "quick" else 24):
                            yield (version, turn, extra, brks, k)


def run_foreign(case, ctx: Ctx) -> None:
    version, turn, extra, brks, k = case
    ms = [fcmd(i, i < len(brks) and brks[i], k + 5 * i) for i in range(len(brks) + 1)]
    o = dict(DEFAULTS, no_input=bool(k & 1), add_to_history=bool(k & 2), is_nested=bool(k & 4), history=[None, "h", ""][k % 3], apartment_state=k % 3, remote_stream_options=(k * 5) % 16, redirect_shell_error_to_out=bool(k % 3))
    body = Enc(turn, extra).whole(ms, version, dict(o, nil_extra=bool(k % 2)))
    s = server()
    pid = new_pid()
    sp = psrpcore.ServerPipeline(s, pid)
    inject(s, True, "CreatePipeline", body.encode("utf-8"), pid=pid, rpid=RPID, oid=5000 + next(W.n))
    ev = events(s)
    same([type(e).__name__ for e in ev], ["CreatePipelineEvent"], "events")
    for p in (ev[0].pipeline, sp.metadata):
        check_def(p, ms, version, o)
    sp.close()
    ctx.step()
    ctx.state(case)


SCENARIOS = [
    Scenario("foreign", gen_foreign, run_foreign, "definitions as another implementation writes them: 4 versions, 10 orders of the fields at every level, with a field this library does not know, 1 to 3 commands in all divisions into statements"),
    Scenario("many", gen_many, run_many, "1..139 (299) and around powers of two and ten to 512 commands, statements, uses of one command, to 1024 parameters, arguments, names; texts to 65536 (100000); 300 pipelines or restarts on one connection", 2, timeout=120.0),
    Scenario("two-pipelines", gen_two, run_two, "9 building scripts pairwise in all interleavings, incl. errors and restarts"),
    Scenario("redirections", gen_redirect, run_redirect, "3^5 combinations, sequences of 2 (3) calls, pairs of commands, refused targets x 4 versions"),
    Scenario("values", gen_values, run_values, "every value in every position, all ordered pairs"),
    Scenario("parameters", gen_params, run_params, "all sequences of up to 3 of 10 parameters, of 4 of 5 (7), of 6 of 3 (5 of 5)"),
    Scenario("reuse", gen_reuse, run_reuse, "one command object used in several places"),
    Scenario("metadata", gen_meta, run_meta, "names x types x namespaces x arguments"),
    Scenario("text", gen_text, run_text, "all texts up to length 2 (3) over 13 critical characters"),
    Scenario("options", gen_options, run_options, "products of all pipeline options, pool apartment states and hosts"),
    Scenario("commands", gen_commands, run_commands, "pipelines of 1 to 3 commands (breaks up to 5 (7) commands)"),
]

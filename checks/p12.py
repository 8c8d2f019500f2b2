"""P12: pipeline input, output and all record kinds reach the peer unchanged."""
import datetime
import itertools
import ntpath
import posixpath
import re
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.canon import canon, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, RPID, deliver, drain, events, inject, open_pair, reason, start_pair
from mc.values import NAMES, VALUES, sizes
from checks.p05 import opened_server

RULE = (
    "products of optional field values of every record kind (each field over its domain, all pairs of fields), every value "
    "of the value alphabet as input, output, target, message data and event part, all ordered pairs of records, all peer "
    "versions; the received event is compared field by field with what was written"
)
ASSUMPTIONS = [
    "an error detail, stack trace or tag list that is empty may arrive as absent",
    "script root, command path and position message of the invocation details and the text of a script extent are derived by "
    "the receiver; so is the extent when none was given",
    "pipeline iteration details travel only together with invocation details",
    "absent bound parameters, arguments and line may arrive as empty ones",
]
TEXTS = ["a", "", "caf\u00e9 \n\t_x000A_ <&>\"']]>", "\U0001f600_x005F_\x00"]
INTS = [0, 1, -1, 2**31 - 1, -(2**31)]


class Info(typing.NamedTuple):
    CommandType: typing.Any
    Name: str
    Definition: str
    Visibility: typing.Any


class W:
    pair: typing.Any = None


def world() -> typing.Any:
    if W.pair is None:
        c, s = open_pair()
        W.pair = (c, s, *start_pair(c, s, PIDS[0], no_input=False))
    return W.pair


def tx(v: typing.Any) -> typing.Any:
    """Text or None, must be text."""
    if v is None:
        return None
    expect(isinstance(v, str), "%s where text was expected", type(v).__name__)
    return text(v)


def num(v: typing.Any) -> typing.Any:
    if v is None:
        return None
    expect(isinstance(v, int) and not isinstance(v, bool), "%s where a number was expected", type(v).__name__)
    return int(v)


# ------------------------------------------------------------------ invocation details
INV: typing.Dict[str, typing.List[typing.Any]] = {
    "BoundParameters": [None, (), (("p", "int"),), (("a", "str"), ("b", "list"))],
    "CommandOrigin": [1, 0, None],
    "DisplayScriptPosition": [None, ("f.ps1", 1, 2, 3, 4), ("", 0, 0, 0, 0), ("caf\u00e9_x000A_\n", 2**31 - 1, -1, 5, -(2**31))],
    "ExpectingInput": [None, True, False],
    "HistoryId": [None, 0, -1, 2**63 - 1],
    "InvocationName": [None, *TEXTS],
    "Line": [None, *TEXTS],
    "MyCommand": [None, (8, "n", "d", 0), (1, "", "caf\u00e9\n<", 1), (0x17F, "x", "", 1)],
    "OffsetInLine": [None, *INTS],
    "PipelineLength": [None, *INTS],
    "PipelinePosition": [None, *INTS],
    "ScriptLineNumber": [None, *INTS],
    "ScriptName": [None, *TEXTS, "C:\\a\\b.ps1", "/a/b.ps1"],
    "UnboundArguments": [None, (), ("int", "none", "dict")],
}
FULL = {"BoundParameters": (("p", "int"),), "CommandOrigin": 1, "DisplayScriptPosition": ("f.ps1", 1, 2, 3, 4), "ExpectingInput": True,
        "HistoryId": 7, "InvocationName": "iname", "Line": "the line", "MyCommand": (8, "n", "d", 0), "OffsetInLine": 11,
        "PipelineLength": 12, "PipelinePosition": 13, "ScriptLineNumber": 14, "ScriptName": "sname", "UnboundArguments": ("str",)}
MIN = {"CommandOrigin": 0}
PLAIN_INV = ("BoundParameters", "CommandOrigin", "ExpectingInput", "HistoryId", "InvocationName", "Line", "OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber", "ScriptName", "UnboundArguments")


def inv_make(spec: typing.Optional[dict]) -> typing.Any:
    if spec is None:
        return None
    kw: typing.Dict[str, typing.Any] = {}
    for k, v in spec.items():
        if v is None:
            continue
        if k == "BoundParameters":
            v = {n: VALUES[x]() for n, x in v}
        elif k == "UnboundArguments":
            v = [VALUES[x]() for x in v]
        elif k == "CommandOrigin":
            v = t.CommandOrigin(v)
        elif k == "DisplayScriptPosition":
            f, a, b, c, d = v
            v = t.ScriptExtent(t.ScriptPosition(f, a, b, "start line"), t.ScriptPosition(f, c, d, "end line"))
        elif k == "MyCommand":
            v = Info(t.CommandTypes(v[0]), v[1], v[2], t.SessionStateEntryVisibility(v[3]))
        kw[k] = v
    return t.InvocationInfo(**kw)


def inv_check(i: typing.Any, spec: typing.Optional[dict]) -> None:
    if spec is None:
        same(i, None, "invocation details")
        return
    expect(isinstance(i, t.InvocationInfo), "invocation details are %s", type(i).__name__)
    g = {k: spec.get(k) for k in INV}
    b = i.BoundParameters
    same(tuple((tx(k), canon(v)) for k, v in (b or {}).items()), tuple((text(k), canon(VALUES[v]())) for k, v in g["BoundParameters"] or ()), "bound parameters")
    same(tuple(canon(v) for v in i.UnboundArguments or []), tuple(canon(VALUES[v]()) for v in g["UnboundArguments"] or ()), "unbound arguments")
    if g["CommandOrigin"] is None:
        same(i.CommandOrigin, None, "command origin")
    else:
        same(canon(i.CommandOrigin), ("CommandOrigin", g["CommandOrigin"]), "command origin")
    if g["DisplayScriptPosition"] is not None:
        e = i.DisplayScriptPosition
        same((tx(e.File), num(e.StartLineNumber), num(e.StartColumnNumber), num(e.EndLineNumber), num(e.EndColumnNumber)),
             (text(g["DisplayScriptPosition"][0]), *g["DisplayScriptPosition"][1:]), "script extent")
    else:
        # worked out from the other details
        e = i.DisplayScriptPosition
        file, line = g["ScriptName"] or "", g["Line"] or ""
        same((tx(e.File), num(e.StartLineNumber), num(e.StartColumnNumber), num(e.EndLineNumber), num(e.EndColumnNumber)),
             (text(file), g["ScriptLineNumber"], g["OffsetInLine"], g["ScriptLineNumber"], len(line) + 1 if line else g["OffsetInLine"]), "script extent")
        same((tx(i.PSCommandPath), tx(i.PSScriptRoot)), (text(file), text((posixpath if "/" in file else ntpath).dirname(file))), "path of the script")
    if g["ExpectingInput"] is None:
        same(i.ExpectingInput, None, "expecting input")
    else:
        expect(isinstance(i.ExpectingInput, bool) and i.ExpectingInput == g["ExpectingInput"], "expecting input is %r", i.ExpectingInput)
    same(num(i.HistoryId), g["HistoryId"], "history id")
    same(tx(i.InvocationName), None if g["InvocationName"] is None else text(g["InvocationName"]), "invocation name")
    same(tx(i.Line) or "", text(g["Line"] or ""), "line")
    same(tx(i.ScriptName), None if g["ScriptName"] is None else text(g["ScriptName"]), "script name")
    for k in ("OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber"):
        same(num(getattr(i, k)), g[k], k)
    m = i.MyCommand
    if g["MyCommand"] is None:
        same(m, None, "command")
    else:
        expect(isinstance(m.CommandType, t.CommandTypes) and isinstance(m.Visibility, t.SessionStateEntryVisibility), "command details are mistyped")
        same((int(m.CommandType.value), tx(m.Name), tx(m.Definition), int(m.Visibility.value)),
             (g["MyCommand"][0], text(g["MyCommand"][1]), text(g["MyCommand"][2]), g["MyCommand"][3]), "command")


def invocations(tier: str) -> typing.Iterator[typing.Optional[dict]]:
    yield None
    yield {}
    yield dict(MIN)
    yield dict(FULL)
    for base in (FULL, MIN):
        for k, dom in INV.items():
            for v in dom:
                yield dict(base, **{k: v})
    if tier != "single":
        for k1, k2 in itertools.combinations(INV, 2):
            for v1, v2 in itertools.product(INV[k1], INV[k2]):
                yield dict(FULL, **{k1: v1, k2: v2})


ITER: typing.List[typing.Any] = [None, (), (0, 1), (5,)]


def iter_check(got: typing.Any, want: typing.Any, inv: typing.Any) -> None:
    if inv is None or want is None:
        same(None if not got else list(got), None, "pipeline iteration details")
    else:
        expect(got is not None, "pipeline iteration details are missing")
        same([num(x) for x in got], list(want), "pipeline iteration details")


def one(e: typing.List[typing.Any], kind: str) -> typing.Any:
    same([type(x).__name__ for x in e], [kind + "Event"], "events")
    same(e[0].pipeline_id, PIDS[0], "pipeline of the event")
    same(e[0].runspace_pool_id, RPID, "pool of the event")
    return e[0]


# ------------------------------------------------------------------ informational records
def gen_info(tier: str):
    for kind in ("debug", "verbose", "warning"):
        for m in TEXTS:
            for inv in (None, MIN, FULL):
                for it in ITER:
                    yield (kind, m, inv, it)
        for inv in invocations(tier):
            yield (kind, "m", inv, (1, 2))


def run_info(case, ctx: Ctx) -> None:
    kind, m, inv, it = case
    c, s, cp, sp = world()
    kw: typing.Dict[str, typing.Any] = {}
    if inv is not None:
        kw["invocation_info"] = inv_make(inv)
    if it is not None:
        kw["pipeline_iteration_info"] = list(it)
    getattr(sp, "write_" + kind)(m, **kw)
    cls = kind.capitalize() + "Record"
    e = one(deliver(s, c), cls)
    r = e.record
    expect(isinstance(r, getattr(t, cls)), "record is a %s", type(r).__name__)
    same(tx(r.Message), text(m), "message")
    inv_check(r.InvocationInfo, inv)
    iter_check(r.PipelineIterationInfo, it, inv)
    ctx.step()
    ctx.state("info", kind, m, repr(inv), it)


# ------------------------------------------------------------------ errors
EXC: typing.List[typing.Dict[str, typing.Any]] = [
    {"Message": "boom"},
    {"Message": "", "HResult": -2146233087, "Source": "src", "StackTrace": "at x\nat y", "HelpLink": "http://x", "TargetSite": "ts",
     "Data": {"k": 1}},
    {"Message": TEXTS[2], "InnerException": "inner"},
]


def exc_make(k: int, names: bool) -> typing.Any:
    kw = dict(EXC[k])
    if "InnerException" in kw:
        kw["InnerException"] = t.NETException(Message="inner", HResult=5)
    e = t.NETException(**kw)
    if names:
        e.PSObject.type_names = ["My.Exception", "System.SystemException", *e.PSObject.type_names]
    return e


def exc_fields(e: typing.Any) -> typing.Any:
    if e is None:
        return None
    return tuple((f, canon(getattr(e, f)) if f != "InnerException" else exc_fields(getattr(e, f)))
                 for f in ("Message", "Data", "HelpLink", "HResult", "InnerException", "Source", "StackTrace", "TargetSite"))


DET: typing.List[typing.Any] = [None, ("dm", None), (None, "da"), ("dm", "da"), ("", "da"), (TEXTS[2], TEXTS[3])]
CAT_BASE = (7, "act", "why", "tname", "ttype")
BASE_ERR = {"exc": (0, False), "cat": None, "target": None, "fqid": None, "det": None, "inv": None, "it": None, "trace": None}


def gen_error(tier: str):
    yield dict(BASE_ERR)
    for cat in range(32):
        yield dict(BASE_ERR, cat=(cat, None, None, None, None))
        yield dict(BASE_ERR, cat=(cat, "act", "why", "tname", "ttype"))
    for f in range(4):
        for x in TEXTS:
            v = list(CAT_BASE)
            v[f + 1] = x
            yield dict(BASE_ERR, cat=tuple(v))
    for n in NAMES:
        yield dict(BASE_ERR, target=n)
    for inv in invocations("single" if tier == "quick" else tier):
        yield dict(BASE_ERR, inv=inv, it=(1,))
    for ex, cat, tg, fq, det, inv, it, tr in itertools.product(
        ((0, False), (1, True), (2, False)), (None, CAT_BASE), (None, "custom", "list", "cyclic"), (None, "", TEXTS[2]), DET,
        (None, MIN, FULL), (None, (0, 3)), (None, "trace\nline 2"),
    ):
        if tier == "quick" and (DET.index(det) + (tr is not None) + (inv is not None) + (it is not None)) % 2:
            continue
        yield {"exc": ex, "cat": cat, "target": tg, "fqid": fq, "det": det, "inv": inv, "it": it, "trace": tr}


def err_kwargs(s: dict) -> dict:
    kw: typing.Dict[str, typing.Any] = {"exception": exc_make(*s["exc"])}
    if s["cat"] is not None:
        c = s["cat"]
        kw["category_info"] = t.ErrorCategoryInfo(Category=t.ErrorCategory(c[0]), Activity=c[1], Reason=c[2], TargetName=c[3], TargetType=c[4])
    if s["target"] is not None:
        kw["target_object"] = VALUES[s["target"]]()
    if s["fqid"] is not None:
        kw["fully_qualified_error_id"] = s["fqid"]
    if s["det"] is not None:
        kw["error_details"] = t.ErrorDetails(Message=s["det"][0], RecommendedAction=s["det"][1])
    if s["inv"] is not None:
        kw["invocation_info"] = inv_make(s["inv"])
    if s["it"] is not None:
        kw["pipeline_iteration_info"] = list(s["it"])
    if s["trace"] is not None:
        kw["script_stack_trace"] = s["trace"]
    return kw


def err_check(r: typing.Any, s: dict) -> None:
    expect(isinstance(r, t.ErrorRecord), "record is a %s", type(r).__name__)
    ex = exc_make(*s["exc"])
    same(exc_fields(r.Exception), exc_fields(ex), "exception")
    same([x.split("Deserialized.")[-1] for x in r.Exception.PSObject.type_names], list(ex.PSObject.type_names), "exception types")
    c = s["cat"] or (0, None, None, None, None)
    ci = r.CategoryInfo
    expect(isinstance(ci.Category, t.ErrorCategory), "category is a %s", type(ci.Category).__name__)
    same((int(ci.Category.value), tx(ci.Activity), tx(ci.Reason), tx(ci.TargetName), tx(ci.TargetType)),
         (c[0], *(x if x is None else text(x) for x in c[1:])), "category")
    same(text(str(ci)), text("%s (%s:%s) [%s], %s" % (t.ErrorCategory(c[0]).name, c[3] or "", c[4] or "", c[1] or "", c[2] or "")), "category text")
    same(canon(r.TargetObject), canon(VALUES[s["target"]]()) if s["target"] else ("null",), "target object")
    same(tx(r.FullyQualifiedErrorId), None if s["fqid"] is None else text(s["fqid"]), "error id")
    if s["det"] is None:
        same(r.ErrorDetails, None, "error details")
    else:
        same(tuple(tx(x) for x in (r.ErrorDetails.Message, r.ErrorDetails.RecommendedAction)),
             tuple(x if x is None else text(x) for x in s["det"]), "error details")
    inv_check(r.InvocationInfo, s["inv"])
    iter_check(r.PipelineIterationInfo, s["it"], s["inv"])
    remote = r.Exception.SerializedRemoteInvocationInfo
    if s["inv"] is None:
        same(remote, None, "invocation details of the exception")
    else:
        same([canon(getattr(remote, f)) for f in PLAIN_INV], [canon(getattr(inv_make(s["inv"]), f)) for f in PLAIN_INV], "invocation details of the exception")
    same(tx(r.ScriptStackTrace), s["trace"], "stack trace")
    same(text(str(r)), text((s["det"] or ("",))[0] or EXC[s["exc"][0]]["Message"]), "text of the error")


def run_error(case, ctx: Ctx) -> None:
    c, s, cp, sp = world()
    kw = err_kwargs(case)
    before = {k: canon(v, names=True) for k, v in kw.items() if k in ("exception", "category_info", "error_details", "target_object")}
    sp.write_error(**kw)
    same({k: canon(kw[k]) for k in before}, before, "arguments after writing")
    e = one(deliver(s, c), "ErrorRecord")
    err_check(e.record, case)
    ctx.step()
    ctx.state("error", repr(sorted(case.items())))


# a broken pool carries its reason
def run_broken(case, ctx: Ctx) -> None:
    c, s = open_pair()
    kw = err_kwargs(case)
    rec = t.ErrorRecord(
        Exception=kw["exception"], CategoryInfo=kw.get("category_info") or t.ErrorCategoryInfo(), TargetObject=kw.get("target_object"),
        FullyQualifiedErrorId=kw.get("fully_qualified_error_id"), ErrorDetails=kw.get("error_details"), ScriptStackTrace=kw.get("script_stack_trace"),
    )
    s.set_broken(rec)
    ev = deliver(s, c)
    same([(type(e).__name__, canon(e.state)) for e in ev], [("RunspacePoolStateEvent", ("RunspacePoolState", 5))], "events")
    err_check(ev[0].reason, dict(case, inv=None, it=None))
    same(c.state, t.RunspacePoolState.Broken, "client state")
    ctx.step()
    ctx.state("broken", repr(sorted(case.items())))


def gen_broken(tier: str):
    for ex, cat, tg, fq, det, tr in itertools.product(
        ((0, False), (1, True)), (None, CAT_BASE), (None, "custom"), (None, "id"), DET, (None, "trace"),
    ):
        yield {"exc": ex, "cat": cat, "target": tg, "fqid": fq, "det": det, "inv": None, "it": None, "trace": tr}


# ------------------------------------------------------------------ progress
PROG: typing.Dict[str, typing.List[typing.Any]] = {
    "activity": TEXTS, "activity_id": INTS, "status_description": TEXTS, "current_operation": [None, *TEXTS],
    "parent_activity_id": [None, *INTS], "percent_complete": [None, -1, 0, 50, 100, -(2**31)], "record_type": [None, 0, 1],
    "seconds_remaining": [None, *INTS],
}
PBASE = {"activity": "act", "activity_id": 21, "status_description": "stat", "current_operation": "op", "parent_activity_id": 22,
         "percent_complete": 23, "record_type": 1, "seconds_remaining": 24}
PDEF = {"current_operation": None, "parent_activity_id": -1, "percent_complete": -1, "record_type": 0, "seconds_remaining": -1}


def gen_progress(tier: str):
    for mask in range(32):
        yield {k: (v if k not in PDEF or mask >> list(PDEF).index(k) & 1 else None) for k, v in PBASE.items()}
    for k1, k2 in itertools.combinations(PROG, 2):
        for v1, v2 in itertools.product(PROG[k1], PROG[k2]):
            yield dict(PBASE, **{k1: v1, k2: v2})


def run_progress(case, ctx: Ctx) -> None:
    c, s, cp, sp = world()
    kw = {k: v for k, v in case.items() if v is not None}
    if "record_type" in kw:
        kw["record_type"] = t.ProgressRecordType(kw["record_type"])
    sp.write_progress(**kw)
    r = one(deliver(s, c), "ProgressRecord").record
    expect(isinstance(r, t.ProgressRecord), "record is a %s", type(r).__name__)
    w = {k: (PDEF.get(k) if v is None else v) for k, v in case.items()}
    expect(isinstance(r.RecordType, t.ProgressRecordType), "record type is a %s", type(r.RecordType).__name__)
    same(
        (tx(r.Activity), num(r.ActivityId), tx(r.StatusDescription), tx(r.CurrentOperation), num(r.ParentActivityId), num(r.PercentComplete),
         int(r.RecordType.value), num(r.SecondsRemaining)),
        (text(w["activity"]), w["activity_id"], text(w["status_description"]), None if w["current_operation"] is None else text(w["current_operation"]),
         w["parent_activity_id"], w["percent_complete"], w["record_type"], w["seconds_remaining"]), "progress record")
    ctx.step()
    ctx.state("progress", tuple(case.items()))


# ------------------------------------------------------------------ information
UTC = datetime.timezone.utc
TIMES: typing.List[typing.Any] = [
    (2021, 2, 3, 4, 5, 6, 7, 800, 0), (1, 1, 1, 0, 0, 0, 0, 0, None), (9999, 12, 31, 23, 59, 59, 999999, 900, 840), (2020, 2, 29, 1, 2, 3, 0, 100, -720),
]


def dt(spec: typing.Any) -> typing.Any:
    *d, ns, off = spec
    return t.PSDateTime(*d, nanosecond=ns, tzinfo=None if off is None else datetime.timezone(datetime.timedelta(minutes=off)))


INFO: typing.Dict[str, typing.List[typing.Any]] = {
    "message_data": ["str", *NAMES], "source": TEXTS, "time_generated": [None, *TIMES], "tags": [None, (), ("a",), tuple(TEXTS)],
    "user": [None, *TEXTS], "computer": [None, *TEXTS], "process_id": [None, 0, 1, 2**32 - 1], "native_thread_id": [None, 0, 2**32 - 1],
    "managed_thread_id": [None, 0, 7, 2**32 - 1],
}
IBASE = {"message_data": "str", "source": "src", "time_generated": TIMES[0], "tags": ("t",), "user": "usr", "computer": "cmp", "process_id": 31,
         "native_thread_id": 32, "managed_thread_id": 33}


def gen_information(tier: str):
    opt = [k for k in IBASE if k not in ("message_data", "source")]
    for mask in range(128):
        yield {k: (v if k not in opt or mask >> opt.index(k) & 1 else None) for k, v in IBASE.items()}
    for k1, k2 in itertools.combinations(INFO, 2):
        for v1, v2 in itertools.product(INFO[k1], INFO[k2]):
            yield dict(IBASE, **{k1: v1, k2: v2})


def info_kwargs(case: dict) -> dict:
    kw = {k: v for k, v in case.items() if v is not None}
    kw["message_data"] = VALUES[case["message_data"]]()
    if "time_generated" in kw:
        kw["time_generated"] = dt(kw["time_generated"])
    if "tags" in kw:
        kw["tags"] = list(kw["tags"])
    return kw


def run_information(case, ctx: Ctx) -> None:
    c, s, cp, sp = world()
    sp.write_information(**info_kwargs(case))
    r = one(deliver(s, c), "InformationRecord").record
    expect(isinstance(r, t.InformationRecord), "record is a %s", type(r).__name__)
    same(canon(r.MessageData), canon(VALUES[case["message_data"]]()), "message data")
    same(tx(r.Source), text(case["source"]), "source")
    same([tx(x) for x in r.Tags], [text(x) for x in case["tags"] or ()], "tags")
    for f, k in (("User", "user"), ("Computer", "computer")):
        v = tx(getattr(r, f))
        if case[k] is not None:
            same(v, text(case[k]), k)
        else:
            expect(isinstance(v, str), "%s has no default", k)
    if case["time_generated"] is not None:
        same(canon(r.TimeGenerated), canon(dt(case["time_generated"])), "time")
    else:
        now = datetime.datetime.now()
        g = r.TimeGenerated
        expect(abs((datetime.datetime(g.year, g.month, g.day, g.hour, g.minute, g.second) - now).total_seconds()) < 86400 * 2, "default time is %r", g)
    for f, k, de in (("ProcessId", "process_id", None), ("NativeThreadId", "native_thread_id", None), ("ManagedThreadId", "managed_thread_id", 0)):
        v = getattr(r, f)
        if case[k] is not None or de is not None:
            same(num(v), case[k] if case[k] is not None else de, k)
        else:
            expect(isinstance(v, int), "%s has no default", k)
    ctx.step()
    ctx.state("information", repr(case))


# ------------------------------------------------------------------ user events
EV: typing.Dict[str, typing.List[typing.Any]] = {
    "event_identifier": INTS, "source_identifier": TEXTS, "sender": [None, *NAMES], "source_args": [None, (), ("int", "none"), ("list", "custom", "str")],
    "message_data": [None, *NAMES], "time_generated": [None, *TIMES], "computer": [None, *TEXTS],
}
EBASE = {"event_identifier": 3, "source_identifier": "sid", "sender": "str", "source_args": ("int",), "message_data": "dict", "time_generated": TIMES[0],
         "computer": "cmp"}


def gen_user(tier: str):
    opt = [k for k in EBASE if k not in ("event_identifier", "source_identifier")]
    for mask in range(32):
        yield {k: (v if k not in opt or mask >> opt.index(k) & 1 else None) for k, v in EBASE.items()}
    for k1, k2 in itertools.combinations(EV, 2):
        if tier == "quick" and {k1, k2} == {"sender", "message_data"}:
            continue
        for v1, v2 in itertools.product(EV[k1], EV[k2]):
            yield dict(EBASE, **{k1: v1, k2: v2})


def run_user(case, ctx: Ctx) -> None:
    c, s, cp, sp = world()
    kw = {k: v for k, v in case.items() if v is not None}
    for k in ("sender", "message_data"):
        if k in kw:
            kw[k] = VALUES[kw[k]]()
    if "source_args" in kw:
        kw["source_args"] = [VALUES[x]() for x in kw["source_args"]]
    if "time_generated" in kw:
        kw["time_generated"] = dt(kw["time_generated"])
    s.send_event(**kw)
    e = deliver(s, c)
    same([(type(x).__name__, x.pipeline_id) for x in e], [("UserEventEvent", None)], "events")
    r = e[0].event
    same((num(r.EventIdentifier), tx(r.SourceIdentifier)), (case["event_identifier"], text(case["source_identifier"])), "event identifiers")
    for f, k in (("Sender", "sender"), ("MessageData", "message_data")):
        same(canon(getattr(r, f)), canon(VALUES[case[k]]()) if case[k] else ("null",), k)
    same([canon(x) for x in r.SourceArgs], [canon(VALUES[x]()) for x in case["source_args"] or ()], "source args")
    if case["time_generated"] is not None:
        same(canon(r.TimeGenerated), canon(dt(case["time_generated"])), "time")
    else:
        expect(isinstance(r.TimeGenerated, datetime.datetime), "no default time")
    if case["computer"] is not None:
        same(tx(r.ComputerName), text(case["computer"]), "computer")
    else:
        expect(isinstance(r.ComputerName, str), "no default computer")
    same(canon(r.RunspaceId), ("PSGuid", RPID.int), "runspace id")
    ctx.step()
    ctx.state("event", repr(case))


# ------------------------------------------------------------------ input and output
def gen_data(tier: str):
    for n in NAMES:
        for d in ("out", "in"):
            yield (d, (n,))
    for d in ("out", "in"):
        for p in itertools.product(NAMES, repeat=2):
            yield (d, p)


def run_data(case, ctx: Ctx) -> None:
    d, ns = case
    c, s, cp, sp = world()
    src, dst, kind = (s, c, "PipelineOutputEvent") if d == "out" else (c, s, "PipelineInputEvent")
    for n in ns:
        v = VALUES[n]()
        before = canon(v)
        (sp.write_output if d == "out" else cp.send)(v)
        same(canon(v), before, "value after it was sent")
        ctx.step()
    if d == "in":
        cp.send_eof()
    ev = deliver(src, dst)
    same([(type(e).__name__, e.pipeline_id) for e in ev], [(kind, PIDS[0])] * len(ns) + ([("EndOfPipelineInputEvent", PIDS[0])] if d == "in" else []), "events")
    for e, n in zip(ev, ns):
        same(canon(e.data), canon(VALUES[n]()), "data of " + n)
    ctx.state("data", case)


# ------------------------------------------------------------------ records do not influence each other; versions
def kinds() -> typing.List[typing.Tuple[str, typing.Callable, typing.Any]]:
    out: typing.List[typing.Tuple[str, typing.Callable, typing.Any]] = []
    for k in ("debug", "verbose", "warning"):
        out.append((k, run_info, (k, "first", None, None)))
        out.append((k + "+inv", run_info, (k, "second", FULL, (1, 2))))
    out.append(("error", run_error, dict(BASE_ERR)))
    out.append(("error+inv", run_error, dict(BASE_ERR, inv=MIN, it=(3,), cat=CAT_BASE, det=("x", "y"), trace="tr", fqid="f", target="custom")))
    out.append(("progress", run_progress, dict(PBASE)))
    out.append(("progress-min", run_progress, dict(PBASE, current_operation=None, parent_activity_id=None, percent_complete=None, record_type=None, seconds_remaining=None)))
    out.append(("information", run_information, dict(IBASE)))
    out.append(("information-min", run_information, dict(IBASE, tags=None, user=None, computer=None)))
    out.append(("event", run_user, dict(EBASE)))
    out.append(("event-min", run_user, dict(EBASE, sender=None, source_args=None, message_data=None)))
    out.append(("out", run_data, ("out", ("custom",))))
    out.append(("in", run_data, ("in", ("list",))))
    return out


KINDS = kinds()


def gen_sequence(tier: str):
    n = len(KINDS)
    for seq in itertools.product(range(n), repeat=2):
        yield seq
    for seq in itertools.product(range(n), repeat=3):
        if tier != "quick" or sum(seq) % 2 == 0:
            yield seq


def run_sequence(seq, ctx: Ctx) -> None:
    W.pair = None
    for i in seq:
        KINDS[i][1](KINDS[i][2], ctx)
    W.pair = None


def gen_versions(tier: str):
    for v in ("2.0", "2.1", "2.2", "2.3", "2.4", "3.0"):
        yield v


def run_versions(v: str, ctx: Ctx) -> None:
    s = opened_server(v)
    drain(s)
    sp = psrpcore.ServerPipeline(s, PIDS[0])
    for started in (False, True):
        if started:
            sp.start()
            drain(s)
        r, e = reason(sp.write_information, "m", "s")
        if v < "2.3":
            same(r, "InvalidProtocolVersion", "information record for a %s client" % v)
            same(s.data_to_send(), None, "data sent")
        elif not started:
            same(r, "InvalidPipelineState", "information record before start")
        else:
            same(r, "ok", "information record for a %s client" % v)
            same(len(drain(s)), 1, "payloads")
        ctx.step()
        ctx.state("version", v, started)
    for m, a in (("write_debug", ("x",)), ("write_verbose", ("x",)), ("write_warning", ("x",)), ("write_output", ("x",)),
                 ("write_error", (t.NETException(Message="x"),)), ("write_progress", ("a", 1, "b"))):
        getattr(sp, m)(*a)
        same(len(drain(s)), 1, "%s to a %s client" % (m, v))


# ------------------------------------------------------------------ how many and how long
def gen_many(tier: str):
    top = 70000 if tier == "quick" else 100001
    few = [n for n in sizes(tier, 1100) if n < 20 or n % 3 == 0 or n > 250]
    for n in sizes(tier, top):
        yield ("text", n)
    for n in few:
        for k in ("tags", "iteration", "bound", "unbound", "args"):
            yield (k, n)
    for n in range(1, 25):
        yield ("inner", n)
    for kind in range(len(KINDS)):
        for n in (16, 140, 280):
            yield ("repeat", n, kind)
    for n in (3, 10, 40):
        yield ("all", n)


def run_many(case, ctx: Ctx) -> None:
    k, n = case[:2]
    c, s, cp, sp = world()
    if k == "text":
        x = ("caf\u00e9 _x0041_ " * (n // 12 + 1))[:n]
        pl = "p" * n
        for kind in ("debug", "verbose", "warning"):
            run_info((kind, x, dict(MIN, Line=pl, InvocationName=x), (1,)), ctx)
        run_progress(dict(PBASE, activity=x, status_description=pl, current_operation=x), ctx)
        run_information(dict(IBASE, tags=(x, pl), user=x, computer=pl, source=pl), ctx)
        run_user(dict(EBASE, source_identifier=x, computer=pl), ctx)
        run_error(dict(BASE_ERR, det=("d" + x, pl), trace="t" + pl, fqid=x, cat=(3, x, pl, x, pl)), ctx)
        e = t.NETException(Message=x, StackTrace=pl, Source=x)
        sp.write_error(e)
        same(exc_fields(one(deliver(s, c), "ErrorRecord").record.Exception), exc_fields(e), "exception")
        cp.send(x)
        cp.send(pl)
        same([text(e.data) for e in deliver(c, s)], [text(x), text(pl)], "input")
        sp.write_output(pl)
        sp.write_output(x)
        same([text(e.data) for e in deliver(s, c)], [text(pl), text(x)], "output")
    elif k == "tags":
        run_information(dict(IBASE, tags=tuple("t%d" % (i % 50) for i in range(n))), ctx)
    elif k == "iteration":
        it = tuple(i * 7 % 11 for i in range(n))
        run_info(("warning", "m", MIN, it), ctx)
        run_error(dict(BASE_ERR, inv=MIN, it=it), ctx)
    elif k == "bound":
        inv = dict(FULL, BoundParameters=tuple(("p%d" % i, NAMES[i % 40]) for i in range(n)))
        run_info(("verbose", "m", inv, (1,)), ctx)
    elif k == "unbound":
        inv = dict(FULL, UnboundArguments=tuple(NAMES[i % 40] for i in range(n)))
        run_info(("debug", "m", inv, (1,)), ctx)
        run_error(dict(BASE_ERR, inv=inv, it=(1,)), ctx)
    elif k == "args":
        run_user(dict(EBASE, source_args=tuple(NAMES[i * 3 % 44] for i in range(n))), ctx)
        run_data(("out", tuple(NAMES[i % 44] for i in range(n))), ctx)
    elif k == "inner":
        e = None
        for i in range(n):
            e = t.NETException(Message="m%d" % i, HResult=i, InnerException=e)
        sp.write_error(e)
        r = one(deliver(s, c), "ErrorRecord").record
        same(exc_fields(r.Exception), exc_fields(e), "exceptions")
    elif k == "repeat":
        W.pair = None
        for _ in range(n):
            KINDS[case[2]][1](KINDS[case[2]][2], ctx)
        W.pair = None
    else:
        W.pair = None
        for i in range(n):
            for j in range(len(KINDS)):
                kk = KINDS[(j * (1 + 2 * (i % 7))) % len(KINDS)]
                kk[1](kk[2], ctx)
        W.pair = None
    ctx.state("many", case)


# ------------------------------------------------------------------ records written by another implementation
FT = ["plain", "", "caf_x00E9_ _x000A_<&>\"", "_x005F_x0041_", "  x "]


def esc(x: str) -> str:
    return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def unx(x: str) -> str:
    return re.sub("_x([0-9A-F]{4})_", lambda m: chr(int(m.group(1), 16)), x)


def fs(name: str, v: typing.Optional[str]) -> str:
    return '<Nil N="%s" />' % name if v is None else '<S N="%s">%s</S>' % (name, esc(v))


def fi(name: str, v: typing.Optional[int], tag: str = "I32") -> str:
    return '<Nil N="%s" />' % name if v is None else '<%s N="%s">%d</%s>' % (tag, name, v, tag)


def fe(name: str, typ: str, v: int, txt: str, rid: int) -> str:
    return '<Obj N="%s" RefId="%d"><TN RefId="%d"><T>%s</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T></TN><ToString>%s</ToString><I32>%d</I32></Obj>' % (name, rid, rid, typ, txt, v)


def flist(name: str, items: typing.Sequence[str], rid: int) -> str:
    return '<Obj N="%s" RefId="%d"><TN RefId="%d"><T>System.Collections.ArrayList</T><T>System.Object</T></TN><LST>%s</LST></Obj>' % (name, rid, rid, "".join(items))


def finv(v: typing.List[typing.Any]) -> typing.Tuple[typing.List[str], typing.Dict[str, typing.Any]]:
    x, n = v[0], v[1]
    parts = [
        '<Obj N="InvocationInfo_BoundParameters" RefId="20"><TN RefId="20"><T>System.Management.Automation.PSBoundParametersDictionary</T><T>System.Collections.Generic.Dictionary`2[[System.String],[System.Object]]</T><T>System.Object</T></TN>'
        '<DCT><En><S N="Key">p</S><I32 N="Value">5</I32></En></DCT></Obj>',
        fe("InvocationInfo_CommandOrigin", "System.Management.Automation.CommandOrigin", 0, "Runspace", 21),
        '<B N="InvocationInfo_ExpectingInput">true</B>', fs("InvocationInfo_InvocationName", x), fs("InvocationInfo_Line", x), fi("InvocationInfo_OffsetInLine", n), fi("InvocationInfo_HistoryId", n, "I64"),
        flist("InvocationInfo_PipelineIterationInfo", [], 22), fi("InvocationInfo_PipelineLength", n), fi("InvocationInfo_PipelinePosition", n + 1), fs("InvocationInfo_PSScriptRoot", x), fs("InvocationInfo_PSCommandPath", x),
        fs("InvocationInfo_PositionMessage", x), fi("InvocationInfo_ScriptLineNumber", n + 2), fs("InvocationInfo_ScriptName", x), flist("InvocationInfo_UnboundArguments", ["<S>u</S>", "<Nil />"], 23),
        '<B N="SerializeExtent">false</B>', fe("CommandInfo_CommandType", "System.Management.Automation.CommandTypes", 8, "Cmdlet", 24), fs("CommandInfo_Definition", x), fs("CommandInfo_Name", x),
        fe("CommandInfo_Visibility", "System.Management.Automation.SessionStateEntryVisibility", 0, "Public", 25),
    ]
    return parts, {"x": unx(x), "n": n}


def cinv(i: typing.Any, w: typing.Dict[str, typing.Any]) -> None:
    x, n = w["x"], w["n"]
    expect(isinstance(i, t.InvocationInfo), "invocation details are %s", type(i).__name__)
    same([(str(k), num(v)) for k, v in i.BoundParameters.items()], [("p", 5)], "bound parameters")
    same(canon(i.CommandOrigin), ("CommandOrigin", 0), "origin")
    same((i.ExpectingInput, str(i.InvocationName), str(i.Line), num(i.OffsetInLine), num(i.HistoryId)), (True, x, x, n, n), "details")
    same((num(i.PipelineLength), num(i.PipelinePosition), num(i.ScriptLineNumber), str(i.ScriptName)), (n, n + 1, n + 2, x), "details")
    same([canon(a) for a in i.UnboundArguments], [canon("u"), canon(None)], "arguments")
    m = i.MyCommand
    same((canon(m.CommandType), str(m.Definition), str(m.Name), canon(m.Visibility)), (canon(t.CommandTypes.Cmdlet), x, x, canon(t.SessionStateEntryVisibility.Public)), "command")


def f_error(v: typing.List[typing.Any]) -> typing.Tuple[str, typing.List[str], typing.Callable]:
    x, n, inv = v
    parts = [
        '<Obj N="Exception" RefId="1"><TN RefId="1"><T>System.Management.Automation.RuntimeException</T><T>System.Exception</T><T>System.Object</T></TN><ToString>%s</ToString><Props>%s%s<Nil N="InnerException" /></Props></Obj>' % (esc(x), fs("Message", x), fi("HResult", n)),
        "<S N=\"TargetObject\">target</S>", fs("FullyQualifiedErrorId", x), '<Nil N="InvocationInfo" />', fi("ErrorCategory_Category", 7), fs("ErrorCategory_Activity", x), fs("ErrorCategory_Reason", x + "r"),
        fs("ErrorCategory_TargetName", x + "n"), fs("ErrorCategory_TargetType", None), fs("ErrorCategory_Message", x + "m"), fs("ErrorDetails_Message", x + "d"), fs("ErrorDetails_RecommendedAction", x + "a"),
        fs("ErrorDetails_ScriptStackTrace", x + "t"), '<B N="SerializeExtendedInfo">%s</B>' % ("true" if inv else "false"),
    ]
    w = {}
    if inv:
        more, w = finv(v)
        parts += more + [flist("PipelineIterationInfo", ["<I32>3</I32>", "<I32>4</I32>"], 30)]
    u = unx(x)

    def check(e: typing.Any) -> None:
        r = e.record
        expect(isinstance(r, t.ErrorRecord), "record is a %s", type(r).__name__)
        same((str(r.Exception.Message), num(r.Exception.HResult)), (u, n), "exception")
        same(canon(r.TargetObject), canon("target"), "target")
        same(tx(r.FullyQualifiedErrorId), u, "error id")
        ci = r.CategoryInfo
        same((canon(ci.Category), tx(ci.Activity), tx(ci.Reason), tx(ci.TargetName), tx(ci.TargetType)), (canon(t.ErrorCategory(7)), u, u + "r", u + "n", None), "category")
        same(tx(ci.PSObject.to_string), u + "m", "category text of the sender")
        same((tx(r.ErrorDetails.Message), tx(r.ErrorDetails.RecommendedAction), tx(r.ScriptStackTrace)), (u + "d", u + "a", u + "t"), "details")
        if inv:
            cinv(r.InvocationInfo, w)
            same([num(i) for i in r.PipelineIterationInfo], [3, 4], "iteration")
        else:
            same((r.InvocationInfo, r.PipelineIterationInfo), (None, None), "invocation details")

    return "ErrorRecord", parts, check


def f_text(kind: str) -> typing.Callable:
    def make(v: typing.List[typing.Any]) -> typing.Tuple[str, typing.List[str], typing.Callable]:
        x, n, inv = v
        parts = [fs("InformationalRecord_Message", x), '<B N="InformationalRecord_SerializeInvocationInfo">%s</B>' % ("true" if inv else "false")]
        w = {}
        if inv:
            more, w = finv(v)
            parts += more + [flist("InformationalRecord_PipelineIterationInfo", ["<I32>%d</I32>" % n], 30)]

        def check(e: typing.Any) -> None:
            r = e.record
            same(type(r).__name__, kind, "record")
            same(tx(r.Message), unx(x), "message")
            if inv:
                cinv(r.InvocationInfo, w)
                same([num(i) for i in r.PipelineIterationInfo], [n], "iteration")

        return kind, parts, check

    return make


def f_progress(v: typing.List[typing.Any]) -> typing.Tuple[str, typing.List[str], typing.Callable]:
    x, n, flag = v
    parts = [fs("Activity", x), fi("ActivityId", n), fs("StatusDescription", x + "s"), fs("CurrentOperation", x + "o" if flag else None), fi("ParentActivityId", n + 1), fi("PercentComplete", n + 2),
             fe("Type", "System.Management.Automation.ProgressRecordType", 1, "Completed", 3), fi("SecondsRemaining", n + 3)]

    def check(e: typing.Any) -> None:
        r = e.record
        u = unx(x)
        same((tx(r.Activity), num(r.ActivityId), tx(r.StatusDescription), tx(r.CurrentOperation)), (u, n, u + "s", u + "o" if flag else None), "progress")
        same((num(r.ParentActivityId), num(r.PercentComplete), canon(r.RecordType), num(r.SecondsRemaining)), (n + 1, n + 2, canon(t.ProgressRecordType.Completed), n + 3), "progress")

    return "ProgressRecord", parts, check


def f_information(v: typing.List[typing.Any]) -> typing.Tuple[str, typing.List[str], typing.Callable]:
    x, n, flag = v
    n = abs(n) // 2
    parts = [fs("MessageData", x), fs("Source", x + "s"), '<DT N="TimeGenerated">2020-01-02T03:04:05.1234567+01:00</DT>', flist("Tags", ["<S>%s</S>" % esc(x), "<S>two</S>"] if flag else [], 4), fs("User", x + "u"), fs("Computer", x + "c"),
             fi("ProcessId", n, "U32"), fi("NativeThreadId", n + 1, "U32"), fi("ManagedThreadId", n + 2, "U32")]

    def check(e: typing.Any) -> None:
        r = e.record
        u = unx(x)
        same((tx(r.MessageData), tx(r.Source), tx(r.User), tx(r.Computer)), (u, u + "s", u + "u", u + "c"), "information")
        same((num(r.ProcessId), num(r.NativeThreadId), num(r.ManagedThreadId), [tx(i) for i in r.Tags]), (n, n + 1, n + 2, [u, "two"] if flag else []), "information")
        d = r.TimeGenerated
        same((d.isoformat(), d.nanosecond), ("2020-01-02T03:04:05.123456+01:00", 700), "time")

    return "InformationRecord", parts, check


def f_event(v: typing.List[typing.Any]) -> typing.Tuple[str, typing.List[str], typing.Callable]:
    x, n, flag = v
    parts = [fi("PSEventArgs.EventIdentifier", n), fs("PSEventArgs.SourceIdentifier", x), '<DT N="PSEventArgs.TimeGenerated">2020-01-02T03:04:05.1234567Z</DT>', fs("PSEventArgs.Sender", x + "s"),
             flist("PSEventArgs.SourceArgs", ["<I32>1</I32>", "<S>%s</S>" % esc(x)] if flag else [], 4), fs("PSEventArgs.MessageData", x + "d" if flag else None), fs("PSEventArgs.ComputerName", x + "c"),
             '<G N="PSEventArgs.RunspaceId">00000000-0000-0000-0000-0000000000aa</G>']

    def check(e: typing.Any) -> None:
        r = e.event
        u = unx(x)
        same((num(r.EventIdentifier), tx(r.SourceIdentifier), tx(r.Sender), tx(r.MessageData), tx(r.ComputerName)), (n, u, u + "s", u + "d" if flag else None, u + "c"), "event")
        same(([canon(i) for i in r.SourceArgs], int(r.RunspaceId)), ([canon(1), canon(u)] if flag else [], 0xAA), "event")
        same((r.TimeGenerated.isoformat(), r.TimeGenerated.nanosecond), ("2020-01-02T03:04:05.123456+00:00", 700), "time")

    return "UserEvent", parts, check


FOREIGN: typing.List[typing.Callable] = [f_error, f_text("DebugRecord"), f_text("VerboseRecord"), f_text("WarningRecord"), f_progress, f_information, f_event]


def gen_foreign(tier: str):
    for k in range(len(FOREIGN)):
        for x in FT:
            for n in (0, 5, -3, 2**31 - 4, -(2**31)):
                for flag in (False, True):
                    m = len(FOREIGN[k]([x, n, flag])[1])
                    for how in ("reverse", "plain", *range(m)):
                        if tier == "quick" and (x, n) not in ((FT[0], 5), (FT[2], 0)) and how not in ("reverse", "plain", 0):
                            continue
                        for extra in (None, 0, m // 2, m):
                            yield (k, x, n, flag, how, extra)


def run_foreign(case, ctx: Ctx) -> None:
    k, x, n, flag, how, extra = case
    typ, parts, check = FOREIGN[k]([x, n, flag])
    if how == "plain":  # enumeration values as numbers
        parts = [re.sub('^<Obj N="([^"]*)" .*</ToString><I32>(.*)</I32></Obj>$', r'<I32 N="\1">\2</I32>', x) for x in parts]
    else:
        parts = parts[::-1] if how == "reverse" else parts[how:] + parts[:how]
    if extra is not None:
        parts.insert(extra, '<B N="writeErrorStream">true</B>')
    names = "<TN RefId=\"0\"><T>System.Management.Automation.%s</T><T>System.Object</T></TN>" % typ if k < 4 or extra != 0 else ""
    body = '<Obj RefId="0">%s<ToString>text of the record</ToString><MS>%s</MS></Obj>' % (names, "".join(parts))
    c, s, cp, sp = world()
    drain(s)
    inject(c, False, typ, body.encode(), pid=None if typ == "UserEvent" else cp.pipeline_id)
    ev = events(c)
    same([e.message_type.name for e in ev], [typ], "events")
    check(ev[0])
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ records a program makes itself and sends as a value
def gen_objects(tier: str):
    for kind in ("Error", "Debug", "Verbose", "Warning"):
        for flag in (None, False, True):
            for inv in (None, {}, MIN, FULL) if tier == "quick" else list(invocations("single")):
                for it in (None, (0, 1)):
                    for det in DETAILS if kind == "Error" else (None,):
                        for how in ("output", "input", "nested", "broken", "answer") if kind == "Error" else ("output", "input", "nested"):
                            yield (kind, flag, inv, it, det, how)


DETAILS: typing.List[typing.Any] = [None, ("", None), (None, ""), ("", ""), ("dm", None), (None, "da"), ("dm", "da")]


def run_objects(case, ctx: Ctx) -> None:
    kind, flag, inv, it, det, how = case
    kw: typing.Dict[str, typing.Any] = {"InvocationInfo": inv_make(inv), "PipelineIterationInfo": None if it is None else list(it)}
    if kind == "Error":
        r = t.ErrorRecord(Exception=t.NETException(Message="m"), CategoryInfo=t.ErrorCategoryInfo(Reason="why"), FullyQualifiedErrorId="",
                          ErrorDetails=None if det is None else t.ErrorDetails(Message=det[0], RecommendedAction=det[1]), **kw)
    else:
        r = getattr(t, kind + "Record")(Message="m", **kw)
    if flag is not None:
        r.serialize_extended_info = flag
    if how == "broken":
        c, s = open_pair()
        s.set_broken(r)
        got = deliver(s, c)[0].reason
    else:
        c, s, cp, sp = world()
        if how == "output":
            sp.write_output(r)
            got = one(deliver(s, c), "PipelineOutput").data
        elif how == "nested":
            sp.write_output({"k": [1, r]})
            got = one(deliver(s, c), "PipelineOutput").data["k"][1]
        elif how == "input":
            cp.send(r)
            got = one(deliver(c, s), "PipelineInput").data
        else:
            sp.host_call(t.HostMethodIdentifier.ReadLine, [])
            cp.host_response(int(deliver(s, c)[0].ci), None, r)
            got = one(deliver(c, s), "PipelineHostResponse").error
    same(type(got).__name__, kind + "Record", "record")
    same(bool(got.serialize_extended_info), bool(flag) and inv is not None, "whether the invocation details were sent")
    inv_check(got.InvocationInfo, inv if flag else None)
    iter_check(got.PipelineIterationInfo, it, inv if flag else None)
    if kind == "Error":
        same((got.Exception.Message, tx(got.CategoryInfo.Reason), tx(got.FullyQualifiedErrorId), got.TargetObject), ("m", "why", "", None), "error")
        if det is None:
            same(got.ErrorDetails, None, "error details")
        else:
            expect(got.ErrorDetails is not None, "error details %r are lost", det)
            same((tx(got.ErrorDetails.Message), tx(got.ErrorDetails.RecommendedAction)), det, "error details")
    else:
        same(tx(got.Message), "m", "message")
    # the record of the sender is as it was
    same((bool(r.serialize_extended_info), r.InvocationInfo is None, r.PipelineIterationInfo), (bool(flag), inv is None, kw["PipelineIterationInfo"]), "record of the sender")
    ctx.step()
    ctx.state("object", repr(case))


SCENARIOS = [
    Scenario("objects", gen_objects, run_objects, "records a program makes itself, as output, input, inside a container, as the reason of a broken pool and of a failed host call: 4 kinds x the flag for invocation details x 4 invocations (all single fields) x iteration x 7 error details"),
    Scenario("foreign", gen_foreign, run_foreign, "7 kinds of record as another implementation writes them: every rotation of the fields and reversed, enumeration values as numbers, a field this library does not know at 3 places, 5 texts, 5 numbers"),
    Scenario("many", gen_many, run_many, "texts of every length up to 139 (299) and around powers of two and ten to 65536 (100000) in every field; up to 1024 tags, iteration entries, parameters, arguments; 24 nested exceptions; each of 16 records up to 280 times on one connection", 2, timeout=120.0),
    Scenario("versions", gen_versions, run_versions, "information records for client versions 2.0 to 3.0, before and after start"),
    Scenario("sequences", gen_sequence, run_sequence, "all ordered pairs (triples) of 16 record variants on a fresh connection"),
    Scenario("data", gen_data, run_data, "every value and ordered pair of values as input and output"),
    Scenario("informational", gen_info, run_info, "3 kinds x messages x invocation details (single fields / pairs) x iteration details"),
    Scenario("progress", gen_progress, run_progress, "all presence masks, all pairs of field values"),
    Scenario("information", gen_information, run_information, "all presence masks, all pairs of field values"),
    Scenario("events", gen_user, run_user, "all presence masks, all pairs of field values"),
    Scenario("broken", gen_broken, run_broken, "reasons of a broken pool"),
    Scenario("errors", gen_error, run_error, "categories, targets, invocation details, products of presence"),
]

"""P09: every host method carries its arguments and result intact and typed."""
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.canon import canon, prim, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, RPID, deliver, open_pair, reason, start_pair
from mc.values import sizes

RULE = (
    "all methods of the server's requestor and the client's responder x products of argument domains (all colors, flags, "
    "boundary numbers, empty/omitted/special texts, lists and grids of different shapes), from pool and pipeline; method, "
    "decoded arguments and decoded results are compared with the given ones field by field and by type"
)
ASSUMPTIONS = [
    "buffer contents are rectangles with at least one cell",
    "a field's default value and attributes are not part of the wire format of a prompt (as in PowerShell)",
    "a color that was left out may arrive as any color when the other one was given",
]
MI = t.HostMethodIdentifier

# Values are written as plain specs: None, bool, int, str, ("list", ...), ("dict", (k, v)...) or (type name, fields...)
FIELDS: typing.Dict[str, typing.Tuple[str, ...]] = {
    "Coordinates": ("X", "Y"),
    "Size": ("Width", "Height"),
    "Rectangle": ("Left", "Top", "Right", "Bottom"),
    "BufferCell": ("Character", "ForegroundColor", "BackgroundColor", "BufferCellType"),
    "ChoiceDescription": ("Label", "HelpMessage"),
    "FieldDescription": ("Name", "ParameterTypeName", "ParameterTypeFullName", "ParameterAssemblyFullName", "Label",
                         "HelpMessage", "IsMandatory"),
    "KeyInfo": ("VirtualKeyCode", "Character", "ControlKeyState", "KeyDown"),
    "ProgressRecord": ("Activity", "ActivityId", "StatusDescription", "CurrentOperation", "ParentActivityId",
                       "PercentComplete", "RecordType", "SecondsRemaining"),
    "PSCredential": ("UserName", "Password"),
}
ENUMS = {"ConsoleColor", "BufferCellType", "ControlKeyStates", "ReadKeyOptions", "PSCredentialTypes",
         "PSCredentialUIOptions", "ProgressRecordType"}


def mk(s: typing.Any) -> typing.Any:
    if not isinstance(s, tuple):
        return s
    n, a = s[0], s[1:]
    if n == "list":
        return [mk(x) for x in a]
    if n == "dict":
        return {mk(k): mk(v) for k, v in a}
    if n in ENUMS:
        return getattr(t, n)(a[0])
    if n == "PSChar":
        return t.PSChar(a[0])
    if n == "PSVersion":
        return t.PSVersion(".".join(str(i) for i in a))
    if n == "PSGuid":
        return uuid.UUID(int=a[0])
    if n == "PSSecureString":
        return t.PSSecureString(a[0])
    return getattr(t, n)(**{f: mk(v) for f, v in zip(FIELDS[n], a)})


def d(v: typing.Any) -> typing.Any:
    n = type(v).__name__
    if v is None or isinstance(v, bool):
        return v
    if n in ENUMS:
        return (n, int(v.value))
    if isinstance(v, str):
        return text(v) if n in ("str", "PSString") else (n, text(v))
    if isinstance(v, int):
        return int(v) if n in ("int", "PSInt") else (n, int(v))
    if isinstance(v, dict):
        return ("dict",) + tuple((d(k), d(x)) for k, x in dict.items(v))
    if isinstance(v, list):
        return ("list",) + tuple(d(x) for x in v)
    if isinstance(v, uuid.UUID):
        return ("PSGuid", v.int)
    if isinstance(v, t.PSVersion):
        return ("PSVersion",) + tuple(x for x in (v.major, v.minor, v.build, v.revision) if x is not None and x >= 0)
    if isinstance(v, t.PSSecureString):
        return ("PSSecureString", text(v.decrypt()))
    if n in FIELDS:
        return (n,) + tuple(d(getattr(v, f)) for f in FIELDS[n])
    return ("?", n, canon(v))


def specs(s: typing.Any) -> typing.Any:
    """Spec in the normal form of d()."""
    if isinstance(s, str):
        return text(s)
    if isinstance(s, tuple):
        return (s[0],) + tuple(specs(x) if s[0] != "dict" else (specs(x[0]), specs(x[1])) for x in s[1:])
    return s


INTS = [0, 1, -1, 2**31 - 1, -(2**31)]
TEXTS = ["a", "", "caf\u00e9 \n\t_x000A_ <&>\"'", "\U0001f600_x005F_\x00", " lead and trail "]
CHARS = [0, 9, 10, 13, 32, 65, 0x7F, 0xE9, 0x2028, 0xD800, 0xDFFF, 0xFFFE, 0xFFFF]
ANY_COLOR = ("any-color",)
EX: typing.List[typing.Tuple[str, typing.Dict, str, typing.Tuple]]


def color(i):
    return ("ConsoleColor", i)


def lst(*a):
    return ("list",) + a


def cell(ch, f=1, b=2, ty=1):
    return ("BufferCell", ("PSChar", ch), color(f), color(b), ("BufferCellType", ty))


def grids():
    for rows, cols in itertools.product((1, 2, 3), repeat=2):
        n = itertools.count()
        yield lst(*[lst(*[cell(CHARS[(k := next(n)) % 13], k % 16, (k * 3) % 16, k % 3) for _ in range(cols)]) for _ in range(rows)])
    yield lst(lst(*[cell(65 + i) for i in range(40)]))
    yield lst(*[lst(cell(65 + i)) for i in range(40)])


def choices():
    yield lst()
    for l, h in itertools.product(TEXTS, [None, *TEXTS]):
        yield lst(("ChoiceDescription", l, h))
    yield lst(*[("ChoiceDescription", "&%d" % i, None if i % 2 else "help %d" % i) for i in range(5)])


def fields():
    yield lst()
    base = ["n", "String", "System.String", "mscorlib", "lbl", "hlp", True]
    for k in range(6):
        for v in [*TEXTS, None] if k else TEXTS:
            f = list(base)
            f[k] = v
            yield lst(("FieldDescription", *f))
    yield lst(("FieldDescription", *base[:6], False))
    yield lst(*[("FieldDescription", "n%d" % i, "T%d" % i, "F%d" % i, "A%d" % i, "L%d" % i, "H%d" % i, i % 2 == 0) for i in range(4)])


def gen_calls(tier: str):
    """(method, keyword specs, method identifier, expected parameters)"""
    for m, mi in (
        ("get_name", "GetName"), ("get_version", "GetVersion"), ("get_instance_id", "GetInstanceId"),
        ("get_current_culture", "GetCurrentCulture"), ("get_current_ui_culture", "GetCurrentUICulture"),
        ("enter_nested_prompt", "EnterNestedPrompt"), ("exit_nested_prompt", "ExitNestedPrompt"),
        ("notify_begin_application", "NotifyBeginApplication"), ("notify_end_application", "NotifyEndApplication"),
        ("pop_runspace", "PopRunspace"), ("get_is_runspace_pushed", "GetIsRunspacePushed"), ("read_line", "ReadLine"),
        ("read_line_as_secure_string", "ReadLineAsSecureString"), ("get_foreground_color", "GetForegroundColor"),
        ("get_background_color", "GetBackgroundColor"), ("get_cursor_position", "GetCursorPosition"),
        ("get_window_position", "GetWindowPosition"), ("get_cursor_size", "GetCursorSize"),
        ("get_buffer_size", "GetBufferSize"), ("get_window_size", "GetWindowSize"), ("get_window_title", "GetWindowTitle"),
        ("get_max_window_size", "GetMaxWindowSize"), ("get_max_physical_window_size", "GetMaxPhysicalWindowSize"),
        ("get_key_available", "GetKeyAvailable"), ("flush_input_buffer", "FlushInputBuffer"), ("write_line", "WriteLine1"),
    ):
        yield (m, (), mi, ())
    for v in INTS:
        yield ("set_should_exit", (("exit_code", v),), "SetShouldExit", (v,))
        yield ("set_cursor_size", (("size", v),), "SetCursorSize", (v,))
    for v in TEXTS:
        for m, k, mi in (
            ("write", "value", "Write1"), ("write_line", "line", "WriteLine2"), ("write_error_line", "line", "WriteErrorLine"),
            ("write_debug_line", "line", "WriteDebugLine"), ("write_verbose_line", "line", "WriteVerboseLine"),
            ("write_warning_line", "line", "WriteWarningLine"), ("set_window_title", "title", "SetWindowTitle"),
        ):
            yield (m, ((k, v),), mi, (v,))
    cols: typing.List[typing.Any] = [None, *range(16)]
    for f, b in itertools.product(cols, repeat=2):
        if f is None and b is None:
            continue
        kw = tuple((k, color(x)) for k, x in (("foreground_color", f), ("background_color", b)) if x is not None)
        fx = ANY_COLOR if f is None else color(f)
        bx = ANY_COLOR if b is None else color(b)
        for v in TEXTS if (f, b) == (3, 12) else TEXTS[:2]:
            yield ("write", (("value", v), *kw), "Write2", (fx, bx, v))
            yield ("write_line", (("line", v), *kw), "WriteLine3", (fx, bx, v))
        yield ("write_line", kw, "WriteLine3", (fx, bx, ""))
    for i in range(16):
        yield ("set_foreground_color", (("color", color(i)),), "SetForegroundColor", (color(i),))
        yield ("set_background_color", (("color", color(i)),), "SetBackgroundColor", (color(i),))
    for x, y in itertools.product([*INTS, 7], repeat=2):
        for m, a, b, mi, ty in (
            ("set_cursor_position", "x", "y", "SetCursorPosition", "Coordinates"),
            ("set_window_position", "x", "y", "SetWindowPosition", "Coordinates"),
            ("set_buffer_size", "width", "height", "SetBufferSize", "Size"),
            ("set_window_size", "width", "height", "SetWindowSize", "Size"),
        ):
            yield (m, ((a, x), (b, y)), mi, ((ty, x, y),))
    for o in range(1, 16):
        yield ("read_key", (("options", ("ReadKeyOptions", o)),), "ReadKey", (("ReadKeyOptions", o),))
    yield ("read_key", (), "ReadKey", (("ReadKeyOptions", 4),))
    # progress
    base = {"source_id": 1, "activity_id": 2, "activity": "act", "status_description": "st", "current_operation": "op",
            "parent_activity_id": 3, "percent_complete": 40, "record_type": ("ProgressRecordType", 1), "seconds_remaining": 5}
    dom = {"source_id": [0, -1, 2**31 - 1, 2**40, -(2**63)], "activity_id": INTS, "activity": TEXTS[1:], "status_description": TEXTS[1:],
           "current_operation": [None, *TEXTS], "parent_activity_id": INTS, "percent_complete": [-1, 0, 100, 255],
           "record_type": [("ProgressRecordType", 0)], "seconds_remaining": INTS}

    def prog(kw):
        full = {"current_operation": None, "parent_activity_id": -1, "percent_complete": -1,
                "record_type": ("ProgressRecordType", 0), "seconds_remaining": -1, **kw}
        si = full["source_id"]
        return ("write_progress", tuple(kw.items()), "WriteProgress", (
            si if -(2**31) <= si < 2**31 else ("PSInt64", si),
            ("ProgressRecord", *(full[k] for k in ("activity", "activity_id", "status_description", "current_operation",
                                                   "parent_activity_id", "percent_complete", "record_type", "seconds_remaining")))))

    opt = ["current_operation", "parent_activity_id", "percent_complete", "record_type", "seconds_remaining"]
    for mask in range(32):
        yield prog({k: v for k, v in base.items() if k not in opt or mask >> opt.index(k) & 1})
    for k1, k2 in itertools.combinations(dom, 2):
        for v1, v2 in itertools.product(dom[k1], dom[k2]):
            yield prog({**base, k1: v1, k2: v2})
    # prompts
    for cap, msg in itertools.product(TEXTS, repeat=2):
        yield ("prompt", (("caption", cap), ("message", msg), ("descriptions", lst())), "Prompt", (cap, msg, lst()))
    for fs in fields():
        yield ("prompt", (("caption", "c"), ("message", "m"), ("descriptions", fs)), "Prompt", ("c", "m", fs))
    for user, target, ty, op, cap in itertools.product(
        [None, *TEXTS[:3]], [None, *TEXTS[:3]], [None, 1, 2, 3, 0], [None, 0, 1, 2, 3], [None, "", "cap"]
    ):
        kw2 = [(k, v) for k, v in (("username", user), ("target_name", target)) if v is not None]
        if cap is not None:
            kw2 += [("caption", cap), ("message", "msg " + cap)]
        head = ("PSRPCore credential request", "Enter your credentials.") if cap is None else (cap, "msg " + cap)
        exp: typing.Tuple = (*head, user, target or "")
        mi = "PromptForCredential1"
        if ty is not None or op is not None:
            mi = "PromptForCredential2"
            exp += (("PSCredentialTypes", 3 if ty is None else ty), ("PSCredentialUIOptions", 1 if op is None else op))
            if ty is not None:
                kw2.append(("allowed_credential_types", ("PSCredentialTypes", ty)))
            if op is not None:
                kw2.append(("options", ("PSCredentialUIOptions", op)))
        yield ("prompt_for_credential", tuple(kw2), mi, exp)
    for ch in choices():
        for de in (None, 0, 1, 4, -1):
            kw = (("caption", "c"), ("message", "m"), ("choices", ch)) + ((("default_choice", de),) if de is not None else ())
            yield ("prompt_for_choice", kw, "PromptForChoice", ("c", "m", ch, -1 if de is None else de))
        for dl in (None, (), (0,), (4, 0, 2), (1, 1)):
            kw = (("caption", "c"), ("message", ""), ("choices", ch)) + ((("default_choices", lst(*dl)),) if dl is not None else ())
            yield ("prompt_for_multiple_choice", kw, "PromptForChoiceMultipleSelection", ("c", "", ch, lst(*(dl or ()))))
    # buffers
    rects = list(itertools.product((0, -1, 2**31 - 1), repeat=4)) + [(1, 2, 3, 4), (-(2**31), 5, 6, 7)]
    for r in rects:
        kw = tuple(zip(("left", "top", "right", "bottom"), r))
        yield ("get_buffer_contents", kw, "GetBufferContents", (("Rectangle", *r),))
        yield ("set_buffer_cells", (*kw, ("character", ("PSChar", 65))), "SetBufferContents1", (("Rectangle", *r), cell(65, 15, 0)[:4] + (("BufferCellType", 0),)))
    for ch in CHARS if tier == "quick" else range(65536):
        for f, b in ((0, 15), (15, 0), (9, 4)):
            kw = tuple(zip(("left", "top", "right", "bottom"), (1, 2, 3, 4)))
            for form in (("PSChar", ch), ch, chr(ch)):
                yield ("set_buffer_cells", (*kw, ("character", form), ("foreground", color(f)), ("background", color(b))),
                       "SetBufferContents1", (("Rectangle", 1, 2, 3, 4), cell(ch, f, b, 0)))
    for g in grids():
        for x, y in ((0, 0), (-1, 2**31 - 1)):
            yield ("set_buffer_contents", (("x", x), ("y", y), ("contents", g)), "SetBufferContents2", (("Coordinates", x, y), g))
    names = ("source_left", "source_top", "source_right", "source_bottom", "x", "y", "clip_left", "clip_top", "clip_right", "clip_bottom")
    for k in range(11):
        for v in (*INTS, 77) if k < 10 else (0,):
            vals = list(range(11, 21))
            if k < 10:
                vals[k] = v
            kw = tuple(zip(names, vals)) + (("character", ("PSChar", 66)),)
            exp = (("Rectangle", *vals[:4]), ("Coordinates", *vals[4:6]), ("Rectangle", *vals[6:]), cell(66, 15, 0, 0))
            yield ("scroll_buffer_contents", kw, "ScrollBufferContents", exp)
    for f, b in itertools.product(range(16), repeat=2):
        kw = tuple(zip(names, range(10))) + (("character", ("PSChar", 0x41 + f)), ("foreground", color(f)), ("background", color(b)))
        yield ("scroll_buffer_contents", kw, "ScrollBufferContents",
               (("Rectangle", 0, 1, 2, 3), ("Coordinates", 4, 5), ("Rectangle", 6, 7, 8, 9), cell(0x41 + f, f, b, 0)))


_CACHE: typing.Dict[str, typing.Any] = {}


def world():
    """One pool with a running pipeline and exchanged keys, kept until a check on it fails."""
    w = _CACHE.pop("w", None)
    if w is None:
        c, s = open_pair()
        cp, sp = start_pair(c, s, PIDS[0])
        c.exchange_key()
        deliver(c, s)
        deliver(s, c)
        w = (c, s, cp, sp)
    return w


def match(actual, wanted) -> bool:
    if wanted == ANY_COLOR:
        return isinstance(actual, tuple) and len(actual) == 2 and actual[0] == "ConsoleColor"
    return actual == wanted and type(actual) is type(wanted)


def run_call(case, ctx: Ctx) -> None:
    m, kw, mi, exp = case
    w = world()
    c, s, cp, sp = w
    for who in (s, sp):
        req = psrpcore.ServerHostRequestor(who)
        ci = getattr(req, m)(**{k: mk(v) for k, v in kw})
        ev = deliver(s, c)
        same([type(e).__name__ for e in ev], ["RunspacePoolHostCallEvent" if who is s else "PipelineHostCallEvent"], "event")
        e = ev[0]
        same((e.method_identifier.name, int(e.method_identifier.value)), (mi, int(MI[mi].value)), "method")
        same(e.pipeline_id, None if who is s else PIDS[0], "pipeline id")
        if ci is not None:
            same(int(e.ci), int(ci), "call id")
        got = [d(p) for p in e.method_parameters]
        same(len(got), len(exp), "number of parameters")
        for i, (a, b) in enumerate(zip(got, exp)):
            expect(match(a, specs(b)), "parameter %s of %s: expected %.400r, got %.400r", i, mi, specs(b), a)
        ctx.step(2)
        if ci is not None:
            c.host_response(e.ci)
            deliver(c, s)
    _CACHE["w"] = w
    ctx.state(case)
    ctx.outcome(mi)


def gen_answers(tier: str):
    """(method of the requestor, its keywords, method of the responder, keywords, expected result)"""
    def one(m, kw, res, req=None, reqkw=()):
        return (req or m, reqkw, m, kw, res)

    for v in TEXTS:
        yield one("get_name", (("name", v),), v)
        yield one("get_current_culture", (("culture", v),), v)
        yield one("get_current_ui_culture", (("culture", v),), v)
        yield one("read_line", (("line", v),), v)
        yield one("get_window_title", (("title", v),), v)
        yield one("read_line_as_secure_string", (("line", ("PSSecureString", v)),), ("PSSecureString", v))
    for v in ((1, 2), (1, 2, 3), (0, 0, 0, 0), (2**31 - 1, 2, 3, 4)):
        yield one("get_version", (("version", ("PSVersion", *v)),), ("PSVersion", *v))
        yield one("get_version", (("version", ".".join(map(str, v))),), ("PSVersion", *v))
    for v in (0, 1, 2**128 - 1, RPID.int):
        yield one("get_instance_id", (("instance_id", ("PSGuid", v)),), ("PSGuid", v))
    for v in (True, False):
        yield one("get_is_runspace_pushed", (("is_pushed", v),), v)
        yield one("get_key_available", (("waiting", v),), v)
    for i in range(16):
        yield one("get_foreground_color", (("color", color(i)),), color(i))
        yield one("get_background_color", (("color", color(i)),), color(i))
    for x, y in itertools.product([*INTS, 7], repeat=2):
        yield one("get_cursor_position", (("x", x), ("y", y)), ("Coordinates", x, y))
        yield one("get_window_position", (("x", x), ("y", y)), ("Coordinates", x, y))
        for m in ("get_buffer_size", "get_window_size", "get_max_window_size", "get_max_physical_window_size"):
            yield one(m, (("width", x), ("height", y)), ("Size", x, y))
    for x in [*INTS, 25]:
        yield one("get_cursor_size", (("size", x),), x)
        pc = (("caption", "c"), ("message", "m"), ("choices", lst()))
        yield one("prompt_for_choice", (("choice", x),), x, reqkw=pc)
        yield one("prompt_for_multiple_choice", (("choices", x),), lst(x), reqkw=pc)
        yield one("prompt_for_multiple_choice", (("choices", lst(x, 0, x)),), lst(x, 0, x), reqkw=pc)
    yield one("prompt_for_multiple_choice", (("choices", lst()),), lst(), reqkw=pc)
    pr = (("caption", "c"), ("message", "m"), ("descriptions", lst()))
    vals: typing.List[typing.Any] = [None, True, 0, 2**31 - 1, "", "x", ("PSSecureString", "p\u00e9"), lst(1, "a"), ("dict", ("k", 1))]
    yield one("prompt", (("choices", ("dict",)),), ("dict",), reqkw=pr)
    for a, b in itertools.product(vals, repeat=2):
        dd = ("dict", ("a", a), ("B b", b))
        yield one("prompt", (("choices", dd),), dd, reqkw=pr)
    for u, p, k in itertools.product(TEXTS, TEXTS + ["x" * 100], (0, 1)):
        cr = ("PSCredential", u, ("PSSecureString", p))
        yield one("prompt_for_credential", (("credential", cr),), cr,
                  reqkw=((("options", ("PSCredentialUIOptions", 1)),) if k else ()))
    for ch in CHARS if tier == "quick" else range(65536):
        for form in (("PSChar", ch), ch, chr(ch)):
            for down in (True, False):
                yield one("read_key", (("character", form), ("key_down", down)),
                          ("KeyInfo", 0, ("PSChar", ch), ("ControlKeyStates", 0), down))
    for st in range(512):
        yield one("read_key", (("character", ("PSChar", 97)), ("key_down", bool(st & 1)), ("control_key_state", ("ControlKeyStates", st)),
                               ("key_code", st * 3)), ("KeyInfo", st * 3, ("PSChar", 97), ("ControlKeyStates", st), bool(st & 1)))
    rc = tuple(zip(("left", "top", "right", "bottom"), (0, 0, 1, 1)))
    for g in grids():
        yield one("get_buffer_contents", (("cells", g),), g, reqkw=rc)


def run_answer(case, ctx: Ctx) -> None:
    req, reqkw, m, kw, exp = case
    w = world()
    c, s, cp, sp = w
    for who, back in ((s, c), (sp, cp), (sp, c)):
        ci = getattr(psrpcore.ServerHostRequestor(who), req)(**{k: mk(v) for k, v in reqkw})
        ev = deliver(s, c)
        same(len(ev), 1, "call events")
        getattr(psrpcore.ClientHostResponder(back), m)(ev[0].ci, **{k: mk(v) for k, v in kw})
        rv = deliver(c, s)
        same([type(e).__name__ for e in rv], ["RunspacePoolHostResponseEvent" if who is s else "PipelineHostResponseEvent"], "event")
        r = rv[0]
        same((int(r.ci), r.method_identifier.name, r.pipeline_id),
             (int(ci), ev[0].method_identifier.name, None if who is s else PIDS[0]), "response")
        got, want = d(r.result), specs(exp)
        expect(match(got, want), "result of %s: expected %.400r, got %.400r", m, want, got)
        same(r.error, None, "error")
        ctx.step(3)
    _CACHE["w"] = w
    ctx.state(case)
    ctx.outcome(m)


def gen_errors(tier: str):
    for mi in MI:
        if mi.is_void():
            continue
        for cat in range(0, 32, 31) if tier == "quick" else range(32):
            for txt in TEXTS:
                yield (mi.name, cat, txt)


def run_error(case, ctx: Ctx) -> None:
    name, cat, txt = case
    w = world()
    c, s, cp, sp = w
    for who, back in ((s, c), (sp, cp)):
        ci = who.host_call(MI[name], [])
        ev = deliver(s, c)
        e = t.ErrorRecord(
            Exception=t.NETException(Message=txt, HResult=-5), TargetObject=txt,
            CategoryInfo=t.ErrorCategoryInfo(Category=t.ErrorCategory(cat), Reason=txt, Activity="a"), FullyQualifiedErrorId=txt + "id",
        )
        back.host_response(int(ev[0].ci), None, e)
        rv = deliver(c, s)
        same(len(rv), 1, "events")
        r = rv[0]
        same((int(r.ci), r.method_identifier.name), (int(ci), name), "response")
        same(r.result, None, "result")
        x = r.error
        same(type(x).__name__, "ErrorRecord", "type of the error")
        same(
            (text(x.Exception.Message), text(x.TargetObject), int(x.CategoryInfo.Category.value), text(x.CategoryInfo.Reason),
             text(x.CategoryInfo.Activity), text(x.FullyQualifiedErrorId)),
            (text(txt), text(txt), cat, text(txt), "a", text(txt) + "id"), "error",
        )
        ctx.step(3)
    _CACHE["w"] = w
    ctx.state(case)
    ctx.outcome(name)


# ------------------------------------------------------------------ how many and how long
def gen_many(tier: str):
    """Cases of calls and answers with sizes in place of the values."""
    few = [n for n in sizes(tier, 1024) if n < 20 or n % 3 == 0 or n > 250]
    for n in few:
        for k in ("choices", "defaults", "fields", "cols", "rows", "square", "chosen", "values"):
            yield (k, n)
    for n in sizes(tier, 70000 if tier == "quick" else 100001):
        yield ("text", n)
    for k in range(26):
        yield ("repeat", 280, k)


def run_many(case, ctx: Ctx) -> None:
    k, n = case[:2]
    if k == "text":
        for x in ("a" * n, ("caf\u00e9 _x0041_ " * (n // 12 + 1))[:n]):
            run_call(("write", (("value", x),), "Write1", (x,)), ctx)
            run_call(("write_line", (("line", x), ("foreground_color", color(3)), ("background_color", color(4))), "WriteLine3", (color(3), color(4), x)), ctx)
            run_call(("prompt", (("caption", x), ("message", x), ("descriptions", lst())), "Prompt", (x, x, lst())), ctx)
            run_answer(("read_line", (), "read_line", (("line", x),), x), ctx)
            run_answer(("prompt_for_credential", (), "prompt_for_credential", (("credential", ("PSCredential", x, ("PSSecureString", x))),),
                        ("PSCredential", x, ("PSSecureString", x))), ctx)
    elif k == "choices":
        ch = lst(*[("ChoiceDescription", "&%d" % i, None if i % 3 else "help %d" % i) for i in range(n)])
        for de in (0, n - 1):
            run_call(("prompt_for_choice", (("caption", "c"), ("message", "m"), ("choices", ch), ("default_choice", de)), "PromptForChoice",
                      ("c", "m", ch, de)), ctx)
    elif k == "defaults":
        dl = tuple(i * 7 % max(n, 1) for i in range(n))
        run_call(("prompt_for_multiple_choice", (("caption", "c"), ("message", "m"), ("choices", lst()), ("default_choices", lst(*dl))),
                  "PromptForChoiceMultipleSelection", ("c", "m", lst(), lst(*dl))), ctx)
    elif k == "fields":
        fs = lst(*[("FieldDescription", "n%d" % i, "T%d" % (i % 9), "F%d" % i, "A%d" % (i % 5), "L%d" % i, "H%d" % i, i % 2 == 0) for i in range(n)])
        run_call(("prompt", (("caption", "c"), ("message", "m"), ("descriptions", fs)), "Prompt", ("c", "m", fs)), ctx)
    elif k in ("cols", "rows", "square"):
        if n == 0 or n > 300:
            return
        r, c = {"cols": (1, n), "rows": (n, 1), "square": (n // 9 + 1, n // 7 + 1)}[k]
        g = lst(*[lst(*[cell(32 + (i * 31 + j * 7) % 900, (i + j) % 16, (i * j) % 16, (i + 2 * j) % 3) for j in range(c)]) for i in range(r)])
        run_call(("set_buffer_contents", (("x", 1), ("y", 2), ("contents", g)), "SetBufferContents2", (("Coordinates", 1, 2), g)), ctx)
        rc = tuple(zip(("left", "top", "right", "bottom"), (0, 0, c - 1, r - 1)))
        run_answer(("get_buffer_contents", rc, "get_buffer_contents", (("cells", g),), g), ctx)
    elif k == "chosen":
        x = lst(*[i * 5 % (n + 1) for i in range(n)])
        run_answer(("prompt_for_multiple_choice", (("caption", "c"), ("message", "m"), ("choices", lst())), "prompt_for_multiple_choice",
                    (("choices", x),), x), ctx)
    elif k == "values":
        dd = ("dict", *[("k%d" % i, i if i % 2 else "v%d" % i) for i in range(n)])
        run_answer(("prompt", (("caption", "c"), ("message", "m"), ("descriptions", lst())), "prompt", (("choices", dd),), dd), ctx)
    else:
        # the same call and answer many times on one connection
        _CACHE.pop("w", None)
        calls = {}
        for x in gen_calls("quick"):
            calls.setdefault(x[0], x)
        answers = {}
        for x in gen_answers("quick"):
            answers.setdefault(x[2], x)
        cs = list(calls.values())[case[2]::26]
        an = list(answers.values())[case[2]::26]
        for i in range(n):
            for x in cs:
                run_call(x, ctx)
            for x in an:
                run_answer(x, ctx)
        _CACHE.pop("w", None)
    ctx.state("many", case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "texts of every length up to 139 (299) and around powers of two and ten to 65536 (100000); up to 1024 choices, fields, defaults, values; buffers up to 299 cells wide or high; every call and answer 280 times on one connection", 2, timeout=120.0),
    Scenario("calls", gen_calls, run_call, "all requestor methods x argument products (all colors, flags, boundary numbers, texts, shapes)", 64),
    Scenario("answers", gen_answers, run_answer, "all responder methods x answer domains, pool and pipeline", 32),
    Scenario("errors", gen_errors, run_error, "error answers of every method with a result", 32),
]

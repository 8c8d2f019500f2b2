"""P16: enumeration and flag values keep their type, members and text."""
import enum
import inspect
import itertools
import re
import typing
from xml.etree import ElementTree as ET

from psrpcore import types as t

from mc.canon import prim
from mc.core import Ctx, Scenario, expect, fail, same
from mc.values import sizes
from mc.pools import reason

RULE = (
    "every member of every enumeration, every subset of bits of every flag type, in eight places; all ordered pairs of values of a type "
    "(sharing one document) and of members of different types; all operators on all pairs of flag values; integers around the members and "
    "range ends; user-defined enumerations over every base type and plain Python enumerations"
)
ASSUMPTIONS = [
    "flag operators get flags of the same type or integers made of the type's own bits",
    "the text of a combination names composite members whose bits are all set as well",
]
M = "System.Management.Automation."
# name: (type name, {member: value}), from MS-PSRP and .NET
ENUMS: typing.Dict[str, typing.Tuple[str, typing.Dict[str, int]]] = {
    "ApartmentState": ("System.Threading.ApartmentState", {"STA": 0, "MTA": 1, "Unknown": 2}),
    "CommandOrigin": (M + "CommandOrigin", {"Runspace": 0, "Internal": 1}),
    "ConsoleColor": ("System.ConsoleColor", {n: i for i, n in enumerate(
        "Black DarkBlue DarkGreen DarkCyan DarkRed DarkMagenta DarkYellow Gray DarkGray Blue Green Cyan Red Magenta Yellow White".split())}),
    "ErrorCategory": (M + "ErrorCategory", {n: i for i, n in enumerate(
        "NotSpecified OpenError CloseError DeviceError DeadlockDetected InvalidArgument InvalidData InvalidOperation InvalidResult InvalidType MetadataError "
        "NotImplemented NotInstalled ObjectNotFound OperationStopped OperationTimeout SyntaxError ParserError PermissionDenied ResourceBusy ResourceExists "
        "ResourceUnavailable ReadError WriteError FromStdErr SecurityError ProtocolError ConnectionError AuthenticationError LimitsExceeded QuotaExceeded NotEnabled".split())}),
    "HostMethodIdentifier": (M + "Remoting.RemoteHostMethodId", {n: i + 1 for i, n in enumerate(
        "GetName GetVersion GetInstanceId GetCurrentCulture GetCurrentUICulture SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication "
        "NotifyEndApplication ReadLine ReadLineAsSecureString Write1 Write2 WriteLine1 WriteLine2 WriteLine3 WriteErrorLine WriteDebugLine WriteProgress "
        "WriteVerboseLine WriteWarningLine Prompt PromptForCredential1 PromptForCredential2 PromptForChoice GetForegroundColor SetForegroundColor "
        "GetBackgroundColor SetBackgroundColor GetCursorPosition SetCursorPosition GetWindowPosition SetWindowPosition GetCursorSize SetCursorSize "
        "GetBufferSize SetBufferSize GetWindowSize SetWindowSize GetWindowTitle SetWindowTitle GetMaxWindowSize GetMaxPhysicalWindowSize GetKeyAvailable "
        "ReadKey FlushInputBuffer SetBufferContents1 SetBufferContents2 GetBufferContents ScrollBufferContents PushRunspace PopRunspace GetIsRunspacePushed "
        "GetRunspace PromptForChoiceMultipleSelection".split())}),
    "PSInvocationState": (M + "PSInvocationState", {n: i for i, n in enumerate("NotStarted Running Stopping Stopped Completed Failed Disconnected".split())}),
    "PSThreadOptions": (M + "Runspaces.PSThreadOptions", {n: i for i, n in enumerate("Default UseNewThread ReuseThread UseCurrentThread".split())}),
    "ProgressRecordType": (M + "ProgressRecordType", {"Processing": 0, "Completed": 1}),
    "RunspacePoolState": (M + "Runspaces.RunspacePoolState", {n: i for i, n in enumerate(
        "BeforeOpen Opening Opened Closed Closing Broken Disconnecting Disconnected Connecting".split())}),
    "SessionStateEntryVisibility": (M + "SessionStateEntryVisibility", {"Public": 0, "Private": 1}),
}
FLAGS: typing.Dict[str, typing.Tuple[str, typing.Dict[str, int]]] = {
    "BufferCellType": (M + "Host.BufferCellType", {"Complete": 0, "Leading": 1, "Trailing": 2}),
    "CommandTypes": (M + "CommandTypes", {"Alias": 1, "Function": 2, "Filter": 4, "Cmdlet": 8, "ExternalScript": 16, "Application": 32, "Script": 64, "Configuration": 256, "All": 383}),
    "ControlKeyStates": (M + "Host.ControlKeyStates", {"none": 0, "RightAltPressed": 1, "LeftAltPressed": 2, "RightCtrlPressed": 4, "LeftCtrlPressed": 8, "ShiftPressed": 16,
                                                      "NumLockOn": 32, "ScrollLockOn": 64, "CapsLockOn": 128, "EnhancedKey": 256}),
    "PSCredentialTypes": (M + "PSCredentialTypes", {"Generic": 1, "Domain": 2, "Default": 3}),
    "PSCredentialUIOptions": (M + "PSCredentialUIOptions", {"none": 0, "ValidateUserNameSyntax": 1, "AlwaysPrompt": 2, "ReadOnlyUsername": 3, "Default": 1}),
    "PipelineResultTypes": (M + "Runspaces.PipelineResultTypes", {"none": 0, "Output": 1, "Error": 2, "Warning": 3, "Verbose": 4, "Debug": 5, "Information": 6, "All": 7, "Null": 8}),
    "ReadKeyOptions": (M + "Host.ReadKeyOptions", {"AllowCtrlC": 1, "NoEcho": 2, "IncludeKeyDown": 4, "IncludeKeyUp": 8}),
    "RemoteStreamOptions": (M + "RemoteStreamOptions", {
        "none": 0, "AddInvocationInfoToErrorRecord": 1, "AddInvocationInfoToWarningRecord": 2, "AddInvocationInfoToDebugRecord": 4, "AddInvocationInfoToVerboseRecord": 8, "AddInvocationInfo": 15}),
}
NAMES_OF = {"none": "None"}
CELL = "buffer-cell-type-is-written-as-control-key-states"


@t.PSType(["MC.ByteFlags"])
class ByteFlags(t.PSFlagBase, base_type=t.PSByte):
    A = 1
    B = 2
    H = 128


@t.PSType(["MC.Long"])
class Long(t.PSEnumBase, base_type=t.PSInt64):
    Low = -(2**63)
    Minus = -1
    Zero = 0
    High = 2**63 - 1


@t.PSType(["MC.ULong"])
class ULong(t.PSEnumBase, base_type=t.PSUInt64):
    none = 0
    High = 2**64 - 1


@t.PSType(["MC.Shorts"])
class Shorts(t.PSEnumBase, base_type=t.PSInt16):
    A = -32768
    B = 32767


@t.PSType(["MC.WideFlags"])
class WideFlags(t.PSFlagBase, base_type=t.PSUInt64):
    none = 0
    One = 1
    Mid = 2**31
    Top = 2**63


# names that look like others, or need an escape
ODD = {"NONE": 0, "nonempty": 1, "None_": 2, "_Some": 3, "caf\u00e9": 4, "a_x0041_": 5, "lower_case": 6, "a": 7, "A": 8, "none": 9}
ODD_BITS = {"NONE": 1, "none_": 2, "b_x000A_": 4, "\u0416": 8, "All": 15, "all": 16, "Both": 17}
Odd = t.PSType(["MC.Odd"])(t.PSEnumBase("Odd", ODD, module=__name__))
OddFlags = t.PSType(["MC.OddFlags"])(t.PSFlagBase("OddFlags", ODD_BITS, module=__name__))


OWN = {
    "Odd": (Odd, "MC.Odd", "I32"), "OddFlags": (OddFlags, "MC.OddFlags", "I32"),
    "ByteFlags": (ByteFlags, "MC.ByteFlags", "By"), "Long": (Long, "MC.Long", "I64"), "ULong": (ULong, "MC.ULong", "U64"), "Shorts": (Shorts, "MC.Shorts", "I16"),
    "WideFlags": (WideFlags, "MC.WideFlags", "U64"),
}
OWN_MEMBERS: typing.Dict[str, typing.Dict[str, int]] = {
    "Odd": ODD, "OddFlags": ODD_BITS,
    "ByteFlags": {"A": 1, "B": 2, "H": 128}, "Long": {"Low": -(2**63), "Minus": -1, "Zero": 0, "High": 2**63 - 1}, "ULong": {"none": 0, "High": 2**64 - 1},
    "Shorts": {"A": -32768, "B": 32767}, "WideFlags": {"none": 0, "One": 1, "Mid": 2**31, "Top": 2**63},
}


def info(n: str) -> typing.Tuple[typing.Any, str, typing.Dict[str, int], bool, str]:
    if n in OWN:
        cls, tn, tag = OWN[n]
        return cls, tn, OWN_MEMBERS[n], n.endswith("Flags"), tag
    tn, mem = (ENUMS.get(n) or FLAGS.get(n))  # type: ignore
    return getattr(t, n), tn, mem, n in FLAGS, "I32"


def values(n: str) -> typing.List[int]:
    """All members, or all combinations of bits."""
    _, _, mem, flag, _ = info(n)
    if not flag:
        return sorted(set(mem.values()))
    mask = 0
    for v in mem.values():
        mask |= v
    bits = [1 << i for i in range(64) if mask >> i & 1]
    return sorted(sum(c) for k in range(len(bits) + 1) for c in itertools.combinations(bits, k))


def words(n: str, v: int) -> str:
    _, _, mem, flag, _ = info(n)
    first: typing.Dict[int, str] = {}
    for name, x in mem.items():
        first.setdefault(x, name)
    if not flag or v == 0:
        return NAMES_OF.get(first.get(v, ""), first.get(v, ""))
    return ", ".join(name for x, name in first.items() if x and x & v == x)


NET = {"By": "System.Byte", "I16": "System.Int16", "I32": "System.Int32", "I64": "System.Int64", "U64": "System.UInt64"}
ALL = list(ENUMS) + list(FLAGS) + list(OWN)


def check(n: str, v: int, got: typing.Any, ctx: Ctx) -> None:
    cls = info(n)[0]
    if n == "BufferCellType" and type(got) is t.ControlKeyStates and int(got.value) == v and ctx.known_finding(CELL):
        return
    expect(type(got) is cls, "%s %d came back as %s", n, v, type(got).__name__)
    same(int(got.value), v, n)
    expect(got is cls(v) or got == cls(v), "%s %d is not the member", n, v)


# ------------------------------------------------------------------ each value in each place
def gen_each(tier: str):
    for n in ALL:
        for v in values(n):
            yield (n, v)


def run_each(case, ctx: Ctx) -> None:
    n, v = case
    cls, tn, mem, flag, tag = info(n)
    x = cls(v)
    same((type(x), int(x.value), int(x)), (cls, v, v), "%s(%d)" % (n, v))
    same(x.value.PSObject.type_names[0], NET[tag], "integer type of %s(%d)" % (n, v))
    for name, w in mem.items():
        if w == v:
            expect(getattr(cls, name) is x and cls[name] is x, "%s.%s is not %d", n, name, v)
    doc = ET.tostring(t.serialize(x, None))
    el = ET.fromstring(doc)
    same(el.tag, "Obj", "element")
    same([(c.tag, c.text) for c in el if c.tag not in ("TN", "ToString")], [(tag, str(v))], "number of %s" % n)
    names = [e.text for e in el.findall("TN/T")]
    if not (n == "BufferCellType" and names[0] == M + "Host.ControlKeyStates" and ctx.known_finding(CELL)):
        same(names[0], tn, "type name")
    same(names[1:], ["System.Enum", "System.ValueType", "System.Object"], "base type names")
    ts = el.find("ToString")
    same("" if ts is None else re.sub("_x([0-9A-F]{4})_", lambda x: chr(int(x.group(1), 16)), ts.text or ""), words(n, v), "text of %s %d" % (n, v))
    check(n, v, t.deserialize(el, None), ctx)
    # inside other values
    o = t.PSCustomObject(a=x, b=[x, x])
    back = t.deserialize(ET.fromstring(ET.tostring(t.serialize([x, {"k": x}, {x: 1}, o, x], None))), None)
    for got in (back[0], back[1]["k"], list(back[2])[0], back[3].a, back[3].b[0], back[3].b[1], back[4]):
        check(n, v, got, ctx)
    s = t.PSString("s")
    s.PSObject.extended_properties.append(t.PSNoteProperty("p", value=x))
    check(n, v, t.deserialize(ET.fromstring(ET.tostring(t.serialize(s, None))), None).p, ctx)
    p = t.PSNoteProperty("q", value=v, ps_type=cls)
    check(n, v, t.deserialize(ET.fromstring(ET.tostring(t.serialize(p.get_value(t.PSObject()), None))), None), ctx)
    same(ET.tostring(t.serialize(x, None)), doc, "serialized again")
    ctx.step(5)
    ctx.state(case)


# what a peer sends: type names first, more properties, other texts
def gen_peer(tier: str):
    for n in ALL:
        if n == "BufferCellType":
            continue
        vs = values(n)
        for v in vs if len(vs) < 80 else vs[::7]:
            for form in range(5):
                yield (n, v, form)


def run_peer(case, ctx: Ctx) -> None:
    n, v, form = case
    cls, tn, mem, flag, tag = info(n)
    names = '<TN RefId="0"><T>%s</T><T>System.Enum</T><T>System.ValueType</T><T>System.Object</T></TN>' % tn
    val = "<%s>%d</%s>" % (tag, v, tag)
    text = "<ToString>%s</ToString>" % ("zz" if form == 2 else words(n, v))
    extra = '<MS><S N="Note">n</S></MS>'
    doc = '<Obj RefId="0">%s</Obj>' % {0: names + text + val, 1: val + names, 2: text + names + val, 3: names + val + text + extra, 4: names + extra + val}[form]
    other = values(n)[0] if values(n)[0] != v else values(n)[-1]
    before = {w: ET.tostring(t.serialize(cls(w), None)) for w in {v, other}}
    check(n, v, t.deserialize(ET.fromstring(doc), None), ctx)
    for w, b in before.items():
        same(ET.tostring(t.serialize(cls(w), None)), b, "how %s %d is written after another value was received" % (n, w))
    same((len(cls.PSObject.extended_properties), len(cls.PSObject.adapted_properties)), (0, 0), "properties of the type")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ several in one document
def gen_pairs(tier: str):
    for n in ALL:
        vs = values(n)
        if len(vs) > 80:
            vs = vs[::5] if tier == "quick" else vs
        for a in vs:
            yield (n, a, tuple(vs))


def run_pairs(case, ctx: Ctx) -> None:
    n, a, vs = case
    cls = info(n)[0]
    for b in vs:
        back = t.deserialize(ET.fromstring(ET.tostring(t.serialize([cls(a), cls(b), cls(a), cls(b)], None))), None)
        for got, v in zip(back, (a, b, a, b)):
            check(n, v, got, ctx)
        ctx.step()
    ctx.state(n, a)


def gen_cross(tier: str):
    for a, b in itertools.product(ALL, repeat=2):
        yield (a, b)


def run_cross(case, ctx: Ctx) -> None:
    a, b = case
    va, vb = values(a), values(b)
    for x, y in itertools.product((va + va[-1:] * 3)[:4], (vb + vb[-1:] * 3)[:4]):
        v = [info(a)[0](x), {"k": info(b)[0](y)}, t.PSCustomObject(p=info(a)[0](x), q=info(b)[0](y)), int(x) if -(2**31) <= x < 2**31 else 0]
        r = t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)
        for n, w, got in ((a, x, r[0]), (b, y, r[1]["k"]), (a, x, r[2].p), (b, y, r[2].q)):
            check(n, w, got, ctx)
        ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ many in one document and one after another
def gen_many(tier: str):
    for n in sizes(tier, 1100):
        if n:
            yield ("list", n)
    for n in ALL:
        yield ("again", n)


def run_many(case, ctx: Ctx) -> None:
    k, n = case
    if k == "again":
        cls = info(n)[0]
        vs = values(n)
        for i in range(600):
            v = vs[i * 5 % len(vs)]
            doc = ET.tostring(t.serialize(cls(v), None))
            same([(c.tag, c.text) for c in ET.fromstring(doc) if c.tag not in ("TN", "ToString")], [(info(n)[4], str(v))], "number of " + n)
            check(n, v, t.deserialize(ET.fromstring(doc), None), ctx)
            ctx.step()
    else:
        vs2 = []
        for i in range(n):
            m = ALL[(i * 3 + i // len(ALL)) % len(ALL)]
            ms = values(m)
            vs2.append((m, ms[i * 7 % len(ms)]))
        back = t.deserialize(ET.fromstring(ET.tostring(t.serialize([info(m)[0](v) for m, v in vs2], None))), None)
        same(len(back), n, "values")
        for (m, v), got in zip(vs2, back):
            check(m, v, got, ctx)
        ctx.step(n)
    ctx.state(case)


# ------------------------------------------------------------------ operators
def gen_ops(tier: str):
    for n in list(FLAGS) + ["ByteFlags", "WideFlags"]:
        for a in values(n):
            yield (n, a)


def run_ops(case, ctx: Ctx) -> None:
    n, a = case
    cls = info(n)[0]
    vs = values(n)
    mask = vs[-1]
    x = cls(a)
    inv = ~x
    same((type(inv), int(inv.value)), (cls, mask & ~a), "~%s(%d)" % (n, a))
    for b in vs:
        y = cls(b)
        for sym, got, want in (
            ("|", x | y, a | b), ("&", x & y, a & b), ("^", x ^ y, a ^ b), ("| int", x | b, a | b), ("& int", x & b, a & b), ("^ int", x ^ b, a ^ b),
            ("int |", b | x, a | b), ("int &", b & x, a & b), ("int ^", b ^ x, a ^ b),
        ):
            plain = "int" in sym  # with a plain integer only the number is promised
            if (not plain and type(got) is not cls) or int(getattr(got, "value", got)) != want:
                fail("%s(%d) %s %d is %r, expected %d", n, a, sym, b, got, want)
        same((y in x), (a & b == b), "%s(%d) in %s(%d)" % (n, b, n, a))
        same((x == y, hash(x) == hash(y) if a == b else True), (a == b, True), "equality of %d and %d" % (a, b))
        ctx.step(10)
    ctx.state(case)


# ------------------------------------------------------------------ unknown values
RANGES = {"PSByte": (0, 255), "PSSByte": (-128, 127), "PSUInt16": (0, 65535), "PSInt16": (-(2**15), 2**15 - 1), "PSUInt": (0, 2**32 - 1), "PSInt": (-(2**31), 2**31 - 1),
          "PSUInt64": (0, 2**64 - 1), "PSInt64": (-(2**63), 2**63 - 1)}


def gen_unknown(tier: str):
    for n in list(ENUMS) + ["Long", "ULong", "Shorts"]:
        vs = values(n)
        for v in sorted(set(range(-4, 130)) | {2**31 - 1, -(2**31), 2**31, 2**32, 2**63, 2**64} | {x + d for x in vs for d in (-1, 1)}):
            yield ("value", n, v)
    for b in RANGES:
        lo, hi = RANGES[b]
        for v in (lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, 2 * hi + 2):
            for flag in (False, True):
                yield ("define", b, v, flag)
    for i in range(4):
        yield ("base", i)


def run_unknown(case, ctx: Ctx) -> None:
    if case[0] == "value":
        _, n, v = case
        cls, tn, _, _, tag = info(n)
        k, e = reason(cls, v)
        if v in values(n):
            same(k, "ok", "%s(%d)" % (n, v))
        else:
            same(k, "ValueError", "%s(%d)" % (n, v))
            k, e = reason(t.deserialize, ET.fromstring('<Obj RefId="0"><TN RefId="0"><T>%s</T></TN><%s>%d</%s></Obj>' % (tn, tag, v, tag)), None)
            same(k, "ValueError", "reading %s %d" % (n, v))
    elif case[0] == "define":
        _, b, v, flag = case
        base = t.PSFlagBase if flag else t.PSEnumBase
        lo, hi = RANGES[b]
        if flag and v < 0:
            return

        def define() -> typing.Any:
            ns = type(base).__prepare__("X", (base,), base_type=getattr(t, b))
            ns["M"] = v
            return type(base)("X", (base,), ns, base_type=getattr(t, b))

        k, e = reason(define)
        if lo <= v <= hi:
            same(k, "ok", "member %d of an enumeration of %s (%s)" % (v, b, e))
            expect(type(e.M.value) is getattr(t, b), "base type of the member is %s", type(e.M.value).__name__)
            same((int(e.M.value), int(e.MinValue), int(e.MaxValue)), (v, lo, hi), "member and range")
        else:
            same(k, "ValueError", "member %d of an enumeration of %s" % (v, b))
    else:
        bad = [int, str, 5, t.PSString][case[1]]

        def define2() -> typing.Any:
            ns = type(t.PSEnumBase).__prepare__("X", (t.PSEnumBase,))
            ns["M"] = 1
            return type(t.PSEnumBase)("X", (t.PSEnumBase,), ns, base_type=bad)

        same(reason(define2)[0], "TypeError", "base type %r" % (bad,))
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ plain Python enumerations
class PyEnum(enum.Enum):
    A = 1
    B = "text\n_x000A_"
    C = -5
    none = 0
    D = 2**40


class PyInt(enum.IntEnum):
    A = 0
    B = 1


class PyFlag(enum.Flag):
    A = 1
    B = 2
    C = 4


class PyIntFlag(enum.IntFlag):
    A = 1
    B = 2
    AB = 3
    Same = 1


PY: typing.List[typing.Tuple[typing.Any, typing.Any, str]] = (
    [(m, m.value, m.name) for m in list(PyEnum) + list(PyInt)]
    + [(PyFlag(v), v, ", ".join(n for n, b in (("A", 1), ("B", 2), ("C", 4)) if v & b)) for v in range(8)]
    + [(PyIntFlag(v), v, ", ".join(n for n, b in (("A", 1), ("B", 2), ("AB", 3)) if v & b == b)) for v in range(4)]
)


def gen_py(tier: str):
    for a in range(len(PY)):
        for b in range(len(PY)):
            yield (a, b)


def run_py(case, ctx: Ctx) -> None:
    objs = [PY[case[0]], PY[case[1]], PY[case[0]]]
    back = t.deserialize(ET.fromstring(ET.tostring(t.serialize([o[0] for o in objs], None))), None)
    for (m, v, txt), b in zip(objs, back):
        same(prim(b), prim(v), "value of %r" % m)
        same(b.PSObject.type_names[0], "Deserialized.%s.%s" % (type(m).__module__, type(m).__name__), "type name")
        if txt:
            same(b.PSObject.to_string, txt, "text of %r" % m)
        if isinstance(v, int) and txt:
            same(str(b), txt, "str of %r" % m)
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ nothing was forgotten
def gen_complete(tier: str):
    yield "all"


def run_complete(case, ctx: Ctx) -> None:
    for n in dir(t):
        c = getattr(t, n)
        if inspect.isclass(c) and issubclass(c, (t.PSEnumBase, t.PSFlagBase)) and c not in (t.PSEnumBase, t.PSFlagBase):
            n = c.__name__
            if n in ENUMS or n in FLAGS:
                mem = info(n)[2]
                same({k: int(v.value) for k, v in c.__members__.items() if k in mem}, dict(mem), "members of " + n)
                expect(issubclass(c, t.PSFlagBase) == (n in FLAGS), "kind of %s", n)
            ctx.step()
    ctx.state(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "every number up to 139 (299) and around powers of two and ten to 1024 of values of all types in one document; 600 values of each type one after another", 4),
    Scenario("tables", gen_complete, run_complete, "every exported enumeration against the documented members"),
    Scenario("each", gen_each, run_each, "every member and every combination, in 8 places"),
    Scenario("peer", gen_peer, run_peer, "5 forms a peer can use"),
    Scenario("unknown", gen_unknown, run_unknown, "integers around members and range ends; all base types"),
    Scenario("python", gen_py, run_py, "all pairs of members of plain Python enumerations"),
    Scenario("cross", gen_cross, run_cross, "all pairs of types x 4 members each"),
    Scenario("operators", gen_ops, run_ops, "9 operators on all pairs of combinations of every flag type", chunk=8),
    Scenario("pairs", gen_pairs, run_pairs, "all ordered pairs of values of a type in one document (quick: every 5th of the two widest)", chunk=2),
]

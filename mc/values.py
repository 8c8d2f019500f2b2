"""A small alphabet of values used wherever "any value" can appear (fresh objects on every call)."""
import datetime
import decimal
import typing
import uuid

from psrpcore import types as t

UTC = datetime.timezone.utc


def custom() -> typing.Any:
    o = t.PSCustomObject(First="a", Second=2, third=None)
    return o


def tagged() -> typing.Any:
    s = t.PSString("tagged")
    s.PSObject.extended_properties.append(t.PSNoteProperty("Note", value=7, mandatory=False))
    return s


SIMPLE: typing.Dict[str, typing.Callable[[], typing.Any]] = {
    "none": lambda: None,
    "true": lambda: True,
    "false": lambda: False,
    "str": lambda: "text",
    "empty": lambda: "",
    "spaces": lambda: "  \t",
    "special": lambda: "caf\u00e9\n\r_x000A_<&>\"']]>\x00\ufffe",
    "astral": lambda: "\U0001f600_x005F_",
    "zero": lambda: 0,
    "int": lambda: 1,
    "neg": lambda: -1,
    "i32max": lambda: 2**31 - 1,
    "i64": lambda: 2**31,
    "i64min": lambda: -(2**63),
    "byte": lambda: t.PSByte(255),
    "sbyte": lambda: t.PSSByte(-128),
    "u16": lambda: t.PSUInt16(65535),
    "i16": lambda: t.PSInt16(-32768),
    "u32": lambda: t.PSUInt(2**32 - 1),
    "u64": lambda: t.PSUInt64(2**64 - 1),
    "char": lambda: t.PSChar("x"),
    "double": lambda: t.PSDouble(0.1),
    "single": lambda: t.PSSingle(1.5),
    "decimal": lambda: t.PSDecimal("1.10"),
    "dt": lambda: t.PSDateTime(2021, 2, 3, 4, 5, 6, 7, nanosecond=800, tzinfo=UTC),
    "dur": lambda: t.PSDuration(days=-3, seconds=5, microseconds=1, nanoseconds=100),
    "guid": lambda: t.PSGuid(int=12345678901234567890),
    "uri": lambda: t.PSUri("http://a/b?c=d&e"),
    "version": lambda: t.PSVersion("1.2.3.4"),
    "xml": lambda: t.PSXml("<a b=\"c\">d &amp; e</a>"),
    "script": lambda: t.PSScriptBlock("Get-Item $_ | % { \"<&>\" }"),
    "bytes": lambda: b"\x00\x01\xfe\xff",
    "nobytes": lambda: b"",
    "enum": lambda: t.ConsoleColor.DarkRed,
    "flag": lambda: t.CommandTypes.Alias | t.CommandTypes.Cmdlet,
    "tagged": tagged,
    "custom": custom,
    "coords": lambda: t.Coordinates(X=3, Y=-4),
    "emptylist": lambda: [],
    "list": lambda: [1, None, "a", [2.5, []], {"k": "v"}],
    "emptydict": lambda: {},
    "dict": lambda: {"a": 1, "b": [None, {"c": "d"}], 5: True},
    "stack": lambda: t.PSStack(["x", "y"]),
    "ienum": lambda: t.PSIEnumerable([1, "2"]),
}


def shared() -> typing.Any:
    o = t.PSCustomObject(A=1)
    return [o, o, t.PSCustomObject(A=1)]


def cyclic() -> typing.Any:
    o = t.PSCustomObject(Self=None)
    o.Self = o
    return o


VALUES: typing.Dict[str, typing.Callable[[], typing.Any]] = dict(SIMPLE, shared=shared, cyclic=cyclic)
NAMES = list(VALUES)


def sizes(tier: str, top: int = 0) -> typing.List[int]:
    """Every size up to a limit and the neighbourhood of the powers of two and ten above it."""
    n = 140 if tier == "quick" else 300
    out = list(range(n))
    for b in (128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000):
        if b <= top:
            out += [b - 1, b, b + 1]
    return sorted(set(out))

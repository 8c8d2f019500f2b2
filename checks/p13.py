"""P13: primitive values survive serialization with type and value."""
import base64
import datetime
import decimal
import itertools
import re
import typing
import uuid
from xml.etree import ElementTree as ET

from psrpcore import types as t

from mc.canon import _dt, _td, prim, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.values import sizes

RULE = (
    "all values of the 8 and 16 bit types and characters, boundary grids (powers of two and ten and their neighbours, products "
    "of date/time/zone/tick components) of the wider ones, plain Python values, each alone, with an extra property and inside "
    "containers; element, lexical form (read by an independent parser), type and value are compared"
)
ASSUMPTIONS = [
    "time zone offsets are whole minutes", "integers are within Int64 (UInt64 for that type)", "a Python float stands for a Single",
    "numbers are compared by value, decimals by sign, digits and scale (a scale below zero is the same as 0)",
]
TAGS = {
    "PSString": "S", "PSChar": "C", "PSBool": "B", "PSDateTime": "DT", "PSDuration": "TS", "PSByte": "By", "PSSByte": "SB", "PSUInt16": "U16",
    "PSInt16": "I16", "PSUInt": "U32", "PSInt": "I32", "PSUInt64": "U64", "PSInt64": "I64", "PSSingle": "Sg", "PSDouble": "Db", "PSDecimal": "D",
    "PSByteArray": "BA", "PSGuid": "G", "PSUri": "URI", "null": "Nil", "PSVersion": "Version", "PSXml": "XD", "PSScriptBlock": "SBK",
}
DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,7}))?(Z|[+-]\d\d:\d\d)?$")
TS = re.compile(r"^(-)?P(?:(\d+)D)?(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,7}))?S)?)?$")


def lex(tag: str, s: str) -> typing.Any:
    """The value of a lexical form, read independently of the library."""
    if tag in ("By", "SB", "U16", "I16", "U32", "I32", "U64", "I64", "C"):
        expect(re.match(r"^-?(0|[1-9]\d*)$", s), "not an integer: %r", s)
        return int(s)
    if tag == "B":
        return {"true": True, "false": False}[s]
    if tag in ("Sg", "Db"):  # xs:float and xs:double
        expect(re.match(r"^(-?\d+(\.\d+)?(E[+-]?\d+)?|-?INF|NaN)$", s), "not a floating point number: %r", s)
        f = float(s)
        return float.hex(f) if f == f else "nan"
    if tag == "D":  # xs:decimal, there is no exponent
        expect(re.match(r"^-?\d+(\.\d+)?$", s), "not a decimal number: %r", s)
        return decimal.Decimal(s).as_tuple()
    if tag == "BA":
        return base64.b64decode(s, validate=True).hex()
    if tag == "G":
        expect(re.match(r"^[0-9a-fA-F]{8}-([0-9a-fA-F]{4}-){3}[0-9a-fA-F]{12}$", s), "not a GUID: %r", s)
        return int(s.replace("-", ""), 16)
    if tag == "Version":
        expect(re.match(r"^\d+(\.\d+){1,3}$", s), "not a version: %r", s)
        p: typing.List[typing.Any] = [int(x) for x in s.split(".")]
        return tuple(p + [None] * (4 - len(p)))
    if tag == "DT":
        m = DT.match(s)
        expect(m, "not a date and time: %r", s)
        y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])  # type: ignore
        fr = int((m.group(7) or "").ljust(7, "0"))  # type: ignore
        z = m.group(8)  # type: ignore
        off = None if z is None else 0 if z == "Z" else (1 if z[0] == "+" else -1) * (int(z[1:3]) * 3600 + int(z[4:6]) * 60)
        return (y, mo, d, h, mi, sec, fr // 10, fr % 10 * 100, off)
    if tag == "TS":
        m = TS.match(s)
        expect(m and any(m.groups()[1:]), "not a duration: %r", s)
        d, h, mi, sec, fr = (m.group(i) for i in range(2, 7))  # type: ignore
        n = ((int(d or 0) * 24 + int(h or 0)) * 60 + int(mi or 0)) * 60 + int(sec or 0)
        n = n * 10**9 + int((fr or "").ljust(7, "0")) * 100
        return -n if m.group(1) else n  # type: ignore
    return None


def spell(v: typing.Any) -> ET.Element:
    return ET.fromstring(ET.tostring(t.serialize(v, None), encoding="utf-8", method="xml"))


def roundtrip(v: typing.Any, extra: bool = True, what: typing.Any = None) -> None:
    p = prim(v)
    assert p is not None
    el = spell(v)
    same(el.tag, TAGS[p[0]], "element of %r" % (p,))
    same((dict(el.attrib), len(el)), ({}, 0), "attributes and children")
    if p[0] in ("PSString", "PSUri", "PSXml", "PSScriptBlock", "null"):
        pass
    else:
        same(lex(el.tag, el.text or ""), p[1], "lexical form %r" % el.text)
    back = t.deserialize(el, None)
    same(prim(back), p, "value read back from %r" % el.text)
    if p[0] not in ("null", "PSBool"):
        expect(type(back) is getattr(t, p[0]), "%s came back as %s", p[0], type(back).__name__)
    same(ET.tostring(t.serialize(back, None)), ET.tostring(el), "serialized again")
    if extra and isinstance(back, t.PSObject) and not isinstance(back, t.PSSecureString):
        back.PSObject.extended_properties.append(t.PSNoteProperty("Extra", value="note", mandatory=False))
        e2 = spell(back)
        same(e2.tag, "Obj", "element of a primitive with a property")
        inner = [c for c in e2 if c.tag == TAGS[p[0]]]
        same([(c.text or "") for c in inner], [el.text or ""], "value element")
        again = t.deserialize(e2, None)
        same(prim(again), p, "value with a property")
        expect(type(again) is type(back), "%s with a property came back as %s", p[0], type(again).__name__)
        same([(str(x.name), prim(x.get_value(again))) for x in again.PSObject.extended_properties], [("Extra", ("PSString", "note"))], "property")
        same(prim(again.Extra if not isinstance(again, uuid.UUID) else again["Extra"]), ("PSString", "note"), "property value")


# ------------------------------------------------------------------ small integers: all values
SMALL = [("PSByte", 0, 255), ("PSSByte", -128, 127), ("PSUInt16", 0, 65535), ("PSInt16", -32768, 32767), ("PSChar", 0, 65535)]


def gen_small(tier: str):
    step = 256
    for n, lo, hi in SMALL:
        for a in range(lo, hi + 1, step):
            yield (n, a, min(hi, a + step - 1))


def run_small(case, ctx: Ctx) -> None:
    n, a, b = case
    cls = getattr(t, n)
    for i in range(a, b + 1):
        roundtrip(cls(i), extra=i % 64 == 0 or i == b)
    ctx.step(b - a + 1)
    ctx.state(case)


# ------------------------------------------------------------------ wide integers
WIDE = {"PSUInt": (0, 2**32 - 1), "PSInt": (-(2**31), 2**31 - 1), "PSUInt64": (0, 2**64 - 1), "PSInt64": (-(2**63), 2**63 - 1), "int": (-(2**63), 2**63 - 1)}


def around(lo: int, hi: int, reach: int) -> typing.List[int]:
    s = set()
    for base in [2**k for k in range(65)] + [10**k for k in range(21)]:
        for d in range(-reach, reach + 1):
            for v in (base + d, -base + d):
                if lo <= v <= hi:
                    s.add(v)
    for d in range(reach + 1):
        s |= {lo + d, hi - d}
    return sorted(s, key=lambda x: (abs(x), x))


def gen_wide(tier: str):
    for n, (lo, hi) in WIDE.items():
        vs = around(lo, hi, 3 if tier == "quick" else 40)
        for i in range(0, len(vs), 32):
            yield (n, tuple(vs[i : i + 32]))


def run_wide(case, ctx: Ctx) -> None:
    n, vs = case
    for v in vs:
        roundtrip(v if n == "int" else getattr(t, n)(v))
        ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ floating point and decimal
def floats(tier: str) -> typing.List[float]:
    out = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1 / 3, 0.1, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           3.4028234663852886e38, 1.1754943508222875e-38, 123456789.123456789, 9007199254740993.0, 1e16, 1e15, 123456789012345680.0]
    for k in range(-1074, 1024, 37 if tier == "quick" else 1):
        out += [2.0**k, -(2.0**k), 1.5 * 2.0**k]
    for k in range(-20, 25):
        out += [float("1e%d" % k), float("-9.87654321e%d" % k)]
    return out


def gen_float(tier: str):
    fs = floats(tier)
    for n in ("PSSingle", "PSDouble", "float"):
        for i in range(0, len(fs), 16):
            yield (n, tuple(f.hex() if f == f else "nan" for f in fs[i : i + 16]))


def run_float(case, ctx: Ctx) -> None:
    n, vs = case
    for h in vs:
        f = float.fromhex(h)
        roundtrip(f if n == "float" else getattr(t, n)(f))
        ctx.step()
    ctx.state(case)


def gen_decimal(tier: str):
    digs = ["0", "1", "10", "100", "9", "123456789", "79228162514264337593543950335", "1000000000000000000000000000", "5", "50"]
    exps = range(-28, 29, 1 if tier != "quick" else 4)
    for n in ("PSDecimal", "Decimal"):
        for d in digs:
            yield (n, d, tuple(exps))


def run_decimal(case, ctx: Ctx) -> None:
    n, d, exps = case
    for e in exps:
        for sign in (0, 1):
            v = decimal.Decimal((sign, tuple(int(c) for c in d), e))
            roundtrip(v if n == "Decimal" else t.PSDecimal(v))
            ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ dates
YEARS = [1, 9, 10, 99, 100, 999, 1000, 1601, 1900, 1969, 1970, 2000, 2019, 2020, 2038, 9998, 9999]
DAYS = [(1, 1), (2, 28), (12, 31), (6, 30), (10, 10), (2, 29)]
TIMES = [(0, 0, 0), (23, 59, 59), (10, 20, 30), (1, 2, 3), (12, 0, 0), (0, 0, 1)]
MICROS = [0, 1, 10, 100, 1000, 10000, 100000, 123456, 120000, 999999, 500000]
NANOS = [0, 100, 500, 900]
OFFS = [None, 0, 60, -60, 330, -210, 840, -720, 1, -1, 59, -59, 1439, -1439, 570, -30]


def offset(o: typing.Optional[int]) -> typing.Any:
    return None if o is None else datetime.timezone(datetime.timedelta(minutes=o))


def gen_date(tier: str):
    for y, (mo, d) in itertools.product(YEARS, DAYS):
        try:
            datetime.date(y, mo, d)
        except ValueError:
            continue
        for tm in TIMES if tier != "quick" else TIMES[:3]:
            yield ("grid", y, mo, d, tm)
    for o in range(-1439, 1440, 15 if tier == "quick" else 1):
        yield ("off", o)
    for y in range(1, 10000, 50 if tier == "quick" else 5):
        yield ("year", y, 50 if tier == "quick" else 5)
    for k in range(0, 10):
        yield ("frac", k)


def run_date(case, ctx: Ctx) -> None:
    def check(*a: int, ns: int, off: typing.Optional[int]) -> None:
        roundtrip(t.PSDateTime(*a, nanosecond=ns, tzinfo=offset(off)), extra=ns == 500)
        if not ns:
            roundtrip(datetime.datetime(*a, tzinfo=offset(off)), extra=False)
        ctx.step()

    if case[0] == "grid":
        _, y, mo, d, tm = case
        for us, ns, off in itertools.product(MICROS, NANOS, OFFS[:6]):
            check(y, mo, d, *tm, us, ns=ns, off=off)
    elif case[0] == "off":
        for tm in TIMES[:2]:
            check(2021, 3, 4, *tm, 5, ns=600, off=case[1])
            check(2021, 3, 4, *tm, 0, ns=0, off=case[1])
    elif case[0] == "year":
        for y in range(case[1], min(case[1] + case[2], 10000)):
            for off in (None, 0, -300):
                check(y, 7, 8, 9, 10, 11, 0, ns=0, off=off)
                check(y, 7, 8, 9, 10, 11, 12, ns=100, off=off)
    else:
        # every single digit position of the fraction
        for pos in range(7):
            ticks = case[1] * 10**pos
            check(2021, 1, 2, 3, 4, 5, ticks // 10, ns=ticks % 10 * 100, off=0)
    ctx.state(case)


# ------------------------------------------------------------------ durations
def gen_duration(tier: str):
    unit = [1, 10, 10**6, 10**7, 60 * 10**7, 3600 * 10**7, 86400 * 10**7, 10 * 86400 * 10**7, 10675199 * 86400 * 10**7]
    mult = [0, 1, 2, 9, 10, 20, 23, 24, 59, 60, 99, 100, 999, 1000]
    for u, w in itertools.product(unit, repeat=2):
        yield (u, w, tuple(mult))
    yield ("edges",)
    for k in range(7):
        yield ("digits", k)
    if tier != "quick":
        for h in range(24):
            yield ("hms", h)


def run_duration(case, ctx: Ctx) -> None:
    lo, hi = -(2**63), 2**63 - 1
    if case[0] == "edges":
        vals = sorted(set(around(lo, hi, 2)))
    elif case[0] == "digits":
        vals = [d * 10 ** case[1] + b for d in range(10) for b in (0, 5 * 10**7, 86400 * 10**7, 59 * 10**7)]
    elif case[0] == "hms":
        vals = [((case[1] * 60 + m) * 60 + s) * 10**7 + f for m in range(60) for s in range(0, 60, 7) for f in (0, 1, 5000000)]
    else:
        u, w, mult = case
        vals = [a * u + sgn * b * w for a in mult for b in mult for sgn in (1, -1)]
    for v in vals:
        for ticks in (v, -v):
            if not lo <= ticks <= hi:
                continue
            x = t.PSDuration(nanoseconds=ticks * 100)
            same(_td(x), ticks * 100, "duration created")
            roundtrip(x, extra=False)
            ctx.step()
            if ticks % 10 == 0:
                roundtrip(datetime.timedelta(microseconds=ticks // 10), extra=False)
    roundtrip(t.PSDuration(nanoseconds=vals[-1] * 100 if lo <= vals[-1] <= hi else 100))
    ctx.state(case)


# ------------------------------------------------------------------ the forms .NET writes
def gen_peer(tier: str):
    for frac in ["", "1", "12", "123", "1234", "12345", "123456", "1234567", "0000001", "1000000", "0000010", "9999999", "5", "05", "05000"]:
        for z in ["", "Z", "+01:00", "-07:30", "+00:00", "-00:30", "+14:00"]:
            yield ("DT", "2008-04-11T10:42:32%s%s" % ("." + frac if frac else "", z))
            yield ("DT", "0001-01-01T00:00:00%s%s" % ("." + frac if frac else "", z if z[:1] != "+" else ""))
        for pre in ["PT", "P9DT", "-P9DT", "PT1H", "-PT23H59M", "PT5M", "P10675199DT2H48M"]:
            yield ("TS", "%s%s%sS" % (pre, 5 if "1067" in pre else 20, "." + frac if frac else ""))
    for s in ["P1D", "-P1D", "PT0S", "PT1H", "PT1M", "P1DT1H", "P1DT1M", "PT1H1S", "P10675199DT2H48M5.4775807S", "-P10675199DT2H48M5.4775808S", "PT10S", "PT100S"]:
        yield ("TS", s)
    for s in ["1.7976931348623157E+308", "4.94065645841247E-324", "INF", "-INF", "NaN", "-0", "0.1", "1E+16", "3.40282347E+38"]:
        yield ("Db", s)
        yield ("Sg", s)
    for s in ["79228162514264337593543950335", "-0.0000000000000000000000000001", "0", "1.00"]:
        yield ("D", s)
    for s in ["true", "false"]:
        yield ("B", s)
    for s in ["792E5F37-AAE3-4B5A-9C5B-0A0B0C0D0E0F", "792e5f37-aae3-4b5a-9c5b-0a0b0c0d0e0f", "00000000-0000-0000-0000-000000000000"]:
        yield ("G", s)
    for s in ["6.2.1.3", "1.0", "2147483647.2147483647", "0.0.0", "10.0.19041.1"]:
        yield ("Version", s)
    for s in ["97", "0", "65535", "55296"]:
        yield ("C", s)
    for s in ["", "AQIDBA==", "AA==", "/+8="]:
        yield ("BA", s)


PTYPE = {v: k for k, v in TAGS.items()}


def run_peer(case, ctx: Ctx) -> None:
    tag, s = case
    v = t.deserialize(ET.fromstring("<%s>%s</%s>" % (tag, s, tag)), None)
    w = lex(tag, s)
    same(prim(v), (PTYPE[tag], w), "value of <%s>%s" % (tag, s))
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ primitives another implementation has extended
# A value with properties or type names is written as an Obj with the value as one of the children, booleans included.
PEER = {
    "S": ["a b", "", "_x000A_"], "C": ["97"], "B": ["true", "false"], "DT": ["2008-04-11T10:42:32.7313660-07:00"], "TS": ["P1DT2H3M4.0000005S"],
    "By": ["0", "255"], "SB": ["-1"], "U16": ["7"], "I16": ["-7"], "U32": ["4294967295"], "I32": ["0", "-5"], "U64": ["1"], "I64": ["0"], "Sg": ["1.5"],
    "Db": ["-0.25"], "D": ["1.10"], "BA": ["AQI=", ""], "G": ["792e5f37-aae3-4b5a-9c5b-0a0b0c0d0e0f"], "URI": ["http://x/?a=1"], "Version": ["1.2.3"],
    "XD": ["<a/>"], "SBK": ["$a"],
}
NAMES = ["Deserialized.My.Type", "Deserialized.System.Object"]  # as they are read; on the wire without the prefix


def gen_extended(tier: str):
    for tag in PEER:
        for i in range(len(PEER[tag])):
            for tn in ("", "TN", "TNRef"):
                for order in itertools.permutations(range(4)) if tier == "thorough" else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 3, 0, 1)]:
                    for sub in itertools.product((False, True), repeat=3):
                        yield (tag, i, tn, order, sub)


def run_extended(case, ctx: Ctx) -> None:
    tag, i, tn, order, (ms, props, tos) = case
    val = ET.Element(tag)
    val.text = PEER[tag][i]
    o = ET.Element("Obj", RefId="1")
    if tn == "TN":
        e = ET.SubElement(o, "TN", RefId="0")
        for n in NAMES:
            ET.SubElement(e, "T").text = n[13:]
    elif tn:
        ET.SubElement(o, "TNRef", RefId="0")
    kids: typing.List[typing.Optional[ET.Element]] = [val, None, None, None]
    for j, (on, x) in enumerate([(ms, "MS"), (props, "Props")], 1):
        if on:
            kids[j] = ET.Element(x)
            ET.SubElement(kids[j], "I32", N="N" + x).text = str(j)  # type: ignore
    if tos:
        kids[3] = ET.Element("ToString")
        kids[3].text = "as text"  # type: ignore
    for j in order:
        if kids[j] is not None:
            o.append(kids[j])  # type: ignore
    root = ET.Element("Obj", RefId="9")
    l = ET.SubElement(root, "LST")
    if tn == "TNRef":
        first = ET.SubElement(l, "Obj", RefId="0")
        e = ET.SubElement(first, "TN", RefId="0")
        for n in NAMES:
            ET.SubElement(e, "T").text = n[13:]
    l.append(o)
    l.append(val)
    ET.SubElement(l, "Ref", RefId="1")
    ctx.step()
    back = t.deserialize(ET.fromstring(ET.tostring(root)), None)
    if tn == "TNRef":
        same(list(back[0].PSTypeNames), NAMES, "type names of the first object")
        back = back[1:]
    plain = t.deserialize(val, None)
    same([prim(v) for v in back], [prim(plain)] * 3, "values")
    expect(back[0] is back[2], "the reference is another object")
    if tag != "B":
        x = back[0]
        expect(type(x) is type(plain), "%s instead of %s", type(x).__name__, type(plain).__name__)
        same(list(x.PSTypeNames), NAMES if tn else list(plain.PSTypeNames), "type names")
        same([(str(p.name), prim(p.get_value(x))) for p in x.PSObject.extended_properties], [("NMS", ("PSInt", 1))] if ms else [], "extended properties")
        same([(str(p.name), prim(p.get_value(x))) for p in x.PSObject.adapted_properties], [("NProps", ("PSInt", 2))] if props else [], "adapted properties")
        same([list(p) for p in (back[1].PSObject.extended_properties, back[1].PSObject.adapted_properties)], [[], []], "properties of the plain value")
        same(list(back[1].PSTypeNames), list(plain.PSTypeNames), "type names of the plain value")
    ctx.state(case)


# ------------------------------------------------------------------ the rest
def gen_misc(tier: str):
    for v in (None, True, False):
        yield ("native", v)
    for i in [0, 1, 2**128 - 1, 2**127, 0x00112233445566778899AABBCCDDEEFF, *(1 << k for k in range(0, 128, 5)), *(0xFF << k for k in range(0, 128, 8))]:
        yield ("guid", i)
    parts = [0, 1, 9, 10, 2**31 - 1]
    for n in (2, 3, 4):
        for p in itertools.product(parts, repeat=n):
            yield ("version", p)
    for n in range(0, 80):
        yield ("bytes", n)
    for n in sizes(tier, 1 << 17):
        if n >= 80:
            yield ("bytes", n)
            yield ("length", n)
    for a in range(256):
        yield ("bytes2", a)
    for s in ["", "x", "a b", "http://a/b?c=d&e=<f>", "<a b=\"c\"><!-- d -->&amp;</a>", " lead ", "\n", "caf\u00e9", "_x0041_", "\U0001f600"]:
        for n in ("PSString", "PSUri", "PSXml", "PSScriptBlock", "str"):
            yield ("text", n, s)


def run_misc(case, ctx: Ctx) -> None:
    k = case[0]
    ctx.step()
    if k == "native":
        roundtrip(case[1])
    elif k == "guid":
        roundtrip(t.PSGuid(int=case[1]))
        roundtrip(uuid.UUID(int=case[1]))
        roundtrip(t.PSGuid(str(uuid.UUID(int=case[1]))))
    elif k == "version":
        roundtrip(t.PSVersion(".".join(map(str, case[1]))))
    elif k == "bytes":
        for b in (bytes(i % 251 for i in range(case[1])), b"\xff" * case[1], b"\x00" * case[1]):
            roundtrip(b)
            roundtrip(t.PSByteArray(b))
    elif k == "length":
        for n in ("PSString", "PSUri", "PSXml", "PSScriptBlock"):
            roundtrip(getattr(t, n)(("http://x/" + "y z" * case[1])[: case[1]]))
    elif k == "bytes2":
        for b in range(256):
            roundtrip(bytes([case[1], b]), extra=False)
            ctx.step()
    else:
        roundtrip(case[2] if case[1] == "str" else getattr(t, case[1])(case[2]))
    ctx.state(case)


# primitives with properties inside containers, next to equal plain ones
def reps() -> typing.Dict[str, typing.Callable]:
    u = datetime.timezone.utc
    return {
        "none": lambda: None, "bool": lambda: True, "char": lambda: t.PSChar(65), "byte": lambda: t.PSByte(1), "sbyte": lambda: t.PSSByte(-1),
        "u16": lambda: t.PSUInt16(1), "i16": lambda: t.PSInt16(1), "u32": lambda: t.PSUInt(1), "i32": lambda: 1, "u64": lambda: t.PSUInt64(1),
        "i64": lambda: t.PSInt64(1), "sg": lambda: 1.0, "db": lambda: t.PSDouble(1), "dec": lambda: t.PSDecimal("1"), "dt": lambda: t.PSDateTime(2020, 1, 1, tzinfo=u),
        "ts": lambda: t.PSDuration(1), "guid": lambda: t.PSGuid(int=1), "uri": lambda: t.PSUri("1"), "ver": lambda: t.PSVersion("1.0"), "ba": lambda: b"1",
        "xml": lambda: t.PSXml("1"), "sbk": lambda: t.PSScriptBlock("1"), "str": lambda: "1",
    }


REPS = reps()


def gen_mixed(tier: str):
    for a, b in itertools.product(REPS, repeat=2):
        for ea, eb in itertools.product((False, True), repeat=2):
            yield (a, b, ea, eb)


def dress(v: typing.Any, ext: bool) -> typing.Any:
    if ext and isinstance(v, t.PSObject):
        v.PSObject.extended_properties.append(t.PSNoteProperty("E", value=t.PSByte(3), mandatory=False))
    return v


def see(v: typing.Any) -> typing.Any:
    ext = tuple((str(p.name), prim(p.get_value(v))) for p in v.PSObject.extended_properties) if isinstance(v, t.PSObject) else ()
    return prim(v), ext


def run_mixed(case, ctx: Ctx) -> None:
    a, b, ea, eb = case
    x, y = dress(REPS[a](), ea), dress(REPS[b](), eb)
    want = (see(x), see(y))
    back = t.deserialize(spell([x, y, x]), None)
    same([see(v) for v in back], [want[0], want[1], want[0]], "list")
    back = t.deserialize(spell({"k": x, "l": y}), None)
    same([(prim(k)[1], see(v)) for k, v in back.items()], [("k", want[0]), ("l", want[1])], "dictionary values")
    o = t.PSCustomObject(A=x, B=y)
    back = t.deserialize(spell(o), None)
    same((see(back.A), see(back.B)), want, "properties")
    if x is not None:
        back = t.deserialize(spell({x: "v"}), None)
        same([(see(k), prim(v)) for k, v in back.items()], [(want[0], ("PSString", "v"))], "dictionary keys")
    same((see(x), see(y)), want, "values after serializing")
    ctx.step(4)
    ctx.state(case)


SCENARIOS = [
    Scenario("misc", gen_misc, run_misc, "null, booleans, GUID bit patterns, versions, byte arrays and texts of every length up to 139 (299) and around powers of two and ten to 65536, all byte arrays of length 2, text types"),
    Scenario("peer-forms", gen_peer, run_peer, "lexical forms as .NET writes them"),
    Scenario("peer-extended", gen_extended, run_extended, "every primitive as a child of an object with type names, properties and a text, in several orders, referenced"),
    Scenario("mixed", gen_mixed, run_mixed, "all ordered pairs of primitive kinds, with and without properties, in four containers"),
    Scenario("wide-integers", gen_wide, run_wide, "neighbours of powers of 2 and 10 and of the range ends"),
    Scenario("floats", gen_float, run_float, "special values, powers of two and ten"),
    Scenario("decimals", gen_decimal, run_decimal, "digits x exponents -28..28 x sign"),
    Scenario("durations", gen_duration, run_duration, "sums of two unit multiples, range ends, every digit position", chunk=2),
    Scenario("dates", gen_date, run_date, "years x days x times x microseconds x ticks x offsets; all offsets; all years", chunk=4),
    Scenario("small-integers", gen_small, run_small, "all values of 8/16 bit integers and characters", chunk=2),
]

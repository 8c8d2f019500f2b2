"""P14: any text survives serialization wherever it is used."""
import itertools
import re
import typing
from xml.etree import ElementTree as ET

import psrpcore
from psrpcore import types as t

from checks import p11, p12
from mc.canon import text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.values import sizes
from mc.pools import deliver

RULE = (
    "every code point (0..10FFFF, surrogates included) alone and inside escape contexts; all strings over a critical alphabet up to a "
    "length; every escape-like string over a set of digits; all sequences of peer escapes and near-escapes; all of it in every "
    "position text can occur in. The written XML is read by an independent parser and decoder"
)
ASSUMPTIONS = [
    "text is compared as its sequence of UTF-16 code units (a surrogate pair is the same as the character it stands for)",
    "property and type names are not empty, and an empty ToString text is not written",
    "peers write escapes as _x followed by four hexadecimal digits of either case",
]
RAW = re.compile("[\x00-\x1f\x7f-\x9f\ud800-\udfff\ufffe\uffff]")
ESC = re.compile("_x([0-9A-Fa-f]{4})_")


def decode(raw: str) -> str:
    """Independent reading of escaped text: left to right, UTF-16 code units."""
    out: typing.List[str] = []
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == "_" and raw[i + 1:i + 2] == "x" and raw[i + 6:i + 7] == "_" and all(d in "0123456789abcdefABCDEF" for d in raw[i + 2:i + 6]):
            out.append(chr(int(raw[i + 2:i + 6], 16)))
            i += 7
        else:
            out.append(c)
            i += 1
    return text("".join(out))


def spell(v: typing.Any) -> ET.Element:
    raw = ET.tostring(t.serialize(v, None), encoding="utf-8", method="xml")  # fails for lone surrogates
    el = ET.fromstring(raw)
    for n in el.iter():
        for s in [n.text or ""] + list(n.attrib.values()):
            m = RAW.search(s)
            if m:
                fail("character U+%04X is written as it is in %r", ord(m.group()), s)
    return el


# ------------------------------------------------------------------ positions
class Pos(typing.NamedTuple):
    make: typing.Callable[[str], typing.Any]
    read: typing.Callable[[typing.Any], typing.Any]
    raw: typing.Callable[[ET.Element], typing.Optional[str]]  # where the text is in the XML
    empty: bool = True


def _ext(o: typing.Any, name: str, v: typing.Any) -> typing.Any:
    o.PSObject.extended_properties.append(t.PSNoteProperty(name, value=v, mandatory=False))
    return o


def _adapt(name: str) -> typing.Any:
    o = t.PSObject()
    o.PSObject.adapted_properties.append(t.PSNoteProperty(name, value=5, mandatory=False))
    return o


def _named(names: typing.List[str]) -> typing.Any:
    o = t.PSObject()
    o.PSObject.type_names = names
    return o


def _str(s: str) -> typing.Any:
    o = t.PSCustomObject(A=1)
    o.PSObject.to_string = s
    return o


def _queue(s: str) -> typing.Any:
    q = t.PSQueue()
    q.put(s)
    return q


def _attr(name: str) -> typing.Any:
    class Plain:
        pass

    o = Plain()
    setattr(o, name, 5)
    return o


def _of(cls: typing.Any) -> typing.Callable[[typing.Any], typing.Any]:
    def read(v: typing.Any) -> typing.Any:
        expect(type(v) is cls, "%s came back as %s", cls.__name__, type(v).__name__)
        return v

    return read


def _only(seq: typing.Iterable) -> typing.Any:
    l = list(seq)
    same(len(l), 1, "entries")
    return l[0]


def _names(props: typing.Any) -> typing.Any:
    p = _only(props)
    return p.name


def _dicts(v: typing.Any) -> typing.Any:
    expect(type(v) is t.PSDict, "dictionary came back as %s", type(v).__name__)
    return _only(v.items())


def _tx(el: typing.Optional[ET.Element]) -> typing.Optional[str]:
    return None if el is None else el.text or ""


ONE_OF = {
    "string": Pos(lambda s: s, _of(t.PSString), _tx),
    "PSString": Pos(t.PSString, _of(t.PSString), _tx),
    "script": Pos(t.PSScriptBlock, _of(t.PSScriptBlock), _tx),
    "uri": Pos(t.PSUri, _of(t.PSUri), _tx),
    "xml": Pos(t.PSXml, _of(t.PSXml), _tx),
    "tagged string": Pos(lambda s: _ext(t.PSString(s), "N", 1), _of(t.PSString), lambda e: _tx(e.find("S"))),
    "tagged script": Pos(lambda s: _ext(t.PSScriptBlock(s), "N", 1), _of(t.PSScriptBlock), lambda e: _tx(e.find("SBK"))),
    "property value": Pos(lambda s: t.PSCustomObject(A=s), lambda v: v.A, lambda e: _tx(e.find("MS/S"))),
    "adapted value": Pos(lambda s: _adv(s), lambda v: _only(v.PSObject.adapted_properties).get_value(v), lambda e: _tx(e.find("Props/S"))),
    "property name": Pos(lambda s: _ext(t.PSObject(), s, 5), lambda v: _names(v.PSObject.extended_properties), lambda e: _only(e.find("MS")).attrib["N"], False),
    "adapted name": Pos(_adapt, lambda v: _names(v.PSObject.adapted_properties), lambda e: _only(e.find("Props")).attrib["N"], False),
    "name on a string": Pos(lambda s: _ext(t.PSString("q"), s, 5), lambda v: _names(v.PSObject.extended_properties), lambda e: _only(e.find("MS")).attrib["N"], False),
    "attribute name": Pos(_attr, lambda v: _names(v.PSObject.extended_properties), lambda e: _only(e.find("MS")).attrib["N"], False),
    "key": Pos(lambda s: {s: 1}, lambda v: _dicts(v)[0], lambda e: _tx(e.find("DCT/En/S[@N='Key']"))),
    "value": Pos(lambda s: {1: s}, lambda v: _dicts(v)[1], lambda e: _tx(e.find("DCT/En/S[@N='Value']"))),
    "list": Pos(lambda s: [s], _only, lambda e: _tx(e.find("LST/S"))),
    "stack": Pos(lambda s: t.PSStack([s]), _only, lambda e: _tx(e.find("STK/S"))),
    "queue": Pos(_queue, lambda v: _only(v.queue), lambda e: _tx(e.find("QUE/S"))),
    "enumerable": Pos(lambda s: t.PSIEnumerable([s]), _only, lambda e: _tx(e.find("IE/S"))),
    "first type name": Pos(lambda s: _named([s, "B"]), lambda v: _type(v, 0), lambda e: _tx(e.find("TN/T")), False),
    "last type name": Pos(lambda s: _named(["B", s]), lambda v: _type(v, 1), lambda e: _tx(list(e.find("TN"))[1]), False),
    "ToString": Pos(_str, lambda v: v.PSObject.to_string, lambda e: _tx(e.find("ToString")), False),
    "activity": Pos(lambda s: t.ProgressRecord(Activity=s, ActivityId=1, StatusDescription="d"), lambda v: v.Activity, lambda e: _tx(e.find("AV"))),
    "operation": Pos(lambda s: t.ProgressRecord(Activity="a", ActivityId=1, StatusDescription="d", CurrentOperation=s), lambda v: v.CurrentOperation, lambda e: _tx(e.find("S"))),
    "status": Pos(lambda s: t.ProgressRecord(Activity="a", ActivityId=1, StatusDescription=s), lambda v: v.StatusDescription, lambda e: _tx(e.find("SD"))),
}


def _adv(s: str) -> typing.Any:
    o = t.PSObject()
    o.PSObject.adapted_properties.append(t.PSNoteProperty("A", value=s, mandatory=False))
    return o


def _type(v: typing.Any, i: int) -> str:
    n = list(v.PSObject.type_names)
    same(len(n), 2, "number of type names")
    expect(n[i].startswith("Deserialized."), "type name %r", n[i])
    return n[i][len("Deserialized."):]


def at(pos: str, s: str) -> None:
    p = ONE_OF[pos]
    el = spell(p.make(s))
    raw = p.raw(el)
    expect(raw is not None, "%s: %r is not written", pos, s)
    same(decode(raw), text(s), "%s: what a peer reads from %r" % (pos, raw))
    got = p.read(t.deserialize(el, None))
    expect(isinstance(got, str), "%s came back as %s", pos, type(got).__name__)
    same(text(got), text(s), "%s: read back from %r" % (pos, raw))


# ------------------------------------------------------------------ every code point
CONTEXTS = [lambda c: c, lambda c: "_x" + c, lambda c: c + "x0041_", lambda c: "_x004" + c + "_", lambda c: "_" + c + "0041_", lambda c: "a" + c + c + "_"]
BLOCK = 128


def gen_points(tier: str):
    for a in range(0, 0x10000, BLOCK):
        yield (a, len(CONTEXTS))
    for a in range(0x10000, 0x110000, BLOCK * 4):
        yield (a, 2 if tier == "quick" else len(CONTEXTS))


def run_points(case, ctx: Ctx) -> None:
    a, n = case
    pts = range(a, a + (BLOCK if a < 0x10000 else 4 * BLOCK))
    want = [f(chr(p)) for p in pts for f in CONTEXTS[:n]]
    el = spell(want)
    items = list(el.find("LST"))  # type: ignore
    same(len(items), len(want), "strings written")
    back = t.deserialize(el, None)
    for w, i, b in zip(want, items, back):
        if i.tag != "S" or decode(i.text or "") != text(w) or text(b) != text(w):
            fail("%r is written as %r and read back as %r", w, i.text, b)
    ctx.step(len(want))
    ctx.state(case)


# ------------------------------------------------------------------ strings over the critical alphabet
AB = ["_", "x", "X", "0", "5", "F", "a", " ", "\n", "\ud83c", "\udfb5", "\ufffe", "\U0001f600", "<", "&", "\u0085", "\u00e9", "]"]
AB2 = ["_", "x", "0", "\n", "\ud83c", "\udfb5", "X", "F"]


def gen_strings(tier: str):
    full, small = (4, 6) if tier == "quick" else (5, 7)
    for n in range(0, full + 1):
        for p in itertools.product(AB, repeat=max(0, n - 2)):
            yield (n, "".join(p), 0)
    for n in range(full + 1, small + 1):
        for p in itertools.product(AB2, repeat=n - 3):
            yield (n, "".join(p), 1)
    hexes = "05Ffg_ " if tier == "quick" else "05Ffg_ xD8"
    for x in ("x", "X", "_x", "_"):
        for p in itertools.product(hexes, repeat=2):
            yield (x, "".join(p), hexes)


def expand(case: typing.Any) -> typing.Iterator[str]:
    n, pre, k = case
    if isinstance(n, str):
        for p in itertools.product(k, repeat=2):
            for end in ("_", "", "_x", "__"):
                yield "_" + n + pre + "".join(p) + end
        return
    ab = AB2 if k else AB
    for p in itertools.product(ab, repeat=min(n, 3 if k else 2)):
        yield pre + "".join(p)


def run_strings(case, ctx: Ctx) -> None:
    want = list(expand(case))
    el = spell(want)
    items = list(el.find("LST"))  # type: ignore
    same(len(items), len(want), "strings written")
    back = t.deserialize(el, None)
    for w, i, b in zip(want, items, back):
        if i.tag != "S" or decode(i.text or "") != text(w) or text(b) != text(w):
            fail("%r is written as %r and read back as %r", w, i.text, b)
        ctx.state(text(w))
    ctx.step(len(want))


# ------------------------------------------------------------------ positions
WORDS = [
    "", "_x000A_", "_x000a_", "_X000A_", "_x005F_x000A_", "__x000A_", "_x000A", "x000A_", "\r\n", " lead", "trail ", "  ", "\t", "a\u0000b", "\u001b[0m",
    "\u007f\u009f", "\ud83c\udfb5", "\ud83c", "\udfb5\ud83c", "\U0001f3b5", "\ufffe\uffff", "\ufdd0", "]]>", "<![CDATA[x]]>", "&#10;&amp;", "<!-- -->", "\"'", "\u2028\ufeff",
    "_\n", "_\ud83c\udfb5_", "_x_x_", "_x005F_", "_xD83C__xDFB5_", "x" * 3000, "_" * 40, "Key", "Value", "\u0130\u0131", "e\u0301",
]


def gen_positions(tier: str):
    for pos in ONE_OF:
        for w in WORDS:
            yield (pos, w)
        for p in itertools.product(AB, repeat=2):
            yield (pos, "".join(p))
        for c in AB + [chr(i) for i in range(0, 0xa1)]:
            yield (pos, c)
        if tier != "quick":
            for p in itertools.product(AB, repeat=3):
                yield (pos, "".join(p))


def run_positions(case, ctx: Ctx) -> None:
    pos, s = case
    if not s and not ONE_OF[pos].empty:
        return
    if pos == "attribute name" and (s.startswith("__") or "\ud800" <= s[:1] <= "\udfff" or any("\ud800" <= c <= "\udfff" for c in s)):
        return
    at(pos, s)
    ctx.step()
    ctx.state(pos, text(s))


# several texts in one value do not influence each other
def gen_pairs(tier: str):
    ws = [w for w in WORDS if len(w) < 30]
    for a, b in itertools.product(ws, repeat=2):
        yield (a, b)


def run_pairs(case, ctx: Ctx) -> None:
    a, b = case
    v = t.PSCustomObject(**{"A": a, "B": [b, a], "C": {"k": b}})
    v.PSObject.to_string = "ts" + b
    v.PSObject.type_names = ["n" + a, "m" + b]
    v = _ext(v, "p" + a, b)
    el = spell(v)
    g = t.deserialize(el, None)
    same([text(x) for x in (g.A, g.B[0], g.B[1], g.C["k"])], [text(x) for x in (a, b, a, b)], "values")
    same([text(n) for n in g.PSObject.type_names], ["Deserialized.n" + text(a), "Deserialized.m" + text(b)], "type names")
    same(text(g.PSObject.to_string), text("ts" + b), "text form")
    p = list(g.PSObject.extended_properties)[-1]
    same((text(p.name), text(p.get_value(g))), (text("p" + a), text(b)), "last property")
    clixml = t.serialize_clixml([a, (b, t.ClixmlStream.ERROR), {a: b}], None)
    out = t.deserialize_clixml(clixml, None, preserve_streams=True)
    same([text(out[0][0]), text(out[1][0])], [text(a), text(b)], "CLIXML strings")
    same([(text(k), text(x)) for k, x in out[2][0].items()], [(text(a), text(b))], "CLIXML dictionary")
    ctx.step(3)
    ctx.state(text(a), text(b))


# ------------------------------------------------------------------ text a peer wrote
TOKENS = [
    "_x0041_", "_x005F_", "_x005f_", "_xD83C_", "_xdfb5_", "_x000a_", "_x", "_", "x", "0041", "_x004_", "_x00411_", "_xG041_", "_x0041", "x0041_", "_x 041_",
    "_x+041_", "_x00\u0664\u0661_", "_x\uff10\uff10\uff14\uff11_", "\u00e9", "\U0001f3b5", " ", "_x004A_x0042_",
]
SINKS = {
    "S": "<S>%s</S>", "SBK": "<SBK>%s</SBK>", "URI": "<URI>%s</URI>", "XD": "<XD>%s</XD>",
    "N": '<Obj RefId="0"><MS><I32 N="%s">5</I32></MS></Obj>', "Props": '<Obj RefId="0"><Props><I32 N="%s">5</I32></Props></Obj>',
    "T": '<Obj RefId="0"><TN RefId="0"><T>zz%s</T></TN></Obj>', "ToString": '<Obj RefId="0"><ToString>%s</ToString></Obj>',
    "AV": "<PR><AV>%s</AV><AI>1</AI><Nil /><PI>-1</PI><PC>1</PC><T>Processing</T><SR>-1</SR><SD>s</SD></PR>",
    "Key": '<Obj RefId="0"><DCT><En><S N="Key">%s</S><I32 N="Value">5</I32></En></DCT></Obj>',
}
READ: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {
    "S": str.__str__, "SBK": str.__str__, "URI": str.__str__, "XD": str.__str__,
    "N": lambda v: _names(v.PSObject.extended_properties), "Props": lambda v: _names(v.PSObject.adapted_properties),
    "T": lambda v: v.PSObject.type_names[0][len("Deserialized.zz"):], "ToString": lambda v: v.PSObject.to_string, "AV": lambda v: v.Activity,
    "Key": lambda v: _only(v.items())[0],
}


def gen_peer(tier: str):
    for sink in SINKS:
        for n in (1, 2):
            for p in itertools.product(range(len(TOKENS)), repeat=n - 1):
                yield (sink, p)
    for p in itertools.product(range(len(TOKENS)), repeat=2 if tier == "quick" else 3):
        yield ("S", p)


def run_peer(case, ctx: Ctx) -> None:
    sink, pre = case
    for tok in TOKENS:
        raw = "".join(TOKENS[i] for i in pre) + tok
        got = READ[sink](t.deserialize(ET.fromstring(SINKS[sink] % raw), None))
        same(text(got), decode(raw), "%s with text %r" % (sink, raw))
        ctx.state(sink, raw)
        ctx.step()


# every four digits, both cases
def gen_digits(tier: str):
    for a in range(0, 0x10000, 512):
        yield a


def run_digits(a: int, ctx: Ctx) -> None:
    for n in range(a, a + 512):
        for f in ("%04X", "%04x"):
            raw = "_x" + f % n + "_"
            got = t.deserialize(ET.fromstring("<S>%s</S>" % raw), None)
            same(text(got), chr(n), "text %r" % raw)
            ctx.step()
    ctx.state(a)


# ------------------------------------------------------------------ through the protocol
def gen_wire(tier: str):
    for w in WORDS:
        yield w
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for p in itertools.product(AB, repeat=n):
            yield "".join(p)


def run_wire(s: str, ctx: Ctx) -> None:
    c, srv, cp, sp = p12.world()
    sp.write_output(s)
    sp.write_warning(s)
    sp.write_output({s: [s]})
    ev = deliver(srv, c)
    same([type(e).__name__ for e in ev], ["PipelineOutputEvent", "WarningRecordEvent", "PipelineOutputEvent"], "events")
    same(text(ev[0].data), text(s), "output")
    same(text(ev[1].record.Message), text(s), "warning")
    k, v = _only(ev[2].data.items())
    same((text(k), text(v[0])), (text(s), text(s)), "dictionary")
    cp.send(s)
    ev = deliver(c, srv)
    same([text(e.data) for e in ev], [text(s)], "input")
    p11.run_text(s, ctx)
    ctx.step(4)
    ctx.state("wire", text(s))


# ------------------------------------------------------------------ long texts
UNITS = ["\n", "_x000A_", "\ud83c\udfb5", "\ud83c", "\U0001f600", "_x", "_", "<&>", "]]>", "\ufffe", "\r\n", "_x005F_", "\u00e9"]
FILL = ["a", "_", "\u00e9", "x0", "\U0001f600"]
LONG_AT = ["string", "property name", "key", "ToString", "first type name", "script", "operation"]


def gen_long(tier: str):
    top = 66000 if tier == "quick" else 101000
    for n in sizes(tier, top):
        if n:
            yield ("fill", n)
    for n in (sizes(tier, top) if tier != "quick" else [x for x in sizes(tier, top) if x % 8 in (0, 1, 7)]):
        for u in range(len(UNITS)):
            yield ("unit", n, u)
    for n in (139,) if tier == "quick" else (139, 300):
        for u in range(len(UNITS)):
            yield ("everywhere", n, u)


def run_long(case, ctx: Ctx) -> None:
    k, n = case[:2]
    if k == "fill":
        for f in FILL + UNITS:
            for pos in LONG_AT if n < 140 and n % 5 == 0 else LONG_AT[:1]:
                at(pos, f * n)
                ctx.step()
    elif k == "unit":
        u = UNITS[case[2]]
        for f in FILL[:3]:
            for p in sorted({0, 1, n // 2, max(0, n - len(u) - 1), max(0, n - len(u)), max(0, n - 1), n}):
                at("string", f * p + u + f * max(0, n - p - len(u)))
                at(LONG_AT[n % len(LONG_AT)], f * p + u + f * max(0, n - p - len(u)))
                ctx.step(2)
        at("string", (u + "ab") * (n // 3 + 1))
        at("string", (u + "_") * (n // 3 + 1) + u)
    else:
        u = UNITS[case[2]]
        for p in range(n + 1):
            at("string", "a" * p + u + "b" * (n - p))
            at("string", u * (p % 7) + "_" * p + u + "x" * (n - p))
            ctx.step(2)
    ctx.state(case)


SCENARIOS = [
    Scenario("long", gen_long, run_long, "13 critical texts at and around both ends and the middle of texts of length 1..139 (299) and around powers of two and ten to 65536 (100000), repeated that often, and at every position of one of length 139", 4, timeout=60.0),
    Scenario("positions", gen_positions, run_positions, "all positions x (words, all pairs over the alphabet, all C0/C1/ASCII)"),
    Scenario("pairs", gen_pairs, run_pairs, "all pairs of words in seven positions of one value and in CLIXML"),
    Scenario("peer-escapes", gen_peer, run_peer, "all sequences of 2 (strings: 3, thorough 4) tokens"),
    Scenario("peer-digits", gen_digits, run_digits, "all 65536 escapes in both cases", chunk=2),
    Scenario("wire", gen_wire, run_wire, "words and all strings up to length 2 (3) as command, argument, input, output, record"),
    Scenario("strings", gen_strings, run_strings, "all strings up to length 4 (5) over 18 characters, up to 6 (7) over 8; all escape look-alikes", chunk=2),
    Scenario("code-points", gen_points, run_points, "all 1114112 code points in up to 6 contexts", chunk=2),
]

"""P18: fixed-width integers and characters never leave their range."""
import enum
import itertools
import operator
import typing
from decimal import Decimal
from fractions import Fraction
from xml.etree import ElementTree as ET

from psrpcore import types as t

from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import reason

RULE = (
    "every fixed-width type x every source value of the grid (all values around every type's limits, as number, text in several bases, bytes, boolean, floating "
    "point, decimal, enumeration member, other fixed-width value); every operator x every pair of left and right type x all pairs of the boundary grid; all 8-bit "
    "values; all sequences of operators up to the stated depth; every 16-bit code unit as a character.  The reference is Python's unbounded integer"
)
ASSUMPTIONS = [
    "operands of arithmetic are integers and exponents are not negative (the result would not be an integer)",
    "the remainder of divmod is a plain integer; the result of an operator whose left operand is a plain integer or a character is a plain integer",
    "a number with a fraction is cut as int() cuts it",
]
# the ranges of the .NET types, not read from the code under test
TYPES: typing.Dict[str, typing.Tuple[int, int]] = {
    "PSByte": (0, 2**8 - 1), "PSSByte": (-(2**7), 2**7 - 1),
    "PSInt16": (-(2**15), 2**15 - 1), "PSUInt16": (0, 2**16 - 1),
    "PSInt": (-(2**31), 2**31 - 1), "PSUInt": (0, 2**32 - 1),
    "PSInt64": (-(2**63), 2**63 - 1), "PSUInt64": (0, 2**64 - 1),
}
TAG = {"PSByte": "By", "PSSByte": "SB", "PSInt16": "I16", "PSUInt16": "U16", "PSInt": "I32", "PSUInt": "U32", "PSInt64": "I64", "PSUInt64": "U64"}
NAMES = list(TYPES)


def T(n: str) -> typing.Any:
    return getattr(t, n) if n != "int" else int


EDGE = sorted({s * (2**b) + d for b in (7, 8, 15, 16, 31, 32, 63, 64) for s in (1, -1) for d in (-1, 0, 1)} | set(range(-3, 4)) | {10, -10, 2**40, -(2**40), 10**30, -(10**30)})


def inside(n: str, v: int) -> bool:
    lo, hi = TYPES[n]
    return lo <= v <= hi


def check(n: str, v: int, got: typing.Tuple[str, typing.Any], what: str) -> None:
    """`got` must be v as type n, or a ValueError if it does not fit."""
    if inside(n, v):
        same(got[0], "ok", what)
        expect(type(got[1]) is T(n), "%s: the result is a %s and not a %s", what, type(got[1]).__name__, n)
        expect(int.__eq__(got[1], v) is True, "%s: expected %d, got %s", what, v, int.__repr__(got[1]))
    else:
        same(got[0], "ValueError", "%s (%d does not fit %s; result %r)" % (what, v, n, got[1]))


# ------------------------------------------------------------------ creation
class Plain(enum.Enum):
    pass


def member(v: int, base: typing.Any) -> typing.Any:
    return base("E%d" % (v % 97), {"M": v}).M


def sources(v: int) -> typing.Iterator[typing.Tuple[str, typing.Callable[[typing.Any], typing.Any]]]:
    yield "number", lambda c: c(v)
    yield "text", lambda c: c(str(v))
    yield "text with spaces", lambda c: c("  %d\n" % v)
    yield "bytes", lambda c: c(str(v).encode())
    yield "text base 10", lambda c: c(str(v), 10)
    yield "text base keyword", lambda c: c("%x" % v, base=16)
    yield "text base 16", lambda c: c("%x" % v, 16)
    yield "text base 2", lambda c: c(bin(v), 2)
    yield "text base 8", lambda c: c(oct(v), 8)
    yield "text base 0", lambda c: c(hex(v), 0)
    yield "decimal", lambda c: c(Decimal(v))
    yield "fraction", lambda c: c(Fraction(v))
    yield "enum", lambda c: c(member(v, enum.Enum))
    yield "int enum", lambda c: c(member(v, enum.IntEnum))
    if float(v) == v:
        yield "float", lambda c: c(float(v))
    if abs(v) < 2**52:
        yield "float cut", lambda c: c(v + (0.5 if v >= 0 else -0.5))
        yield "PSDouble", lambda c: c(t.PSDouble(v))
    if abs(v) < 2**24:
        yield "PSSingle", lambda c: c(t.PSSingle(v))
    yield "PSDecimal", lambda c: c(t.PSDecimal(v))
    yield "PSString", lambda c: c(t.PSString(v))
    if v in (0, 1):
        yield "bool", lambda c: c(bool(v))
    if v == 0:
        yield "null", lambda c: c(None)
    if 0 <= v < 2**16:
        yield "PSChar", lambda c: c(t.PSChar(v))
    for o, (lo, hi) in TYPES.items():
        if lo <= v <= hi:
            yield o, lambda c, o=o: c(T(o)(v))


def gen_create(tier: str):
    vals = EDGE if tier == "quick" else sorted(set(EDGE) | set(range(-300, 301)) | {e + d for e in EDGE for d in (-2, 2, 17)})
    for n in NAMES:
        for v in vals:
            yield (n, v)


def run_create(case, ctx: Ctx) -> None:
    n, v = case
    cls = T(n)
    for what, mk in sources(v):
        check(n, v, reason(mk, cls), "%s from %s %d" % (n, what, v))
        ctx.step()
    # from the wire
    doc = "<%s>%d</%s>" % (TAG[n], v, TAG[n])
    k, o = reason(lambda: t.deserialize(ET.fromstring(doc), None))
    if inside(n, v):
        check(n, v, (k, o), "reading %s" % doc)
        out = t.serialize(cls(v), None)
        same((out.tag, out.text), (TAG[n], str(v)), "written element")
    else:
        expect(k != "ok", "%s was read as %r", doc, o)
    same((cls.MinValue, cls.MaxValue), TYPES[n], "declared range of %s" % n)
    ctx.state(n, v)
    ctx.outcome(inside(n, v))


BAD = ["", " ", "x", "1.5", "0x10", "1 2", "--1", "1e3", "ff", b"", b"x", "nan", "None", float("nan"), [], {}, object, "٣x"]


def gen_bad(tier: str):
    for n in NAMES:
        for i in range(len(BAD)):
            yield (n, i)


def run_bad(case, ctx: Ctx) -> None:
    n, i = case
    k, o = reason(T(n), BAD[i])
    expect(k in ("ValueError", "TypeError"), "%s(%r) gave %s %r", n, BAD[i], k, o)
    k, o = reason(T(n), float("inf"))
    expect(k in ("OverflowError", "ValueError"), "infinite %s: %s", n, k)
    ctx.step(2)
    ctx.state(case)


# ------------------------------------------------------------------ operators
BIN: typing.Dict[str, typing.Callable[[typing.Any, typing.Any], typing.Any]] = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<<": operator.lshift, ">>": operator.rshift, "**": operator.pow,
}
INP: typing.Dict[str, typing.Callable[[typing.Any, typing.Any], typing.Any]] = {
    "+": operator.iadd, "-": operator.isub, "*": operator.imul, "//": operator.ifloordiv, "%": operator.imod, "&": operator.iand, "|": operator.ior, "^": operator.ixor,
    "<<": operator.ilshift, ">>": operator.irshift, "**": operator.ipow,
}
UN: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "invert": operator.invert}
CMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.ge, operator.gt]


def grid(n: str) -> typing.List[int]:
    lo, hi = TYPES[n] if n in TYPES else (-(2**64), 2**64)
    return sorted({v for v in (lo, lo + 1, lo // 2, -2, -1, 0, 1, 2, 3, 7, hi // 2, hi // 2 + 1, hi - 1, hi) if lo <= v <= hi})


def expected(op: str, a: int, b: int) -> typing.Any:
    """Exact value, or the name of the error."""
    if op in ("//", "%") and b == 0:
        return "ZeroDivisionError"
    if op in ("<<", ">>") and b < 0:
        return "ValueError"
    if op == "<<" and (b > 200):
        return 2**300 * a  # does not fit anyway (or is zero)
    if op == "**" and b > 200:
        return (0 if a == 0 else 1 if a == 1 else (1 if b % 2 == 0 else -1) if a == -1 else 2**300)
    return BIN[op](a, b)


def feasible(op: str, a: int, b: int) -> bool:
    if op == "**":
        return b >= 0 and (b <= 70 or a in (-1, 0, 1))
    if op == "<<":
        return b <= 70
    return True


def binary(n: str, a: typing.Any, b: typing.Any, ctx: Ctx) -> None:
    ia, ib = int(a), int(b)
    for op in BIN:
        if not feasible(op, ia, ib):
            continue
        want = expected(op, ia, ib)
        what = "%s(%d) %s %s(%d)" % (n, ia, op, type(b).__name__, ib)
        for f in (BIN[op], INP[op]):
            got = reason(f, a, b)
            if isinstance(want, str):
                same(got[0], want, what)
            else:
                check(n, want, got, what)
        ctx.step()
        ctx.outcome(n, op, isinstance(want, str) or inside(n, want))
    got = reason(divmod, a, b)
    what = "divmod(%s(%d), %d)" % (n, ia, ib)
    if ib == 0:
        same(got[0], "ZeroDivisionError", what)
    else:
        q, r = divmod(ia, ib)
        if inside(n, q):
            same(got[0], "ok", what)
            check(n, q, ("ok", got[1][0]), what)
            expect(got[1][1] == r and isinstance(got[1][1], int), "%s: remainder %r, expected %d", what, got[1][1], r)
        else:
            same(got[0], "ValueError", what)
    if 0 <= ib <= 40:
        for m in (7, 1000):
            check(n, pow(ia, ib, m), reason(pow, a, b, m), "pow(%s(%d), %d, %d)" % (n, ia, ib, m))
    if ib:
        same(reason(operator.truediv, a, b), ("ok", ia / ib), "%s / %d" % (what, ib))
    for f in CMP:
        same(f(a, b), f(ia, ib), "%s of %s(%d) and %d" % (f.__name__, n, ia, ib))
    same((int(a), int(b)), (ia, ib), "operands")
    ctx.step(3)


def gen_bin(tier: str):
    right = NAMES + ["int", "bool", "PSChar"]
    for n, o in itertools.product(NAMES, right):
        for a in grid(n):
            yield (n, o, a)


def rights(o: str) -> typing.Iterator[typing.Any]:
    if o == "bool":
        yield from (True, False)
    elif o == "PSChar":
        for v in (0, 1, 65, 127, 255, 256, 65535):
            yield t.PSChar(v)
    else:
        for v in grid(o):
            yield T(o)(v)


def run_bin(case, ctx: Ctx) -> None:
    n, o, v = case
    for b in rights(o):
        binary(n, T(n)(v), b, ctx)
        if o == "int":
            # the other way around: the left operand is a plain integer, so is the result
            for op in BIN:
                if feasible(op, int(b), v):
                    w = expected(op, int(b), v)
                    k, r = reason(BIN[op], b, T(n)(v))
                    if isinstance(w, str):
                        same(k, w, "%d %s %s(%d)" % (b, op, n, v))
                    else:
                        same((k, int(r)), ("ok", w), "%d %s %s(%d)" % (b, op, n, v))
                        expect(type(r) is int, "%d %s %s(%d) is a %s", b, op, n, v, type(r).__name__)
            ctx.step(len(BIN))
    ctx.state(case)


def gen_small(tier: str):
    for n in ("PSByte", "PSSByte"):
        lo, hi = TYPES[n]
        for v in range(lo, hi + 1):
            yield (n, v, "all")


def run_small(case, ctx: Ctx) -> None:
    n, v, how = case
    a = T(n)(v)
    for f, op in UN.items():
        check(n, op(v), reason(op, a), "%s of %s(%d)" % (f, n, v))
    lo, hi = TYPES[n]
    for b in range(lo, hi + 1) if how == "all" else (1, 2, 3, -1, 16, 85, lo, hi):
        binary(n, a, b, ctx)
    ctx.state(case)


def gen_unary(tier: str):
    for n in NAMES:
        more = range(*TYPES[n]) if tier != "quick" and TYPES[n][1] < 2**16 else range(-200, 300)
        for v in sorted({v for v in EDGE if inside(n, v)} | set(grid(n)) | {v for v in more if inside(n, v)}):
            yield (n, v)


def run_unary(case, ctx: Ctx) -> None:
    n, v = case
    a = T(n)(v)
    for f, op in UN.items():
        check(n, op(v), reason(op, a), "%s of %s(%d)" % (f, n, v))
    # the equal Python number
    same((str(a), repr(a), "%d" % a, "%s" % a, f"{a}", f"{a:>25}", f"{a:x}", f"{a!r}"), (str(v), repr(v), str(v), str(v), str(v), f"{v:>25}", f"{v:x}", repr(v)), "text of %s(%d)" % (n, v))
    same((hash(a), bool(a), int(a), float(a), operator.index(a), hex(a), a.bit_length(), complex(a)), (hash(v), bool(v), v, float(v), v, hex(v), v.bit_length(), complex(v)), "%s(%d) as a number" % (n, v))
    expect(type(int(a)) is int and type(operator.index(a)) is int, "plain number of %s", n)
    d = {v: "x"}
    same((d.get(a), {a: "y"}.get(v), len({a, v}), a in [v], [v].index(a)), ("x", "y", 1, True, 0), "%s(%d) as a key" % (n, v))
    for o, (lo, hi) in TYPES.items():
        if lo <= v <= hi:
            b = T(o)(v)
            same((a == b, hash(a) == hash(b), a != b, a <= b, len({a, b})), (True, True, False, True, 1), "%s and %s of %d" % (n, o, v))
        if lo <= v + 1 <= hi:
            same((a == T(o)(v + 1), a < T(o)(v + 1)), (False, True), "%s(%d) and %s(%d)" % (n, v, o, v + 1))
    for x in ("1", None, [], str(v)):
        same((a == x, a != x), (False, True), "%s(%d) and %r" % (n, v, x))
    if abs(v) < 2**53:
        same((a == float(v), a + 0 == v), (True, True), "float")
    ctx.step(20)
    ctx.state(case)
    # an integer stays what it was with properties attached
    b = T(n)(v)
    t.add_note_property(b, "note", "x")
    same((b == v, hash(b), str(b), type(b)), (True, hash(v), str(v), T(n)), "%s(%d) with a property" % (n, v))
    check(n, v, reason(operator.pos, b), "+")


OPS: typing.List[typing.Tuple[str, typing.Any]] = [("+", 1), ("-", 1), ("*", 2), ("*", -1), ("<<", 1), (">>", 1), ("^", -1), ("//", 3), ("**", 2), ("neg", None), ("invert", None), ("abs", None), ("%", 5)]


def gen_chain(tier: str):
    k = 4 if tier == "quick" else 5
    for n in NAMES:
        lo, hi = TYPES[n]
        for v in (lo, hi, hi // 2, 1):
            for c in itertools.product(range(len(OPS)), repeat=k - 1):
                yield (n, v, c)


def run_chain(case, ctx: Ctx) -> None:
    """A refused operation leaves the value as it was; the next ones go on from there."""
    n, v, c = case
    cur = T(n)(v)
    for last in range(len(OPS)):
        a, m = cur, v
        for i in c + (last,):
            op, b = OPS[i]
            w = UN[op](m) if op in UN else BIN[op](m, b)
            k, r = reason(UN[op], a) if op in UN else reason(BIN[op], a, b)
            check(n, w, (k, r), "%s of %d" % (op, m))
            if k == "ok":
                a, m = r, w
            expect(int(a) == m and type(a) is T(n), "value after %s", op)
            ctx.step()
        ctx.state(n, m)


# ------------------------------------------------------------------ characters
def gen_char(tier: str):
    for v in range(0, 65536, 64):
        yield v


def utf16(v: int) -> str:
    return v.to_bytes(2, "little").decode("utf-16-le", "surrogatepass")


def run_char(v0, ctx: Ctx) -> None:
    C = t.PSChar
    for v in range(v0, v0 + 64):
        s = utf16(v)
        for what, c in (("number", C(v)), ("text", C(s)), ("char", C(C(v)))):
            expect(type(c) is C and int.__eq__(c, v) is True, "PSChar from %s %04x is %r", what, v, c)
        c = C(v)
        same((str(c), repr(c), hash(c), c == v, {v: 1}.get(c), int(c), "%s" % c, c == C(s)), (s, repr(v), hash(v), True, 1, v, s, True), "character %04x" % v)
        if not 0xD800 <= v < 0xE000:
            same(int(C(s.encode("utf-8"))), v, "from UTF-8")
        out = t.serialize(c, None)
        same((out.tag, out.text), ("C", str(v)), "written character")
        back = t.deserialize(out, None)
        expect(type(back) is C and int(back) == v, "read back %r", back)
        ctx.step(6)
    ctx.state(v0)


CBAD: typing.List[typing.Any] = [-1, 65536, -65536, 2**31, 2**64, "", "ab", "\U00010000", "\U0010ffff", "a\0", b"ab", b"", "\ud83d\ude00", "\U0001f600".encode(), "10", "65535", 65535.5 + 1, -1.0, t.PSInt(65536), t.PSInt64(-1), Decimal(65536), b"\xff"]
CGOOD: typing.List[typing.Tuple[typing.Any, int]] = [("0", 48), ("9", 57), (b"5", 53), (b"\xc3\xa9", 0xE9), (t.PSString("z"), 122), (t.PSInt(65), 65), (True, 1), (65.0, 65), (t.PSByte(255), 255), (t.PSUInt64(65535), 65535), (" ", 32), ("\n", 10), (Decimal(9), 9), (t.PSChar("a"), 97)]


def gen_char2(tier: str):
    for i in range(len(CBAD)):
        yield ("bad", i)
    for i in range(len(CGOOD)):
        yield ("good", i)
    for v in EDGE:
        yield ("num", v)


def run_char2(case, ctx: Ctx) -> None:
    kind, i = case
    if kind == "bad":
        k, o = reason(t.PSChar, CBAD[i])
        expect(k in ("ValueError", "UnicodeDecodeError"), "PSChar(%r): %s %r", CBAD[i], k, o)
    elif kind == "good":
        k, o = reason(t.PSChar, CGOOD[i][0])
        same(k, "ok", "PSChar(%r)" % (CGOOD[i][0],))
        expect(type(o) is t.PSChar and int(o) == CGOOD[i][1], "PSChar(%r) is %r", CGOOD[i][0], o)
    else:
        for what, mk in sources(i):
            if "text" in what or what in ("bytes", "PSString", "enum", "null"):
                continue
            k, o = reason(mk, t.PSChar)
            if 0 <= i <= 65535:
                same(k, "ok", "PSChar from %s %d" % (what, i))
                expect(type(o) is t.PSChar and int(o) == i, "PSChar from %s %d is %r", what, i, o)
            else:
                same(k, "ValueError", "PSChar from %s %d" % (what, i))
            ctx.step()
        k, o = reason(lambda: t.deserialize(ET.fromstring("<C>%d</C>" % i), None))
        if 0 <= i <= 65535:
            same((k, int(o)), ("ok", i), "reading a character")
        else:
            expect(k != "ok", "<C>%d</C> was read as %r", i, o)
    ctx.step()
    ctx.state(case)


SCENARIOS = [
    Scenario("creation", gen_create, run_create, "%d values around all limits x 8 types x all kinds of source, and from the wire" % len(EDGE)),
    Scenario("rejected", gen_bad, run_bad, "%d texts and objects that are no integer x 8 types" % len(BAD)),
    Scenario("unary", gen_unary, run_unary, "unary operators, text, hash, equality for all boundary values"),
    Scenario("binary", gen_bin, run_bin, "11 operators and divmod, modular power, comparison x 8 left types x 11 right types x all boundary pairs"),
    Scenario("8-bit", gen_small, run_small, "all pairs of values of the 8-bit types x all operators"),
    Scenario("chains", gen_chain, run_chain, "all sequences of 4 (5) of %d operations from 4 values of each type" % len(OPS), chunk=32),
    Scenario("characters", gen_char, run_char, "all 65536 code units"),
    Scenario("character sources", gen_char2, run_char2, "sources of characters"),
]

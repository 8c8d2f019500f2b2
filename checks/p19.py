"""P19: durations, date-times and versions compute exactly."""
import datetime
import itertools
import operator
import typing

from psrpcore import types as t

from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import reason

RULE = (
    "all pairs of durations of a grid around every carry (nanosecond, microsecond, second, day, range of TimeSpan; both signs) in every combination of plain and extended "
    "operand, all date-times of a grid x all durations and all pairs of date-times with all time zones, all sequences of operations up to the stated depth, all ways of "
    "creation, all pairs of versions of two to four parts of a value set.  The reference counts whole nanoseconds with Python integers"
)
ASSUMPTIONS = [
    "a plain date-time plus or minus a duration stays a plain date-time (Python decides that before this library is asked)",
    "date-times compare as Python date-times, to the microsecond",
    "time zones have a fixed offset",
]
US, S, DAY = 1000, 10**9, 86400 * 10**9
MAXT, MINT = (2**63 - 1) * 100, -(2**63) * 100
td = datetime.timedelta
dt = datetime.datetime

GRID = sorted({s * b + d for s in (1, -1) for b in (0, US, S, DAY) for d in (-1, 0, 1, 100, -100, 999, -999)} | {s * v for s in (1, -1) for v in (
    500, 999 * US, 999999 * US, 999999 * US + 999, 1500, 59 * S + 999999 * US + 999, DAY - US, 3 * DAY + 5 * S + 7 * US + 3, 366 * DAY + 1, 12345678900)} | {MAXT, MINT, MAXT - 100, MINT + 100, MAXT // 2})
SMALLG = [0, 1, -1, 999, -999, 1000, -1000, 1001, S - 1, -S, S + 500, DAY - 1, -DAY - 1, 3 * DAY + 5 * S + 7 * US + 3]


def parts(n: int) -> typing.Tuple[int, int, int, int]:
    days, r = divmod(n, DAY)
    secs, r = divmod(r, S)
    us, ns = divmod(r, US)
    return days, secs, us, ns


def plain(n: int) -> td:
    d, s, us, ns = parts(n)
    assert ns == 0
    return td(d, s, us)


def ext(n: int) -> typing.Any:
    return t.PSDuration(nanoseconds=n)


def read(d: td) -> int:
    return ((d.days * 86400 + d.seconds) * 10**6 + d.microseconds) * 1000 + getattr(d, "nanoseconds", 0)


def is_dur(v: typing.Any, n: int, what: str) -> None:
    expect(type(v) is t.PSDuration, "%s: a %s", what, type(v).__name__)
    got = (v.days, v.seconds, v.microseconds, v.nanoseconds)
    if got != parts(n):
        fail("%s: expected %s, got %s", what, parts(n), got)


def dur_text(n: int) -> str:
    d, s, us, ns = parts(n)
    out = "%d day%s, " % (d, "" if abs(d) == 1 else "s") if d else ""
    out += "%d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    if us or ns:
        out += ".%06d" % us + ("%03d" % ns if ns else "")
    return out


def kinds(n: int) -> typing.Iterator[typing.Any]:
    yield ext(n)
    if n % 1000 == 0:
        yield plain(n)


CMP = [operator.lt, operator.le, operator.eq, operator.ne, operator.ge, operator.gt]


# ------------------------------------------------------------------ durations
def gen_pairs(tier: str):
    for a in GRID:
        yield a


def run_pairs(a, ctx: Ctx) -> None:
    for b in GRID:
        for x, y in itertools.product(kinds(a), kinds(b)):
            w = "%s(%d) and %s(%d)" % (type(x).__name__, a, type(y).__name__, b)
            either = isinstance(x, t.PSDuration) or isinstance(y, t.PSDuration)
            for f in CMP:
                same(f(x, y), f(a, b), "%s of %s" % (f.__name__, w))
            if a == b:
                same((hash(x) == hash(y), {x: 1}.get(y), {y: 1}.get(x), len({x, y})), (True, 1, 1, 1), "as keys: " + w)
            elif either:
                same((len({x, y}), {x: 1}.get(y)), (2, None), "as keys: " + w)
            if either:
                is_dur(x + y, a + b, "sum of " + w)
                is_dur(x - y, a - b, "difference of " + w)
                is_dur(operator.iadd(x, y), a + b, "in-place sum of " + w)
                is_dur(operator.isub(x, y), a - b, "in-place difference of " + w)
            same((read(x), read(y)), (a, b), "operands")
            ctx.step(10)
            ctx.state(a + b, a - b)


def gen_one(tier: str):
    vals = set(GRID) | {g + d for g in GRID for d in (-7, 13, 250)} if tier == "quick" else {g + d for g in GRID for d in range(-60, 61)}
    for a in sorted(v for v in vals if MINT <= v <= MAXT):
        yield a


UNIT = [("weeks", 7 * DAY), ("days", DAY), ("hours", 3600 * S), ("minutes", 60 * S), ("seconds", S), ("milliseconds", 10**6), ("microseconds", US), ("nanoseconds", 1)]


def run_one(a, ctx: Ctx) -> None:
    x = ext(a)
    is_dur(x, a, "created")
    is_dur(-x, -a, "negated %d" % a)
    is_dur(+x, a, "plus %d" % a)
    is_dur(abs(x), abs(a), "absolute %d" % a)
    same(bool(x), a != 0, "truth of %d" % a)
    same(str(x), dur_text(a), "text of %d" % a)
    is_dur(eval(repr(x), {"PSDuration": t.PSDuration}), a, "representation of %d" % a)
    is_dur(t.PSDuration(x), a, "copied %d" % a)
    is_dur(sum([x, x, ext(1)], t.PSDuration()), 2 * a + 1, "sum")
    for extra in (0, 1, 999, 1000, -1, -1000, 10**9):
        is_dur(t.PSDuration(x, nanoseconds=extra), a + extra, "copied with nanoseconds")
        if a % 1000 == 0:
            is_dur(t.PSDuration(plain(a), nanoseconds=extra), a + extra, "plain with nanoseconds")
    if a % 1000 == 0:
        p = plain(a)
        is_dur(t.PSDuration(p), a, "from plain")
        same((x == p, p == x, hash(x) == hash(p)), (True, True, True), "equal to plain")
    # split into units, largest first
    kw, r = {}, a
    for u, f in UNIT:
        q = abs(r) // f * (1 if r >= 0 else -1)
        kw[u] = q
        r -= q * f
    is_dur(t.PSDuration(**kw), a, "from %s" % kw)
    is_dur(t.PSDuration(kw["days"] + 7 * kw["weeks"], kw["seconds"], kw["microseconds"], kw["milliseconds"], kw["minutes"], kw["hours"], nanoseconds=kw["nanoseconds"]), a, "from positions")
    d, s, us, ns = parts(a)
    is_dur(t.PSDuration(d, s, us, nanoseconds=ns), a, "from normalized parts")
    is_dur(t.PSDuration(d + 1, s - 86400, us - 10**6, nanoseconds=ns + 10**9), a, "from parts that carry")
    t.add_note_property(x, "note", 1)
    is_dur(x, a, "with a property")
    same(hash(x) == hash(ext(a)), True, "hash")
    ctx.step(20)
    ctx.state(a)


OTHERS: typing.List[typing.Any] = [5, 1.5, "0:00:01", None, [], dt(2020, 1, 1)]


def gen_other(tier: str):
    for i in range(len(OTHERS)):
        for a in SMALLG:
            yield (i, a)


def run_other(case, ctx: Ctx) -> None:
    i, a = case
    x, o = ext(a), OTHERS[i]
    same((x == o, x != o, o == x, o != x), (False, True, False, True), "equality with %r" % (o,))
    for f in (operator.lt, operator.le, operator.gt, operator.ge):
        same((reason(f, x, o)[0], reason(f, o, x)[0]), ("TypeError", "TypeError"), "%s with %r" % (f.__name__, o))
    same(reason(operator.sub, x, o)[0], "TypeError", "subtraction of %r" % (o,))
    if not isinstance(o, dt):
        same((reason(operator.add, x, o)[0], reason(operator.add, o, x)[0], reason(operator.sub, o, x)[0]), ("TypeError",) * 3, "sum with %r" % (o,))
    is_dur(x, a, "operand")
    ctx.step(8)
    ctx.state(case)


def gen_limits(tier: str):
    yield 0


def run_limits(case, ctx: Ctx) -> None:
    is_dur(t.PSDuration.max, MAXT, "largest duration")
    is_dur(t.PSDuration.min, MINT, "smallest duration")
    is_dur(t.PSDuration.resolution, 100, "resolution")
    is_dur(t.PSDuration(), 0, "no duration")
    is_dur(t.PSDuration(0), 0, "no duration")
    is_dur(t.PSDuration(1.5), DAY * 3 // 2, "half days")
    is_dur(t.PSDuration(seconds=0.25), S // 4, "quarter of a second")
    for v in sorted(GRID):
        expect(t.PSDuration.min <= ext(v) <= t.PSDuration.max, "limits")
    xs = [ext(v) for v in GRID] + [plain(v) for v in GRID if v % 1000 == 0]
    same([read(v) for v in sorted(xs, key=lambda z: z)], sorted(read(v) for v in xs), "sorted durations")
    same(read(max(xs)), MAXT, "maximum")
    ctx.step(8)
    ctx.state(0)


# ------------------------------------------------------------------ date-times
def tz(m: typing.Optional[int]) -> typing.Any:
    return None if m is None else datetime.timezone(td(minutes=m))


TZS = [None, 0, 330, -480, 840]
EPOCH = dt(1, 1, 1)
WALL = [
    (1, 1, 1, 0, 0, 0, 0), (1, 1, 2, 0, 0, 0, 1), (1969, 12, 31, 23, 59, 59, 999999), (1970, 1, 1, 0, 0, 0, 0), (2020, 2, 28, 23, 59, 59, 999999), (2020, 2, 29, 12, 30, 15, 500000),
    (2021, 2, 28, 23, 59, 59, 999998), (2021, 12, 31, 23, 59, 59, 999999), (9999, 12, 30, 1, 2, 3, 4), (9999, 12, 31, 23, 59, 59, 999999),
]
NSS = [0, 1, 100, 500, 999]


def stamp(d: dt) -> int:
    """Nanoseconds on the wall clock."""
    return read(d.replace(tzinfo=None) - EPOCH) if type(d) is dt else read(dt(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) - EPOCH) + d.nanosecond  # type: ignore[attr-defined]


LAST = stamp(dt(9999, 12, 31, 23, 59, 59, 999999)) + 999


def make(n: int, z: typing.Any) -> typing.Any:
    d, s, us, ns = parts(n)
    e = EPOCH + td(d, s, us)
    return t.PSDateTime(e.year, e.month, e.day, e.hour, e.minute, e.second, e.microsecond, z, nanosecond=ns)


def is_dt(got: typing.Tuple[str, typing.Any], n: int, z: typing.Any, what: str) -> None:
    if not 0 <= n <= LAST:
        same(got[0], "OverflowError", what)
        return
    same(got[0], "ok", what + " (%s)" % (got[1],))
    v = got[1]
    expect(type(v) is t.PSDateTime, "%s: a %s", what, type(v).__name__)
    if not (stamp(v) == n and v.tzinfo == z and 0 <= v.nanosecond <= 999 and type(v.nanosecond) is int):
        fail("%s: expected %r, got %r", what, make(n, z), v)


def gen_dt(tier: str):
    for w in range(len(WALL)):
        for ns in NSS:
            for z in TZS if tier != "quick" else TZS[:3]:
                yield (w, ns, z)


def run_dt(case, ctx: Ctx) -> None:
    w, ns, zm = case
    z = tz(zm)
    x = t.PSDateTime(*WALL[w], tzinfo=z, nanosecond=ns)
    n = stamp(x)
    is_dt(("ok", x), read(dt(*WALL[w]) - EPOCH) + ns, z, "created")
    for g in GRID:
        for d in kinds(g):
            what = "%r and %r" % (x, d)
            is_dt(reason(operator.add, x, d), n + g, z, "sum of " + what)
            is_dt(reason(operator.add, d, x), n + g, z, "sum of duration and date: " + what)
            is_dt(reason(operator.sub, x, d), n - g, z, "difference of " + what)
            same(reason(operator.sub, d, x)[0], "TypeError", "duration minus date-time")
            is_dt(("ok", x), n, z, "operand")
            ctx.step(3)
            ctx.state(n + g, zm)


def gen_dtdt(tier: str):
    for a in range(len(WALL)):
        for z in TZS:
            yield (a, z)


def run_dtdt(case, ctx: Ctx) -> None:
    a, za = case
    for ns in NSS:
        x = t.PSDateTime(*WALL[a], tz(za), nanosecond=ns)
        for b, zb in itertools.product(range(len(WALL)), TZS):
            for ms in NSS + [None]:
                y = dt(*WALL[b], tz(zb)) if ms is None else t.PSDateTime(*WALL[b], tz(zb), nanosecond=ms)
                what = "%r - %r" % (x, y)
                if (za is None) != (zb is None):
                    same((reason(operator.sub, x, y)[0], reason(operator.sub, y, x)[0]), ("TypeError", "TypeError"), what)
                else:
                    n = stamp(x) - stamp(y) - ((za or 0) - (zb or 0)) * 60 * S
                    is_dur(x - y, n, what)
                    is_dur(y - x, -n, "%r - %r" % (y, x))
                ctx.step(2)
    same(reason(operator.add, x, x)[0], "TypeError", "sum of date-times")
    for o in (5, "x", None):
        same((reason(operator.add, x, o)[0], reason(operator.sub, x, o)[0], x == o), ("TypeError", "TypeError", False), "date-time and %r" % (o,))
    ctx.state(case)


def gen_dtnew(tier: str):
    for w in range(len(WALL)):
        for ns in NSS:
            for z in TZS:
                yield (w, ns, z)


def dt_text(n: int, zm: typing.Optional[int], x: dt) -> str:
    ns = n % 1000
    s = "%04d-%02d-%02d %02d:%02d:%02d" % (x.year, x.month, x.day, x.hour, x.minute, x.second)
    if x.microsecond or ns:
        s += ".%06d" % x.microsecond + ("%03d" % ns if ns else "")
    if zm is not None:
        s += "%s%02d:%02d" % ("+" if zm >= 0 else "-", abs(zm) // 60, abs(zm) % 60)
    return s


def run_dtnew(case, ctx: Ctx) -> None:
    w, ns, zm = case
    z = tz(zm)
    p = dt(*WALL[w], z)
    n = stamp(p) + ns
    y, mo, d, h, mi, s, us = WALL[w]
    ways = {
        "positions": lambda: t.PSDateTime(y, mo, d, h, mi, s, us, z, nanosecond=ns),
        "keywords": lambda: t.PSDateTime(year=y, month=mo, day=d, hour=h, minute=mi, second=s, microsecond=us, tzinfo=z, nanosecond=ns),
        "mixed": lambda: t.PSDateTime(y, mo, d, h, minute=mi, second=s, microsecond=us, tzinfo=z, nanosecond=ns),
        "plain": lambda: t.PSDateTime(p, nanosecond=ns),
        "extended": lambda: t.PSDateTime(t.PSDateTime(p, nanosecond=ns)),
        "twice": lambda: t.PSDateTime(t.PSDateTime(t.PSDateTime(p, nanosecond=ns))),
        "representation": lambda: eval(repr(t.PSDateTime(p, nanosecond=ns)), {"PSDateTime": t.PSDateTime, "datetime": datetime}),
    }
    for k, f in ways.items():
        is_dt(reason(f), n, z, "created from " + k)
    x = ways["plain"]()
    same((str(x), hash(x), x == p, p == x, x.isoformat()), (dt_text(n, zm, p), hash(p), True, True, p.isoformat()), "%r" % x)
    folded = t.PSDateTime(p.replace(fold=1))
    same(folded.fold, 1, "fold")
    base = p - td(microseconds=p.microsecond)
    fmt = "%Y-%m-%d %H:%M:%S" + ("" if zm is None else " %z")
    is_dt(reason(t.PSDateTime.strptime, base.strftime("%Y").zfill(4) + base.strftime("-%m-%d %H:%M:%S" + ("" if zm is None else " %z")), fmt), n - n % S, z, "parsed")
    is_dt(reason(t.PSDateTime.combine, p.date(), p.timetz()), n - ns, z, "combined")
    is_dt(reason(t.PSDateTime.fromisoformat, p.isoformat()), n - ns, z, "from ISO text")
    t.add_note_property(x, "note", 1)
    is_dt(("ok", x), n, z, "with a property")
    for bad in ({"nanosecond": ns, "month": 13}, {"nanosecond": ns, "day": 32}, {"hour": 24}):
        kw = dict(dict(year=y, month=mo, day=d), **bad)
        same(reason(lambda: t.PSDateTime(**kw))[0], "ValueError", "impossible date-time")
    ctx.step(12)
    ctx.state(case)


STEPS = [("+", 1), ("+", 999), ("-", 1), ("-", 1000), ("+", S - 1), ("-", S + 1), ("+", DAY), ("-", DAY + 1), ("+", -999), ("-", -500), ("r", 1500), ("r", -1)]


def gen_walk(tier: str):
    k = 3 if tier == "quick" else 4
    for start in range(4):
        for c in itertools.product(range(len(STEPS)), repeat=k):
            yield (start, c)


def run_walk(case, ctx: Ctx) -> None:
    """The same additions on a date-time and on a duration; all ways of adding; the way back."""
    start, c = case
    z = tz([None, 0, 330, None][start])
    n0 = stamp(dt(*WALL[(3, 5, 7, 4)[start]])) + (0, 1, 999, 500)[start]
    x, n = make(n0, z), n0
    d0 = (0, -1, S, 999)[start]
    d, m = ext(d0), d0
    seen = [(x, n)]
    for i in c:
        op, g = STEPS[i]
        arg = ext(g) if g % 1000 or i % 2 else plain(g)
        if op == "+":
            x, d, n, m = x + arg, d + arg, n + g, m + g
        elif op == "-":
            x, d, n, m = x - arg, d - arg, n - g, m - g
        else:
            x, d, n, m = arg + x, arg - d, n + g, g - m
        is_dt(("ok", x), n, z, "after %s" % (STEPS[i],))
        is_dur(d, m, "after %s" % (STEPS[i],))
        is_dur(x - seen[0][0], n - n0, "distance to the start")
        seen.append((x, n))
        ctx.step(3)
    for y, k in seen:
        is_dt(("ok", y), k, z, "earlier value")
        is_dt(("ok", y + (x - y)), n, z, "way back")
    ctx.state(n, m)


# ------------------------------------------------------------------ versions
LONG = [1, 100, 999, 1000, 1500, 999999, S - 1, S, S + 1, DAY - 1, DAY, DAY + 1, 3 * DAY + 5 * S + 7 * US + 3]


def gen_long(tier: str):
    top = 2048 if tier == "quick" else 20000
    for g in LONG:
        for sign in (1, -1):
            for back in (False, True):
                yield (g * sign, top, back)
    # whole spans of consecutive values: 1 ns apart across every carry
    for at in (0, US, S, DAY, -US, -S, -DAY, 366 * DAY, 12345 * DAY + 6789 * S):
        yield ("span", at, 1100 if tier == "quick" else 10000)


def run_long(case, ctx: Ctx) -> None:
    """The same step many times over; every value on the way; then back again in one step."""
    if case[0] == "span":
        _, at, w = case
        z = tz(60)
        b = make(stamp(dt(2020, 1, 1, 0, 0, 0, 0)) - 3600 * S, z)
        base = stamp(b)
        for i in range(-w, w + 1):
            n = at + i
            is_dur(ext(n), n, "created")
            same(str(ext(n)), dur_text(n), "text")
            is_dt(("ok", b + ext(n)), base + n, z, "sum")
            is_dt(("ok", b - ext(n)), base - n, z, "difference")
            is_dur(ext(n) - ext(at), i, "difference of durations")
            ctx.step()
        ctx.state(case)
        return
    g, top, back = case
    z = tz(-330)
    n0 = stamp(dt(2010, 2, 28, 23, 59, 59, 999999)) + 999
    x, n, d, m = make(n0, z), n0, ext(0), 0
    step = ext(g) if g % 1000 else plain(g)
    for i in range(top):
        k, y = reason(operator.sub if back else operator.add, x, step)
        n += -g if back else g
        if k != "ok":
            same((k, 0 < n + 62135596800 * S < 315537897600 * S), ("OverflowError", False), "leaving the range")
            break
        x = y
        d, m = (d - step, m - g) if back else (d + step, m + g)
        is_dt(("ok", x), n, z, "after %d steps of %d" % (i + 1, g))
        is_dur(d, m, "after %d steps of %d" % (i + 1, g))
        ctx.step()
    is_dt(("ok", x - d), n0, z, "the way back")
    is_dur(sum([step] * min(top, 500), ext(0)), g * min(top, 500), "sum of a list")
    ctx.state(case)


def tuples(vals: typing.Sequence[int]) -> typing.List[typing.Tuple[int, ...]]:
    return [c for k in (2, 3, 4) for c in itertools.product(vals, repeat=k)]


def net(v: typing.Tuple[int, ...]) -> typing.Tuple[int, ...]:
    return v + (-1,) * (4 - len(v))


def gen_ver(tier: str):
    for v in tuples((0, 1, 9, 10) if tier == "quick" else (0, 1, 2, 9, 10)):
        yield (v, tier)


def text(v: typing.Tuple[int, ...]) -> str:
    return ".".join(map(str, v))


def run_ver(case, ctx: Ctx) -> None:
    v, tier = case
    x = t.PSVersion(text(v))
    for w in tuples((0, 1, 9, 10) if tier == "quick" else (0, 1, 2, 9, 10)):
        y = t.PSVersion(text(w))
        for f in CMP:
            e = f(net(v), net(w))
            same((f(x, y), f(x, text(w)), f(text(v), y)), (e, e, e), "%s of %s and %s" % (f.__name__, text(v), text(w)))
        if v == w:
            same((hash(x) == hash(y), {x: 1}.get(y), {text(v): 1}.get(x), {x: 1}.get(text(w))), (True, 1, 1, 1), "as keys")
        else:
            same(({x: 1}.get(y), len({x, y})), (None, 2), "as keys")
        ctx.step(18)
    same((x.major, x.minor, x.build, x.revision), (v + (None, None))[:4], "parts of %s" % text(v))
    ctx.state(v)


def gen_vernew(tier: str):
    for v in tuples((0, 1, 10, 2147483647)):
        yield v


def run_vernew(v, ctx: Ctx) -> None:
    names = ("major", "minor", "build", "revision")
    kw = dict(zip(names, v))
    full = (v + (None, None))[:4]
    made = {
        "text": t.PSVersion(text(v)), "text keyword": t.PSVersion(version_str=text(v)), "keywords": t.PSVersion(**kw), "positions": t.PSVersion(None, *v),
        "PSString": t.PSVersion(t.PSString(text(v))), "representation": eval(repr(t.PSVersion(**kw)), {"PSVersion": t.PSVersion}), "text of version": t.PSVersion(str(t.PSVersion(**kw))),
    }
    for k, x in made.items():
        same((x.major, x.minor, x.build, x.revision), full, "created from " + k)
        same((str(x), hash(x) == hash(made["text"]), x == made["text"], x == text(v), x != text(v)), (text(v), True, True, True, False), "created from " + k)
        for o in (None, 5, v, [], 1.2, b"1.2", "x", ""):
            same((x == o, x != o), (False, True), "equality with %r" % (o,))
        for o in (None, 5, v):
            for f in (operator.lt, operator.le, operator.gt, operator.ge):
                same(reason(f, x, o)[0], "TypeError", "order with %r" % (o,))
    if len(v) == 4:
        same(reason(lambda: t.PSVersion(major=v[0], minor=v[1], revision=v[3]))[0], "ValueError", "revision without build")
    for drop in ("major", "minor"):
        k2 = {a: b for a, b in kw.items() if a != drop}
        same(reason(lambda: t.PSVersion(**k2))[0], "ValueError", "without " + drop)
    ctx.step(10)
    ctx.state(v)


BADV = ["1", "1.", ".1", "1.2.", "1.2.3.4.5", "a.b", "1.b", "-1.2", "1.-2", "01.2", "1.02", "1.2.03", "1,2", "1.2 ", " 1.2", "1..2", "1.2.x", "1.2.3.x", "v1.2", "1.2-a", "+1.2", "0x1.2", "1.2.3.04"]


def gen_badv(tier: str):
    for i in range(len(BADV)):
        yield i
    yield -1


def run_badv(i, ctx: Ctx) -> None:
    if i < 0:
        same((reason(t.PSVersion)[0], reason(t.PSVersion, "")[0], reason(t.PSVersion, None)[0]), ("ValueError",) * 3, "no version")
    else:
        same(reason(t.PSVersion, BADV[i])[0], "ValueError", "version %r" % BADV[i])
        same((t.PSVersion("1.2") == BADV[i], t.PSVersion("1.2") != BADV[i]), (False, True), "equality with %r" % BADV[i])
    ctx.step()
    ctx.state(i)


def gen_sort(tier: str):
    pool = [(1, 2), (1, 2, 0), (1, 2, 0, 0), (1, 10), (1, 9), (2, 0), (1, 2, 3), (10, 0), (0, 0, 0, 1)]
    for c in itertools.permutations(pool, 4):
        yield c


def run_sort(c, ctx: Ctx) -> None:
    xs = sorted(t.PSVersion(text(v)) for v in c)
    same([str(x) for x in xs], [text(v) for v in sorted(c, key=net)], "sorted versions")
    same(str(max(t.PSVersion(text(v)) for v in c)), text(max(c, key=net)), "latest version")
    ctx.step()
    ctx.state(c)


SCENARIOS = [
    Scenario("durations", gen_one, run_one, "creation in all ways, unary operators, text for all values around the carries"),
    Scenario("duration pairs", gen_pairs, run_pairs, "all pairs of %d durations, plain and extended" % len(GRID)),
    Scenario("duration others", gen_other, run_other, "operands that are no duration"),
    Scenario("duration limits", gen_limits, run_limits, "limits, order"),
    Scenario("date-time creation", gen_dtnew, run_dtnew, "all ways of creation x %d date-times x %d nanoseconds x %d time zones" % (len(WALL), len(NSS), len(TZS))),
    Scenario("date-time and duration", gen_dt, run_dt, "%d date-times x %d nanoseconds x 3 (5) time zones x all durations, plain and extended" % (len(WALL), len(NSS)), chunk=2),
    Scenario("date-time pairs", gen_dtdt, run_dtdt, "all pairs of date-times, nanoseconds and time zones, plain and extended", chunk=2),
    Scenario("walks", gen_walk, run_walk, "all sequences of 3 (4) of %d additions and subtractions from 4 starts" % len(STEPS), chunk=64),
    Scenario("long", gen_long, run_long, "the same step up to 2048 (20000) times for %d steps in both directions; all values within 1100 ns (10000 ns) of 9 carries" % (2 * len(LONG)), chunk=1, timeout=120),
    Scenario("versions", gen_ver, run_ver, "all pairs of versions of 2 to 4 parts of 4 (5) values, also against text"),
    Scenario("version creation", gen_vernew, run_vernew, "all ways of creation of versions of 2 to 4 parts of 4 values"),
    Scenario("version texts", gen_badv, run_badv, "texts that are no version"),
    Scenario("version sorting", gen_sort, run_sort, "all permutations of 4 of 9 versions"),
]

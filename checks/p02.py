"""P02: received data yields the same events however it is cut, interleaved or polled."""
import itertools
import typing

import psrpcore
from psrpcore import types as t

from mc import wire
from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import D, PIDS, RPID, reason

RULE = (
    "all cut positions of a byte stream into up to 3 receive calls x poll patterns, all interleavings of the "
    "fragments of up to 3 messages x poll points, every position of a single bad fragment or bad message, object id "
    "reuse; events are compared with a model that knows which messages are complete after each byte"
)
ASSUMPTIONS = ["only PipelineInput/PipelineOutput/EndOfPipelineInput messages are used; other kinds share the same path and are covered by P03-P12"]


def text(i: int) -> str:
    return "m%d\u00e9" % i


def blob(role: str, i: int, kind: str = "n") -> bytes:
    """kind: n normal, b with BOM, e no body, x bad XML, u bad UTF-8, t unknown type, h no whole header."""
    typ = "PipelineOutput" if role == "c" else "PipelineInput"
    body = ("<S>%s</S>" % text(i)).encode("utf-8")
    pid = PIDS[i % 3] if i % 4 else None
    if kind == "b":
        body = b"\xef\xbb\xbf" + body
    elif kind == "e":
        typ = "PipelineOutput" if role == "c" else "EndOfPipelineInput"
        body = b""
    elif kind == "x":
        body = b"<S>oops"
    elif kind == "u":
        body = b"<S>\xff\xfe</S>"
    elif kind == "z":
        body = b"<I32>abc</I32>"
    b = wire.build(role == "s", typ, RPID, pid, body)
    if kind == "t":
        b = b[:4] + b"\x99\x99\x99\x00" + b[8:]
    elif kind == "h":
        b = b[:20]
    return b


def descr(e: typing.Any) -> typing.Tuple:
    d: typing.Any = None
    if hasattr(e, "data"):
        d = e.data
        d = None if d is None else str(d)
    return (e.message_type.name, str(e.pipeline_id), str(e.runspace_pool_id), d)


def wanted(role: str, i: int, kind: str = "n") -> typing.Tuple:
    pid = PIDS[i % 3] if i % 4 else None
    if kind == "e":
        return ("PipelineOutput" if role == "c" else "EndOfPipelineInput", str(pid), str(RPID), None)
    return ("PipelineOutput" if role == "c" else "PipelineInput", str(pid), str(RPID), text(i))


class Rx:
    """Receiver and its model."""

    def __init__(self, role: str, ctx: Ctx) -> None:
        self.pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID) if role == "c" else psrpcore.ServerRunspacePool()
        self.role = role
        self.ctx = ctx
        self.ready: typing.List[typing.Tuple] = []  # complete, not yet returned
        self.errors = 0  # errors that are due

    def feed(self, data: bytes) -> None:
        self.ctx.step()
        self.pool.receive_data(psrpcore.PSRPPayload(data, D, None))

    def poll(self) -> typing.Any:
        self.ctx.step()
        try:
            e = self.pool.next_event()
        except psrpcore.PSRPCoreError:
            self.errors -= 1
            expect(self.errors >= 0, "unexpected PSRPCoreError")
            return "error"
        if e is None:
            expect(not self.ready, "no event although %r was received completely", self.ready[:1])
            expect(self.errors == 0, "a bad fragment was accepted silently")
            return None
        expect(self.ready, "an event before its message is complete: %r", e)
        same(descr(e), self.ready[0], "event")
        self.ready.pop(0)
        return e

    def poll_all(self) -> None:
        for _ in range(10000):
            if self.poll() is None:
                return
        fail("next_event never returns None")

    def finish(self) -> None:
        self.poll_all()
        same(self.pool.next_event(), None, "event after everything was returned")


# ---------------------------------------------------------------- chunkings
STREAMS: typing.List[typing.List[typing.Tuple[int, str, typing.Tuple[int, ...], int]]] = [
    # (index, kind, cuts, object id)
    [(1, "n", (), 1), (2, "n", (), 2)],
    [(1, "n", (20,), 1), (2, "b", (41,), 2)],
    [(4, "e", (), 1), (1, "n", (5, 44), 2)],
    [(1, "n", (40,), 1), (2, "n", (), 1), (3, "e", (39,), 1)],
    [(1, "n", (1, 1), 2**64 - 1), (2, "n", (), 0)],
    # fragments without data: the last one, the first one, all around; -1 is the end of the message
    [(1, "n", (-1,), 1), (2, "n", (0, 20), 2)],
    [(4, "e", (-1,), 1), (1, "n", (0, 0, 44, -1, -1), 1), (2, "b", (), 2)],
]


def build_stream(role: str, spec) -> typing.Tuple[bytes, typing.List[typing.Tuple[int, typing.Tuple]]]:
    data = b""
    ends = []
    for i, kind, cuts, oid in spec:
        b = blob(role, i, kind)
        for f in wire.split(b, oid, [len(b) if c < 0 else c for c in cuts]):
            data += f
        ends.append((len(data), wanted(role, i, kind)))
    return data, ends


def gen_chunks(tier: str):
    for si, spec in enumerate(STREAMS):
        for role in "cs":
            n = len(build_stream(role, spec)[0])
            yield (role, si, tuple(range(1, n)), "all")
            yield (role, si, tuple(range(1, n)), "none")
            yield (role, si, (), "all")
            for a in range(1, n):
                for pol in ("none", "all", "one"):
                    yield (role, si, (a,), pol)
    for si in range(len(STREAMS)):
        for role in ("cs" if tier == "thorough" else "cs"[si % 2]):
            n = len(build_stream(role, STREAMS[si])[0])
            for a in range(1, n):
                for b in range(a, n):
                    for pol in ("all", "10", "01") if tier == "thorough" else ("all", "01"):
                        yield (role, si, (a, b), pol)


def run_chunks(case, ctx: Ctx) -> None:
    role, si, cuts, pol = case
    data, ends = build_stream(role, STREAMS[si])
    rx = Rx(role, ctx)
    pts = [0, *cuts, len(data)]
    k = 0
    for i in range(len(pts) - 1):
        rx.feed(data[pts[i] : pts[i + 1]])
        while k < len(ends) and ends[k][0] <= pts[i + 1]:
            rx.ready.append(ends[k][1])
            k += 1
        if pol == "all" or (pol == "10" and i == 0) or (pol == "01" and i == 1):
            rx.poll_all()
        elif pol == "one":
            rx.poll()
        ctx.state(role, si, pts[i + 1], len(rx.ready), pol)
    rx.finish()
    ctx.outcome(si, pol)


# -------------------------------------------------------------- interleaving
def interleavings(counts: typing.Sequence[int]):
    def rec(rem):
        if not any(rem):
            yield ()
            return
        for i, r in enumerate(rem):
            if r:
                for rest in rec(rem[:i] + (r - 1,) + rem[i + 1 :]):
                    yield (i,) + rest

    return rec(tuple(counts))


CUTS = {1: (), 2: (25,), 3: (7, 41), 4: (7, 7, 41)}
OIDS = [(1, 2, 3), (3, 1, 2), (2**64 - 1, 0, 2**32), (256, 1, 65536)]


def gen_inter(tier: str):
    shapes = [(1, 1), (2, 1), (2, 2), (3, 2), (1, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2)]
    for sh in shapes:
        n = sum(sh)
        for oi, oids in enumerate(OIDS if sh in ((2, 2), (2, 2, 2)) else OIDS[:1]):
            for order in interleavings(sh):
                masks = range(2**n) if (n <= 6 or tier == "thorough") and oi == 0 else (0, 2**n - 1, 0x55 & (2**n - 1))
                for mask in masks:
                    yield ("c" if sum(order) % 2 else "s", sh, oi, order, mask)
    big = [(3, 3, 3)] if tier == "quick" else [(3, 3, 3), (4, 3, 3)]
    for sh in big:
        for order in interleavings(sh):
            for mask in (0, 2 ** sum(sh) - 1, -1):
                yield ("c", sh, 0, order, mask)


def run_inter(case, ctx: Ctx) -> None:
    role, sh, oi, order, mask = case
    fr = [wire.split(blob(role, i + 1), OIDS[oi][i], CUTS[c]) for i, c in enumerate(sh)]
    pos = [0] * len(sh)
    rx = Rx(role, ctx)
    acc = b""
    for k, i in enumerate(order):
        f = fr[i][pos[i]]
        pos[i] += 1
        if mask == -1:
            acc += f
        else:
            rx.feed(f)
        if pos[i] == len(fr[i]):
            rx.ready.append(wanted(role, i + 1))
        if mask >= 0 and mask >> k & 1:
            rx.poll_all()
        ctx.state(role, sh, oi, tuple(pos), tuple(rx.ready))
    if mask == -1:
        rx.feed(acc)
    rx.finish()
    ctx.outcome(tuple(i for i in order))


# ------------------------------------------------------------ object id reuse
def gen_reuse(tier: str):
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (3, 2, 1)]
    for sh in shapes:
        seq = [(0, i, k) for i, c in enumerate(sh) for k in range(c)]
        for other in (0, 1, 2):
            for order in interleavings((len(seq), other)):
                n = len(order)
                for mask in range(2**n) if n <= (6 if tier == "quick" else 8) else (0, 2**n - 1):
                    yield ("c" if mask % 2 else "s", sh, other, order, mask)


def run_reuse(case, ctx: Ctx) -> None:
    role, sh, other, order, mask = case
    a: typing.List[typing.Tuple[bytes, typing.Any]] = []
    for i, c in enumerate(sh):
        fs = wire.split(blob(role, i + 1), 7, CUTS[c])
        a += [(f, wanted(role, i + 1) if k == c - 1 else None) for k, f in enumerate(fs)]
    b = [
        (f, wanted(role, 6) if k == other - 1 else None)
        for k, f in enumerate(wire.split(blob(role, 6), 8, CUTS[other]) if other else [])
    ]
    src = [a, b]
    rx = Rx(role, ctx)
    for k, w in enumerate(order):
        f, done = src[w].pop(0)
        rx.feed(f)
        if done:
            rx.ready.append(done)
        if mask >> k & 1:
            rx.poll_all()
        ctx.state(role, sh, other, len(src[0]), len(src[1]), tuple(rx.ready))
    rx.finish()


# --------------------------------------------------------------------- faults
FAULTS = ["skip", "skip2", "repeat", "restart", "new1", "newend", "huge", "oldid"]


def gen_faults(tier: str):
    shapes = [(2,), (3,), (2, 2), (3, 1), (1, 1)] + ([(2, 2, 2), (3, 2)] if tier == "thorough" else [(3, 2)])
    for sh in shapes:
        for order in interleavings(sh):
            for at in range(len(order) + 1):
                for fault in FAULTS:
                    for pol in ("each", "end", "joined"):
                        yield ("c" if at % 2 else "s", sh, order, (at,), fault, pol)
    for order in interleavings((2, 2)):
        for at, at2 in itertools.combinations_with_replacement(range(5), 2):
            for fault in FAULTS:
                for pol in ("each", "end", "joined"):
                    yield ("c", (2, 2), order, (at, at2), fault, pol)


def bad_fragment(fault: str, pos: typing.List[int], sh, last: int) -> typing.Optional[bytes]:
    """A fragment that is out of sequence in the current situation."""
    open_ = [i for i in range(len(sh)) if 0 < pos[i] < sh[i]]
    if fault in ("new1", "newend", "huge"):
        fid = {"new1": 1, "newend": 2, "huge": 2**63}[fault]
        return wire.frag(99, fid, False, fault == "newend", b"junk")
    if fault == "oldid":
        done = [i for i in range(len(sh)) if pos[i] == sh[i]]
        if not done:
            return None
        return wire.frag(done[-1] + 1, sh[done[-1]], False, True, b"junk")
    if not open_:
        return None
    i = open_[-1]
    oid = i + 1
    if fault == "skip":
        return wire.frag(oid, pos[i] + 1, False, False, b"junk")
    if fault == "skip2":
        return wire.frag(oid, pos[i] + 2, False, True, b"junk")
    if fault == "repeat":
        return wire.frag(oid, pos[i] - 1, pos[i] == 1, False, b"junk")
    return wire.frag(oid, 0, True, True, b"junk")


def run_faults(case, ctx: Ctx) -> None:
    role, sh, order, ats, fault, pol = case
    fr = [wire.split(blob(role, i + 1), i + 1, CUTS[c]) for i, c in enumerate(sh)]
    pos = [0] * len(sh)
    rx = Rx(role, ctx)
    acc = b""
    for k in range(len(order) + 1):
        todo = []
        for at in ats:
            if at == k:
                b = bad_fragment(fault, pos, sh, 0)
                if b is None:
                    return
                rx.errors += 1
                todo.append(b)
        if k < len(order):
            i = order[k]
            todo.append(fr[i][pos[i]])
            pos[i] += 1
            if pos[i] == len(fr[i]):
                rx.ready.append(wanted(role, i + 1))
        if pol == "joined":
            acc += b"".join(todo)
        else:
            for b in todo:
                rx.feed(b)
        if pol == "each":
            rx.poll_all()
        ctx.state(role, sh, tuple(pos), rx.errors, fault, len(rx.ready))
    if acc:
        rx.feed(acc)
    rx.finish()
    same(rx.errors, 0, "bad fragments not reported")
    # afterwards the receiver still works, with new and with used ids
    for oid in (1, 99, 500):
        rx.feed(wire.whole(blob(role, 5), oid))
        rx.ready.append(wanted(role, 5))
        rx.finish()


# ------------------------------------------------------------------- bad content
def gen_bad(tier: str):
    kinds = ["n", "x", "u", "t", "h", "z", "e"]
    for n in (1, 2, 3):
        for seq in itertools.product(kinds, repeat=n):
            if not set(seq) & set("xuthz"):
                continue
            for reuse in (False, True):
                for pol in ("each", "end", "joined"):
                    for nf in (1, 2) if n < 3 else (1,):
                        yield ("c" if reuse else "s", seq, reuse, pol, nf)
                        yield ("s" if reuse else "c", seq, reuse, pol, nf)


def run_bad(case, ctx: Ctx) -> None:
    role, seq, reuse, pol, nf = case
    pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID) if role == "c" else psrpcore.ServerRunspacePool()
    want = [wanted(role, i, k) for i, k in enumerate(seq) if k in "ne"]
    bad = len(seq) - len(want)
    got = []
    errs = 0

    def poll() -> None:
        nonlocal errs
        for _ in range(50):
            ctx.step()
            try:
                e = pool.next_event()
            except Exception:
                errs += 1
                continue
            if e is None:
                return
            got.append(descr(e))
        fail("the receiver never gets past a bad message")

    acc = b""
    for i, k in enumerate(seq):
        b = blob(role, i, k)
        data = b"".join(wire.split(b, 1 if reuse else i + 1, (11,) if nf == 2 else ()))
        if pol == "joined":
            acc += data
            continue
        pool.receive_data(psrpcore.PSRPPayload(data, D, None))
        if pol == "each":
            poll()
    if acc:
        pool.receive_data(psrpcore.PSRPPayload(acc, D, None))
    poll()
    same(got, want, "events")
    same(errs, bad, "number of errors")
    ctx.state(case)
    ctx.outcome(errs, len(got))


# ---------------------------------------------------------------------- large
def gen_large(tier: str):
    for role in "cs":
        for size, nfrag in [(300, 300), (70000, 2), (70000, 70), (5000, 4000), (140000, 3)]:
            for chunk in (None, 1 << 14, 37) if size < 10000 else (None, 1 << 14, 65536):
                yield (role, size, nfrag, chunk)


def run_large(case, ctx: Ctx) -> None:
    role, size, nfrag, chunk = case
    txt = ("0123456789abcdef" * (size // 16 + 1))[:size]
    typ = "PipelineOutput" if role == "c" else "PipelineInput"
    b = wire.build(role == "s", typ, RPID, PIDS[0], ("<S>%s</S>" % txt).encode())
    cuts = [len(b) * i // nfrag for i in range(1, nfrag)]
    data = b"".join(wire.split(b, 1, cuts)) + wire.whole(blob(role, 2), 2)
    rx = Rx(role, ctx)
    step = chunk or len(data)
    for p in range(0, len(data), step):
        rx.feed(data[p : p + step])
        if p + step < len(data) - 200 and (p // step) % 3 == 0:
            same(rx.pool.next_event(), None, "event of an incomplete message")
    got = []
    while True:
        e = rx.pool.next_event()
        if e is None:
            break
        got.append(descr(e))
    same(got, [(typ, str(PIDS[0]), str(RPID), txt), wanted(role, 2)], "events")
    ctx.state(case)


# ------------------------------------------------------------------- how many
MANY = ["abreast", "reversed", "queued", "polled", "bad", "faults", "restarts", "pieces", "oids", "textlen", "lonely"]


def gen_many(tier: str):
    from mc.values import sizes

    for n in sizes(tier, 1024 if tier == "quick" else 4096):
        for what in MANY:
            for role in "cs" if n < 70 or tier != "quick" else "cs"[n % 2]:
                if what in ("textlen", "pieces") or n:
                    yield (role, what, n)


def run_many(case, ctx: Ctx) -> None:
    role, what, n = case
    rx = Rx(role, ctx)
    if what in ("abreast", "reversed"):
        # n messages are incomplete at the same time
        fr = [wire.split(blob(role, i + 1), i, CUTS[3]) for i in range(n)]
        for k in range(3):
            for i in range(n) if what == "abreast" or k % 2 == 0 else reversed(range(n)):
                rx.feed(fr[i][k])
                if k == 2:
                    rx.ready.append(wanted(role, i + 1))
                if i % 16 == 0:
                    rx.poll_all() if what == "reversed" else rx.pool
        rx.finish()
    elif what in ("queued", "polled", "pieces"):
        # n messages after each other, read at the end or as they come, or cut into pieces of n bytes
        data = b""
        for i in range(n if what != "pieces" else 40):
            data += b"".join(wire.split(blob(role, i + 1), i % 3 if what == "polled" else i, CUTS[1 + i % 3]))
            if what == "polled":
                rx.feed(data)
                data = b""
                rx.ready.append(wanted(role, i + 1))
                rx.poll()
        if what == "queued":
            rx.feed(data)
            rx.ready = [wanted(role, i + 1) for i in range(n)]
        elif what == "pieces":
            ends, p = [], 0
            for i in range(40):
                p += len(b"".join(wire.split(blob(role, i + 1), i, CUTS[1 + i % 3])))
                ends.append(p)
            step, k = max(1, n), 0
            for p in range(0, len(data), step):
                rx.feed(data[p : p + step])
                while k < 40 and ends[k] <= p + step:
                    rx.ready.append(wanted(role, k + 1))
                    k += 1
                if p // step % 5 == 0:
                    rx.poll_all()
        for _ in range(2):
            for _ in range(n + 45):
                if rx.poll() is None:
                    break
        rx.finish()
    elif what == "bad":
        # a message that cannot be read and a good one, n times
        kinds = "xutz"
        got, errs = [], 0
        for i in range(n):
            rx.feed(wire.whole(blob(role, 1, kinds[i % 4]), 2 * i))
            rx.feed(wire.whole(blob(role, i), 2 * i + 1))
        for _ in range(3 * n + 5):
            k, e = reason(rx.pool.next_event)
            if k != "ok":
                errs += 1
                continue
            if e is None:
                break
            got.append(descr(e))
        same((errs, got), (n, [wanted(role, i) for i in range(n)]), "errors and events")
    elif what in ("faults", "restarts"):
        # n bad fragments in the middle of a message; afterwards everything works
        fr = wire.split(blob(role, 1), 1, CUTS[3])
        rx.feed(fr[0])
        for i in range(n):
            if what == "faults":
                rx.feed(wire.frag(99 + i, 1 + i % 3, False, i % 2 == 0, b"junk"))
                rx.errors += 1
            else:
                rx.feed(wire.whole(blob(role, i + 2), 50 + i))
                rx.ready.append(wanted(role, i + 2))
            rx.poll_all()
        for f in fr[1:]:
            rx.feed(f)
        rx.ready.append(wanted(role, 1))
        rx.finish()
    elif what == "oids":
        for j, oid in enumerate((n, 2**16 - n, 2**32 - n, 2**32 + n, 2**63 + n, 2**64 - 1 - n)):
            for i, f in enumerate(wire.split(blob(role, j + 1), oid, CUTS[1 + j % 3])):
                rx.feed(f)
            rx.ready.append(wanted(role, j + 1))
        rx.finish()
    elif what == "textlen":
        typ = "PipelineOutput" if role == "c" else "PipelineInput"
        b = wire.build(role == "s", typ, RPID, PIDS[0], ("<S>%s</S>" % ("x" * n)).encode())
        for cuts in ((), (len(b) - 1,), (len(b) // 2, len(b) // 2 + 1)):
            for f in wire.split(b, 9, cuts):
                rx.feed(f)
            rx.ready.append((typ, str(PIDS[0]), str(RPID), "x" * n))
            rx.poll_all()
        rx.finish()
    elif what == "lonely":
        # one message in n fragments, several without data
        b = blob(role, 1)
        cuts = sorted(len(b) * i // n for i in range(1, n))
        for f in wire.split(b, 3, cuts):
            rx.feed(f)
        rx.ready.append(wanted(role, 1))
        rx.finish()
    ctx.state(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "up to 140 (300) and around each power of two and ten up to 1024 (4096): messages at the same time, in sequence, bad ones, fragments of one message, lengths of text and of received pieces, object ids", 8, 60),
    Scenario("chunks", gen_chunks, run_chunks, "5 streams, all cuts into <=3 receive calls and byte by byte, poll policies", 64),
    Scenario("interleave", gen_inter, run_inter, "all fragment interleavings of <=3 messages with <=3 fragments x poll masks", 64),
    Scenario("reuse", gen_reuse, run_reuse, "same object id for consecutive messages, interleaved with another message, all poll masks", 64),
    Scenario("faults", gen_faults, run_faults, "8 kinds of out-of-sequence fragment at every position of every interleaving", 64),
    Scenario("bad_content", gen_bad, run_bad, "all sequences of <=3 good and unprocessable messages", 64),
    Scenario("large", gen_large, run_large, "fragment counts and sizes crossing 8 and 16 bit counters", 1, 60),
]

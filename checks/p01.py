"""P01: outgoing messages are fragmented without loss, reorder or mixing."""
import itertools
import typing

import psrpcore
from psrpcore import types as t

from mc import wire
from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import D, P, PIDS, RPID, reason

RULE = (
    "every queue content over a menu of targets x streams x sizes, drained with every size limit, and every "
    "interleaving of queueing and draining up to a depth; after each data_to_send the payload is decoded by an "
    "independent codec and compared with a FIFO model"
)
ASSUMPTIONS = ["message bodies are strings/empty messages; body encoding itself is judged by P13-P15"]

# target/stream kinds, body length (-1: message without a body)
KINDS = {"p": (None, D), "q": (None, P), "a": (PIDS[0], D), "A": (PIDS[0], P), "b": (PIDS[1], D), "B": (PIDS[1], P)}
MENU = [k + str(n) for k in "paAbq" for n in (-1, 0, 13)]


class Model:
    def __init__(self, role: str) -> None:
        if role == "c":
            self.pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        else:
            self.pool = psrpcore.ServerRunspacePool()
        self.role = role
        self.rpid = self.pool.runspace_pool_id
        self.queued: typing.List[typing.Tuple[typing.Any, typing.Any, int, typing.Optional[str]]] = []
        self.re = wire.Reassembler()
        self.seen: typing.Dict[int, int] = {}  # object id -> queue index
        self.done = 0

    def put(self, item: str) -> None:
        pid, stream = KINDS[item[0]]
        n = int(item[1:])
        if n < 0:
            self.pool.prepare_message(None, pipeline_id=pid, stream_type=stream)
            self.queued.append((pid, stream, wire.TYPES["PipelineOutput"], None))
        else:
            base = "%d." % len(self.queued)
            text = (base + "xyzw" * (n // 4 + 1))[:n] if n >= len(base) else base[:n]
            self.pool.prepare_message(
                t.PSString(text), message_type=t.PSRPMessageType.PipelineInput, pipeline_id=pid, stream_type=stream
            )
            self.queued.append((pid, stream, wire.TYPES["PipelineInput"], text))

    def pending(self) -> bool:
        return self.done < len(self.queued)

    def get(self, limit: typing.Optional[int]) -> bool:
        if limit is not None and limit < 22:
            kind, _ = reason(self.pool.data_to_send, limit)
            same(kind, "ValueError", "data_to_send(%d)" % limit)
            return True
        payload = self.pool.data_to_send(limit) if limit is not None else self.pool.data_to_send()
        if payload is None:
            expect(not self.pending(), "nothing to send although %d messages wait", len(self.queued) - self.done)
            return False
        expect(self.pending(), "a payload after everything was sent: %r", payload)
        expect(isinstance(payload.data, bytes) and payload.data, "payload data is %r", payload.data)
        expect(limit is None or len(payload.data) <= limit, "payload of %d bytes for limit %s", len(payload.data), limit)
        try:
            before = len(self.re.done)
            fs = self.re.feed(payload.data)
        except ValueError as e:
            raise Violation("malformed payload: %s" % e)
        for f in fs:
            expect(f.data, "empty fragment (limit %s)", limit)
            if f.fid == 0:
                expect(f.oid not in self.seen, "object id %d used for two messages", f.oid)
                self.seen[f.oid] = len(self.seen)
            idx = self.seen[f.oid]
            expect(idx < len(self.queued), "more messages sent than were queued")
            pid, stream = self.queued[idx][:2]
            expect(payload.pipeline_id == pid, "payload for %s carries a message for %s", payload.pipeline_id, pid)
            expect(payload.stream_type == stream, "payload of %s carries a message of %s", payload.stream_type, stream)
        for oid, blob in self.re.done[before:]:
            same(self.seen[oid], self.done, "order in which messages are completed")
            pid, stream, typ, text = self.queued[self.done]
            m = wire.msg(blob)
            same(m.dest, 2 if self.role == "c" else 1, "destination")
            same(wire.TYPES[m.type], typ, "message type")
            same(m.rpid, self.rpid, "runspace pool id of the message")
            same(m.pid, pid, "pipeline id of the message")
            if text is None:
                same(m.data, b"", "content")
            else:
                from xml.etree import ElementTree as ET

                try:
                    el = ET.fromstring(m.data)
                except ET.ParseError as e:
                    raise Violation("content damaged: %s" % e)
                same((el.tag, el.text or ""), ("S", text), "content")
            self.done += 1
        return True

    def drain(self, limit: typing.Optional[int], ctx: Ctx) -> int:
        total = sum(60 + 21 + len(q[3] or "") for q in self.queued) + 10
        n = 0
        while self.get(limit):
            n += 1
            expect(n <= total, "draining does not end")
        ctx.step(n + 1)
        expect(not self.re.open, "unfinished messages after draining: %r", self.re.open)
        same(self.done, len(self.queued), "messages sent")
        return n


def gen_drain(tier: str):
    depth = 3
    limits = list(range(22, 190)) if tier == "quick" else list(range(22, 260))
    menu = MENU
    for n in range(1, depth + 1):
        for seq in itertools.product(menu, repeat=n):
            if n == 3 and tier == "quick":
                # third element: one of each target kind, boundary sizes
                if seq[2][1:] == "0" or seq[1][1:] == "-1":
                    continue
                ls: typing.List[typing.Optional[int]] = [22, 23, 41, 60, 61, 62, 68, 81, 82, 83, 84, 102, 121, 122, 123, 124, 125, 160, None]
            else:
                ls = [*limits, None]
            for lim in ls:
                yield ("c" if lim is None or lim % 2 else "s", seq, lim)


def run_drain(case, ctx: Ctx) -> None:
    role, seq, lim = case
    m = Model(role)
    for i in seq:
        m.put(i)
    n = m.drain(lim, ctx)
    ctx.state(seq, lim)
    ctx.outcome(n, len(seq))
    # the queue is usable again
    m.put("p3")
    m.drain(lim, ctx)


OPS_Q: typing.List[typing.Any] = ["p13", "a13", "A-1", "b0", 22, 41, 61, 62, 82, 83, 140, None, 21]
OPS_T: typing.List[typing.Any] = OPS_Q + ["q3", 23, 60]


def gen_ops(tier: str):
    depth = 5 if tier == "quick" else 6
    ops = OPS_Q if tier == "quick" else OPS_T
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=n):
            if isinstance(ops[seq[0]], str):
                yield tuple(ops[i] for i in seq)


def run_ops(case, ctx: Ctx) -> None:
    m = Model("c" if len(case) % 2 else "s")
    for op in case:
        ctx.step()
        if isinstance(op, str):
            m.put(op)
        else:
            m.get(op)
        ctx.state(tuple(m.queued[m.done:]), tuple((k, len(b"".join(v))) for k, v in m.re.open.items()))
    m.drain(None, ctx)
    ctx.outcome(m.done)


def gen_interleave(tier: str):
    """Three messages; before/after each one, 0..2 payloads of each limit of a menu are taken."""
    lims = [22, 61, 62, 70, 82, 84] if tier == "quick" else [22, 23, 60, 61, 62, 63, 70, 81, 82, 83, 84, 100]
    msgs = ["p13", "a13", "a-1", "A13"]
    takes = [()] + [(x,) for x in lims] + [(x, y) for x in lims[1:4] for y in lims[2:5]]
    for seq in itertools.product(msgs, repeat=3):
        for tk in itertools.product(takes, repeat=2):
            yield (seq, tk)


def run_interleave(case, ctx: Ctx) -> None:
    seq, tk = case
    m = Model("c")
    for i, item in enumerate(seq):
        m.put(item)
        if i < len(tk):
            for lim in tk[i]:
                m.get(lim)
                ctx.step()
    for lim in (21, -1, 0):
        m.get(lim)
    m.drain(75, ctx)
    ctx.state(case)


def gen_big(tier: str):
    yield ("s", ["p66000"], 22)
    for role in "cs":
        for size, lim in [(300, 22), (700, 23), (6000, 22), (70000, None), (70000, 277), (70000, 65535), (66000, 65600),
                          (33000, 32768), (140000, 65557), (200000, 512)]:
            yield (role, ["p%d" % size, "a%d" % size, "a5"], lim)
        yield (role, ["p1"] * 300, None)
        yield (role, ["p1"] * 300, 48)
        yield (role, ["a1", "a40"] * 150, 60)
    if tier == "thorough":
        yield ("c", ["a70000", "p3"], 22)
        yield ("s", ["p1"] * 66000, None)


# ------------------------------------------------------------------- how many and how long
def gen_sizes(tier: str):
    from mc.values import sizes

    for n in sizes(tier, 4096 if tier == "quick" else 70000):
        # message of n characters: everything that fits almost, exactly and just so, alone and in front of another
        whole = 21 + 40 + len("<S>" + "x" * n + "</S>")
        lims = {22, 23, 61, 62, 100, 255, 256, 257, whole - 1, whole, whole + 1, whole + 21, whole + 22, whole + 23, 2 * whole - 1, 2 * whole, 2 * whole + 1, whole // 2 + 10, whole // 2 + 11, whole // 2 + 12}
        for lim in sorted(x for x in lims if x >= (22 if n < 300 else n // 8)):
            yield ("cs"[lim % 2], ("p%d" % n, "p%d" % n, "a1"), lim)
            if n < 300:
                yield ("sc"[lim % 2], ("a%d" % n, "p3", "a%d" % n), lim)
        yield ("c", ("p%d" % n, "a%d" % n), None)
        for kind in ("p1", "a-1"):
            for lim in (None, 64, 200):
                if n:
                    yield ("s", (kind,) * n, lim)
        if n:
            yield ("c", ("p1", "a0", "A2", "b-1", "B3") * (n // 5 + 1), 90)


SCENARIOS = [
    Scenario("sizes", gen_sizes, run_drain, "message lengths and queue lengths up to 140 (300) and around each power of two and ten up to 4096 (70000), size limits around every fit", 8, 60),
    Scenario("drain", gen_drain, run_drain, "queues of <=3 messages over 15 target/stream/size kinds x size limits", 64),
    Scenario("ops", gen_ops, run_ops, "all put/take sequences to depth 5 (quick) / 6 (thorough) over 13/16 operations", 64),
    Scenario("interleave", gen_interleave, run_interleave, "3 messages, up to 2 payloads of any limit between them", 64),
    Scenario("big", gen_big, run_drain, "messages and queues crossing 8 and 16 bit counters", 1, 60),
]

"""P07: runspace count requests and answers match up and both sides agree."""
import itertools
import typing

import psrpcore
from psrpcore import types as t

from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import PIDS, RPID, deliver, drain, events, open_pair, reason

RULE = (
    "all sets of up to three outstanding requests x all answer orders x accept/refuse x delivery points, and all pruned "
    "sequences of requests, deliveries and answers up to a depth; after every step all wrong answers (unknown and used "
    "ids, wrong types) are tried and counts, events and ids of both sides are compared with a reference model"
)
ASSUMPTIONS = ["asking for the count the client already has sends nothing (documented: returns None)"]

# kind -> (request, value)
REQ = ["G", "X3", "X5", "N2", "R", "N4"]
BAD_BOOL = [0, 1, "x", None, 1.5, t.PSInt(1), []]
BAD_INT = [True, False, "5", None, 2.0, []]
COUNTS = [0, 1, 2**31, -1, 2**40, t.PSInt(7), 2]


class World:
    def __init__(self, ctx: Ctx, probe: bool = True) -> None:
        self.ctx = ctx
        self.probe = probe
        self.c, self.s = open_pair()
        self.cn = [1, 1]  # min, max of the client
        self.sn = [1, 1]
        self.ids: typing.List[int] = []
        self.kind: typing.Dict[int, str] = {}
        self.fly_s: typing.List[int] = []
        self.open: typing.List[int] = []  # received by the server, not answered
        self.fly_c: typing.List[typing.Tuple[typing.Optional[int], typing.Any]] = []
        self.answered: typing.List[int] = []
        self.n = 0

    def check(self) -> None:
        same([int(self.c.min_runspaces), int(self.c.max_runspaces)], self.cn, "client counts")
        same([int(self.s.min_runspaces), int(self.s.max_runspaces)], self.sn, "server counts")

    def request(self, k: str) -> None:
        c = self.c
        fn = {"G": c.get_available_runspaces, "R": c.reset_runspace_state}.get(k)
        none = False
        if fn is not None:
            ci = fn()
        elif k[0] == "X":
            none = self.cn[1] == int(k[1:])
            ci = c.set_max_runspaces(int(k[1:]))
        else:
            none = self.cn[0] == int(k[1:])
            ci = c.set_min_runspaces(int(k[1:]))
        self.ctx.step()
        if none:
            same(ci, None, "request for the current count")
        else:
            expect(type(ci) is int and ci not in self.kind, "call id %r is not new (%s)", ci, list(self.kind))
            self.kind[ci] = k
            self.fly_s.append(ci)
        self.check()

    def to_server(self) -> None:
        ev = deliver(self.c, self.s)
        same(len(ev), len(self.fly_s), "requests that reach the server")
        for e, ci in zip(ev, self.fly_s):
            k = self.kind[ci]
            cls = {"G": "GetAvailableRunspacesEvent", "R": "ResetRunspaceStateEvent", "X": "SetMaxRunspacesEvent",
                   "N": "SetMinRunspacesEvent"}[k[0]]
            same((type(e).__name__, int(e.ci), e.pipeline_id), (cls, ci, None), "request at the server")
            if k[0] in "XN":
                same(int(e.count), int(k[1:]), "requested count")
            self.open.append(ci)
        self.fly_s = []
        self.ctx.step()
        self.check()

    def reconnect(self) -> None:
        """The connection is lost and made again; requests in progress go on."""
        for p in (self.c, self.s):
            p.disconnect()
            self.check()
        for fn in (self.c.get_available_runspaces, self.c.reset_runspace_state):
            n, _ = reason(fn)
            same(n, "InvalidRunspacePoolState", "a request while disconnected")
        for p in (self.c, self.s):
            p.reconnect()
            self.check()
        self.fly_c.append((None, None))
        self.ctx.step()

    def answer(self, ci: int, ok: bool) -> None:
        k = self.kind[ci]
        r: typing.Any = ok
        if k == "G":
            r = COUNTS[self.n % len(COUNTS)]
            self.n += 1
        self.s.runspace_availability_response(ci, r)
        if ok and k[0] in "XN":
            self.sn[1 if k[0] == "X" else 0] = int(k[1:])
        self.open.remove(ci)
        self.answered.append(ci)
        self.fly_c.append((ci, r))
        self.ctx.step()
        self.check()

    def to_client(self) -> None:
        ev = deliver(self.s, self.c)
        same(len(ev), len(self.fly_c), "answers that reach the client")
        for e, (ci, r) in zip(ev, self.fly_c):
            if ci is None:
                same((type(e).__name__, e.state.name), ("RunspacePoolStateEvent", "Opened"), "state after the reconnection")
                continue
            k = self.kind[ci]
            same(int(e.ci), ci, "call id of the answer")
            if k == "G":
                expect(isinstance(e, psrpcore.GetRunspaceAvailabilityEvent), "kind of the answer: %s", type(e).__name__)
                expect(not isinstance(e.count, bool), "count is a bool")
                same(int(e.count), int(r), "number of available runspaces")
            else:
                expect(isinstance(e, psrpcore.SetRunspaceAvailabilityEvent), "kind of the answer: %s", type(e).__name__)
                expect(e.success is r or (bool(e.success) is r and isinstance(e.success, (bool, t.PSBool))), "result %r", e.success)
        # events were all processed: apply
        for ci, r in self.fly_c:
            if ci is None:
                continue
            k = self.kind[ci]
            if r is True and k[0] in "XN":
                self.cn[1 if k[0] == "X" else 0] = int(k[1:])
        self.fly_c = []
        self.ctx.step()
        self.check()

    def wrong(self) -> None:
        """Everything that must be refused now."""
        if not self.probe:
            return
        for ci in (0, -100, 999, *self.answered, *self.fly_s):
            for r in (True, 1):
                n, e = reason(self.s.runspace_availability_response, ci, r)
                same(n, "PSRPCoreError", "answer for id %s" % ci)
        for ci in self.open:
            for r in BAD_INT if self.kind[ci] == "G" else BAD_BOOL:
                n, e = reason(self.s.runspace_availability_response, ci, r)
                same(n, "PSRPCoreError", "answer of type %s for %s" % (type(r).__name__, self.kind[ci]))
        self.ctx.step()
        self.check()

    def key(self):
        return (tuple(self.cn), tuple(self.sn), tuple(self.kind[i] for i in self.fly_s), tuple(self.kind[i] for i in self.open),
                tuple((i and self.kind[i], r) for i, r in self.fly_c))

    def finish(self) -> None:
        """Everything still outstanding can be answered exactly once."""
        self.to_server()
        for ci in list(self.open):
            self.answer(ci, False)
        self.to_client()
        same(self.c.data_to_send(), None, "client data left")
        same(self.s.data_to_send(), None, "server data left")
        self.wrong()


def gen_sets(tier: str):
    for n in (1, 2, 3):
        for reqs in itertools.product(REQ[:5], repeat=n):
            for order in itertools.permutations(range(n)):
                for oks in itertools.product((True, False), repeat=n):
                    if any(reqs[i] == "G" and not oks[i] for i in range(n)):
                        continue
                    if tier == "quick":
                        masks: typing.Iterable = [(0, 0), ((1 << n) - 1, (1 << n) - 1)] if n == 3 else [
                            (a, b) for a in (0, 1) for b in (0, 1)]
                    else:
                        masks = itertools.product(range(1 << (n - 1)), repeat=2)
                    for a, b in masks:
                        yield (reqs, order, oks, a, b)


def run_sets(case, ctx: Ctx) -> None:
    reqs, order, oks, a, b = case
    w = World(ctx, probe=len(reqs) < 3 or a == 0)
    ids: typing.Dict[int, int] = {}
    for i, k in enumerate(reqs):
        before = set(w.kind)
        w.request(k)
        new = set(w.kind) - before
        if new:
            ids[i] = new.pop()
        if a >> i & 1:
            w.to_server()
        ctx.state(w.key())
    w.to_server()
    for j, i in enumerate(order):
        if i not in ids:
            continue
        w.wrong()
        w.answer(ids[i], oks[i])
        if b >> j & 1:
            w.to_client()
        ctx.state(w.key())
    w.wrong()
    w.to_client()
    w.finish()
    ctx.outcome(w.key())


OPS = ["X3", "X5", "N2", "G", "R", "ds", "dc", "a0+", "a0-", "al+", "al-", "L"]


def gen_seq(tier: str):
    depth = 6 if tier == "quick" else 8

    def rec(seq, fly, opn, ans):
        if len(seq) == depth:
            yield tuple(seq)
            return
        for o in OPS:
            if tier == "quick" and o == "R":
                continue
            if o == "L" and ("L" in seq or not seq):
                continue
            if o == "ds" and not fly or o == "dc" and not ans:
                continue
            if o[0] == "a" and not opn or o[:2] == "al" and opn < 2:
                continue
            if o[0] in "XNGR" and fly + opn + ans >= (3 if tier == "quick" else 3):
                continue
            f, p, a = fly, opn, ans
            if o == "ds":
                f, p = 0, opn + fly
            elif o == "dc":
                a = 0
            elif o[0] == "a":
                p, a = opn - 1, ans + 1
            elif o == "L":
                pass
            else:
                f += 1
            seq.append(o)
            yield from rec(seq, f, p, a)
            seq.pop()

    return rec([], 0, 0, 0)


def run_seq(case, ctx: Ctx) -> None:
    w = World(ctx, probe=False)
    for o in case:
        if o == "L":
            w.reconnect()
        elif o == "ds":
            w.to_server()
        elif o == "dc":
            w.to_client()
        elif o[0] == "a":
            if not w.open:
                return  # a request was a no-op: covered by a shorter sequence
            w.answer(w.open[0 if o[1] == "0" else -1], o[2] == "+")
        else:
            w.request(o)
        ctx.state(w.key())
    w.finish()
    ctx.outcome(w.key())


def gen_before(tier: str):
    for k in range(0, 4):
        for seq in itertools.product(["X1", "X3", "X5", "N1", "N2", "N4"], repeat=k):
            yield seq


def run_before(case, ctx: Ctx) -> None:
    """Counts before opening are local and the ones used to open."""
    c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, min_runspaces=2, max_runspaces=8)
    want = [2, 8]
    for k in case:
        fn = c.set_max_runspaces if k[0] == "X" else c.set_min_runspaces
        same(fn(int(k[1:])), None, "request before opening")
        want[1 if k[0] == "X" else 0] = int(k[1:])
        same([int(c.min_runspaces), int(c.max_runspaces)], want, "client counts")
        same(c.data_to_send(), None, "data sent before opening")
        ctx.step()
    s = psrpcore.ServerRunspacePool()
    c.open()
    ev = deliver(c, s)
    same([int(ev[1].min_runspaces), int(ev[1].max_runspaces)], want, "counts in the open request")
    same([int(s.min_runspaces), int(s.max_runspaces)], want, "server counts")
    deliver(s, c)
    same([int(c.min_runspaces), int(c.max_runspaces)], want, "client counts")
    ctx.state(tuple(want))
    ctx.outcome(tuple(want))


def gen_values(tier: str):
    vals = [0, 1, 2, 3, 7, 255, 256, 65535, 65536, 2**31 - 1]
    for k in ("X", "N"):
        for v in vals:
            for ok in (True, False):
                yield (k, v, ok)
    for v in vals + [-1, -(2**31), 2**31, 2**40, 2**63 - 1, -(2**63)]:
        yield ("G", v, True)


def run_values(case, ctx: Ctx) -> None:
    k, v, ok = case
    w = World(ctx)
    if k == "G":
        w.request("G")
        w.to_server()
        ci = w.open[0]
        w.s.runspace_availability_response(ci, v)
        ev = deliver(w.s, w.c)
        expect(len(ev) == 1 and isinstance(ev[0], psrpcore.GetRunspaceAvailabilityEvent), "answer %s", ev)
        same((int(ev[0].ci), int(ev[0].count)), (ci, v), "answer")
    else:
        w.request("%s%d" % (k, v))
        w.to_server()
        for ci in list(w.open):
            w.wrong()
            w.answer(ci, ok)
            w.to_client()
        w.finish()
    ctx.state(case)
    ctx.outcome(case)


def gen_following(tier: str):
    ks = [(k, v, ok) for k in "XN" for v in ((1, 2, 3, 7) if tier == "quick" else (1, 2, 3, 4, 5, 7, 9)) for ok in (True, False)]
    for n in (2, 3):
        for seq in itertools.product(ks, repeat=n):
            yield seq


def run_following(case, ctx: Ctx) -> None:
    """Settings one after another, with any minimum and maximum; a refused one can be asked for again."""
    w = World(ctx, probe=False)
    for k, v, ok in case:
        w.request("%s%d" % (k, v))
        w.to_server()
        for ci in list(w.open):
            w.answer(ci, ok)
        w.to_client()
        ctx.state(w.key())
    w.finish()
    ctx.outcome(w.key())


def gen_many(tier: str):
    for n in (3, 10, 40, 100, 130, 260) + ((600, 1100) if tier == "thorough" else ()):
        for order in ("fifo", "lifo", "odd-even", "one by one", "two behind"):
            for ks in (("G",), ("R",), ("X3", "X5"), ("N2", "G", "X3", "R", "X5", "N4")):
                yield (n, order, ks)
    yield (70000 if tier == "thorough" else 33000, "one by one", ("G", "X3", "X5"))


def run_many(case, ctx: Ctx) -> None:
    """Any number of requests, one after another or outstanding at the same time."""
    n, order, ks = case
    w = World(ctx, probe=False)
    lag = {"one by one": 1, "two behind": 3}.get(order, n)
    i = 0
    while i < n:
        k = ks[i % len(ks)]
        i += 1
        known = len(w.kind)
        w.request(k)
        if len(w.kind) == known:
            continue
        if lag < n:
            w.to_server()
            while len(w.open) >= lag:
                ci = w.open[0]
                w.answer(ci, i % 3 > 0)
                w.to_client()
                if i % 50 == 0:
                    same(reason(w.s.runspace_availability_response, ci, True)[0], "PSRPCoreError", "second answer for id %d" % ci)
        if i % 64 == 0:
            ctx.state(i, w.key() if lag < n else None)
    w.to_server()
    todo = list(w.open)
    if order == "lifo":
        todo.reverse()
    elif order == "odd-even":
        todo = todo[1::2] + todo[::2]
    for j, ci in enumerate(todo):
        w.answer(ci, w.kind[ci] == "G" or j % 2 == 0)
        if j % 7 == 0:
            w.to_client()
    w.to_client()
    if len(w.kind) < 200:
        w.probe = True
    w.finish()
    ctx.outcome(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "3..260 (1100) requests of 4 mixes answered in 5 orders, and 33000 (70000) one after another", 1, timeout=300.0),
    Scenario("sets", gen_sets, run_sets, "all lists of 1-3 requests over 5 kinds x all answer orders x accept/refuse x delivery points", 32),
    Scenario("sequences", gen_seq, run_seq, "all possible sequences of 6 (thorough 8) requests, deliveries, answers (oldest or newest) and a reconnection, at most 3 outstanding", 64),
    Scenario("following", gen_following, run_following, "all lists of 2-3 settings of 2 kinds x 4 (7) counts x accepted/refused, one after another", 64),
    Scenario("before", gen_before, run_before, "all sequences of up to 3 count settings before opening", 32),
    Scenario("values", gen_values, run_values, "boundary values of counts and answers", 8),
]

"""P04: open and connect leave both peers agreed on every negotiated setting."""
import datetime
import itertools
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc.canon import canon
from mc.core import Ctx, Scenario, Violation, expect, fail, same
from mc.pools import PIDS, RPID, capability, deliver, drain, events, inject, obj, reason

RULE = (
    "product of pool settings, host descriptions, application data and size limits; all delivery/poll schedules of the "
    "handshake up to a depth; all cut points of the previous client's last message before another client connects; "
    "both sides' settings are compared with the configuration after every completed handshake"
)
ASSUMPTIONS = ["application data contains values of every primitive kind and nested containers; value encoding in general is judged by P13-P15"]
S = t.RunspacePoolState


def data(ad) -> typing.Any:
    return tuple((canon(k), canon(v)) for k, v in dict.items(ad))


def host_default(k: int) -> typing.Any:
    """k selects values; every field gets a different one so that swaps are visible."""
    b = [1, -1, 0, 2**31 - 1, -(2**31), 1000][k % 6]

    def n(i: int) -> int:
        return max(-(2**31), min(2**31 - 1, b + (i if b < 2**31 - 100 else -i)))

    return t.HostDefaultData(
        ForegroundColor=t.ConsoleColor((k * 5 + 3) % 16),
        BackgroundColor=t.ConsoleColor(k % 16),
        CursorPosition=t.Coordinates(X=n(1), Y=n(2)),
        WindowPosition=t.Coordinates(X=n(3), Y=n(4)),
        CursorSize=n(5),
        BufferSize=t.Size(Width=n(6), Height=n(7)),
        WindowSize=t.Size(Width=n(8), Height=n(9)),
        MaxWindowSize=t.Size(Width=n(10), Height=n(11)),
        MaxPhysicalWindowSize=t.Size(Width=n(12), Height=n(13)),
        WindowTitle=["title", "", "caf\u00e9 _x000A_ \n<&>", "\U0001f600", "_x005F_", "a" * 300][k % 6],
    )


def host(spec) -> typing.Any:
    if spec is None:
        return None
    flags, k = spec
    return t.HostInfo(
        IsHostNull=bool(flags & 1), IsHostUINull=bool(flags & 2), IsHostRawUINull=bool(flags & 4),
        UseRunspaceHost=bool(flags & 8), HostDefaultData=None if k is None else host_default(k),
    )


ARGS: typing.List[typing.Any] = [
    None,
    {"a": "b"},
    {"s": "x_x000A_\n", "i": 1, "l": 2**40, "b": True, "n": None, "f": 1.5, "v": t.PSVersion("1.2.3.4"), "e": ""},
    {"nest": {"k": {"kk": [1, "two", {"three": 3}]}}, "list": [], "d": {}, "guid": t.PSGuid(int=5),
     "dt": t.PSDateTime(2021, 2, 3, 4, 5, 6, 7, nanosecond=800, tzinfo=datetime.timezone.utc), "by": b"\x00\xff"},
]
APD: typing.List[typing.Any] = [
    None,
    {"k": "v", "n": 7},
    {"PSVersionTable": {"PSVersion": t.PSVersion("7.1.2"), "PSRemotingProtocolVersion": t.PSVersion("2.3")}, "x": [1, None]},
    {"PSVersionTable": "none"},
]
COUNTS = [(1, 1), (2, 5), (3, 2**31 - 1), (7, 7)]


def copy(v: typing.Any) -> typing.Any:
    if type(v) is dict:
        return {k: copy(x) for k, x in v.items()}
    if type(v) is list:
        return [copy(x) for x in v]
    return v


def pick(table: typing.List[typing.Any], x: typing.Any) -> typing.Any:
    """An entry of the table or the value itself."""
    return table[x] if isinstance(x, int) else x


def make_client(cfg, rpid=RPID):
    ap, th, cnt, args, hs = cfg
    return psrpcore.ClientRunspacePool(
        application_arguments=copy(pick(ARGS, args)), apartment_state=t.ApartmentState(ap), host=host(hs),
        thread_options=t.PSThreadOptions(th), min_runspaces=pick(COUNTS, cnt)[0], max_runspaces=pick(COUNTS, cnt)[1], runspace_pool_id=rpid,
    )


def check_agreed(c, s, cfg, apd, opened: bool) -> None:
    same((c.state, s.state), (S.Opened, S.Opened), "states")
    same((c.runspace_pool_id, s.runspace_pool_id), (RPID, RPID), "pool ids")
    for a, b, who in ((c, s, "client"), (s, c, "server")):
        if who == "client" and not opened:
            continue  # a connecting client is not told the server's capabilities
        x, y = a.their_capability, b.our_capability
        expect(x is not None, "%s does not know the peer's capability", who)
        same(
            [canon(getattr(x, f)) for f in ("PSVersion", "protocolversion", "SerializationVersion")],
            [canon(getattr(y, f)) for f in ("PSVersion", "protocolversion", "SerializationVersion")],
            "capability known to the " + who,
        )
    want = pick(COUNTS, cfg[2])
    same((int(s.min_runspaces), int(s.max_runspaces)), want, "runspace counts of the server")
    same((int(c.min_runspaces), int(c.max_runspaces)), want, "runspace counts of the client")
    same(canon(s.apartment_state), ("ApartmentState", cfg[0]), "apartment state")
    same(canon(s.thread_options), ("PSThreadOptions", cfg[1]), "thread options")
    same(canon(s.host), canon(host(cfg[4]) or t.HostInfo()), "host")
    same(data(s.application_arguments), data(pick(ARGS, cfg[3]) or {}), "application arguments")
    same(data(c.application_private_data), data(s.application_private_data), "application private data")
    # what the server was configured with is still there
    for k, v in (pick(APD, apd) or {}).items():
        if k != "PSVersionTable":
            same(canon(c.application_private_data[k]), canon(v), "application private data " + k)
    if pick(APD, apd) and pick(APD, apd).get("PSVersionTable") == "none":
        same(canon(c.application_private_data["PSVersionTable"]), ("PSString", "none"), "PSVersionTable")
    same(c.data_to_send(), None, "client data after the handshake")
    same(s.data_to_send(), None, "server data after the handshake")


def works(c, s) -> None:
    """The pool is usable: a request is answered."""
    ci = c.get_available_runspaces()
    ev = deliver(c, s)
    same([type(e).__name__ for e in ev], ["GetAvailableRunspacesEvent"], "request after the handshake")
    same(int(ev[0].ci), ci, "call id")
    s.runspace_availability_response(ev[0].ci, 3)
    ev = deliver(s, c)
    same([(type(e).__name__, int(e.ci), e.count) for e in ev], [("GetRunspaceAvailabilityEvent", ci, 3)], "answer after the handshake")


# -------------------------------------------------------------------- configurations
def gen_config(tier: str):
    hosts: typing.List[typing.Any] = [None, (15, None), (0, 0), (8, 1), (5, 2)]
    for cnt, args, hs, apd in itertools.product(range(4), range(4), hosts, range(4)):
        for ap in range(3):
            for th in range(4):
                if tier == "quick" and (ap + th + cnt + args) % 2:
                    continue
                lim = [None, 500, 40, 32768][(ap + th * 3 + cnt + apd) % 4]
                yield ((ap, th, cnt, args, hs), apd, lim, "open")
    for ap, th, cnt in itertools.product(range(3), range(4), range(4)):
        for lim in (None, 22, 70, 500):
            for how in ("open", "connect_new", "connect_same", "reconnect"):
                yield ((ap, th, cnt, (ap + th) % 4, hosts[(th + cnt) % 5]), cnt, lim, how)


def gen_hosts(tier: str):
    for flags in range(16):
        for k in [None, *range(6 if tier == "quick" else 18)]:
            yield ((2, 0, 0, 0, (flags, k)), 0, None, "open")
    for k in range(16 * (1 if tier == "quick" else 6)):
        yield ((2, 0, 1, 1, (0, k)), 1, 300, "open")


def run_config(case, ctx: Ctx) -> None:
    cfg, apd, lim, how = case
    c = make_client(cfg)
    s = psrpcore.ServerRunspacePool(application_private_data=copy(APD[apd]))
    c.open()
    same((c.state, s.state), (S.Opening, S.BeforeOpen), "states")
    deliver(c, s, lim)
    ctx.step()
    expect(c.state == S.Opening and s.state == S.Opened, "states after the server answered: %s %s", c.state, s.state)
    ev = deliver(s, c, lim)
    ctx.step()
    same([e.message_type.name for e in ev], ["SessionCapability", "ApplicationPrivateData", "RunspacePoolState"], "events of the client")
    check_agreed(c, s, cfg, apd, True)
    c2 = c
    if how == "reconnect":
        c.disconnect(), s.disconnect(), c.reconnect(), s.reconnect()
        deliver(s, c)
        ctx.step(4)
    elif how.startswith("connect"):
        c.begin_disconnect(), c.disconnect(), s.begin_disconnect(), s.disconnect()
        if how == "connect_new":
            c2 = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        s.connect()
        same(s.state, S.Connecting, "server state")
        c2.connect()
        same(c2.state, S.Connecting, "client state")
        deliver(c2, s, lim)
        same(s.state, S.Opened, "server state after the connect message")
        expect(c2.state == S.Connecting, "client is %s before any answer", c2.state)
        deliver(s, c2, lim)
        ctx.step(8)
    check_agreed(c2, s, cfg, apd, False)
    works(c2, s)
    ctx.state(case)
    ctx.outcome(how, cfg[:3])


# ------------------------------------------------------------------------ schedules
ACTS = ["c>s", "s>c", "c?", "s?"]


def gen_sched(tier: str):
    n = 5 if tier == "quick" else 7
    for how in ("open", "connect"):
        for lim in (None, 1500, 350):
            for seq in itertools.product(range(4), repeat=n):
                yield (how, lim, seq)


CFG = (1, 2, 1, 2, (8, 1))


def run_sched(case, ctx: Ctx) -> None:
    how, lim, seq = case
    c = make_client(CFG)
    s = psrpcore.ServerRunspacePool(application_private_data=copy(APD[1]))
    c.open()
    if how == "connect":
        deliver(c, s)
        deliver(s, c)
        s.disconnect()
        s.connect()
        c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        c.connect()
    got: typing.Dict[str, typing.List[str]] = {"c": [], "s": []}
    wantc = ["SessionCapability"] if how == "open" else ["RunspacePoolInitData"]
    wantc += ["ApplicationPrivateData", "RunspacePoolState"]
    wants = ["SessionCapability", "InitRunspacePool" if how == "open" else "ConnectRunspacePool"]

    def act(a: str) -> bool:
        ctx.step()
        if a[1] == ">":
            src, dst = (c, s) if a[0] == "c" else (s, c)
            p = src.data_to_send(lim)
            if p is not None:
                dst.receive_data(p)
            res = p is not None
        else:
            e = (c if a[0] == "c" else s).next_event()
            if e is not None:
                got[a[0]].append(e.message_type.name)
            res = e is not None
        same(got["c"], wantc[: len(got["c"])], "client events")
        same(got["s"], wants[: len(got["s"])], "server events")
        if how == "open":
            same(c.state, S.Opened if "RunspacePoolState" in got["c"] else S.Opening, "client state")
        else:
            same(c.state, S.Opened if "ApplicationPrivateData" in got["c"] else S.Connecting, "client state")
        if len(got["s"]) < 2:
            expect(s.state in (S.BeforeOpen, S.Opening, S.Connecting), "server state %s", s.state)
        else:
            same(s.state, S.Opened, "server state")
        ctx.state(how, lim, str(c.state), str(s.state), len(got["c"]), len(got["s"]), a, res)
        return res

    for i in seq:
        act(ACTS[i])
    for _ in range(400):
        if not any([act(a) for a in ACTS]):
            break
    same((got["c"], got["s"]), (wantc, wants), "events")
    check_agreed(c, s, CFG, 1, how == "open")
    works(c, s)
    ctx.outcome(how, lim)


# ------------------------------------------------------------- client lost mid message
def last_message(c, s, k: int):
    """The previous client's last payload(s); the server knows nothing of them yet."""
    if k == 0:
        c.get_available_runspaces()
    elif k == 1:
        c.set_max_runspaces(9)
    elif k == 2:
        ps = psrpcore.ClientPowerShell(c, pipeline_id=PIDS[0])
        psrpcore.ServerPipeline(s, PIDS[0])
        ps.add_script("x" * 100)
        ps.start()
    elif k == 3:
        c.get_available_runspaces()
        c.reset_runspace_state()
    return b"".join(p.data for p in drain(c, [None, 60, 200][k % 3]))


def lost_pair():
    c = make_client(CFG)
    s = psrpcore.ServerRunspacePool(application_private_data=copy(APD[1]))
    c.open()
    deliver(c, s)
    deliver(s, c)
    return c, s


def gen_lost(tier: str):
    for k in range(4):
        raw = last_message(*lost_pair(), k)
        for cut in range(1, len(raw)):
            for polled in (0, 1):
                if tier == "quick" and k == 3 and polled:
                    continue
                yield (k, cut, polled)


def run_lost(case, ctx: Ctx) -> None:
    k, cut, polled = case
    c, s = lost_pair()
    # the previous client already sent something complete so that its object ids are above 1
    works(c, s)
    raw = last_message(c, s, k)[:cut]
    if polled == 1:
        s.receive_data(psrpcore.PSRPPayload(raw, psrpcore.StreamType.default, None))
        names = [type(e).__name__ for e in events(s)]
    else:
        for i in range(0, len(raw), 50):
            s.receive_data(psrpcore.PSRPPayload(raw[i:i + 50], psrpcore.StreamType.default, None))
        names = [type(e).__name__ for e in events(s)]
    expect(len(names) <= 1, "events of an incomplete message: %s", names)
    pipes = list(s.pipeline_table)
    s.disconnect()
    s.connect()
    c2 = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    c2.connect()
    got = [e.message_type.name for e in deliver(c2, s)]
    same(got, ["SessionCapability", "ConnectRunspacePool"], "events of the server")
    got = [e.message_type.name for e in deliver(s, c2)]
    same(got, ["RunspacePoolInitData", "ApplicationPrivateData", "RunspacePoolState"], "events of the new client")
    check_agreed(c2, s, CFG, 1, False)
    works(c2, s)
    same(list(s.pipeline_table), pipes, "pipelines of the server")
    ctx.step(10)
    ctx.state(case)
    ctx.outcome(k, tuple(names))


# -------------------------------------------------------------------- another pool
def gen_other(tier: str):
    for bits in [1 << i for i in range(128)] + [2**128 - 1]:
        for lim in (None, 100):
            yield (RPID.int ^ bits, lim, 0)
            yield (RPID.int ^ bits, lim, 1)


def run_other(case, ctx: Ctx) -> None:
    rpid, lim, prefix = case
    c, s = lost_pair()
    s.disconnect()
    s.connect()
    wrong = psrpcore.ClientRunspacePool(runspace_pool_id=uuid.UUID(int=rpid))
    wrong.connect()
    pieces = drain(wrong, lim)
    if prefix:
        # only the connect message, no capability exchange
        data = b"".join(p.data for p in pieces)
        from mc import wire
        keep = b"".join(wire.frag(f.oid, f.fid, f.start, f.end, f.data) for f in wire.frags(data) if f.oid == 2)
        pieces = [psrpcore.PSRPPayload(keep, psrpcore.StreamType.default, None)]
    refused = 0
    for p in pieces:
        s.receive_data(p)
        while True:
            name, e = reason(s.next_event)
            ctx.step()
            if name == "ok" and e is None:
                break
            if name != "ok":
                same(name, "PSRPCoreError", "refusal")
                refused += 1
            same((s.state, s.runspace_pool_id), (S.Connecting, RPID), "server after a connection for another pool")
    expect(refused >= 1, "a connection for another pool is not refused")
    same(s.data_to_send(), None, "answer to a connection for another pool")
    same((int(s.min_runspaces), int(s.max_runspaces)), COUNTS[CFG[2]], "runspace counts")
    c2 = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    c2.connect()
    deliver(c2, s, lim)
    deliver(s, c2, lim)
    check_agreed(c2, s, CFG, 1, False)
    works(c2, s)
    ctx.state(case)
    ctx.outcome(refused)


# ------------------------------------------------------------- settings changed on the way
def gen_change(tier: str):
    """Counts set before opening, and changed while open, are the ones a new client is told."""
    vals = (1, 2, 6)
    for a in itertools.product((None, *vals), repeat=2):
        for b in itertools.product((None, *vals), repeat=2):
            for ok in itertools.product((True, False), repeat=2):
                if (b[0] is None and not ok[0]) or (b[1] is None and not ok[1]):
                    continue
                yield (a, b, ok)


def run_change(case, ctx: Ctx) -> None:
    (a0, a1), b, ok = case
    c = make_client((0, 0, 0, 0, None))
    s = psrpcore.ServerRunspacePool()
    want = [1, 1]
    for i, (v, fn) in enumerate(((a0, c.set_min_runspaces), (a1, c.set_max_runspaces))):
        if v is not None:
            same(fn(v), None, "request before opening")
            want[i] = v
    c.open()
    deliver(c, s)
    deliver(s, c)
    same([int(c.min_runspaces), int(c.max_runspaces)], want, "client counts")
    same([int(s.min_runspaces), int(s.max_runspaces)], want, "server counts")
    for i, (v, fn) in enumerate(((b[0], c.set_min_runspaces), (b[1], c.set_max_runspaces))):
        if v is None or fn(v) is None:
            continue
        ev = deliver(c, s)
        s.runspace_availability_response(ev[0].ci, ok[i])
        deliver(s, c)
        if ok[i]:
            want[i] = v
    same([int(c.min_runspaces), int(c.max_runspaces)], want, "client counts")
    s.disconnect()
    s.connect()
    c2 = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, min_runspaces=50, max_runspaces=60)
    c2.connect()
    deliver(c2, s)
    deliver(s, c2)
    same([int(c2.min_runspaces), int(c2.max_runspaces)], want, "counts of the connected client")
    same([int(s.min_runspaces), int(s.max_runspaces)], want, "counts of the server after the connect")
    works(c2, s)
    ctx.step(12)
    ctx.state(case)
    ctx.outcome(tuple(want))


# ------------------------------------------------------------------ what changed while nobody was connected
CHANGES = ["add", "drop", "replace", "all"]


def gen_between(tier: str):
    """The server's private data changes and the next client may ask for counts."""
    for how in ("new", "same"):
        for first in range(len(APD)):
            for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                for seq in itertools.product(CHANGES, repeat=n):
                    yield (how, first, seq, None, None)
        for ask in itertools.product((None, 1, 2, 5, 9), repeat=2):
            for cnt in range(len(COUNTS)):
                yield (how, 1, ("add",), ask, cnt)


def run_between(case, ctx: Ctx) -> None:
    how, first, seq, ask, cnt = case
    c = make_client((0, 0, cnt or 0, 0, None))
    s = psrpcore.ServerRunspacePool(application_private_data=copy(APD[first]))
    c.open()
    deliver(c, s)
    deliver(s, c)
    counts = list(COUNTS[cnt or 0])
    for i, change in enumerate((*seq, None)):
        same(data(c.application_private_data), data(s.application_private_data), "application private data")
        same([int(x) for x in (c.min_runspaces, c.max_runspaces, s.min_runspaces, s.max_runspaces)], counts * 2, "runspace counts")
        if change is None:
            break
        c.disconnect()
        s.disconnect()
        held = s.application_private_data
        if change == "add":
            held["new%d" % i] = i
        elif change == "drop" and held:
            held.pop(sorted(held)[0])
        elif change in ("drop", "replace"):
            held[sorted(held)[-1] if held else "x"] = ["other", i]
        else:
            s.application_private_data = {"only": i}
        if how == "new":
            c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        s.connect()
        if ask is None:
            c.connect()
            deliver(c, s)
        else:
            # another implementation may name the counts it wants in its message
            c.connect()
            fields = {}
            for j, (n, v) in enumerate(zip(("MinRunspaces", "MaxRunspaces"), ask)):
                if v is not None:
                    fields[n] = "<I32>%d</I32>" % v
                    counts[j] = v
            caps = drain(c)
            inject(s, True, "SessionCapability", capability("2.3"), oid=1, rpid=RPID)
            inject(s, True, "ConnectRunspacePool", obj(**fields), oid=2, rpid=RPID)
            expect(len(caps) > 0, "nothing was sent to connect")
            events(s)
        deliver(s, c)
        same((c.state, s.state), (S.Opened, S.Opened), "states")
        ctx.step(4)
    ctx.state(case)
    ctx.outcome(how, seq)


# ------------------------------------------------------------------ how many and how long
def gen_many(tier: str):
    from mc.values import sizes

    top = 1024 if tier == "quick" else 4096
    for n in sizes(tier, top):
        for what in ("keys", "text", "list"):
            for lim in (None, 97):
                yield (what, n, lim)
        if n <= (60 if tier == "quick" else 150):
            yield ("depth", n, 300)
        if n <= 300:
            yield ("clients", n, None)
    for n in sizes(tier, 100000):
        yield ("counts", max(1, n), None)
        yield ("text", n, 32768)


def run_many(case, ctx: Ctx) -> None:
    what, n, lim = case
    args: typing.Dict[str, typing.Any] = {"a": 1}
    apd: typing.Dict[str, typing.Any] = {"b": 2}
    counts, hs = (1, 1), None
    if what == "keys":
        args = {"k%d" % i: "v%d" % i if i % 2 else i for i in range(n)}
        apd = {"p%d" % i: "w%d" % i if i % 3 else None for i in range(n)}
    elif what == "text":
        args, apd = {"a": "x" * n, "after": 1}, {"b": "y" * n, "after": 2}
    elif what == "list":
        args, apd = {"a": list(range(n)), "after": [n]}, {"b": ["e%d" % i for i in range(n)]}
    elif what == "depth":
        x: typing.Any = "end"
        for i in range(n):
            x = [x] if i % 2 else {"k": x}
        args, apd = {"a": x, "b": {"c": x}}, {"a": x}
    elif what == "counts":
        counts = (n, n + n % 3)
    cfg = (n % 3, n % 4, counts, args, None)
    c = make_client(cfg)
    s = psrpcore.ServerRunspacePool(application_private_data=copy(apd))
    c.open()
    deliver(c, s, lim)
    deliver(s, c, lim)
    check_agreed(c, s, cfg, apd, True)
    ctx.step(4)
    for i in range(n if what == "clients" else 1):
        c.begin_disconnect(), c.disconnect(), s.begin_disconnect(), s.disconnect()
        if i % 3 != 1:
            c = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
        s.connect()
        c.connect()
        deliver(c, s, lim)
        deliver(s, c, lim)
        ctx.step(4)
        if i < 3 or i % 16 == 0 or i > n - 3:
            check_agreed(c, s, cfg, apd, False)
    works(c, s)
    ctx.state(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "up to 140 (300) and around each power of two and ten up to 1024 (4096; texts and counts 100000): keys, text lengths, list lengths, nesting (60, 150), clients one after the other, counts"),
    Scenario("config", gen_config, run_config, "apartment x thread options x 4 count pairs x 4 argument sets x 5 hosts x 4 private data sets, size limits none/22/40/70/500/32768; open, connect (same and new client), reconnect", 16),
    Scenario("hosts", gen_hosts, run_config, "all 16 host flag combinations x extreme and distinct values of every host field", 16),
    Scenario("schedules", gen_sched, run_sched, "all schedules of send/poll steps of both sides up to depth 5 (thorough 7) x size limits, then run to completion", 64),
    Scenario("lost", gen_lost, run_lost, "every byte cut point of 4 last messages (one fragmented) before the next client connects", 16),
    Scenario("other", gen_other, run_other, "connections for every pool id one bit away, whole or fragmented, with or without capability message", 16),
    Scenario("between", gen_between, run_between, "all sequences of up to 2 (3) of 4 changes of the private data, each followed by a connect (same or new client); 25 requests for counts x 4 previous counts", 16),
    Scenario("change", gen_change, run_change, "all combinations of count changes before opening and accepted or refused while open, then a new client", 16),
]

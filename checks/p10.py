"""P10: secure strings travel only encrypted and only after key exchange."""
import base64
import itertools
import os
import typing
import uuid

import psrpcore
from psrpcore import types as t

from mc import wire
from mc.canon import text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.values import sizes
from mc.pools import PIDS, RPID, drain, events, open_pair, reason, start_pair

RULE = (
    "all sequences of key exchange, key request, sending and delivery steps of both sides up to a depth against a "
    "reference model; every plaintext length around the cipher's block boundaries over several alphabets; every place a "
    "secure string can be put; all forwarding chains over three connections; the sent bytes are searched for the plain text"
)
ASSUMPTIONS = [
    "RSA key generation is replaced by two fixed keys per run; all other cryptography is the real one",
    "the server's own session key exists from the start, so only the client can be without one",
]


def forms(plain: str) -> typing.List[bytes]:
    if not plain.strip("\x00"):
        return []  # zero bytes are everywhere
    raw = [plain.encode("utf-8", "surrogatepass"), plain.encode("utf-16-le", "surrogatepass"),
           plain.encode("utf-16-be", "surrogatepass")]
    out = list(raw)
    for r in raw:
        for off in range(3):
            b = base64.b64encode(b"\x00" * off + r)[4 if off else 0:]
            out.append(b[: len(b) - 4])  # without the last group, which depends on what follows
    out.append(raw[0].hex().encode())
    out.append(raw[0].hex().upper().encode())
    # The headers of fragments and messages have zero bytes and counters, which a few zeros and one character look like.
    return [f for f in out if len(f) >= 6 and len(f.replace(b"\x00", b"")) >= 5]


def ship(src: typing.Any, dst: typing.Any, secrets: typing.Iterable[str] = ()) -> typing.List[typing.Any]:
    """Delivers everything and makes sure that no secret is readable in it."""
    fs = [f for s in secrets for f in forms(s)]
    for p in drain(src):
        for f in fs:
            expect(f not in p.data, "the plain text is readable in the sent data")
        dst.receive_data(p)
    return events(dst)


# --------------------------------------------------------------------- exchange
OPS = ["X", "R", "S", "W", "dc", "ds", "L"]
PLAIN = "s3cr3t-pl4in"


def gen_exchange(tier: str):
    n = 5 if tier == "quick" else 6
    for seq in itertools.chain(itertools.product(OPS, repeat=n), itertools.product(OPS[:-1], repeat=7) if tier != "quick" else ()):
        if any(a == b and a in ("dc", "ds") for a, b in zip(seq, seq[1:])) or seq.count("L") > 1 or seq[0] == "L":
            continue
        yield seq


def run_exchange(case, ctx: Ctx) -> None:
    c, s = open_pair()
    cp, sp = start_pair(c, s, PIDS[0], no_input=False)
    asked = client_key = False  # model: public key sent by the client / session key known to the client
    req = False  # the server asked or was given the public key
    to_c: typing.List[str] = []
    to_s: typing.List[str] = []
    early: typing.List[typing.Any] = []
    total: typing.Dict[str, int] = {}

    def down(check: bool = True):
        nonlocal asked, client_key, to_c
        ev = ship(s, c, [PLAIN])
        same([e.message_type.name for e in ev], to_c, "messages to the client")
        for e in ev:
            total[e.message_type.name] = total.get(e.message_type.name, 0) + 1
            if e.message_type.name == "PublicKeyRequest" and not asked:
                asked = True
                to_s.append("PublicKey")
            elif e.message_type.name == "EncryptedSessionKey":
                client_key = True
            elif e.message_type.name == "PipelineOutput":
                early.append(e.data)
        to_c = []
        for x in early:
            expect(isinstance(x, t.PSSecureString), "output arrived as %s", type(x).__name__)
            n, v = reason(x.decrypt)
            if client_key:
                same((n, text(v)), ("ok", PLAIN), "secure string from the server")
            else:
                same(n, "MissingCipherError", "decryption without the key")

    def up():
        nonlocal to_s, req
        ev = ship(c, s, [PLAIN])
        same([e.message_type.name for e in ev], to_s, "messages to the server")
        for e in ev:
            total[e.message_type.name] = total.get(e.message_type.name, 0) + 1
            if e.message_type.name == "PublicKey":
                req = True
                to_c.append("EncryptedSessionKey")
            elif e.message_type.name == "PipelineInput":
                same(text(e.data.decrypt()), PLAIN, "secure string from the client")
        to_s = []

    for o in case:
        ctx.step()
        if o == "X":
            c.exchange_key()
            if not asked:
                asked = True
                to_s.append("PublicKey")
        elif o == "R":
            s.request_key()
            if not req:
                req = True
                to_c.append("PublicKeyRequest")
        elif o == "S":
            n, _ = reason(cp.send, t.PSSecureString(PLAIN))
            if client_key:
                same(n, "ok", "sending a secure string")
                to_s.append("PipelineInput")
            else:
                same(n, "MissingCipherError", "sending a secure string without the key")
        elif o == "W":
            sp.write_output(t.PSSecureString(PLAIN))
            to_c.append("PipelineOutput")
        elif o == "L":
            # the connection is lost and made again: keys, requests and what waits to be sent stay
            for p in (c, s):
                p.disconnect()
            if not asked:
                same(reason(c.exchange_key)[0], "InvalidRunspacePoolState", "key exchange while disconnected")
            if not req:
                same(reason(s.request_key)[0], "InvalidRunspacePoolState", "key request while disconnected")
            for p in (c, s):
                p.reconnect()
            to_c.append("RunspacePoolState")
        elif o == "dc":
            down()
        else:
            up()
        ctx.state(asked, client_key, req, tuple(to_c), tuple(to_s))
    # however it started, it can be completed and both sides understand each other
    down()
    up()
    down()
    c.exchange_key()
    if not asked:
        asked = True
        to_s.append("PublicKey")
    up()
    down()
    expect(client_key, "the exchange did not complete")
    cp.send(t.PSSecureString(PLAIN))
    to_s.append("PipelineInput")
    up()
    s.request_key()
    c.exchange_key()
    down()
    up()
    for k in ("PublicKey", "EncryptedSessionKey"):
        same(total.get(k, 0), 1, "number of %s messages" % k)
    expect(total.get("PublicKeyRequest", 0) <= 1, "number of key requests")
    ctx.outcome(tuple(sorted(total.items())))


# ---------------------------------------------------------------- established pairs
def keyed(n: int = 0, key: typing.Optional[bytes] = None):
    c, s = open_pair()
    cp, sp = start_pair(c, s, PIDS[n], no_input=False)
    c.exchange_key()
    ship(c, s)
    ship(s, c)
    return c, s, cp, sp


_CACHE: typing.Dict[str, typing.Any] = {}
ALPHA = ["a", "\u00e9", "\u4e2d", "\U0001f600", "\x00", "\ud800", "\udfff", "\uffff", "<", "_x000A_", "ab", "\n", " "]


def gen_texts(tier: str):
    hi = 35 if tier == "quick" else 140
    for n in range(hi):
        for a in range(len(ALPHA)):
            yield (a, n)
    m = 4 if tier == "quick" else 5
    for k in range(1, m):
        for seq in itertools.product(range(7), repeat=k):
            yield ("seq", seq)
    for n in sizes(tier, 70000):
        if n >= hi:
            yield (0, n)
            if n > 120 or tier != "quick":
                yield (3, n)


def run_texts(case, ctx: Ctx) -> None:
    plain = "".join(ALPHA[i] for i in case[1]) if case[0] == "seq" else ALPHA[case[0]] * case[1]
    w = _CACHE.pop("w", None) or keyed()
    c, s, cp, sp = w
    cp.send(t.PSSecureString(plain))
    ev = ship(c, s, [plain])
    same(text(ev[0].data.decrypt()), text(plain), "secure string from the client")
    sp.write_output(t.PSSecureString(plain))
    ev = ship(s, c, [plain])
    same(text(ev[0].data.decrypt()), text(plain), "secure string from the server")
    same(text(ev[0].data.decrypt()), text(plain), "secure string decrypted again")
    _CACHE["w"] = w
    ctx.step(2)
    ctx.state(case)
    ctx.outcome(len(plain.encode("utf-16-le", "surrogatepass")))


# ----------------------------------------------------------------------- places
def wrap(kind: str, sec: typing.Any) -> typing.Any:
    if kind == "list":
        return ["x", sec, 1]
    if kind == "nested":
        return [{"k": [sec]}]
    if kind == "dict":
        return {"a": 1, "k": sec}
    if kind == "twice":
        return [sec, sec]
    if kind == "stack":
        return t.PSStack([sec])
    if kind == "queue":
        q = t.PSQueue()
        q.put(sec)
        return q
    if kind == "prop":
        o = t.PSCustomObject(a=1)
        t.add_note_property(o, "sec", sec)
        return o
    if kind == "primprop":
        o = t.PSString("carrier")
        t.add_note_property(o, "sec", sec)
        return o
    if kind == "cred":
        return t.PSCredential(UserName="user", Password=sec)
    if kind == "plain":
        return sec
    raise AssertionError(kind)


def find(v: typing.Any, seen: typing.Optional[set] = None) -> typing.List[typing.Any]:
    """All secure strings reachable from a received value."""
    seen = set() if seen is None else seen
    if isinstance(v, t.PSSecureString):
        return [v]
    if id(v) in seen or v is None:
        return []
    seen.add(id(v))
    out: typing.List[typing.Any] = []
    if isinstance(v, dict):
        for k, x in dict.items(v):
            out += find(k, seen) + find(x, seen)
    elif isinstance(v, list):
        for x in list.__iter__(v):
            out += find(x, seen)
    elif hasattr(v, "queue"):
        for x in list(v.queue):
            out += find(x, seen)
    if isinstance(v, t.PSObject) and not isinstance(v, (t.PSEnumBase, t.PSFlagBase)):
        for p in [*v.PSObject.adapted_properties, *v.PSObject.extended_properties]:
            out += find(p.get_value(v), seen)
    return out


KINDS = ["plain", "list", "nested", "dict", "twice", "stack", "queue", "prop", "primprop", "cred"]
M = t.HostMethodIdentifier


def call_first(w):
    c, s, cp, sp = w
    ci = sp.host_call(M.ReadLineAsSecureString)
    ship(s, c)
    return ci


def pcall_first(w):
    ci = w[1].host_call(M.ReadLineAsSecureString)
    ship(w[1], w[0])
    return ci


def arg_pipe(w, v, named):
    c, s, cp, sp = w
    ps = psrpcore.ClientPowerShell(c, pipeline_id=PIDS[5])
    psrpcore.ServerPipeline(s, PIDS[5])
    try:
        ps.add_command("cmd")
        if named:
            ps.add_parameter("Name", v)
        else:
            ps.add_argument(v)
        ps.start()
        return lambda e: e.pipeline.commands[0].parameters[0][1]
    finally:
        # both ends forget it again; a running pipeline is not closed but dropped from the tables
        c.pipeline_table.pop(PIDS[5], None)


# place -> (from the client, function(world, value) -> extractor of the received event)
PLACES: typing.Dict[str, typing.Tuple[bool, typing.Callable, typing.Callable]] = {
    "input": (True, lambda w: None, lambda w, x, v: (w[2].send(v), lambda e: e.data)[1]),
    "argument": (True, lambda w: None, lambda w, x, v: arg_pipe(w, v, False)),
    "parameter": (True, lambda w: None, lambda w, x, v: arg_pipe(w, v, True)),
    "response": (True, call_first, lambda w, ci, v: (w[2].host_response(ci, v), lambda e: e.result)[1]),
    "pool response": (True, pcall_first, lambda w, ci, v: (w[0].host_response(ci, v), lambda e: e.result)[1]),
    "response error": (True, call_first, lambda w, ci, v: (w[2].host_response(ci, None, t.ErrorRecord(
        Exception=t.NETException(Message="m"), CategoryInfo=t.ErrorCategoryInfo(), TargetObject=v)), lambda e: e.error.TargetObject)[1]),
    "output": (False, lambda w: None, lambda w, x, v: (w[3].write_output(v), lambda e: e.data)[1]),
    "error target": (False, lambda w: None, lambda w, x, v: (w[3].write_error(t.NETException(Message="m"), target_object=v),
                                                            lambda e: e.record.TargetObject)[1]),
    "information": (False, lambda w: None, lambda w, x, v: (w[3].write_information(v, "src", computer="c", user="u"),
                                                           lambda e: e.record.MessageData)[1]),
    "event": (False, lambda w: None, lambda w, x, v: (w[1].send_event(1, "src", sender=v, source_args=[v], message_data=v, computer="c"),
                                                     lambda e: e.event.MessageData)[1]),
    "call": (False, lambda w: None, lambda w, x, v: (w[3].host_call(M.WriteDebugLine, [v]), lambda e: e.method_parameters[0])[1]),
}


def gen_places(tier: str):
    for place in PLACES:
        for kind in KINDS:
            for ready in (True, False):
                for plain in (PLAIN, "", "p\u00e4ss \U0001f600 w\u00f6rd", "x" * 33):
                    if not ready and (plain != PLAIN or not PLACES[place][0]):
                        continue
                    yield (place, kind, plain, ready)


def run_places(case, ctx: Ctx) -> None:
    place, kind, plain, ready = case
    from_client, first, act = PLACES[place]
    if ready:
        w = _CACHE.pop("w", None) or keyed()
    else:
        c, s = open_pair()
        w = (c, s, *start_pair(c, s, PIDS[0], no_input=False))
    c, s, cp, sp = w
    x = first(w)
    sec = t.PSSecureString(plain)
    value = wrap(kind, sec)
    if not ready:
        n, _ = reason(act, w, x, value)
        same(n, "MissingCipherError", "secure string without the key")
        same(c.data_to_send(), None, "data sent without the key")
        # the connection goes on and the same value can be sent after the exchange
        c.exchange_key()
        ship(c, s)
        ship(s, c)
    get = act(w, x, value)
    ev = ship(c, s, [plain]) if from_client else ship(s, c, [plain])
    same(len(ev), 1, "events")
    got = find(get(ev[0]))
    same([text(g.decrypt()) for g in got], [text(plain)] * (2 if kind == "twice" else 1), "secure strings received")
    same(text(sec.decrypt()), text(plain), "the sender's secure string")
    s.pipeline_table.pop(PIDS[5], None)
    if ready:
        _CACHE["w"] = w
    ctx.step(3)
    ctx.state(case)
    ctx.outcome(place, kind, ready)


# -------------------------------------------------------------------- forwarding
def gen_forward(tier: str):
    n = 3 if tier == "quick" else 5
    hops = [(i, d) for i in range(3) for d in ("up", "down")]
    for k in range(1, n + 1):
        for seq in itertools.product(hops, repeat=k):
            yield ("plain", seq)
            if k <= 2:
                yield ("cred", seq)
                yield ("same", seq)


def run_forward(case, ctx: Ctx) -> None:
    kind, seq = case
    ws = _CACHE.pop("three", None) or [keyed(i) for i in range(3)]
    sec = t.PSSecureString(PLAIN)
    value = wrap("cred", sec) if kind == "cred" else sec
    for i, d in seq:
        c, s, cp, sp = ws[i]
        if d == "up":
            cp.send(value)
            ev = ship(c, s, [PLAIN])
        else:
            sp.write_output(value)
            ev = ship(s, c, [PLAIN])
        got = find(ev[0].data)
        same([text(g.decrypt()) for g in got], [PLAIN], "forwarded secure string")
        same(text(sec.decrypt()), PLAIN, "the original")
        if kind != "same":
            value = ev[0].data
        ctx.step()
        ctx.state(kind, i, d)
    _CACHE["three"] = ws
    ctx.outcome(kind, len(seq))


# -------------------------------------------------------------------------- keys
KEYS = [bytes(32), b"\xff" * 32, b"\x00" * 31 + b"\x01", b"\x01" + b"\x00" * 31, bytes(range(32)), b"\x00\x00" + bytes(range(30))]


def gen_keys(tier: str):
    for k in range(len(KEYS)):
        for rep in range(2 if tier == "quick" else 8):
            yield ("key", k)
    for end in ("first", "last"):
        for k in range(2 if tier == "quick" else 8):
            yield (end, k)


def run_keys(case, ctx: Ctx) -> None:
    kind, k = case
    real = os.urandom
    try:
        if kind == "key":
            os.urandom = lambda n: (KEYS[k] * (n // 32 + 1))[:n]  # type: ignore
        c, s = open_pair()
    finally:
        os.urandom = real
    cp, sp = start_pair(c, s, PIDS[0], no_input=False)
    c.exchange_key()
    if kind == "key":
        ship(c, s)
        ship(s, c)
    else:
        # the same public key is sent until the wrapped key begins or ends with a zero byte (2048 bit RSA block)
        raw = drain(c)
        body = wire.msg(wire.frags(raw[0].data)[0].data)
        for n in range(20000):
            s.receive_data(psrpcore.PSRPPayload(wire.whole(wire.build(True, "PublicKey", RPID, None, body.data), n + 50), raw[0].stream_type, None))
            events(s)
            out = drain(s)
            m = wire.msg(wire.frags(out[0].data)[0].data)
            from xml.etree import ElementTree as ET
            blob = base64.b64decode("".join(ET.fromstring(m.data).itertext()))
            if blob[12 if kind == "first" else -1] == 0:
                for p in out:
                    c.receive_data(p)
                events(c)
                break
        else:
            return
    cp.send(t.PSSecureString(PLAIN))
    ev = ship(c, s, [PLAIN])
    same(text(ev[0].data.decrypt()), PLAIN, "secure string from the client")
    sp.write_output(t.PSSecureString(PLAIN))
    ev = ship(s, c, [PLAIN])
    same(text(ev[0].data.decrypt()), PLAIN, "secure string from the server")
    ctx.step(4)
    ctx.state(case)
    ctx.outcome(case)


# ---------------------------------------------------------- pools of one process and later clients
def gen_later(tier: str):
    for first_keyed in (True, False):
        for how in ("exchange", "request-first"):
            for kind in ("input", "output"):
                yield (first_keyed, how, kind)


def run_later(case, ctx: Ctx) -> None:
    """A client connecting later has no key until it exchanged one itself."""
    first_keyed, how, kind = case
    c, s = open_pair()
    if first_keyed:
        c.exchange_key()
        ship(c, s)
        ship(s, c)
    s.disconnect()
    s.connect()
    c2 = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    c2.connect()
    ship(c2, s)
    ship(s, c2)
    cp, sp = start_pair(c2, s, PIDS[0], no_input=False)
    n, _ = reason(cp.send, t.PSSecureString(PLAIN))
    same(n, "MissingCipherError", "secure string of a client without a key")
    same(c2.data_to_send(), None, "data")
    if how == "request-first":
        s.request_key()
        ship(s, c2)
        ship(c2, s)
        ship(s, c2)
    c2.exchange_key()
    ship(c2, s)
    ship(s, c2)
    if kind == "input":
        cp.send(t.PSSecureString(PLAIN))
        ev = ship(c2, s, [PLAIN])
    else:
        sp.write_output(t.PSSecureString(PLAIN))
        ev = ship(s, c2, [PLAIN])
    same(text(ev[0].data.decrypt()), PLAIN, "secure string")
    ctx.step(8)
    ctx.state(case)
    ctx.outcome(case)


# ------------------------------------------------------------------ how many
def gen_many(tier: str):
    few = [n for n in sizes(tier, 1024) if n < 20 or n % 3 == 0 or n > 250]
    for n in few:
        for k in ("list", "distinct", "creds", "props"):
            yield (k, n)
    for n in (300, 1000) if tier == "quick" else (300, 1000, 5000):
        yield ("messages", n)
        yield ("same", n)


def run_many(case, ctx: Ctx) -> None:
    """Any number of secure strings in one message or on one connection, lengths mixed."""
    k, n = case
    c, s, cp, sp = keyed()
    words = ["%s%d" % (PLAIN[: 6 + i % 7], i) + "x" * (i * 5 % 19) for i in range(n)]

    def both(v, want):
        for d in (0, 1):
            (sp.write_output if d else cp.send)(v)
            ev = ship(s, c, want[:3]) if d else ship(c, s, want[:3])
            same(len(ev), 1, "events")
            same([text(g.decrypt()) for g in find(ev[0].data)], [text(w) for w in want], "secure strings")
            ctx.step()

    if k == "list":
        sec = t.PSSecureString(PLAIN)
        v: typing.Any = [sec] * n
        both(v, [PLAIN] * n)
    elif k == "distinct":
        v = [t.PSSecureString(w) if i % 3 else {"k": t.PSSecureString(w)} for i, w in enumerate(words)]
        both(v, words)
    elif k == "creds":
        both([t.PSCredential(UserName="u%d" % i, Password=t.PSSecureString(w)) for i, w in enumerate(words)], words)
    elif k == "props":
        o = t.PSCustomObject(a=1)
        for i, w in enumerate(words):
            t.add_note_property(o, "p%d" % i, t.PSSecureString(w))
        both(o, words)
    else:
        sec = t.PSSecureString(PLAIN)
        for i, w in enumerate(words):
            both(sec if k == "same" else t.PSSecureString(w), [PLAIN if k == "same" else w])
        same(text(sec.decrypt()), PLAIN, "the first secure string")
    ctx.state(case)
    ctx.outcome(k)


# ------------------------------------------------------------------ every character
def gen_units(tier: str):
    for hi in range(256):
        yield ("unit", hi)
    for plane in range(1, 17):
        yield ("plane", plane)


def run_units(case, ctx: Ctx) -> None:
    """Every UTF-16 code unit (and the ends of every further plane) at the start, in the middle and at the end."""
    k, n = case
    w = _CACHE.pop("w", None) or keyed()
    c, s, cp, sp = w
    chars = [chr(n * 256 + i) for i in range(256)] if k == "unit" else [chr(n * 0x10000 + i) for i in (0, 1, 0xFF, 0xFE00, 0xFFFD, 0xFFFE, 0xFFFF)]
    words = [x for ch in chars for x in (ch + "ab", "a" + ch)]
    if k == "unit" and 0xD8 <= n <= 0xDF:
        words = [x for ch in chars for x in (ch, ch + "ab", "a" + ch, "a" + ch + "b" * 6, ch * 4)]
    for d in (0, 1):
        (sp.write_output if d else cp.send)([t.PSSecureString(x) for x in words])
        ev = ship(s, c) if d else ship(c, s)
        same(len(ev), 1, "events")
        same([text(g.decrypt()) for g in ev[0].data], [text(x) for x in words], "secure strings")
        ctx.step(len(words))
    _CACHE["w"] = w
    ctx.state(case)
    ctx.outcome(k)


SCENARIOS = [
    Scenario("units", gen_units, run_units, "every UTF-16 code unit and the ends of every plane, first and last, both directions", 4),
    Scenario("many", gen_many, run_many, "up to 1024 secure strings in one message, up to 1000 (5000) messages each way on one connection", 1, timeout=120.0),
    Scenario("exchange", gen_exchange, run_exchange, "all sequences of 5 (thorough 6, without reconnection 7) exchange/request/send/deliver steps with at most one reconnection", 64),
    Scenario("texts", gen_texts, run_texts, "lengths 0-34 (thorough 139) of 13 characters, all strings up to length 3 (4) over 7 characters, large lengths; both directions", 64),
    Scenario("places", gen_places, run_places, "11 places x 10 containers x 4 texts, before and after the exchange", 32),
    Scenario("forward", gen_forward, run_forward, "all chains of up to 3 (thorough 5) hops over three connections, both directions", 32),
    Scenario("keys", gen_keys, run_keys, "extreme session keys; wrapped keys beginning or ending with a zero byte", 2, 60.0),
    Scenario("later", gen_later, run_later, "a client connecting after a keyed or unkeyed one", 2),
]

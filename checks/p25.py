"""P25: looking at pools, pipelines, events and values changes nothing and gives no secret away."""
import base64
import enum
import gc
import itertools
import logging
import os
import queue
import typing
import uuid
from xml.etree import ElementTree as ET

import psrpcore
from psrpcore import types as t

from checks.p24 import ADDRESS, KINDS, SCRIPTS, Session, change, desc, first_difference, forked, ref, view
from mc.canon import prim
from mc.core import Ctx, Scenario, fail
from mc.pools import reason

RULE = (
    "all sessions of P24's alphabet x all ways of looking at everything that can be reached x every point of the session "
    "(and all points at once, and all pairs of ways); all kinds of library objects x all sequences of two (thorough: three) "
    "ways of looking. Every result is compared with that on the same session or object that was not looked at"
)
ASSUMPTIONS = [
    "the plain text of a secure string is secret; it may be obtained with decrypt() only",
]


# ------------------------------------------------------------- ways of looking
def text(v: typing.Any) -> typing.Any:
    n, x = reason(lambda: str(v()))
    return ADDRESS.sub("at 0x", x) if n == "ok" else n


def xml(v: typing.Any) -> typing.Any:
    n, x = reason(lambda: ET.tostring(t.serialize(v, None)).decode())
    return x if n == "ok" else n


def members(v: typing.Any) -> typing.Any:
    out = []
    for a in dir(v):
        if a.startswith("_") or a == "PSObject":
            continue
        n, x = reason(getattr, v, a)
        if n != "ok" or not callable(x):
            out.append((a, n if n != "ok" else text(lambda: repr(x))))
    return out


def meta(v: typing.Any) -> typing.Any:
    if not isinstance(v, t.PSObject):
        return None
    m = v.PSObject
    if isinstance(v, t.PSSecureString):
        return len(m.type_names)
    out = [text(lambda: m.to_string), text(lambda: v.PSTypeNames)]
    for p in list(m.adapted_properties) + list(m.extended_properties):
        out.append((p.name, text(lambda: p.get_value(v)), text(lambda: v[p.name]), text(lambda: getattr(v, p.name))))
    return out


def items(v: typing.Any) -> typing.Any:
    if isinstance(v, queue.Queue):
        return [text(lambda: repr(x)) for x in list(v.queue)]
    return text(lambda: [repr(x) for x in v])


OTHER = object()
PARTS = (psrpcore.ClientRunspacePool, psrpcore.ServerRunspacePool, psrpcore.ClientPowerShell, psrpcore.ClientGetCommandMetadata, psrpcore.ServerPipeline)


def looks_for(v: typing.Any) -> typing.List[str]:
    """Pools and pipelines are not values: nobody serializes them."""
    parts = isinstance(v, PARTS) or isinstance(v, dict) and any(isinstance(x, PARTS) for x in v.values())
    return [n for n in LOOKS if not (parts and n in ("xml", "clixml"))]


LOOKS: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {
    "repr": lambda v: text(lambda: repr(v)),
    "str": lambda v: text(lambda: str(v)),
    "format": lambda v: text(lambda: format(v)),
    "hash": lambda v: reason(hash, v)[0],
    "equal": lambda v: (text(lambda: v == v), text(lambda: v == OTHER), text(lambda: v != 1), text(lambda: v in [None, v])),
    "order": lambda v: (text(lambda: v < v), text(lambda: v >= v)),
    "bool": lambda v: text(lambda: bool(v)),
    "len": lambda v: text(lambda: len(v)),
    "items": items,
    "members": members,
    "meta": meta,
    "xml": xml,
    "clixml": lambda v: text(lambda: t.serialize_clixml(v, None)),
}


# --------------------------------------------------------------------- objects
def values_only(v: typing.Any) -> None:
    """Gives everything v holds another value, as its user would."""
    if isinstance(v, (enum.Enum, type)) or isinstance(v, PARTS):
        return
    if isinstance(v, dict):
        for k in list(dict.keys(v)):
            reason(dict.__setitem__, v, k, "other")
        reason(dict.__setitem__, v, "more", 1)
    elif isinstance(v, list):
        for i in range(list.__len__(v)):
            list.__setitem__(v, i, "other")
        list.append(v, "more")
    elif isinstance(v, queue.Queue):
        if not v.empty():
            v.get()
        v.put("more")
    if isinstance(v, t.PSObject):
        for p in list(v.PSObject.adapted_properties) + list(v.PSObject.extended_properties):
            for x in ("other", 77, None):
                if reason(setattr, v, p.name, x)[0] == "ok":
                    break
    for a, x in list(getattr(v, "__dict__", {}).items()):
        if not a.startswith("_") and isinstance(x, (str, int)) and not isinstance(x, enum.Enum):
            reason(setattr, v, a, not x if isinstance(x, bool) else x + x)


CHANGES: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {
    "nothing": lambda v: None,
    "values": values_only,
    "everything": change,
}


def gen_objects(tier: str):
    for k in KINDS:
        looks = looks_for(KINDS[k]())
        for a in looks:
            for c in CHANGES:
                yield (k, (a,), c)
                for b in looks:
                    if tier == "thorough":
                        for d in looks:
                            yield (k, (a, b, d), c)
                    elif c != "everything":
                        yield (k, (a, b), c)


def after(kind: str, how: str) -> typing.Any:
    """What every way of looking shows of an object nothing was looked at before."""

    def one(n: str) -> typing.Any:
        v = KINDS[kind]()
        reason(CHANGES[how], v)  # a blank object may not bear it
        return LOOKS[n](v)

    v = KINDS[kind]()
    reason(CHANGES[how], v)  # a blank object may not bear it
    return {n: (one(n), one(n)) for n in looks_for(v)}, view(v)


def run_objects(case, ctx: Ctx) -> None:
    kind, looks, how = case
    before, _ = ref(("looked", kind, "nothing"), lambda: after(kind, "nothing"))
    want, plain = ref(("looked", kind, how), lambda: after(kind, how))
    v = KINDS[kind]()

    def look(n: str, what: typing.Any, when: str) -> None:
        got = LOOKS[n](v)
        a, b = what
        if a == b and got != a:  # else it has something random
            fail("%s of a %s %s: %s", n, kind, when, first_difference(a, got))
        ctx.step()

    for i, n in enumerate(looks):
        look(n, before[n], "after %s" % (looks[:i],))
    reason(CHANGES[how], v)  # a blank object may not bear it
    got = view(v)
    if got != plain:
        fail("a %s looked at with %s, then changed (%s): %s", kind, looks, how, first_difference(plain, got))
    for n in looks_for(v):
        look(n, want[n], "after %s and a change (%s)" % (looks, how))
    ctx.state(kind, looks, how)
    ctx.outcome(kind, looks[-1], how)


# -------------------------------------------------------------------- sessions
class Watched(Session):
    """Keeps what it was given, so that it can be looked at."""

    def __init__(self, k: int) -> None:
        super().__init__(k, False)
        self.kept: typing.List[typing.Any] = []
        self.secrets: typing.List[str] = []
        self.texts: typing.List[str] = []

    def do_sec(self):
        self.secret = True
        x = self.text()
        self.secrets.append(x)
        s = t.PSSecureString(x)
        self.kept.append(s)
        self.cp.send([s, {"k": s}])

    def do_secout(self):
        self.secret = True
        x = self.text()
        self.secrets.append(x)
        s = t.PSSecureString(x)
        self.kept.append(s)
        self.sp.write_output(t.PSCustomObject(Secret=s))

    def seen(self, pool):
        real = pool.next_event
        kept = self.kept

        class Poll:
            @staticmethod
            def next_event():
                e = real()
                if e is not None:
                    kept.append(e)
                return e

        return super().seen(Poll)

    def reached(self) -> typing.List[typing.Any]:
        out = [x for x in (self.c, self.s, self.cp, self.sp) if x is not None]
        for x in list(out):
            for a in ("application_arguments", "application_private_data", "their_capability", "our_capability", "host", "metadata", "pipeline_table"):
                n, v = reason(getattr, x, a)
                if n == "ok" and v is not None:
                    out.append(v)
        for e in self.kept:
            out.append(e)
            for a in dir(e):
                if not a.startswith("_"):
                    n, v = reason(getattr, e, a)
                    if n == "ok" and not callable(v):
                        out.append(v)
        return out

    def look(self, how: str) -> None:
        if how == "poll":
            for p in (self.c, self.s):
                if p is not None and p.next_event() is not None:
                    fail("an event nobody sent")
        elif how == "too small":
            for p in (self.c, self.s):
                if p is not None and reason(p.data_to_send, 21)[0] != "ValueError":
                    fail("amount 21 is accepted")
        elif how == "nothing":
            for p in (self.c, self.s):
                if p is not None:
                    p.receive_data(psrpcore.PSRPPayload(b"", psrpcore.StreamType.default, None))
        elif how == "collect":
            self.kept.clear()
            gc.collect()
        else:
            for v in self.reached():
                if how not in looks_for(v):
                    continue
                x = LOOKS[how](v)
                if how in ("repr", "str", "format", "members", "meta", "xml", "clixml"):
                    self.texts.append(str(x))


WAYS = ["repr", "str", "hash", "equal", "bool", "items", "members", "meta", "xml", "clixml", "poll", "too small", "nothing", "collect"]


def watched(name: str, k: int) -> typing.Any:
    s = Watched(k)
    for step in SCRIPTS[name].split():
        s.do(step)
    return s.log, s.snap()


class Texts(logging.Handler):
    def __init__(self) -> None:
        super().__init__(logging.DEBUG)
        self.texts: typing.List[str] = []

    def emit(self, record: logging.LogRecord) -> None:
        self.texts.append(record.getMessage())


def gen_sessions(tier: str):
    for name, script in SCRIPTS.items():
        n = len(script.split())
        for k in (0, 1):
            yield (name, k, "log", ())
            for w in WAYS:
                for i in range(n + 1):
                    yield (name, k, "", ((w, i),))
                yield (name, k, "log", tuple((w, i) for i in range(n + 1)))
            for a, b in itertools.permutations(WAYS, 2):
                if tier == "thorough":
                    for i in range(n + 1):
                        for j in range(i, n + 1):
                            yield (name, k, "", ((a, i), (b, j)))
                elif k:
                    yield (name, k, "", tuple((w, i) for i in range(n + 1) for w in (a, b)))


def run_sessions(case, ctx: Ctx) -> None:
    name, k, log, looks = case
    if name == "shell":
        looks = tuple(x for x in looks if x[0] == "collect")
    want = ref(("watched", name, k), lambda: watched(name, k))
    handler = Texts()
    logger = logging.getLogger("psrpcore")
    old, off = logger.level, logging.root.manager.disable
    if log:
        logging.disable(logging.NOTSET)
        logger.addHandler(handler)
        logger.setLevel(logging.DEBUG)
    keys: typing.List[bytes] = []
    generate = os.urandom

    def urandom(n: int) -> bytes:
        keys.append(generate(n))
        return keys[-1]

    os.urandom = urandom
    try:
        s = Watched(k)
        steps = SCRIPTS[name].split()
        for i in range(len(steps) + 1):
            for w, at in looks:
                if at == i:
                    s.look(w)
                    ctx.step()
            if i < len(steps):
                s.do(steps[i])
                ctx.step()
        got = (s.log, s.snap())
    finally:
        os.urandom = generate
        logger.removeHandler(handler)
        logger.setLevel(old)
        logging.disable(off)
    if got != want:
        fail("%s (%d), looked at %s %s: %s", name, k, log, looks, first_difference(want, got))
    for key in keys:  # the session key is made with os.urandom
        if len(key) == 32:
            s.secrets += [key.hex(), base64.b64encode(key).decode(), repr(key), key.hex().upper()]
    for x in s.secrets:
        for y in s.texts + handler.texts:
            if x in y:
                fail("%s (%d): the secret %r is in %.300s", name, k, x, y)
    ctx.state(name, k, log, looks)
    ctx.outcome(name, log, bool(s.texts), bool(s.secrets))


SCENARIOS = [
    Scenario("objects", gen_objects, run_objects, "%d kinds of library objects x all sequences of up to two (three) of %d ways of looking x {no change, other values, everything changed} x all ways of looking afterwards" % (len(KINDS), len(LOOKS)), 256),
    Scenario("sessions", gen_sessions, run_sessions, "%d sessions x %d ways x every point; every ordered pair of ways at all points (at all pairs of points); with and without debug logging" % (len(SCRIPTS), len(WAYS)), 32),
]

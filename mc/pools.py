"""Helpers shared by the checks; only psrpcore's public API is used."""
import typing
import uuid
from xml.etree import ElementTree as ET

import psrpcore
from psrpcore import types as t

from mc import wire
from mc.core import Violation, expect, fail, same

RPID = uuid.UUID("11223344-5566-7788-99aa-bbccddeeff00")
PIDS = [uuid.UUID(int=0xA0000000000000000000000000000000 + i) for i in range(1, 9)]
D = psrpcore.StreamType.default
P = psrpcore.StreamType.prompt_response


def drain(pool: typing.Any, limit: typing.Optional[int] = None, cap: int = 100000) -> typing.List[typing.Any]:
    out = []
    while True:
        p = pool.data_to_send(limit)
        if p is None:
            return out
        out.append(p)
        if len(out) > cap:
            fail("draining does not end")


class Outbox:
    """Decodes what a pool sends, with the independent codec."""

    def __init__(self, pool: typing.Any) -> None:
        self.pool = pool
        self.re = wire.Reassembler()
        self.raw: typing.List[typing.Any] = []

    def take(self) -> typing.List[typing.Tuple[str, typing.Optional[uuid.UUID], bytes]]:
        """Everything queued since the last call as (message type, pipeline id, body)."""
        n = len(self.re.done)
        for p in drain(self.pool):
            self.raw.append(p)
            for f in self.re.feed(p.data):
                pass
        out = []
        for _, blob in self.re.done[n:]:
            m = wire.msg(blob)
            out.append((m.type, m.pid, m.data))
        return out

    def types(self) -> typing.List[str]:
        return [m[0] for m in self.take()]


def deliver(src: typing.Any, dst: typing.Any, limit: typing.Optional[int] = None) -> typing.List[typing.Any]:
    """Moves everything from one pool to the other and returns the events."""
    for p in drain(src, limit):
        dst.receive_data(p)
    return events(dst)


def events(pool: typing.Any) -> typing.List[typing.Any]:
    out = []
    while True:
        e = pool.next_event()
        if e is None:
            return out
        out.append(e)
        if len(out) > 100000:
            fail("next_event never returns None")


def inject(pool: typing.Any, to_server: bool, typ: str, body: bytes, pid: typing.Optional[uuid.UUID] = None,
           oid: int = 1, rpid: typing.Optional[uuid.UUID] = None) -> None:
    """Hands a crafted message of a (simulated) peer to the pool."""
    blob = wire.build(to_server, typ, rpid or pool.runspace_pool_id, pid, body)
    pool.receive_data(psrpcore.PSRPPayload(wire.whole(blob, oid), D, pid))


def obj(**props: str) -> bytes:
    """<Obj> with extended properties given as raw XML, N attribute filled in."""
    x = "".join(v.replace(">", ' N="%s">' % k, 1) if not v.endswith("/>") or v.count("<") > 1
                else v.replace("/>", ' N="%s" />' % k, 1) for k, v in props.items())
    return ('<Obj RefId="0"><MS>%s</MS></Obj>' % x).encode()


def capability(version: str) -> bytes:
    return obj(
        protocolversion="<Version>%s</Version>" % version,
        PSVersion="<Version>2.0</Version>",
        SerializationVersion="<Version>1.1.0.1</Version>",
    )


def open_pair(client_kw: typing.Optional[dict] = None, server_kw: typing.Optional[dict] = None):
    c = psrpcore.ClientRunspacePool(**{"runspace_pool_id": RPID, **(client_kw or {})})
    s = psrpcore.ServerRunspacePool(**(server_kw or {}))
    c.open()
    deliver(c, s)
    deliver(s, c)
    expect(c.state == t.RunspacePoolState.Opened and s.state == t.RunspacePoolState.Opened, "pools do not open")
    return c, s


def start_pair(c: typing.Any, s: typing.Any, pid: uuid.UUID, **kw: typing.Any):
    """A running pipeline on both sides."""
    cp = psrpcore.ClientPowerShell(c, pipeline_id=pid, **kw)
    cp.add_script("s")
    sp = psrpcore.ServerPipeline(s, pid)
    cp.start()
    deliver(c, s)
    sp.start()
    deliver(s, c)
    return cp, sp


def reason(fn: typing.Callable, *a: typing.Any, **k: typing.Any) -> typing.Tuple[str, typing.Any]:
    """('ok', value) or (exception class name, exception)."""
    try:
        return "ok", fn(*a, **k)
    except (Violation, KeyboardInterrupt):
        raise
    except Exception as e:
        return type(e).__name__, e


def xml(body: bytes) -> ET.Element:
    return ET.fromstring(body)


def props(body: bytes) -> typing.Dict[str, ET.Element]:
    """The extended properties (MS) of a message object by name."""
    out: typing.Dict[str, ET.Element] = {}
    el = xml(body)
    ms = el.find("MS")
    if ms is not None:
        for ch in ms:
            out[ch.attrib.get("N", "")] = ch
    return out

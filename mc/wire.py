"""An independent MS-PSRP fragment and message codec (oracle and injector).

Written from MS-PSRP 2.2.1 and 2.2.4, shares nothing with psrpcore.
"""
import struct
import typing
import uuid

NOPID = uuid.UUID(int=0)

TYPES = {
    "SessionCapability": 0x00010002,
    "InitRunspacePool": 0x00010004,
    "PublicKey": 0x00010005,
    "EncryptedSessionKey": 0x00010006,
    "PublicKeyRequest": 0x00010007,
    "ConnectRunspacePool": 0x00010008,
    "RunspacePoolInitData": 0x0002100B,
    "ResetRunspaceState": 0x0002100C,
    "SetMaxRunspaces": 0x00021002,
    "SetMinRunspaces": 0x00021003,
    "RunspaceAvailability": 0x00021004,
    "RunspacePoolState": 0x00021005,
    "CreatePipeline": 0x00021006,
    "GetAvailableRunspaces": 0x00021007,
    "UserEvent": 0x00021008,
    "ApplicationPrivateData": 0x00021009,
    "GetCommandMetadata": 0x0002100A,
    "RunspacePoolHostCall": 0x00021100,
    "RunspacePoolHostResponse": 0x00021101,
    "PipelineInput": 0x00041002,
    "EndOfPipelineInput": 0x00041003,
    "PipelineOutput": 0x00041004,
    "ErrorRecord": 0x00041005,
    "PipelineState": 0x00041006,
    "DebugRecord": 0x00041007,
    "VerboseRecord": 0x00041008,
    "WarningRecord": 0x00041009,
    "ProgressRecord": 0x00041010,
    "InformationRecord": 0x00041011,
    "PipelineHostCall": 0x00041100,
    "PipelineHostResponse": 0x00041101,
}
NAMES = {v: k for k, v in TYPES.items()}


class Frag(typing.NamedTuple):
    oid: int
    fid: int
    start: bool
    end: bool
    data: bytes


class Msg(typing.NamedTuple):
    dest: int
    type: str
    rpid: uuid.UUID
    pid: typing.Optional[uuid.UUID]
    data: bytes


def frags(data: bytes) -> typing.List[Frag]:
    """Splits a payload into fragments; raises ValueError if it is not a whole number of them."""
    out = []
    p = 0
    while p < len(data):
        if len(data) - p < 21:
            raise ValueError("truncated fragment header")
        oid, fid, flags, ln = struct.unpack(">QQBI", data[p : p + 21])
        if flags & ~3:
            raise ValueError("reserved flag bits set: %r" % flags)
        if len(data) - p - 21 < ln:
            raise ValueError("truncated fragment data")
        out.append(Frag(oid, fid, bool(flags & 1), bool(flags & 2), data[p + 21 : p + 21 + ln]))
        p += 21 + ln
    return out


def frag(oid: int, fid: int, start: bool, end: bool, data: bytes) -> bytes:
    return struct.pack(">QQBI", oid, fid, (1 if start else 0) | (2 if end else 0), len(data)) + data


def msg(blob: bytes) -> Msg:
    dest, typ = struct.unpack("<II", blob[:8])
    rpid = uuid.UUID(bytes_le=blob[8:24])
    pid: typing.Optional[uuid.UUID] = uuid.UUID(bytes_le=blob[24:40])
    if pid == NOPID:
        pid = None
    body = blob[40:]
    if body[:3] == b"\xef\xbb\xbf":
        body = body[3:]
    return Msg(dest, NAMES[typ], rpid, pid, body)


def build(to_server: bool, typ: str, rpid: uuid.UUID, pid: typing.Optional[uuid.UUID], body: bytes) -> bytes:
    return (
        struct.pack("<II", 2 if to_server else 1, TYPES[typ]) + rpid.bytes_le + (pid or NOPID).bytes_le + body
    )


def split(blob: bytes, oid: int, cuts: typing.Sequence[int]) -> typing.List[bytes]:
    """Cuts a message into fragments at the given offsets."""
    pts = [0] + list(cuts) + [len(blob)]
    out = []
    for i in range(len(pts) - 1):
        out.append(frag(oid, i, i == 0, i == len(pts) - 2, blob[pts[i] : pts[i + 1]]))
    return out


def whole(blob: bytes, oid: int) -> bytes:
    return frag(oid, 0, True, True, blob)


class Reassembler:
    """Strict receiver: puts fragments of payloads together and complains about any irregularity."""

    def __init__(self) -> None:
        self.open: typing.Dict[int, typing.List[bytes]] = {}
        self.done: typing.List[typing.Tuple[int, bytes]] = []

    def feed(self, data: bytes) -> typing.List[Frag]:
        fs = frags(data)
        for f in fs:
            parts = self.open.setdefault(f.oid, [])
            if f.fid != len(parts):
                raise ValueError("object %d: fragment %d where %d was due" % (f.oid, f.fid, len(parts)))
            if f.start != (f.fid == 0):
                raise ValueError("object %d: start flag %s on fragment %d" % (f.oid, f.start, f.fid))
            parts.append(f.data)
            if f.end:
                self.done.append((f.oid, b"".join(self.open.pop(f.oid))))
        return fs

"""Canonical, library independent description of values, for comparisons.

``canon`` never uses the equality, hashing or text conversion of the library's
own classes: it looks at the underlying Python value (via the builtin base
types), the class name and the properties.
"""
import datetime
import decimal
import queue
import typing
import uuid

from psrpcore import types as t


def _dt(v: datetime.datetime) -> typing.Tuple:
    off = datetime.datetime.utcoffset(v)
    return (
        v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, int(getattr(v, "nanosecond", 0) or 0),
        None if off is None else (off.days * 86400 + off.seconds),
    )


def _td(v: datetime.timedelta) -> int:
    """Nanoseconds."""
    return (v.days * 86400 + v.seconds) * 10**9 + v.microseconds * 1000 + int(getattr(v, "nanoseconds", 0) or 0)


def u16(s: str) -> bytes:
    return str.encode(s, "utf-16-le", "surrogatepass")


def text(s: str) -> str:
    """Text as its UTF-16 code units (surrogate pairs and astral characters are the same)."""
    return u16(s).decode("utf-16-le", "surrogatepass")


def prim(v: typing.Any) -> typing.Optional[typing.Tuple]:
    """(type name, plain value) of a primitive or None."""
    n = type(v).__name__
    if v is None or n == "PSNullType" or v is t.PSNull:
        return ("null",)
    if isinstance(v, bool):
        return ("PSBool", v)
    if isinstance(v, (t.PSEnumBase, t.PSFlagBase)):
        return (n, int.__int__(v.value) if hasattr(v, "value") else int(v))
    if isinstance(v, int):
        if type(v) is int:
            n = "PSInt" if -(2**31) <= v < 2**31 else "PSInt64"
        return (n, int.__int__(v))
    if isinstance(v, float):
        return ("PSSingle" if type(v) is float else n, float.hex(float.__float__(v)) if v == v else "nan")
    if isinstance(v, decimal.Decimal):
        d = decimal.Decimal.as_tuple(v)
        if isinstance(d.exponent, int) and d.exponent > 0:  # .NET has no such scale, it is the same number
            d = decimal.DecimalTuple(d.sign, d.digits + (0,) * d.exponent if any(d.digits) else (0,), 0)
        return ("PSDecimal" if type(v) is decimal.Decimal else n, d)
    if isinstance(v, str):
        return ("PSString" if type(v) is str else n, text(v))
    if isinstance(v, bytes):
        return ("PSByteArray" if type(v) is bytes else n, bytes.hex(v))
    if isinstance(v, datetime.datetime):
        return ("PSDateTime" if type(v) is datetime.datetime else n, _dt(v))
    if isinstance(v, datetime.timedelta):
        return ("PSDuration" if type(v) is datetime.timedelta else n, _td(v))
    if isinstance(v, uuid.UUID):
        return ("PSGuid" if type(v) is uuid.UUID else n, v.int)
    if isinstance(v, t.PSVersion):
        return (n, (v.major, v.minor, v.build, v.revision))
    return None


PLAIN_NAMES = {
    "PSList": ("System.Collections.ArrayList", "System.Object"),
    "PSDict": ("System.Collections.Hashtable", "System.Object"),
    "PSQueue": ("System.Collections.Queue", "System.Object"),
}


def canon(
    v: typing.Any,
    names: bool = True,
    _seen: typing.Optional[typing.Dict[int, int]] = None,
    _keep: typing.Optional[typing.List[typing.Any]] = None,
) -> typing.Any:
    """Nested tuples describing `v`; objects reached again become ('ref', n)."""
    if _seen is None:
        _seen = {}
    if _keep is None:
        _keep = []
    p = prim(v)
    if p is not None:
        if isinstance(v, t.PSObject) and not isinstance(v, (t.PSEnumBase, t.PSFlagBase)):
            ext = _props(v, v.PSObject.extended_properties, names, _seen, _keep)
            if ext:
                return p + (ext,)
        return p
    if isinstance(v, t.PSObject):
        if id(v) in _seen:
            return ("ref", _seen[id(v)])
        _seen[id(v)] = len(_seen)
        _keep.append(v)
    else:
        _seen[-1 - len(_seen)] = len(_seen)  # keeps the numbering in step with the library's containers
    n = {"list": "PSList", "dict": "PSDict", "Queue": "PSQueue"}.get(type(v).__name__, type(v).__name__)
    body: typing.Any = None
    if isinstance(v, dict):
        body = tuple(
            (canon(k, names, _seen, _keep), canon(x, names, _seen, _keep)) for k, x in dict.items(v)
        )
    elif isinstance(v, list):
        body = tuple(canon(x, names, _seen, _keep) for x in list.__iter__(v))
    elif isinstance(v, queue.Queue):
        body = tuple(canon(x, names, _seen, _keep) for x in list(v.queue))
    elif isinstance(v, t.PSSecureString):
        body = text(v.decrypt())
    elif not isinstance(v, t.PSObject):
        return ("opaque", repr(v))
    if not isinstance(v, t.PSObject):
        # a plain container stands for the documented library one
        return (n, body, PLAIN_NAMES[n] if names else None, (), ())
    meta = v.PSObject
    return (
        n,
        body,
        tuple(meta.type_names) if names else None,
        _props(v, meta.adapted_properties, names, _seen, _keep),
        _props(v, meta.extended_properties, names, _seen, _keep),
    )


def _props(v, plist, names, seen, keep) -> typing.Tuple:
    return tuple((str(p.name), canon(p.get_value(v), names, seen, keep)) for p in plist)

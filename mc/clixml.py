"""A strict CLIXML reader, a writer and a comparison, written from MS-PSRP 2.2.5 and sharing nothing with psrpcore.

A tree is made of None, bool, int (I32), str (S), T(tag, value) for the other primitives and O for objects.
"""
import re
import typing
from xml.etree import ElementTree as ET

from mc.core import expect, fail

PRIMS = {"S", "C", "B", "DT", "TS", "By", "SB", "U16", "I16", "U32", "I32", "U64", "I64", "Sg", "Db", "D", "BA", "G", "URI", "Nil", "Version", "XD",
         "SBK", "SS", "PR"}
CONTAINERS = {"STK", "QUE", "LST", "IE", "DCT"}
WHOLE = {"I32", "I64", "U32", "U64", "I16", "U16", "By", "SB", "C"}
TEXT = {"S", "URI", "XD", "SBK"}
ANY = ("anything",)


def unescape(x: str) -> str:
    """Text as UTF-16 code units, _xHHHH_ decoded."""
    x = re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m.group(1), 16)), x)
    return x.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def escape(x: str) -> str:
    out = []
    units = x.encode("utf-16-le", "surrogatepass")
    for i in range(0, len(units), 2):
        u = units[i] | units[i + 1] << 8
        if u < 0x20 or 0x7F <= u < 0xA0 or 0xD800 <= u < 0xE000 or u >= 0xFFFE:
            out.append("_x%04X_" % u)
        elif u == 0x5F and i + 3 < len(units) and units[i + 2 : i + 4] in (b"x\x00", b"X\x00"):
            out.append("_x005F_")
        else:
            out.append({38: "&amp;", 60: "&lt;", 62: "&gt;", 34: "&quot;"}.get(u, chr(u)))
    return "".join(out)


class T(typing.NamedTuple):
    """A primitive other than text, I32, B and Nil."""

    tag: str
    value: typing.Any


class O:
    """An object: type names, text, an inner value or container and properties."""

    def __init__(self, ms: typing.Any = None, props: typing.Any = None, tn: typing.Any = None, text: typing.Any = None,
                 kind: typing.Optional[str] = None, items: typing.Any = None, more: bool = False, value: typing.Any = ANY) -> None:
        self.ms = {} if ms is None else ms
        self.props = {} if props is None else props
        self.tn = tn  # expected: None = any, text = the first name, list = all names
        self.text = text  # expected: None = any
        self.kind = kind
        self.items = items
        self.more = more  # expected: further properties or entries may be there
        self.value = value


def Enum(typ: str, v: int, text: typing.Any = None) -> O:
    return O(tn=[typ, "System.Enum", "System.ValueType", "System.Object"], value=v, text=text)


def List(*items: typing.Any, tn: typing.Any = None) -> O:
    return O(kind="LST", items=list(items), tn=tn)


def Dict(pairs: typing.Any, tn: typing.Any = None, more: bool = False) -> O:
    return O(kind="DCT", items=list(pairs), tn=tn, more=more)


class Opt(typing.NamedTuple):
    """A field that may be absent when it has no value, or one of several forms."""

    value: typing.Any


class OneOf:
    def __init__(self, *alts: typing.Any) -> None:
        self.alts = alts


# ------------------------------------------------------------------ reading
class Reader:
    def __init__(self) -> None:
        self.objs: typing.Dict[str, O] = {}
        self.tns: typing.Dict[str, typing.List[str]] = {}
        self.count = 0

    def attrs(self, el: ET.Element, *allowed: str) -> None:
        for a in el.attrib:
            expect(a in allowed, "attribute %s of <%s>", a, el.tag)

    def noise(self, el: ET.Element) -> None:
        """Nothing but elements inside."""
        for x in [el.text, *(c.tail for c in el)]:
            expect(not (x or "").strip(), "text %r inside <%s>", x, el.tag)

    def node(self, el: ET.Element) -> typing.Any:
        self.count += 1
        tag = el.tag
        if tag in PRIMS:
            self.attrs(el, "N")
            if tag == "PR":
                return T("PR", self.progress(el))
            expect(len(el) == 0, "elements inside <%s>", tag)
            x = el.text or ""
            if tag == "Nil":
                expect(x == "", "content of <Nil>")
                return None
            if tag == "B":
                expect(x in ("true", "false"), "<B>%s</B>", x)
                return x == "true"
            if tag in WHOLE:
                expect(re.fullmatch("-?[0-9]+", x), "<%s>%s</%s>", tag, x, tag)
                return int(x) if tag == "I32" else T(tag, int(x))
            if tag in TEXT:
                return unescape(x) if tag == "S" else T(tag, unescape(x))
            return T(tag, x)
        if tag == "Ref":
            self.attrs(el, "N", "RefId")
            expect(len(el) == 0 and not el.text, "content of <Ref>")
            rid = el.attrib.get("RefId", "")
            expect(rid in self.objs, "<Ref> to %s before or without such an object", rid)
            return self.objs[rid]
        expect(tag == "Obj", "element <%s>", tag)
        return self.obj(el)

    def progress(self, el: ET.Element) -> typing.Any:
        self.noise(el)
        out = {}
        for c in el:
            expect(c.tag not in out and len(c) == 0, "<%s> in a progress record", c.tag)
            out[c.tag] = None if "nil" in "".join(c.attrib) else unescape(c.text or "")
        return out

    def obj(self, el: ET.Element) -> O:
        self.attrs(el, "N", "RefId")
        self.noise(el)
        rid = el.attrib.get("RefId")
        o = O(tn=[], value=ANY)
        if rid is not None:
            expect(rid.isdigit(), "RefId %r", rid)
            expect(rid not in self.objs, "RefId %s is used twice", rid)
            self.objs[rid] = o
        seen: typing.Set[str] = set()

        def once(what: str) -> None:
            expect(what not in seen, "two of %s in one object", what)
            seen.add(what)

        for c in el:
            if c.tag == "TN":
                once("type names")
                self.attrs(c, "RefId")
                self.noise(c)
                names = []
                for n in c:
                    expect(n.tag == "T" and len(n) == 0 and not n.attrib, "<%s> in <TN>", n.tag)
                    names.append(unescape(n.text or ""))
                tid = c.attrib.get("RefId")
                if tid is not None:
                    expect(tid.isdigit() and tid not in self.tns, "type names RefId %s is used twice", tid)
                    self.tns[tid] = names
                o.tn = names
            elif c.tag == "TNRef":
                once("type names")
                self.attrs(c, "RefId")
                tid = c.attrib.get("RefId", "")
                expect(tid in self.tns, "<TNRef> to %s before or without such names", tid)
                o.tn = self.tns[tid]
            elif c.tag == "ToString":
                once("text")
                self.attrs(c)
                expect(len(c) == 0, "elements inside <ToString>")
                o.text = unescape(c.text or "")
            elif c.tag in ("MS", "Props"):
                once(c.tag)
                self.attrs(c)
                self.noise(c)
                d: typing.Dict[str, typing.Any] = {}
                for p in c:
                    expect("N" in p.attrib, "<%s> without a name in <%s>", p.tag, c.tag)
                    name = unescape(p.attrib["N"])
                    expect(name not in d, "two properties %s", name)
                    d[name] = None
                    d[name] = self.node(p)
                if c.tag == "MS":
                    o.ms = d
                else:
                    o.props = d
            elif c.tag in CONTAINERS:
                once("value")
                self.attrs(c)
                self.noise(c)
                o.kind = c.tag
                o.items = []
                if c.tag == "DCT":
                    for en in c:
                        expect(en.tag == "En" and not en.attrib, "<%s> in <DCT>", en.tag)
                        self.noise(en)
                        expect([x.attrib.get("N") for x in en] == ["Key", "Value"], "entry of a dictionary is %r", [x.attrib for x in en])
                        k = self.node(en[0])
                        o.items.append((k, self.node(en[1])))
                else:
                    for x in c:
                        expect("N" not in x.attrib, "name on an item of a list")
                        o.items.append(self.node(x))
            else:
                expect(c.tag in PRIMS, "<%s> in <Obj>", c.tag)
                once("value")
                expect("N" not in c.attrib, "name on the value of an object")
                o.value = self.node(c)
        return o


def parse(body: bytes) -> typing.Any:
    """The only object of a message body."""
    try:
        x = body.decode("utf-8")
    except UnicodeDecodeError as e:
        fail("message is not UTF-8: %s", e)
    try:
        el = ET.fromstring(x)
    except ET.ParseError as e:
        fail("message is not well formed: %s", e)
    expect("N" not in el.attrib, "name on the outermost element")
    return Reader().node(el)


# ------------------------------------------------------------------ comparing
def norm(x: str) -> str:
    return x.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def show(x: typing.Any) -> str:
    if isinstance(x, O):
        return "Obj(%s)" % ", ".join([*("MS.%s" % k for k in x.ms), *("Props.%s" % k for k in x.props), str(x.kind or ""),
                                      "" if x.value is ANY else repr(x.value)])
    return repr(x)[:200]


def differs(a: typing.Any, e: typing.Any, path: str = "message") -> typing.Optional[str]:
    """What is different between what was read and what is expected, or None."""
    if e is ANY:
        return None
    if isinstance(e, OneOf):
        ds = [differs(a, x, path) for x in e.alts]
        return None if None in ds else ds[0]
    if isinstance(e, Opt):
        return differs(a, e.value, path)
    if isinstance(e, T):
        if not isinstance(a, T) or a.tag != e.tag:
            return "%s: expected %s, got %s" % (path, show(e), show(a))
        if e.value is ANY or a.value == (norm(e.value) if isinstance(e.value, str) else e.value):
            return None
        return "%s: expected %s, got %s" % (path, show(e), show(a))
    if not isinstance(e, O):
        if isinstance(e, str):
            e = norm(e)
        if type(a) is type(e) and a == e:
            return None
        return "%s: expected %s, got %s" % (path, show(e), show(a))
    if not isinstance(a, O):
        return "%s: expected %s, got %s" % (path, show(e), show(a))
    if e.tn is not None:
        if (list(a.tn) != e.tn) if isinstance(e.tn, list) else (not a.tn or a.tn[0] != e.tn):
            return "%s: expected type %r, got %r" % (path, e.tn, a.tn)
    if e.text is not None and (a.text or "") != norm(e.text):
        return "%s: expected text %r, got %r" % (path, e.text, a.text)
    if a.kind != e.kind or (a.value is ANY) != (e.value is ANY):
        return "%s: expected %s, got %s" % (path, show(e), show(a))
    if e.value is not ANY:
        d = differs(a.value, e.value, path + " value")
        if d:
            return d
    for what, x, y in (("MS", a.ms, e.ms), ("Props", a.props, e.props)):
        for k in x:
            if k not in y and not e.more:
                return "%s: unexpected property %s" % (path, k)
        for k, v in y.items():
            if k not in x:
                if (isinstance(v, Opt) and v.value is None) or (isinstance(v, OneOf) and None in v.alts):
                    continue
                return "%s: property %s is missing" % (path, k)
            d = differs(x[k], v, path + "." + k)
            if d:
                return d
    if e.kind == "DCT":
        left = list(a.items)
        for k, v in e.items:
            for i, (k2, v2) in enumerate(left):
                if differs(k2, k) is None:
                    d = differs(v2, v, "%s[%s]" % (path, show(k)))
                    if d:
                        return d
                    del left[i]
                    break
            else:
                return "%s: entry %s is missing" % (path, show(k))
        if left and not e.more:
            return "%s: unexpected entry %s" % (path, show(left[0][0]))
    elif e.kind is not None:
        if len(a.items) != len(e.items):
            return "%s: expected %d items, got %d" % (path, len(e.items), len(a.items))
        for i, (x, y) in enumerate(zip(a.items, e.items)):
            d = differs(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    return None


# ------------------------------------------------------------------ writing
class Writer:
    """Writes a tree like another implementation would: `turn` moves the fields about, `extra` adds one nobody knows,
    `refs` shares lists of type names, `early` writes the names and the text before the value."""

    def __init__(self, turn: int = 0, extra: bool = False, refs: bool = True, early: bool = True) -> None:
        self.turn, self.extra, self.refs, self.early = turn, extra, refs, early
        self.n = 0
        self.tnn = 0
        self.tns: typing.Dict[typing.Tuple, int] = {}

    def names(self, names: typing.Sequence[str]) -> str:
        key = tuple(names)
        if self.refs and key in self.tns:
            return '<TNRef RefId="%d" />' % self.tns[key]
        rid = self.tnn
        self.tnn += 1
        self.tns[key] = rid
        return '<TN RefId="%d">%s</TN>' % (rid, "".join("<T>%s</T>" % escape(x) for x in names))

    def order(self, items: typing.List[typing.Any]) -> typing.List[typing.Any]:
        if not items:
            return items
        if self.turn < 0:
            return items[::-1]
        k = self.turn % len(items)
        return items[k:] + items[:k]

    def fields(self, tag: str, d: typing.Dict[str, typing.Any], extra: bool) -> str:
        fs: typing.List[typing.Any] = [(k, v) for k, v in d.items() if not (isinstance(v, Opt) and v.value is None)]
        if extra:
            fs.append(("somethingNew", "x"))
        return "<%s>%s</%s>" % (tag, "".join(self.node(v, k) for k, v in self.order(fs)), tag) if fs else ""

    def node(self, v: typing.Any, name: typing.Optional[str] = None) -> str:
        n = "" if name is None else ' N="%s"' % escape(name)
        if isinstance(v, Opt):
            v = v.value
        if isinstance(v, OneOf):
            v = v.alts[-1 if self.extra else 0]
        if v is None:
            return "<Nil%s />" % n
        if isinstance(v, bool):
            return "<B%s>%s</B>" % (n, "true" if v else "false")
        if isinstance(v, int):
            return "<I32%s>%d</I32>" % (n, v)
        if isinstance(v, str):
            return "<S%s>%s</S>" % (n, escape(v)) if v else "<S%s />" % n
        if isinstance(v, T):
            return "<%s%s>%s</%s>" % (v.tag, n, escape(v.value) if isinstance(v.value, str) else v.value, v.tag)
        rid = self.n
        self.n += 1
        out = '<Obj%s RefId="%d">' % (n, rid)
        head = ""
        if v.tn:
            head += self.names([v.tn, "System.Object"] if isinstance(v.tn, str) else v.tn)
        if v.text is not None:
            head += "<ToString>%s</ToString>" % escape(v.text)
        if self.early:
            out += head
        if v.value is not ANY:
            out += self.node(v.value)
        elif v.kind == "DCT":
            out += "<DCT>%s</DCT>" % "".join("<En>%s%s</En>" % (self.node(k, "Key"), self.node(x, "Value")) for k, x in (self.order(v.items) if all(type(k) is int for k, _ in v.items) else v.items))
        elif v.kind is not None:
            out += "<%s>%s</%s>" % (v.kind, "".join(self.node(x) for x in v.items), v.kind)
        if not self.early:
            out += head
        return out + self.fields("Props", v.props, False) + self.fields("MS", v.ms, self.extra and bool(v.ms)) + "</Obj>"


def write(tree: typing.Any, turn: int = 0, extra: bool = False, refs: bool = True, early: bool = True) -> bytes:
    return Writer(turn, extra, refs, early).node(tree).encode("utf-8", "surrogatepass")

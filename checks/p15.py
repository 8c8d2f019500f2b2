"""P15: object graphs keep structure, identity, types and properties."""
import itertools
import queue
import typing
from xml.etree import ElementTree as ET

from psrpcore import types as t

from mc.canon import prim, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.values import NAMES, VALUES, sizes

RULE = (
    "all graphs of up to two nodes over 19 node kinds and up to three nodes over 7 (thorough: 10) kinds, every node with two slots that hold a leaf "
    "or any node (sharing, cycles), reduced by the order of first visit; the same graphs as documents of a peer written by an "
    "independent writer in three element orders; type name sequences; property tables; equal but distinct objects; every registered class"
)
ASSUMPTIONS = [
    "lists, stacks, enumerables and dictionaries are written by value: a shared one becomes copies and one that contains itself cannot be written",
    "containers and primitives have no text form of their own",
]
CUSTOM = ("System.Management.Automation.PSCustomObject", "System.Object")


@t.PSType(["MC.Registered", "MC.Base"], adapted_properties=[t.PSNoteProperty("a")], extended_properties=[t.PSNoteProperty("b")])
class Registered(t.PSObject):
    pass


@t.PSType(["MC.List"])
class RegList(t.PSListBase):
    pass


@t.PSType(["MC.Dict"])
class RegDict(t.PSDictBase):
    pass


@t.PSType(["MC.Queue"])
class RegQueue(t.PSQueueBase):
    pass


@t.PSType(["MC.Stack"])
class RegStack(t.PSStackBase):
    pass


class Plain:
    """Any Python object: its attributes become properties."""

    def __init__(self) -> None:
        self.a: typing.Any = None
        self.b: typing.Any = None


class K(typing.NamedTuple):
    cls: str  # class after the round trip
    names: typing.Optional[typing.Tuple[str, ...]]  # type names after the round trip
    known: bool
    where: typing.Tuple[str, str]  # where the slots go: adapted, extended, item, key, value, text...
    box: str = ""  # element of the container or primitive
    text: typing.Optional[str] = None


def un(*n: str) -> typing.Tuple[str, ...]:
    return tuple("Deserialized." + x for x in n)


AL = ("System.Collections.ArrayList", "System.Object")
HT = ("System.Collections.Hashtable", "System.Object")
QU = ("System.Collections.Queue", "System.Object")
ST = ("System.Collections.Stack", "System.Object")
IE = ("System.Object",)  # looked up at run time
KINDS: typing.Dict[str, K] = {
    "o": K("PSCustomObject", CUSTOM, True, ("ext", "ext")),
    "u": K("PSObject", un("My.Type", "System.Object"), False, ("adp", "ext"), text="text of u"),
    "v": K("PSObject", un("My.Type", "Other.Base", "System.Object"), False, ("adp", "adp")),
    "r": K("Registered", ("MC.Registered", "MC.Base", "System.Object"), True, ("adp", "ext"), text="_x000A_\n"),
    "p": K("PSCustomObject", CUSTOM, True, ("ext", "ext")),
    "l": K("PSList", AL, True, ("item", "item"), "LST"),
    "L": K("PSList", AL, True, ("ext", "item"), "LST"),
    "M": K("RegList", ("MC.List", "System.Object"), True, ("ext", "item"), "LST"),
    "d": K("PSDict", HT, True, ("val", "val"), "DCT"),
    "D": K("PSDict", un("My.Dict", "System.Object"), False, ("ext", "val"), "DCT"),
    "E": K("RegDict", ("MC.Dict", "System.Object"), True, ("adp", "val"), "DCT"),
    "k": K("PSDict", HT, True, ("key", "of key"), "DCT"),
    "q": K("PSQueue", QU, True, ("item", "item"), "QUE"),
    "Q": K("PSQueue", un("My.Queue"), False, ("ext", "item"), "QUE"),
    "R": K("RegQueue", ("MC.Queue", "System.Object"), True, ("adp", "item"), "QUE"),
    "s": K("PSStack", ST, True, ("item", "item"), "STK"),
    "S": K("RegStack", ("MC.Stack", "System.Object"), True, ("adp", "item"), "STK"),
    "i": K("PSIEnumerable", None, True, ("ext", "item"), "IE"),
    "t": K("PSString", None, True, ("ext", "ext"), "S"),
    "n": K("PSInt64", None, True, ("adp", "ext"), "I64"),
}
COPIED = set("lLMdDEksSi")
PRIM = set("tn")
LEAF = "."
Spec = typing.Tuple[typing.Tuple[str, typing.Any, typing.Any], ...]


def leaf(i: int, k: int, where: str = "") -> typing.Any:
    return "key" if where == "key" else (None, i, "s%d" % i, True)[(i * 2 + k) % 4]


# ------------------------------------------------------------------ building real objects
def blank(kind: str) -> typing.Any:
    if kind == "o":
        return t.PSCustomObject()
    if kind == "u":
        o = t.PSObject()
        o.PSObject.type_names = ["My.Type", "System.Object"]
        o.PSObject.to_string = "text of u"
        return o
    if kind == "v":
        o = t.PSObject()
        o.PSObject.type_names = ["My.Type", "Other.Base", "System.Object"]
        return o
    if kind == "r":
        o = Registered()
        o.PSObject.to_string = "_x000A_\n"
        return o
    if kind == "p":
        return Plain()
    if kind == "l":
        return []
    if kind == "L":
        return t.PSList()
    if kind == "M":
        return RegList()
    if kind == "d":
        return {}
    if kind == "k":
        return t.PSDict()
    if kind == "D":
        o = t.PSDict()
        o.PSObject.type_names = ["My.Dict", "System.Object"]
        return o
    if kind == "E":
        return RegDict()
    if kind == "q":
        return t.PSQueue()
    if kind == "Q":
        o = t.PSQueue()
        o.PSObject.type_names = ["My.Queue"]
        return o
    if kind == "R":
        return RegQueue()
    if kind == "s":
        return t.PSStack()
    if kind == "S":
        return RegStack()
    if kind == "i":
        return t.PSIEnumerable()
    if kind == "t":
        return t.PSString("same")
    return t.PSInt64(5)


def build(spec: Spec) -> typing.Any:
    objs = [blank(n[0]) for n in spec]
    for i, n in enumerate(spec):
        o = objs[i]
        key: typing.Any = None
        for k, name in ((0, "a"), (1, "b")):
            w = KINDS[n[0]].where[k]
            v = leaf(i, k, w) if n[1 + k] == LEAF else objs[n[1 + k]]
            if w == "key":
                key = v
            elif w == "of key":
                o[key] = v
            elif n[0] == "p" or n[0] == "r":
                setattr(o, name, v)
            elif w == "ext":
                o.PSObject.extended_properties.append(t.PSNoteProperty(name, value=v))
            elif w == "adp":
                o.PSObject.adapted_properties.append(t.PSNoteProperty(name, value=v))
            elif w == "val":
                o[name] = v
            elif isinstance(o, queue.Queue):
                o.put(v)
            else:
                o.append(v)
    return objs[0]


# ------------------------------------------------------------------ what is expected, from the spec alone
def wanted(spec: Spec, all_ids: bool = False) -> typing.Any:
    seen: typing.Dict[int, int] = {}

    def node(i: int) -> typing.Any:
        kind = spec[i][0]
        k = KINDS[kind]
        if all_ids or kind not in COPIED:
            if i in seen:
                return ("ref", seen[i])
            seen[i] = len(seen)
        vals: typing.List[typing.Tuple[str, str, typing.Any]] = []
        body: typing.List[typing.Any] = []
        for want in (("item", "val", "key", "of key"), ("adp",), ("ext",)):
            for s, name in ((0, "a"), (1, "b")):
                if k.where[s] in want:
                    x = spec[i][1 + s]
                    v = prim(leaf(i, s, k.where[s])) if x == LEAF else node(x)
                    if k.where[s] == "key":
                        body.append(v)
                    elif k.where[s] == "of key":
                        body[0] = (body[0], v)
                    elif k.where[s] == "val":
                        body.append((("PSString", name), v))
                    elif k.where[s] == "item":
                        body.append(v)
                    else:
                        vals.append((k.where[s], name, v))
        head: typing.Any = {"t": ("PSString", "same"), "n": ("PSInt64", 5)}.get(kind, k.cls)
        return (
            head, tuple(body), k.names, k.text,
            tuple((n, v) for w, n, v in vals if w == "adp"), tuple((n, v) for w, n, v in vals if w == "ext"),
        )

    return node(0)


# ------------------------------------------------------------------ what is there
def shape(v: typing.Any, all_ids: bool = False, own: bool = False) -> typing.Any:
    """Description of a (deserialized) object in the terms of `wanted`."""
    seen: typing.Dict[int, int] = {}
    keep: typing.List[typing.Any] = []

    def node(v: typing.Any, depth: int) -> typing.Any:
        expect(depth < 40, "the result is nested without end")
        p = prim(v)
        if p is not None and not (isinstance(v, t.PSObject) and (v.PSObject.adapted_properties or v.PSObject.extended_properties)):
            return p
        if all_ids or not isinstance(v, (list, dict)):
            if id(v) in seen:
                return ("ref", seen[id(v)])
            seen[id(v)] = len(seen)
            keep.append(v)
        expect(isinstance(v, t.PSObject), "%s is not a library object", type(v).__name__)
        body: typing.Tuple = ()
        if p is None:
            if isinstance(v, dict):
                body = tuple((node(k, depth + 1), node(x, depth + 1)) for k, x in dict.items(v))
            elif isinstance(v, list):
                body = tuple(node(x, depth + 1) for x in list.__iter__(v))
            elif isinstance(v, queue.Queue):
                body = tuple(node(x, depth + 1) for x in list(v.queue))
        m = v.PSObject
        boxed = p is not None or isinstance(v, (dict, list, queue.Queue))
        return (
            p or type(v).__name__, body,
            None if p is not None or isinstance(v, t.PSIEnumerable) else tuple(m.type_names),
            None if boxed else m.to_string,
            tuple((str(x.name), node(x.get_value(v), depth + 1)) for x in m.adapted_properties),
            tuple((str(x.name), node(x.get_value(v), depth + 1)) for x in m.extended_properties),
        )

    return node(v, 0)


def originals(v: typing.Any, seen: typing.Optional[typing.Dict[int, int]] = None) -> typing.Any:
    """Everything observable of an input value, to see whether it was changed."""
    seen = {} if seen is None else seen
    p = prim(v)
    if p is not None and not isinstance(v, t.PSObject):
        return p
    if id(v) in seen:
        return ("ref", seen[id(v)])
    seen[id(v)] = len(seen)
    body: typing.Tuple = ()
    if isinstance(v, dict):
        body = tuple((originals(k, seen), originals(x, seen)) for k, x in dict.items(v))
    elif isinstance(v, list):
        body = tuple(originals(x, seen) for x in list.__iter__(v))
    elif isinstance(v, queue.Queue):
        body = tuple(originals(x, seen) for x in list(v.queue))
    elif isinstance(v, Plain):
        body = (originals(v.a, seen), originals(v.b, seen))
    if not isinstance(v, t.PSObject) or isinstance(v, (t.PSEnumBase, t.PSFlagBase)):
        return (type(v).__name__, p, body)
    m = v.PSObject
    return (
        type(v).__name__, p, body, tuple(m.type_names), None if body or isinstance(v, (list, dict, queue.Queue)) else m.to_string,
        tuple((x.name, type(x).__name__, originals(x.get_value(v), seen)) for x in m.adapted_properties),
        tuple((x.name, type(x).__name__, originals(x.get_value(v), seen)) for x in m.extended_properties),
    )


# ------------------------------------------------------------------ graphs
def specs(kinds: str, n: int, first: typing.Optional[str] = None) -> typing.Iterator[Spec]:
    """All graphs of exactly n nodes, all reachable from node 0, numbered in the order of first visit (breadth first)."""
    def edges(i: int, used: int, acc: typing.Tuple) -> typing.Iterator[typing.Tuple]:
        if i == n:
            if used == n:
                yield acc
            return
        if i >= used:
            return  # not reachable
        for s0 in [LEAF] + list(range(min(used + 1, n))):
            u0 = max(used, s0 + 1) if s0 != LEAF else used
            for s1 in [LEAF] + list(range(min(u0 + 1, n))):
                u1 = max(u0, s1 + 1) if s1 != LEAF else u0
                yield from edges(i + 1, u1, acc + ((s0, s1),))

    shapes = list(edges(0, 1, ()))
    for ks in itertools.product(first or kinds, *([kinds] * (n - 1))):
        for e in shapes:
            yield tuple((k, a, b) for k, (a, b) in zip(ks, e))


def endless(spec: Spec) -> bool:
    """A cycle of copied containers only."""
    state: typing.Dict[int, int] = {}

    def visit(i: int) -> bool:
        if spec[i][0] not in COPIED:
            return False
        if state.get(i) == 1:
            return True
        if state.get(i) == 2:
            return False
        state[i] = 1
        r = any(x != LEAF and visit(x) for x in spec[i][1:])
        state[i] = 2
        return r

    return any(visit(i) for i in range(len(spec)))


def possible(spec: Spec) -> bool:
    """Only what can be hashed is a key."""
    return not endless(spec) and not any(n[0] == "k" and n[1] != LEAF and spec[n[1]][0] in COPIED for n in spec)


def gen_graphs(tier: str):
    for n in (1, 2):
        yield from filter(possible, specs("".join(KINDS), n))
    yield from filter(possible, specs("ouLDkQt" if tier == "quick" else "orpLDdkQqt", 3))


def run_graphs(spec: Spec, ctx: Ctx) -> None:
    v = build(spec)
    before = originals(v)
    raw = ET.tostring(t.serialize(v, None), encoding="utf-8")
    same(originals(v), before, "input after it was serialized")
    same(ET.tostring(t.serialize(v, None), encoding="utf-8"), raw, "second serialization")
    back = t.deserialize(ET.fromstring(raw), None)
    got = shape(back)
    same(got, wanted(spec), "graph read back from %s" % raw.decode())
    ctx.step(2)
    ctx.state(spec)
    ctx.outcome(str(got)[:200])


# ------------------------------------------------------------------ the same graphs written by a peer
class Writer:
    def __init__(self, spec: Spec, order: str) -> None:
        self.spec = spec
        self.order = order
        self.refs: typing.Dict[int, int] = {}
        self.tns: typing.Dict[typing.Tuple[str, ...], int] = {}

    def leaf(self, v: typing.Any, name: str) -> str:
        n = ' N="%s"' % name if name else ""
        if v is None:
            return "<Nil%s />" % n
        if v is True:
            return "<B%s>true</B>" % n
        return "<I32%s>%d</I32>" % (n, v) if isinstance(v, int) else "<S%s>%s</S>" % (n, v)

    def slot(self, i: int, s: int, name: str) -> str:
        x = self.spec[i][1 + s]
        return self.leaf(leaf(i, s, KINDS[self.spec[i][0]].where[s]), name) if x == LEAF else self.node(x, name)

    def node(self, i: int, name: str = "") -> str:
        n = ' N="%s"' % name if name else ""
        if i in self.refs:
            return '<Ref%s RefId="%d" />' % (n, self.refs[i] + 10)
        self.refs[i] = len(self.refs)
        out = '<Obj%s RefId="%d">' % (n, self.refs[i] + 10)
        kind = self.spec[i][0]
        k = KINDS[kind]
        names = k.names and tuple(x.replace("Deserialized.", "") for x in k.names)
        if names is None and kind not in PRIM:
            names = tuple(t.PSIEnumerable.PSObject.type_names)
        if names:
            if names in self.tns:
                out += '<TNRef RefId="%d" />' % self.tns[names]
            else:
                self.tns[names] = len(self.tns)
                out += '<TN RefId="%d">%s</TN>' % (self.tns[names], "".join("<T>%s</T>" % x for x in names))
        parts = []
        for c in self.order:
            if c == "p":
                for tag, w in (("Props", "adp"), ("MS", "ext")):
                    body = "".join(self.slot(i, s, nm) for s, nm in ((0, "a"), (1, "b")) if k.where[s] == w)
                    if body:
                        parts.append("<%s>%s</%s>" % (tag, body, tag))
            elif c == "c" and k.box:
                if k.box in ("S", "I64"):
                    parts.append("<%s>%s</%s>" % (k.box, "same" if k.box == "S" else "5", k.box))
                    continue
                body = ""
                for s, nm in ((0, "a"), (1, "b")):
                    if k.where[s] == "item":
                        body += self.slot(i, s, "")
                    elif k.where[s] == "key":
                        body += "<En>" + self.slot(i, s, "Key")
                    elif k.where[s] == "of key":
                        body += self.slot(i, s, "Value") + "</En>"
                    elif k.where[s] == "val":
                        body += '<En><S N="Key">%s</S>%s</En>' % (nm, self.slot(i, s, "Value"))
                parts.append("<%s>%s</%s>" % (k.box, body, k.box))
            elif c == "t" and k.text:
                parts.append("<ToString>%s</ToString>" % {"_x000A_\n": "_x005F_x000A__x000A_"}.get(k.text, k.text))
        return out + "".join(parts) + "</Obj>"


def self_before_value(spec: Spec, order: str) -> bool:
    """A boxed primitive referred to before its value was read: no peer writes that."""
    return order.index("p") < order.index("c") and any(n[0] in PRIM for n in spec)


def gen_peer(tier: str):
    orders = ["tcp", "cpt", "tpc"]
    for n in (1, 2):
        for s in filter(possible, specs("".join(x for x in KINDS if x != "p"), n)):
            for o in orders:
                if not self_before_value(s, o):
                    yield (s, o)
    for s in filter(possible, specs("uLkQ" if tier == "quick" else "urLDkQt", 3)):
        for o in orders:
            if not self_before_value(s, o):
                yield (s, o)


def run_peer(case, ctx: Ctx) -> None:
    spec, order = case
    doc = Writer(spec, order).node(0)
    back = t.deserialize(ET.fromstring(doc), None)
    same(shape(back, True), wanted(spec, True), "graph read from %s" % doc)
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ type names
TN = [
    ("A",), ("A", "B"), ("A", "C"), ("B", "A"), ("B",), ("A", "B", "C"), ("a",), CUSTOM, ("MC.Registered", "X"), ("X", "MC.Registered"), (), ("Deserialized.A",),
    ("System.Object",), ("A", "A"), ("MC.List", "Q"),
]


def gen_types(tier: str):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for p in itertools.product(range(len(TN)), repeat=n):
            yield p


def run_types(case, ctx: Ctx) -> None:
    objs = []
    for i in case:
        o = t.PSObject()
        o.PSObject.type_names = list(TN[i])
        o.PSObject.extended_properties.append(t.PSNoteProperty("x", value=i))
        objs.append(o)
    for flat in (True, False):
        if flat:
            back = list(t.deserialize(ET.fromstring(ET.tostring(t.serialize(objs, None))), None))
        else:
            top: typing.Any = None
            for o in reversed(objs):
                w = t.PSObject()
                w.PSObject.type_names = list(o.PSObject.type_names)
                w.PSObject.extended_properties.append(t.PSNoteProperty("x", value=o.PSObject.extended_properties[0].get_value(o)))
                w.PSObject.extended_properties.append(t.PSNoteProperty("next", value=top))
                top = w
            r = t.deserialize(ET.fromstring(ET.tostring(t.serialize(top, None))), None)
            back = []
            while r is not None:
                back.append(r)
                r = r["next"]
        same(len(back), len(case), "objects")
        for b, i in zip(back, case):
            n = TN[i]
            if n and n[0] == "MC.Registered":
                expect(type(b) is Registered, "%s instead of the registered class", type(b).__name__)
                same(tuple(b.PSObject.type_names), ("MC.Registered", "MC.Base", "System.Object"), "type names")
            elif n and n[0] == "MC.List":
                expect(type(b) is RegList, "%s instead of the registered class", type(b).__name__)
            elif n == CUSTOM:
                same(tuple(b.PSObject.type_names), CUSTOM, "type names")
            elif n == ("System.Object",):
                expect(tuple(b.PSObject.type_names) in (n, un(*n)), "type names %r", b.PSObject.type_names)
            else:
                same(tuple(b.PSObject.type_names), un(*n), "type names")
            same(prim(b["x"]), ("PSInt", i), "property")
        ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ property tables
def gen_props(tier: str):
    names = ["a", "b", "A"]
    kinds = ["note", "alias", "script"]
    for n in range(0, 4):
        for adp in itertools.permutations(names, n):
            for m in range(0, 4 if tier != "quick" or n < 2 else 3):
                for ext in itertools.permutations(names, m):
                    for ks in itertools.product(kinds, repeat=m):
                        yield (adp, tuple(zip(ext, ks)))


def run_props(case, ctx: Ctx) -> None:
    adp, ext = case
    for base in ("object", "registered", "string", "list"):
        o: typing.Any = {"object": t.PSObject, "registered": RegQueue, "string": lambda: t.PSString("x"), "list": t.PSList}[base]()
        want_a, want_e = [], []
        for i, n in enumerate(adp):
            o.PSObject.adapted_properties.append(t.PSNoteProperty(n, value=i))
            want_a.append((n, ("PSInt", i)))
        o.PSObject.extended_properties.append(t.PSNoteProperty("target", value="T"))
        want_e.append(("target", ("PSString", "T")))
        for i, (n, k) in enumerate(ext):
            if k == "note":
                p: typing.Any = t.PSNoteProperty(n, value=10 + i)
                w: typing.Any = ("PSInt", 10 + i)
            elif k == "alias":
                p = t.PSAliasProperty(n, "target")
                w = ("PSString", "T")
            else:
                p = t.PSScriptProperty(n, lambda s, i=i: [i])
                w = ("list", i)
            o.PSObject.extended_properties.append(p)
            want_e.append((n, w))
        before = originals(o)
        raw = ET.tostring(t.serialize(o, None))
        same([x[:2] for x in originals(o)[-1]], [x[:2] for x in before[-1]], "properties of the input afterwards")
        b = t.deserialize(ET.fromstring(raw), None)

        def val(v: typing.Any) -> typing.Any:
            return ("list", int(v[0])) if isinstance(v, list) else prim(v)

        same([(p.name, val(p.get_value(b))) for p in b.PSObject.adapted_properties], want_a, "adapted properties")
        same([(p.name, val(p.get_value(b))) for p in b.PSObject.extended_properties], want_e, "extended properties")
        expect(all(type(p) is t.PSNoteProperty for p in list(b.PSObject.adapted_properties) + list(b.PSObject.extended_properties)), "kind of property")
        eff = dict(want_a)
        eff.update(want_e)
        for n, w in eff.items():
            same(val(getattr(b, n)), w, "value of %s" % n)
        ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ equal but distinct, and the same object twice
def tagged(n: str) -> typing.Any:
    v = VALUES[n]()
    if isinstance(v, t.PSObject) and not isinstance(v, (t.PSEnumBase, t.PSFlagBase)):
        v.PSObject.extended_properties.append(t.PSNoteProperty("tag", value=1))
        return v
    return None


def gen_equal(tier: str):
    for n in NAMES:
        for place in ("list", "dict", "props", "deep"):
            yield (n, place)


def run_equal(case, ctx: Ctx) -> None:
    n, place = case
    a, b = tagged(n), tagged(n)
    if a is None:
        return
    seq = [a, b, a, b, b]
    if place == "list":
        v: typing.Any = list(seq)
    elif place == "dict":
        v = {i: x for i, x in enumerate(seq)}
    elif place == "props":
        v = t.PSCustomObject(**{"p%d" % i: x for i, x in enumerate(seq)})
    else:
        v = [[a], {"k": b}, t.PSCustomObject(x=a), [[b]], [b]]
    r = t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)
    if place == "list":
        got = list(r)
    elif place == "dict":
        got = list(r.values())
    elif place == "props":
        got = [p.get_value(r) for p in r.PSObject.extended_properties]
    else:
        got = [r[0][0], r[1]["k"], r[2].x, r[3][0][0], r[4][0]]
    for x in got:
        same(type(x), type(a), "class")
        tags = [p for p in x.PSObject.extended_properties if p.name == "tag"]
        same([prim(p.get_value(x)) for p in tags], [("PSInt", 1)], "tag")
    if not isinstance(a, (list, dict)):
        same([[x is y for y in got] for x in got], [[x is y for y in seq] for x in seq], "which entries are one object")
    else:
        expect(got[0] is not got[1], "distinct containers became one")
    # changing one of the two distinct objects afterwards does not change the other
    got[0].PSObject.extended_properties[-1].set_value(99, got[0])
    same(prim([p for p in got[1].PSObject.extended_properties if p.name == "tag"][0].get_value(got[1])), ("PSInt", 1), "the other object")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ enumerations beside each other
def gen_enums(tier: str):
    from checks import p16

    types = [n for n in p16.ALL if n != "BufferCellType"]  # P16 has its known finding
    for a in types:
        for b in types:
            yield (a, b)


def run_enums(case, ctx: Ctx) -> None:
    """A member, one of another (or the same) type with the same number, and the plain number."""
    from checks import p16

    a, b = case
    ca, cb = p16.info(a)[0], p16.info(b)[0]
    both = sorted(set(p16.values(a)) & set(p16.values(b)))
    for v in both[:6] + both[-2:]:
        x, y = ca(v), cb(v)
        n = v if -(2**31) <= v < 2**31 else 0
        val = [x, y, n, {"k": y, "l": x}, t.PSCustomObject(p=y, q=x, r=n), y, x, t.PSInt64(n)]
        r = t.deserialize(ET.fromstring(ET.tostring(t.serialize(val, None))), None)
        got = [r[0], r[6], r[3]["l"], r[4].q], [r[1], r[5], r[3]["k"], r[4].p]
        for cls, part in ((ca, got[0]), (cb, got[1])):
            for e in part:
                expect(type(e) is cls, "%s %d came back as %s", cls.__name__, v, type(e).__name__)
                same(int(e.value), v, cls.__name__)
        same([prim(r[2]), prim(r[4].r), prim(r[7])], [("PSInt", n), ("PSInt", n), ("PSInt64", n)], "numbers")
        ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ every pair of values in one graph, in every container
BOXES: typing.Dict[str, typing.Callable[[typing.List], typing.Any]] = {
    "list": list, "stack": t.PSStack, "ienum": t.PSIEnumerable, "pslist": t.PSList, "dict": lambda l: {"k%d" % i: x for i, x in enumerate(l)},
    "props": lambda l: t.PSCustomObject(**{"k%d" % i: x for i, x in enumerate(l)}),
}


def _queue(l: typing.List) -> typing.Any:
    q = t.PSQueue()
    for x in l:
        q.put(x)
    return q


def _pyqueue(l: typing.List) -> typing.Any:
    q: queue.Queue = queue.Queue()
    for x in l:
        q.put(x)
    return q


BOXES["queue"] = _queue
BOXES["pyqueue"] = _pyqueue


def _keys(l: typing.List) -> typing.Any:
    """Each value is the key of the next one."""
    d = t.PSDict()
    for k, x in zip(l, l[1:] + l[:1]):
        try:
            d[k] = x
        except TypeError:
            pass  # not a key
    return d


BOXES["keys"] = _keys


def gen_values(tier: str):
    for box in BOXES:
        for n in (0, 1, 2):
            for p in itertools.product(NAMES, repeat=n):
                yield (box, p)


def run_values(case, ctx: Ctx) -> None:
    from mc.canon import canon

    box, ns = case
    v = BOXES[box]([VALUES[n]() for n in ns])
    before = canon(v)
    raw = ET.tostring(t.serialize(v, None))
    same(canon(v), before, "input after it was serialized")
    same(ET.tostring(t.serialize(v, None)), raw, "second serialization")
    same(canon(t.deserialize(ET.fromstring(raw), None)), before, "value read back")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ depth
def gen_depth(tier: str):
    for d in range(1, 41 if tier == "quick" else 81):
        for k in ("list", "dict", "props", "mixed"):
            yield (d, k)


def run_depth(case, ctx: Ctx) -> None:
    d, k = case
    v: typing.Any = "end"
    for i in range(d):
        kk = ("list", "dict", "props")[i % 3] if k == "mixed" else k
        v = [v] if kk == "list" else {"n": v} if kk == "dict" else t.PSCustomObject(n=v)
    r = t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)
    for i in reversed(range(d)):
        r = r[0] if isinstance(r, list) else r["n"]
    same(prim(r), ("PSString", "end"), "innermost value")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ many of everything
MANY = ["objects", "refs", "backrefs", "typenames", "typenames-again", "names", "ext", "adp", "list", "PSList", "dict", "PSDict", "queue",
        "PSQueue", "stack", "ie", "registered", "enums", "ints", "chain"]


def gen_many(tier: str):
    for n in sizes(tier, 1025 if tier == "quick" else 4097):
        for k in MANY:
            if k == "chain" and n > (100 if tier == "quick" else 150):
                continue
            yield (k, n)
    for n in (65536, 70000) if tier == "quick" else (65535, 65536, 65537, 100000):
        for k in ("list", "PSQueue", "dict"):
            yield (k, n)


def _o(i: int, names: typing.Optional[typing.List[str]] = None) -> typing.Any:
    o = t.PSObject()
    o.PSObject.type_names = names or ["My.Type", "System.Object"]
    o.PSObject.extended_properties.append(t.PSNoteProperty("i", value=i))
    return o


def run_many(case, ctx: Ctx) -> None:
    k, n = case
    r = range(n)
    trip = lambda v: t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)
    ctx.step()
    ctx.state(case)
    if k in ("objects", "refs", "backrefs"):
        objs = [_o(i) for i in r]
        idx = {"objects": list(r), "refs": [j for i in r for j in (i, i)], "backrefs": list(r) + list(r)[::-1]}[k]
        back = trip([objs[i] for i in idx])
        same([prim(x["i"])[1] if hasattr(x, "PSObject") else None for x in back], idx, "objects")
        ids = [id(x) for x in back]
        same([ids.index(x) for x in ids], [idx.index(i) for i in idx], "identity of the objects")
        same(len({tuple(x.PSTypeNames) for x in back} - {un("My.Type", "System.Object")}), 0, "type names")
    elif k in ("typenames", "typenames-again"):
        names = [["T%d" % i, "Base%d" % (i % 3), "System.Object"] for i in r]
        seq = names if k == "typenames" else names + names[::-1] + names[n // 2:]
        back = trip([_o(i, list(x)) for i, x in enumerate(seq)])
        same([list(x.PSTypeNames) for x in back], [list(un(*x)) for x in seq], "type names")
        same([prim(x["i"])[1] for x in back], list(range(len(seq))), "objects")
    elif k == "names":
        x = _o(1, ["N%d" % i for i in r] or ["N"])
        same(list(trip(x).PSTypeNames), list(un(*(x.PSTypeNames))), "type names")
    elif k in ("ext", "adp"):
        o = t.PSObject()
        o.PSObject.type_names = ["My.Type"]
        tab = o.PSObject.extended_properties if k == "ext" else o.PSObject.adapted_properties
        tab += [t.PSNoteProperty("n%d" % i, value=i) for i in r]
        b = trip(o)
        got = b.PSObject.extended_properties if k == "ext" else b.PSObject.adapted_properties
        same([(str(x.name), prim(x.get_value(b))) for x in got], [("n%d" % i, ("PSInt", i)) for i in r], "properties")
    elif k in ("dict", "PSDict"):
        d = {("k%d" % i if i % 2 else i): i * 7 for i in r}
        b = trip(d if k == "dict" else t.PSDict(d))
        same([(prim(x), prim(y)) for x, y in b.items()], [(prim(x), prim(y)) for x, y in d.items()], "entries")
    elif k in ("list", "PSList", "stack", "ie"):
        v: typing.Any = {"list": list, "PSList": t.PSList, "stack": t.PSStack, "ie": t.PSIEnumerable}[k](i if i % 3 else "s%d" % i for i in r)
        b = trip(v)
        same(type(b).__name__, {"list": "PSList", "PSList": "PSList", "stack": "PSStack", "ie": "PSIEnumerable"}[k], "kind")
        same([prim(x) for x in b], [prim(i if i % 3 else "s%d" % i) for i in r], "items")
    elif k in ("queue", "PSQueue"):
        q = queue.Queue() if k == "queue" else t.PSQueue()
        for i in r:
            q.put(i)
        b = trip(q)
        same([prim(b.get_nowait()) for _ in range(b.qsize())], [("PSInt", i) for i in r], "items")
        same(q.qsize(), n, "items left in the original")
    elif k == "registered":
        vals = [Registered(a=i, b="b%d" % i) for i in r]
        b = trip(vals)
        same([(type(x).__name__, prim(x.a), prim(x.b)) for x in b], [("Registered", ("PSInt", i), ("PSString", "b%d" % i)) for i in r], "objects")
    elif k == "enums":
        e = list(t.ErrorCategory)
        vals = [e[i * 7 % len(e)] for i in r]
        b = trip(vals)
        expect(all(x is y for x, y in zip(b, vals)) and len(b) == n, "enumeration values: %r", b)
    elif k == "ints":
        vals = [t.PSInt64(i % 5) for i in r]
        for x in vals[::2]:
            x.PSObject.extended_properties.append(t.PSNoteProperty("p", value=id(x) % 1000))
        b = trip(vals + vals)
        same([prim(x) for x in b], [("PSInt64", i % 5) for i in r] * 2, "numbers")
        same([[prim(y.get_value(x)) for y in x.PSObject.extended_properties] for x in b],
             [[prim(y.get_value(x)) for y in x.PSObject.extended_properties] for x in vals + vals], "their properties")
    else:
        first = last = _o(0)
        for i in range(1, n + 1):
            nxt = _o(i)
            last.PSObject.extended_properties.append(t.PSNoteProperty("next", value=nxt))
            last = nxt
        last.PSObject.extended_properties.append(t.PSNoteProperty("next", value=first))
        b = trip(first)
        x = b
        for i in range(n + 1):
            same(prim(x["i"]), ("PSInt", i), "object of the chain")
            x = x["next"]
        expect(x is b, "the chain is not closed")


# ------------------------------------------------------------------ records and other classes with a form of their own
@t.PSType(["MC.Converted"], adapted_properties=[t.PSNoteProperty("a"), t.PSNoteProperty("b")])
class Converted(t.PSObject):
    @classmethod
    def FromPSObjectForRemoting(cls, obj: t.PSObject, **kwargs: typing.Any) -> "Converted":
        return cls(a=obj.wire_a, b=obj.wire_b)

    @classmethod
    def ToPSObjectForRemoting(cls, instance: "Converted", **kwargs: typing.Any) -> t.PSObject:
        o = t.PSObject()
        t.add_note_property(o, "wire_a", instance.a)
        t.add_note_property(o, "wire_b", instance.b)
        return o


def _error(info: bool = False, details: bool = False, **kw: typing.Any) -> typing.Any:
    e = t.ErrorRecord(
        Exception=t.NETException(Message="m"), CategoryInfo=t.ErrorCategoryInfo(Category=t.ErrorCategory.ReadError, Reason="r"),
        FullyQualifiedErrorId="id", InvocationInfo=_info() if info else None, PipelineIterationInfo=[0, 1] if info else None,
        ErrorDetails=t.ErrorDetails(Message="d", RecommendedAction="a") if details else None, **kw
    )
    e.serialize_extended_info = info
    return e


def _info() -> typing.Any:
    return t.InvocationInfo(
        BoundParameters=t.PSDict({"p": 1}), CommandOrigin=t.CommandOrigin.Runspace, ExpectingInput=False, HistoryId=1, InvocationName="n",
        Line="l", OffsetInLine=1, PipelineLength=1, PipelinePosition=1, ScriptLineNumber=1, ScriptName="s", UnboundArguments=t.PSList(),
    )


def _informational(cls: typing.Any, info: bool) -> typing.Any:
    w = cls(Message="m", InvocationInfo=_info() if info else None, PipelineIterationInfo=[1] if info else None)
    w.serialize_extended_info = info
    return w


RECORDS: typing.Dict[str, typing.Callable[[], typing.Any]] = {
    "error": _error,
    "error-info": lambda: _error(True, True),
    "error-details": lambda: _error(False, True),
    "debug": lambda: _informational(t.DebugRecord, False),
    "verbose": lambda: _informational(t.VerboseRecord, True),
    "warning": lambda: _informational(t.WarningRecord, False),
    "warning-info": lambda: _informational(t.WarningRecord, True),
    "information": lambda: t.InformationRecord(MessageData="m", Source="s", TimeGenerated=t.PSDateTime(2020, 1, 1), Tags=["t"], User="u",
                                               Computer="c", ProcessId=1, NativeThreadId=2, ManagedThreadId=3),
    "exception": lambda: t.NETException(Message="m"),
    "category": lambda: t.ErrorCategoryInfo(Category=t.ErrorCategory.ReadError),
    "info": _info,
    "coords": lambda: t.Coordinates(1, 2),
    "size": lambda: t.Size(1, 2),
    "rect": lambda: t.Rectangle(1, 2, 3, 4),
    "key": lambda: t.KeyInfo(1, "a", t.ControlKeyStates.ShiftPressed, True),
    "cell": lambda: t.BufferCell("a", t.ConsoleColor.Red, t.ConsoleColor.Blue, t.BufferCellType.Complete),
    "choice": lambda: t.ChoiceDescription("l", "h"),
    "field": lambda: t.FieldDescription("n"),
    "host": t.HostInfo,
    "user": lambda: Converted(a=1, b="b"),
    "registered": lambda: Registered(a=1, b=2),
}
NESTS: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {
    "list": lambda x: x,
    "error": lambda x: _error(TargetObject=x),
    "information": lambda x: t.InformationRecord(MessageData=x, Source="s", TimeGenerated=t.PSDateTime(2020, 1, 1), Tags=[], User="u",
                                                 Computer="c", ProcessId=1, NativeThreadId=2, ManagedThreadId=3),
    "exception": lambda x: _error(TargetObject=t.PSCustomObject(deep=[x])),
    "user": lambda x: Converted(a=1, b=[x]),
    "custom": lambda x: t.PSCustomObject(p=x),
}
UNNEST: typing.Dict[str, typing.Callable[[typing.Any], typing.Any]] = {
    "list": lambda x: x, "error": lambda x: x.TargetObject, "information": lambda x: x.MessageData,
    "exception": lambda x: x.TargetObject.deep[0], "user": lambda x: x.b[0], "custom": lambda x: x.p,
}
CYCLE = "record-that-contains-itself"


def gen_records(tier: str):
    top = 4 if tier == "quick" else 5
    for k in RECORDS:
        for n in range(1, top + 1):
            for pat in itertools.product(range(3), repeat=n):
                if all(x <= max(pat[:i], default=-1) + 1 for i, x in enumerate(pat)):
                    for nest in NESTS:
                        yield ("share", k, pat, nest)
    for k in ("error", "error-info", "information", "user", "registered"):
        for way in ("self", "list", "dict", "custom", "key", "error", "information", "user"):
            for twice in (False, True):
                yield ("cycle", k, way, twice)


def run_records(case, ctx: Ctx) -> None:
    from mc.canon import canon

    trip = lambda v: t.deserialize(ET.fromstring(ET.tostring(t.serialize(v, None))), None)
    ctx.step()
    ctx.state(case)
    if case[0] == "share":
        _, k, pat, nest = case
        made = [RECORDS[k]() for _ in range(3)]
        alone = canon(trip(RECORDS[k]()))
        back = [UNNEST[nest](x) for x in trip([NESTS[nest](made[i]) for i in pat])]
        same([[x is y for y in back] for x in back], [[x == y for y in pat] for x in pat], "which entries are one object")
        for x in back:
            same(type(x), type(trip(made[0])), "class")
            same(canon(x), alone, "content")
        return
    _, k, way, twice = case
    inner: typing.Any = t.PSCustomObject(x=None)
    if k in ("error", "error-info"):
        top: typing.Any = _error(k == "error-info", TargetObject=inner)
        down = lambda x: x.TargetObject
    elif k == "information":
        top = NESTS["information"](inner)
        down = lambda x: x.MessageData
    else:
        top = Converted(a=1, b=inner) if k == "user" else Registered(a=1, b=inner)
        down = lambda x: x.b
    wrap = {"self": lambda x: x, "list": lambda x: [x], "dict": lambda x: {"k": x}, "custom": lambda x: t.PSCustomObject(p=x), "key": lambda x: t.PSDict({x: 1})}
    unwrap = {"self": lambda x: x, "list": lambda x: x[0], "dict": lambda x: x["k"], "custom": lambda x: x.p, "key": lambda x: list(x)[0]}
    inner.x = (wrap.get(way) or NESTS[way])(top)
    r = trip([top, top] if twice else [top])
    got = (unwrap.get(way) or UNNEST[way])(down(r[0]).x)
    same(type(r[0]), type(top), "class of the record")
    if twice:
        expect(r[0] is r[1], "the record became two")
    if got is not r[0]:
        if k in ("error", "error-info", "user") and type(got) is type(r[0]) and ctx.known_finding(CYCLE):
            return
        fail("the %s inside itself became another %s" % (k, type(got).__name__))


SCENARIOS = [
    Scenario("many", gen_many, run_many, "every number up to 139 (299) and around powers of two and ten to 1024 (4096) of objects, references, type names, properties, entries, items; lists, queues and dictionaries of more than 65536"),
    Scenario("types", gen_types, run_types, "all sequences of 1..3 (4) objects over 15 type name lists, beside and inside each other"),
    Scenario("properties", gen_props, run_props, "all tables of up to 3 adapted and 2-3 extended properties over 3 names and 3 kinds, on 4 base kinds"),
    Scenario("equal", gen_equal, run_equal, "two equal objects of every value kind in the pattern abab b, in 4 places"),
    Scenario("enums", gen_enums, run_enums, "all ordered pairs of enumeration types x up to 8 numbers both have, beside each other and the plain number"),
    Scenario("values", gen_values, run_values, "8 containers x all pairs of the value alphabet, and each as the key of the other"),
    Scenario("records", gen_records, run_records, "%d classes, all patterns of up to 4 (5) occurrences of up to 3 equal objects inside %d others; 5 records that contain themselves in 8 ways" % (len(RECORDS), len(NESTS))),
    Scenario("depth", gen_depth, run_depth, "nesting 1..40 (80) of 4 kinds"),
    Scenario("graphs", gen_graphs, run_graphs, "all graphs of 1..2 nodes over 20 kinds and of 3 nodes over 7 (10) kinds", chunk=64),
    Scenario("peer-graphs", gen_peer, run_peer, "the same as documents in 3 element orders, identity kept for every kind", chunk=64),
]

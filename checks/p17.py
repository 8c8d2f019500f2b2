"""P17: extended type system rules hold under any sequence of changes."""
import inspect
import itertools
import re
import typing
import uuid
from xml.etree import ElementTree as ET

from psrpcore import types as t

from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import reason

RULE = (
    "all sequences of changes up to the stated depth on a class, a derived class and their instances, each step compared with a reference model of the "
    "extended type system by reading every name of every object in every way; all combinations of property kinds and constructor arguments; all callable "
    "signatures; every public class for isolation of instances"
)
ASSUMPTIONS = [
    "a change of a class is seen by instances created later and not by existing ones (pinned by the existing tests)",
    "plain Python attributes of an object come before its properties; a default value is not copied, so a mutable default is one shared object",
    "enumeration members are the constants of their class: nothing is added to them",
    "a property that was received is a note without a type, whatever the class defines for it",
    "aliases and scripts do not refer to each other in a cycle",
]
Unset = object()


# ------------------------------------------------------------------ the model
class MProp:
    def __init__(self, kind: str, name: str, typ: bool = False, value: typing.Any = None, setter: bool = False, mandatory: bool = False) -> None:
        self.kind, self.name, self.typ, self.value, self.setter, self.mandatory = kind, name, typ, value, setter, mandatory

    def copy(self) -> "MProp":
        return MProp(self.kind, self.name, self.typ, self.value, self.setter, self.mandatory)

    def key(self) -> typing.Tuple:
        return (self.kind, self.name)


class Refused(Exception):
    pass


def cast(typ: bool, v: typing.Any) -> typing.Any:
    """The type of typed properties is Int32."""
    if not typ or v is None or isinstance(v, (t.PSInt, tuple)):
        return v
    try:
        n = int(v)
    except ValueError:
        raise Refused()
    if not -(2**31) <= n < 2**31:
        raise Refused()
    return ("int32", n)


class MClass:
    def __init__(self, names: typing.List[str], adapted: typing.List[MProp], extended: typing.List[MProp]) -> None:
        self.names, self.adapted, self.extended = names, adapted, extended

    def new(self) -> "MObj":
        return MObj(list(self.names), [p.copy() for p in self.adapted], [p.copy() for p in self.extended])

    def add(self, p: MProp, force: bool) -> None:
        have = [i for i, q in enumerate(self.extended) if q.name == p.name]
        if have or any(q.name == p.name for q in self.adapted):
            if not force:
                raise Refused()
        if have:
            self.extended[have[0]] = p
        else:
            self.extended.append(p)


class MObj(MClass):
    def __init__(self, *a: typing.Any) -> None:
        super().__init__(*a)
        self.attrs: typing.Dict[str, typing.Any] = {}
        self.text: typing.Optional[str] = None

    def find(self, name: str) -> typing.Optional[MProp]:
        for q in self.extended + self.adapted:
            if q.name == name:
                return q
        return None

    def value(self, p: MProp) -> typing.Any:
        if p.kind == "note":
            return p.value
        return cast(p.typ, self.get("I"))

    def get(self, name: str) -> typing.Any:
        if name in self.attrs:
            return self.attrs[name]
        p = self.find(name)
        if p is None:
            raise AttributeError(name)
        return self.value(p)

    def set(self, name: str, v: typing.Any) -> None:
        p = None if name in self.attrs else self.find(name)
        if p is None:
            self.attrs[name] = v
        elif p.kind == "note":
            p.value = cast(p.typ, v)
        elif p.kind == "script" and p.setter:
            self.set("I", v)
        else:
            raise Refused()


def norm(v: typing.Any) -> typing.Any:
    if type(v) is t.PSInt:
        return ("int32", int(v))
    return v


def kind_of(p: typing.Any) -> str:
    return {t.PSNoteProperty: "note", t.PSAliasProperty: "alias", t.PSScriptProperty: "script"}[type(p)]


# ------------------------------------------------------------------ the real thing
def real(p: MProp) -> typing.Any:
    typ = t.PSInt if p.typ else None
    if p.kind == "note":
        v = p.value[1] if isinstance(p.value, tuple) else p.value
        return t.PSNoteProperty(p.name, value=v, mandatory=p.mandatory, ps_type=typ)
    if p.kind == "alias":
        return t.PSAliasProperty(p.name, "I", ps_type=typ)
    return t.PSScriptProperty(p.name, lambda s: s.I, (lambda s, v: setattr(s, "I", v)) if p.setter else None, mandatory=p.mandatory, ps_type=typ)


def set_i(s: typing.Any, v: typing.Any) -> None:
    s.I = v


NAMES = ["A", "I", "E", "X", "F"]


class World:
    def __init__(self) -> None:
        base_a = [MProp("note", "A", value="a0"), MProp("note", "I", True)]
        base_e = [MProp("note", "E", value="e0")]

        @t.PSType(["MC.C"], adapted_properties=[real(p) for p in base_a], extended_properties=[real(p) for p in base_e], rehydrate=False)
        class C(t.PSObject):
            pass

        @t.PSType(["MC.D"], extended_properties=[real(MProp("note", "F", True, ("int32", 4)))], rehydrate=False)
        class Dv(C):
            pass

        self.classes = {"C": C, "D": Dv}
        mc = MClass(["MC.C", "System.Object"], base_a, base_e)
        md = MClass(["MC.D", "MC.C", "System.Object"], [p.copy() for p in base_a], [MProp("note", "F", True, ("int32", 4))] + [p.copy() for p in base_e])
        self.mclasses = {"C": mc, "D": md}
        self.objs: typing.List[typing.Any] = []
        self.mobjs: typing.List[MObj] = []
        self.new("C")
        self.new("C")
        self.new("D")

    def new(self, c: str) -> None:
        self.objs.append(self.classes[c]())
        self.mobjs.append(self.mclasses[c].new())

    def target(self, w: typing.Any) -> typing.Tuple[typing.Any, typing.Any]:
        return (self.classes[w], self.mclasses[w]) if isinstance(w, str) else (self.objs[w], self.mobjs[w])

    def do(self, op: typing.Tuple) -> str:
        if op[0] == "new":
            self.new(op[1])
            return "new"
        if op[0] == "names":
            obj, m = self.target(op[1])
            obj.PSObject.type_names.insert(0, "MC.More")
            m.names.insert(0, "MC.More")
            return "names"
        if op[0] == "text":
            obj, m = self.target(op[1])
            obj.PSObject.to_string = "txt"
            m.text = "txt"
            return "text"
        if op[0] == "adapt":
            obj, m = self.target(op[1])
            if any(q.name == "X" for q in m.adapted):
                return "adapt"
            obj.PSObject.adapted_properties.append(t.PSNoteProperty("X", value=1))
            m.adapted.append(MProp("note", "X", value=1))
            return "adapt"
        obj, m = self.target(op[1])
        if op[0] == "set":
            _, _, name, v, item = op
            try:
                m.set(name, v)
                want = "ok"
            except Refused:
                want = "ValueError"
            k, e = reason(obj.__setitem__ if item else obj.__setattr__, name, v)
            same(k, want, "writing %r to %s (%s)" % (v, name, e if k != "ok" else ""))
            return want
        _, _, kind, name, typ, force, how = op
        if kind == "note":
            v = {"A": "a1", "E": "e1", "I": 11, "X": "9", "F": "f1"}[name]
            p = MProp("note", name, typ, None)
            try:
                p.value = cast(typ, v)
                bad = False
            except Refused:
                bad = True
        else:
            p = MProp(kind, name, typ, setter=kind == "script" and how != "ro")
            v, bad = None, False
        want = "ok"
        if bad:
            want = "ValueError"
        else:
            try:
                m.add(p, force)
            except Refused:
                want = "RuntimeError"
        pst = t.PSInt if typ else None

        def act() -> None:
            if how == "member":
                pr = t.PSNoteProperty(name, value=v, ps_type=pst) if kind == "note" else real(p)
                t.add_member(obj, pr, force=force)
            elif kind == "note":
                t.add_note_property(obj, name, v, ps_type=pst, force=force)
            elif kind == "alias":
                t.add_alias_property(obj, name, "I", ps_type=pst, force=force)
            elif how == "ro":
                t.add_script_property(obj, name, lambda s: s.I, ps_type=pst, force=force)
            else:
                t.add_script_property(obj, name, lambda s: s.I, set_i, ps_type=pst, force=force)

        k, e = reason(act)
        same(k, want, "adding %s %s with force=%s (%s)" % (kind, name, force, e if k != "ok" else ""))
        return want

    def check(self) -> typing.Tuple:
        out = []
        for c, m in self.mclasses.items():
            meta = self.classes[c].PSObject
            for w, have, want in (("adapted", meta.adapted_properties, m.adapted), ("extended", meta.extended_properties, m.extended)):
                same([(kind_of(p), p.name) for p in have], [p.key() for p in want], "%s properties of class %s" % (w, c))
                for p, q in zip(have, want):
                    if q.kind == "note":
                        same(norm(p.get_value(t.PSObject())), q.value, "default of %s in class %s" % (q.name, c))
            same(list(meta.type_names), m.names, "type names of class " + c)
            same(meta.to_string, None, "text of class " + c)
            out.append((tuple(p.key() for p in m.extended), tuple(m.names)))
        for i, (o, m) in enumerate(zip(self.objs, self.mobjs)):
            meta = o.PSObject
            for w, have, want in (("adapted", meta.adapted_properties, m.adapted), ("extended", meta.extended_properties, m.extended)):
                same([(kind_of(p), p.name) for p in have], [p.key() for p in want], "%s properties of object %d" % (w, i))
            same(list(o.PSTypeNames), m.names, "type names of object %d" % i)
            same(meta.to_string, m.text, "text of object %d" % i)
            vals: typing.Dict[str, typing.Any] = {}
            broken = False
            for n in NAMES:
                try:
                    want = m.get(n)
                except AttributeError:
                    same(reason(getattr, o, n)[0], "AttributeError", "reading %s of object %d" % (n, i))
                    same(reason(lambda: o[n])[0], "AttributeError", "reading [%s] of object %d" % (n, i))
                    continue
                except Refused:
                    same(reason(getattr, o, n)[0], "ValueError", "reading %s of object %d" % (n, i))
                    broken = True
                    continue
                got = norm(getattr(o, n))
                if got != want or type(got) is not type(want):
                    fail("object %d: %s is %r, expected %r", i, n, got, want)
                got = norm(o[n])
                if got != want or type(got) is not type(want):
                    fail("object %d: [%s] is %r, expected %r", i, n, got, want)
                vals[n] = want
            if broken:
                continue
            # all names of the object, whatever way they came
            d = {k: norm(v) for k, v in vars(o).items() if k != "PSObject"}
            want_d = dict(m.attrs)
            for p in m.adapted + m.extended:
                try:
                    want_d[p.name] = m.value(p)
                except Refused:
                    pass
            same(sorted(d), sorted(want_d), "names of object %d" % i)
            for n in d:
                same(d[n], want_d[n], "%s in __dict__ of object %d" % (n, i))
            # and what it is written as
            try:
                wa = [(p.name, m.value(p)) for p in m.adapted]
                we = [(p.name, m.value(p)) for p in m.extended]
            except (Refused, AttributeError):
                continue
            el = ET.fromstring(ET.tostring(t.serialize(o, None)))
            for tag, want_l in (("Props", wa), ("MS", we)):
                ch = el.find(tag)
                got_l = [] if ch is None else [(c.attrib["N"], None if c.tag == "Nil" else ("int32", int(c.text)) if c.tag in ("I32", "I64") else c.text) for c in ch]
                same([(n, ("int32", v) if isinstance(v, int) else v) for n, v in want_l], got_l, "%s of object %d on the wire" % (tag, i))
            out.append(tuple(sorted((k, repr(v)) for k, v in want_d.items())))
        return tuple(out)


def alphabet(full: bool) -> typing.List[typing.Tuple]:
    ops: typing.List[typing.Tuple] = []
    who: typing.List[typing.Any] = [0, "C"] if not full else [0, 2, "C", "D"]
    for w in who:
        for name in ("A", "E", "X") if not full else ("A", "E", "X", "I", "F"):
            for force in (False, True):
                ops.append(("add", w, "note", name, False, force, "fn"))
                if full:
                    ops.append(("add", w, "note", name, True, force, "member"))
                if name not in ("I", "F"):
                    if full or force:
                        ops.append(("add", w, "script", name, False, force, "rw"))
                        ops.append(("add", w, "alias", name, name == "X", force, "fn"))
                    if full:
                        ops.append(("add", w, "script", name, True, force, "ro"))
                        ops.append(("add", w, "script", name, True, force, "member"))
    for w in [0, 1] if not full else [0, 1, 2]:
        for name in ("A", "E", "X", "I"):
            for v in ("5", None) if not full else ("5", 7, None, "x"):
                ops.append(("set", w, name, v, name in ("E", "X")))
                if full:
                    ops.append(("set", w, name, v, name not in ("E", "X")))
    ops.append(("set", 0, "I", "x", False))
    ops.append(("set", 0, "I", 2**31, False))
    ops.append(("new", "C"))
    ops.append(("new", "D"))
    ops.append(("names", 0))
    ops.append(("text", 0))
    ops.append(("adapt", 1))
    if full:
        ops.append(("names", "C"))
    return ops


SMALL, FULL = alphabet(False), alphabet(True)


def gen_seq(tier: str):
    for o in FULL:
        yield ("full", (FULL.index(o),))
    quick = [i for i, o in enumerate(FULL) if o in SMALL]
    for c in itertools.product(range(len(FULL)), repeat=2):
        if tier != "quick" or c[0] in quick or c[1] in quick:
            yield ("full", c)
    core = [i for i, o in enumerate(SMALL) if o[0] != "set" or (o[2] in ("I", "X") and o[3] is not None)]
    core = [i for i in core if not (SMALL[i][0] == "add" and SMALL[i][3] == "A" and SMALL[i][1] == "C")]
    for c in itertools.product(range(len(SMALL)) if tier != "quick" else core, repeat=3):
        yield ("small", c)
    if tier != "quick":
        for c in itertools.product(core, repeat=4):
            yield ("small", c)


def run_seq(case, ctx: Ctx) -> None:
    which, seq = case
    ops = FULL if which == "full" else SMALL
    w = World()
    for i in seq:
        r = w.do(ops[i])
        ctx.step()
        ctx.outcome(ops[i][0], r)
    ctx.state(w.check())
    # a later instance is what its class is
    w.new("C")
    w.new("D")
    w.check()


# ------------------------------------------------------------------ constructors
KINDS = ["plain", "mandatory", "typed", "typed-mandatory", "default", "script", "script-mandatory", "script-ro", "alias"]


def gen_init(tier: str):
    for ka, kb, kc in itertools.product(KINDS[:5], KINDS[:5] if tier != "quick" else KINDS[:3], KINDS):
        for dup in (False, True):
            for npos in range(6 if dup else 5):
                yield (ka, kb, kc, dup, npos)


def mk(kind: str, name: str) -> typing.Tuple[MProp, typing.Any]:
    man = "mandatory" in kind
    typ = "typed" in kind
    if kind.startswith("script"):
        m = MProp("script", name, setter=kind != "script-ro", mandatory=man)
        return m, t.PSScriptProperty(name, lambda s: s.I, None if kind == "script-ro" else set_i, mandatory=man)
    if kind == "alias":
        return MProp("alias", name), t.PSAliasProperty(name, "I")
    v = "d" if kind == "default" else None
    m = MProp("note", name, typ, v, mandatory=man)
    return m, t.PSNoteProperty(name, value=v, mandatory=man, ps_type=t.PSInt if typ else None) if kind == "default" else t.PSNoteProperty(
        name, mandatory=man, ps_type=t.PSInt if typ else None)


def run_init(case, ctx: Ctx) -> None:
    ka, kb, kc, dup, npos = case
    ps = [mk(ka, "a"), mk(kb, "I"), mk(kc, "c")]
    ext = [ps[2]] + ([mk("typed", "a")] if dup else [])

    @t.PSType(["MC.Init"], adapted_properties=[ps[0][1], ps[1][1]], extended_properties=[e[1] for e in ext], rehydrate=False)
    class Cls(t.PSObject):
        pass

    mc = MClass(["MC.Init", "System.Object"], [ps[0][0], ps[1][0]], [e[0] for e in ext])
    names = ["a", "I", "c"]
    vals = {"a": "1", "I": 2, "c": "3", "z": 4}
    for kws in itertools.chain.from_iterable(itertools.combinations(["a", "I", "c", "z"], k) for k in range(5)):
        m = mc.new()
        args = [vals[n] for n in names[:npos]] + [9] * max(0, npos - 3)
        kw = {k: vals[k] for k in kws}
        want = "ok"
        if npos > 3 or any(n in kw for n in names[:npos]):
            want = "TypeError"
        given = names[:npos] + [k for k in kws]
        if want == "ok" and any(p.mandatory and p.name not in given for n in names for p in [m.find(n)]):
            want = "TypeError"
        if want == "ok":
            for n in given:
                if n == "z":
                    want = "TypeError"
                    break
                try:
                    m.set(n, vals[n])
                except Refused:
                    want = "ValueError"
                    break
        k, o = reason(Cls, *args, **kw)
        if want == "ValueError" and "z" in given and k == "TypeError":
            k = want
        same(k, want, "constructor with %d positional and %s (%s)" % (npos, kws, o if k != "ok" else ""))
        if k == "ok":
            for n in names:
                same(norm(getattr(o, n)), m.get(n), n)
            for have, wl in ((o.PSObject.adapted_properties, m.adapted), (o.PSObject.extended_properties, m.extended)):
                for p, q in zip(have, wl):
                    same(norm(p.get_value(o)), m.value(q), "own value of " + q.name)
        o2 = reason(Cls)[1] if not any(p.mandatory for n in names for p in [mc.new().find(n)]) else None
        if o2 is not None:
            m2 = mc.new()
            for n in names:
                same(norm(getattr(o2, n)), m2.get(n), "later instance: " + n)
        for have, wl in ((Cls.PSObject.adapted_properties, mc.adapted), (Cls.PSObject.extended_properties, mc.extended)):
            for p, q in zip(have, wl):
                if q.kind == "note":
                    same(norm(p.get_value(t.PSObject())), q.value, "default of %s in the class" % q.name)
        ctx.step()
        ctx.outcome(want)
    ctx.state(case)


# ------------------------------------------------------------------ callables
def gen_callable(tier: str):
    for use in ("getter", "setter"):
        for req, opt, var, kwonly, ponly in itertools.product(range(5), range(4), (False, True), range(2), (False, True)):
            for how in ("init", "attr"):
                yield (use, req, opt, var, kwonly, ponly, how)
    for i in range(6):
        yield ("bad", i)


def run_callable(case, ctx: Ctx) -> None:
    if case[0] == "bad":
        bad = [None, 5, "x", len, t.PSObject, object()][case[1]]
        k, _ = reason(t.PSScriptProperty, "p", bad)
        same(k, "TypeError", "getter %r" % (bad,))
        k, _ = reason(t.PSScriptProperty, "p", lambda s: 1, bad)
        same(k, "ok" if bad is None else "TypeError", "setter %r" % (bad,))
        n = t.PSNoteProperty("n", value=1)
        same(reason(setattr, n, "getter", lambda s: 2)[0], "ValueError", "getter for a property with a value")
        same(reason(setattr, t.PSNoteProperty("n"), "setter", lambda s, v: 2)[0], "ValueError", "setter without getter")
        p = t.PSScriptProperty("p", lambda s: s.x, lambda s, v: setattr(s, "x", v))
        o = t.PSCustomObject(x=1)
        p.set_value(2, o)
        same(int(o.x), 2, "value set by the setter")
        p.setter = None
        same(reason(p.set_value, 3, o)[0], "ValueError", "writing after the setter was removed")
        same(int(o.x), 2, "value after the refused write")
        same(reason(setattr, p, "getter", None)[0], "ValueError", "removing the getter")
        same(int(p.get_value(o)), 2, "value after that")
        same(reason(t.PSScriptProperty, "p", lambda s: 1, None, True)[0], "TypeError", "mandatory script property without setter")
        ctx.step(10)
        ctx.state(case)
        return
    use, req, opt, var, kwonly, ponly, how = case
    ps = ["a%d" % i for i in range(req)] + ["b%d=None" % i for i in range(opt)]
    if ponly and ps:
        ps.append("/")
    if var:
        ps.append("*args")
    if kwonly:
        if not var:
            ps.append("*")
        ps.append("k=None")
    fn = eval("lambda %s: 7" % ", ".join(ps))
    need = 1 if use == "getter" else 2
    ok = req <= need and (var or req + opt >= need)

    def act() -> typing.Any:
        if use == "getter":
            if how == "init":
                return t.PSScriptProperty("p", fn)
            p = t.PSScriptProperty("p", lambda s: 1)
            p.getter = fn
            return p
        if how == "init":
            return t.PSScriptProperty("p", lambda s: 1, fn)
        p = t.PSScriptProperty("p", lambda s: 1)
        p.setter = fn
        return p

    k, p = reason(act)
    same(k, "ok" if ok else "TypeError", "%s with %s" % (use, ps))
    if ok:
        if use == "getter":
            same(p.get_value(t.PSObject()), 7, "value of the getter")
        else:
            p.set_value(1, t.PSObject())
        q = p.copy()
        same((q.name, q.mandatory, q.ps_type, q.getter is p.getter, q.setter is p.setter), (p.name, p.mandatory, p.ps_type, True, True), "copy")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ writes of typed properties
WRITES: typing.List[typing.Any] = [None, 0, 1, -1, "5", "-5", "x", "", 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, True, t.PSInt(3), t.PSInt64(4), t.PSString("6")]


def gen_writes(tier: str):
    for seq in itertools.product(range(len(WRITES)), repeat=2 if tier == "quick" else 3):
        for where in ("adapted", "extended", "added", "forced"):
            yield (where, seq)


def expected(v: typing.Any) -> typing.Any:
    try:
        return cast(True, v)
    except Refused:
        return Refused


@t.PSType(["MC.Typed"], adapted_properties=[t.PSNoteProperty("I", ps_type=t.PSInt)], extended_properties=[t.PSNoteProperty("E", ps_type=t.PSInt)], rehydrate=False)
class Typed(t.PSObject):
    pass


def run_writes(case, ctx: Ctx) -> None:
    where, seq = case
    o = Typed()
    n = {"adapted": "I", "extended": "E", "added": "N", "forced": "I"}[where]
    if where == "added":
        t.add_note_property(o, "N", None, ps_type=t.PSInt)
    if where == "forced":
        t.add_note_property(o, "I", None, ps_type=t.PSInt, force=True)
    cur: typing.Any = None
    for j, i in enumerate(seq):
        e = expected(WRITES[i])
        k, _ = reason(setattr, o, n, WRITES[i]) if j % 2 else reason(o.__setitem__, n, WRITES[i])
        same(k, "ValueError" if e is Refused else "ok", "writing %r" % (WRITES[i],))
        if e is not Refused:
            cur = norm(e)
        same(norm(getattr(o, n)), cur, "%s after writing %r" % (n, WRITES[i]))
        fresh = Typed()
        same((fresh.I, fresh.E), (None, None), "a fresh instance")
        ctx.step()
    k, q = reason(Typed, **{"I": WRITES[seq[0]], "E": WRITES[seq[1]]})
    es = [expected(WRITES[seq[0]]), expected(WRITES[seq[1]])]
    same(k, "ValueError" if Refused in es else "ok", "constructor")
    if k == "ok":
        same((norm(q.I), norm(q.E)), (norm(es[0]), norm(es[1])), "constructed values")
    ctx.state(where, repr(cur), seq[0])


# ------------------------------------------------------------------ every class
@t.PSType(["MC.Mandatory"], adapted_properties=[t.PSNoteProperty("m", mandatory=True)], rehydrate=False)
class Mandatory(t.PSObject):
    pass


MAKE: typing.Dict[str, typing.Callable[[], typing.Any]] = {
    "PSObject": lambda: t.PSObject(), "PSCustomObject": lambda: t.PSCustomObject(a=1), "PSString": lambda: t.PSString("s"), "PSInt": lambda: t.PSInt(5),
    "PSByte": lambda: t.PSByte(5), "PSSByte": lambda: t.PSSByte(5), "PSInt16": lambda: t.PSInt16(5), "PSUInt16": lambda: t.PSUInt16(5), "PSUInt": lambda: t.PSUInt(5),
    "PSInt64": lambda: t.PSInt64(5), "PSUInt64": lambda: t.PSUInt64(5), "PSSingle": lambda: t.PSSingle(1.5), "PSDouble": lambda: t.PSDouble(1.5),
    "PSDecimal": lambda: t.PSDecimal("1.5"), "PSChar": lambda: t.PSChar("a"), "PSDateTime": lambda: t.PSDateTime(2020, 1, 1), "PSDuration": lambda: t.PSDuration(seconds=1),
    "PSGuid": lambda: t.PSGuid(int=1), "PSUri": lambda: t.PSUri("u:x"), "PSVersion": lambda: t.PSVersion("1.2"), "PSXml": lambda: t.PSXml("<a/>"),
    "PSScriptBlock": lambda: t.PSScriptBlock("x"), "PSByteArray": lambda: t.PSByteArray(b"x"), "PSSecureString": lambda: t.PSSecureString("s"),
    "PSList": lambda: t.PSList([1]), "PSDict": lambda: t.PSDict({"k": 1}), "PSStack": lambda: t.PSStack([1]), "PSQueue": lambda: t.PSQueue(),
    "PSIEnumerable": lambda: t.PSIEnumerable([1]), "Coordinates": lambda: t.Coordinates(1, 2), "Size": lambda: t.Size(1, 2), "Rectangle": lambda: t.Rectangle(1, 2, 3, 4),
    "ErrorCategoryInfo": lambda: t.ErrorCategoryInfo(), "ErrorDetails": lambda: t.ErrorDetails(), "NETException": lambda: t.NETException("m"),
    "ErrorRecord": lambda: t.ErrorRecord(t.NETException("m"), t.ErrorCategoryInfo()), "InvocationInfo": lambda: t.InvocationInfo(),
    "WarningRecord": lambda: t.WarningRecord("m"), "HostInfo": lambda: t.HostInfo(), "KeyInfo": lambda: t.KeyInfo(1, "a"), "PSCredential": lambda: t.PSCredential("u", "p"),
    "ChoiceDescription": lambda: t.ChoiceDescription("l"), "FieldDescription": lambda: t.FieldDescription("n"), "ProgressRecord": lambda: t.ProgressRecord(1, "a", "s"),
    "PSPrimitiveDictionary": lambda: t.PSPrimitiveDictionary({"k": 1}), "Mandatory": lambda: Mandatory(1),
    "InformationRecord": lambda: t.InformationRecord.create("m", "s"), "PipelineState": lambda: t.PipelineState(PipelineState=1),
    "SessionCapability": lambda: t.SessionCapability(PSVersion=t.PSVersion("1.2"), protocolversion=t.PSVersion("1.2"), SerializationVersion=t.PSVersion("1.2")),
}
ICH = ["note", "names", "text", "value", "adapt", "script"]


def gen_each(tier: str):
    for n in MAKE:
        for c in itertools.product(range(len(ICH)), repeat=2):
            yield (n, c)


def look(meta: typing.Any, o: typing.Any = None, blank: bool = False) -> typing.Tuple:
    def vals(ps: typing.Any) -> typing.List:
        r = []
        for p in ps:
            v = p.get_value(o) if o is not None and kind_of(p) == "note" else None
            r.append((kind_of(p), p.name, v if isinstance(v, (str, int, float, type(None))) else type(v).__name__))
        return r

    return (vals(meta.adapted_properties), vals(meta.extended_properties), list(meta.type_names), None if blank else meta.to_string if o is None else re.sub("0x[0-9a-f]+", "", repr(reason(lambda: meta.to_string))))


def run_each(case, ctx: Ctx) -> None:
    n, seq = case
    cls = getattr(t, n, Mandatory)
    k, o = reason(MAKE[n])
    same(k, "ok", "creating a %s (%s)" % (n, o))
    other = MAKE[n]()
    c0, o0 = look(cls.PSObject), look(other.PSObject, other)
    base0 = [look(b.PSObject) for b in cls.__mro__[1:] if hasattr(b, "PSObject")]
    for i, x in enumerate(seq):
        what = ICH[x]
        if what == "note":
            t.add_note_property(o, "MCN%d" % i, "v%d" % i)
            same(getattr(o, "MCN%d" % i), "v%d" % i, "added note")
        elif what == "script":
            t.add_script_property(o, "MCS%d" % i, lambda s: 5)
            same(getattr(o, "MCS%d" % i), 5, "added script")
        elif what == "names":
            o.PSObject.type_names.insert(0, "MC.N")
            same(o.PSTypeNames[0], "MC.N", "added name")
        elif what == "text":
            o.PSObject.to_string = "zz"
            same(o.PSObject.to_string, "zz", "text")
        elif what == "adapt":
            o.PSObject.adapted_properties.append(t.PSNoteProperty("MCA%d" % i, value=1))
            same(getattr(o, "MCA%d" % i), 1, "added adapted property")
        else:
            for p in o.PSObject.adapted_properties + o.PSObject.extended_properties:
                if kind_of(p) == "note" and p.ps_type in (None, t.PSString):
                    setattr(o, p.name, "changed")
        ctx.step()
        fresh = MAKE[n]()
        same(look(cls.PSObject), c0, "class %s after %s of an instance" % (n, what))
        same(look(other.PSObject, other), o0, "another %s after %s" % (n, what))
        same(look(fresh.PSObject, fresh), o0, "a later %s after %s" % (n, what))
        same([look(b.PSObject) for b in cls.__mro__[1:] if hasattr(b, "PSObject")], base0, "base classes of %s" % n)
        raw = reason(cls.__new__, cls)
        if raw[0] == "ok" and isinstance(raw[1], t.PSObject):
            same(look(raw[1].PSObject, blank=True)[:3], c0[:3], "a blank %s" % n)
    ctx.state(case)


# ------------------------------------------------------------------ deserialized instances of a registered class
@t.PSType(["MC.Reg17"], adapted_properties=[t.PSNoteProperty("A", value="a0")], extended_properties=[t.PSNoteProperty("E", ps_type=t.PSInt)])
class Reg(t.PSObject):
    pass


DOCS = {
    0: '<Obj RefId="0"><TN RefId="0"><T>MC.Reg17</T></TN><Props><S N="A">x</S></Props></Obj>',
    1: '<Obj RefId="0"><TN RefId="0"><T>MC.Reg17</T></TN><MS><I32 N="E">4</I32><S N="New">n</S></MS></Obj>',
    2: '<Obj RefId="0"><TN RefId="0"><T>MC.Reg17</T></TN><Props><S N="More">m</S></Props><ToString>tt</ToString></Obj>',
    3: '<Obj RefId="0"><TN RefId="0"><T>MC.Reg17</T><T>Other.Base</T></TN></Obj>',
}
WANT: typing.Dict[int, typing.Dict[str, typing.Any]] = {0: {"A": "x", "E": None}, 1: {"A": "a0", "E": ("int32", 4), "New": "n"}, 2: {"A": "a0", "E": None, "More": "m"}, 3: {"A": "a0", "E": None}}


def gen_reg(tier: str):
    for k in range(1, 4 if tier == "quick" else 5):
        for c in itertools.product(range(8), repeat=k):
            yield c


def run_reg(case, ctx: Ctx) -> None:
    live: typing.List[typing.Tuple[typing.Any, dict]] = []
    plain: typing.Set[int] = set()
    for i, x in enumerate(case):
        if x < 4:
            o = t.deserialize(ET.fromstring(DOCS[x]), None)
            same(type(o).__name__, "Reg", "class")
            live.append((o, dict(WANT[x])))
            if x == 1:
                plain.add(id(o))
        elif x == 4:
            live.append((Reg(), {"A": "a0", "E": None}))
        elif live:
            o, m = live[-1] if x != 7 else live[0]
            if x == 5:
                o.A, o.E = "w%d" % i, i
                # a received property is a plain note
                m.update(A="w%d" % i, E=i if id(o) in plain else ("int32", i))
            elif x == 6:
                t.add_note_property(o, "P%d" % i, i)
                m["P%d" % i] = i
            else:
                t.add_note_property(o, "A", "f", force=True)
                m["A"] = "f"
        ctx.step()
        for o, m in live:
            got = {k: norm(v) if not isinstance(v, str) else str(v) for k, v in vars(o).items() if k != "PSObject"}
            same(got, m, "properties")
        same(([p.name for p in Reg.PSObject.adapted_properties], [p.name for p in Reg.PSObject.extended_properties]), (["A"], ["E"]), "class properties")
        same(list(Reg.PSObject.type_names), ["MC.Reg17", "System.Object"], "type names of the class")
    ctx.state(tuple(tuple(sorted((k, repr(v)) for k, v in m.items())) for _, m in live))


# ------------------------------------------------------------------ type names of derived classes and instance tests
def gen_inherit(tier: str):
    for c in itertools.product(range(4), repeat=3):
        yield c


def run_inherit(case, ctx: Ctx) -> None:
    cls: typing.Any = t.PSObject
    names: typing.List[str] = ["System.Object"]
    ad: typing.List[str] = []
    ex: typing.List[str] = []
    chain = []
    for i, how in enumerate(case):
        own = [] if how == 2 else ["MC.L%d" % i] + (["MC.M%d" % i] if how == 1 else [])
        skip = how == 3
        cls = type("L%d" % i, (cls,), {})
        cls = t.PSType(list(own), [t.PSNoteProperty("a%d" % i)], [t.PSNoteProperty("e%d" % i)], skip_inheritance=skip, rehydrate=False)(cls)
        names = own + ([] if skip else names)
        ad = ["a%d" % i] + ([] if skip else ad)
        ex = ["e%d" % i] + ([] if skip else ex)
        chain.append((cls, list(names), list(ad), list(ex)))
    for c, n, a, e in chain:
        same((list(c.PSObject.type_names), [p.name for p in c.PSObject.adapted_properties], [p.name for p in c.PSObject.extended_properties]), (n, a, e), "class")
        o = c(*range(len(a) + len(e)))
        same(list(o.PSTypeNames), n, "names of the instance")
        same([getattr(o, x) for x in a + e], list(range(len(a) + len(e))), "values in order")
        t.add_note_property(c, "late", 1)
        n2 = c()
        same(n2.late, 1, "a later instance of a changed class")
        same(reason(getattr, o, "late")[0], "AttributeError", "an earlier instance of a changed class")
        for c2, _, a2, e2 in chain:
            if c2 is not c and "late" not in e2:
                same([p.name for p in c2.PSObject.extended_properties], e2, "another class of the chain")
        e.append("late")
        for d, dn, _, _ in chain:
            same(t.ps_isinstance(o, d), dn[0] in n, "instance test")
            same(t.ps_isinstance(o, dn[0]), dn[0] in n, "instance test by name")
            same(t.ps_isinstance(o, (t.PSString, d)), dn[0] in n, "instance test of several")
        ds = t.PSObject()
        ds.PSObject.type_names = ["Deserialized." + x for x in n]
        for d, dn, _, _ in chain:
            same(t.ps_isinstance(ds, d), False, "deserialized instance test")
            same(t.ps_isinstance(ds, d, ignore_deserialized=True), dn[0] in n, "deserialized instance test")
        ctx.step(5)
    ctx.state(case)


# ------------------------------------------------------------------ how many
SHAPES = ["class", "object", "adapted", "force", "names", "instances", "chain", "registered", "scripts", "aliases", "writes"]


def gen_many(tier: str):
    from mc.values import sizes

    for n in sizes(tier, 1024 if tier == "quick" else 4096):
        for x in SHAPES:
            if x == "registered" and n % 16 not in (0, 1, 15):
                continue
            if x == "chain" and n > 300:
                continue
            yield (x, n)


def fresh(names: typing.List[str], base: typing.Any = t.PSObject, adapted: typing.Any = (), extended: typing.Any = (), rehydrate: bool = False) -> typing.Any:
    return t.PSType(names, list(adapted), list(extended), rehydrate=rehydrate)(type("Many", (base,), {}))


def ends(n: int) -> typing.List[int]:
    return sorted({i for i in (0, 1, n // 2, n - 2, n - 1) if 0 <= i < n})


def run_many(case, ctx: Ctx) -> None:
    what, n = case
    props = ["N%d" % i for i in range(n)]
    if what in ("class", "adapted"):
        notes = [t.PSNoteProperty(p, value="d" + p, ps_type=t.PSString if i % 3 == 0 else None) for i, p in enumerate(props)]
        if what == "class":
            cls = fresh(["MC.Many"])
            for q in notes:
                t.add_note_property(cls, q.name, "d" + q.name, ps_type=q.ps_type)
        else:
            cls = fresh(["MC.Many"], adapted=notes)
        a, b = cls(), cls(*["v" + p for p in props])
        c = cls(**{p: "k" + p for p in reversed(props)})
        same(reason(cls, *range(n + 1))[0], "TypeError", "one argument too many")
        for i in ends(n):
            setattr(a, props[i], "w%d" % i)
        for i, p in enumerate(props):
            same((getattr(a, p), getattr(b, p), getattr(c, p)), ("w%d" % i if i in ends(n) else "d" + p, "v" + p, "k" + p), p)
        for o in (cls, a, b, c):
            mine = o.PSObject.extended_properties if what == "class" else o.PSObject.adapted_properties
            same([q.name for q in mine], props, "order")
        x = t.deserialize(t.serialize(b, None), None)
        same([getattr(x, p, None) for p in props], ["v" + p for p in props], "received")
    elif what == "object":
        o, other = t.PSObject(), t.PSObject()
        for p in props:
            t.add_note_property(o, p, "d" + p)
        for i in range(n):
            same(reason(t.add_note_property, o, props[i], 1)[0], "RuntimeError", "a name that is there") if i in ends(n) else None
        same([getattr(o, p) for p in props], ["d" + p for p in props], "values")
        same([p.name for p in o.PSObject.extended_properties], props, "order")
        same(([p.name for p in other.PSObject.extended_properties], [p.name for p in t.PSObject.PSObject.extended_properties]), ([], []), "others")
    elif what == "force":
        o = t.PSObject()
        t.add_note_property(o, "K", "kept")
        for i in range(n):
            t.add_note_property(o, "R", i, force=True)
            same(o.R, i, "replaced")
        same([p.name for p in o.PSObject.extended_properties], ["K"] + ["R"] * bool(n), "properties")
        same(o.K, "kept", "other property")
    elif what == "names":
        o, other = t.PSObject(), t.PSObject()
        for i in range(n):
            o.PSObject.type_names.insert(0, "MC.Name%d" % i)
        want = ["MC.Name%d" % i for i in reversed(range(n))] + ["System.Object"]
        same(list(o.PSTypeNames), want, "names")
        same(list(other.PSTypeNames), ["System.Object"], "names of another")
        for i in ends(n):
            same(t.ps_isinstance(o, "MC.Name%d" % i), True, "instance test")
            same(t.ps_isinstance(other, "MC.Name%d" % i), False, "instance test of another")
            same(t.ps_isinstance(o, tuple(["MC.No%d" % j for j in range(n)] + ["MC.Name%d" % i])), True, "instance test of several")
        same(list(t.deserialize(t.serialize(o, None), None).PSTypeNames), ["Deserialized." + x for x in want], "received names")
    elif what == "instances":
        cls = fresh(["MC.Many"], adapted=[t.PSNoteProperty("A", value="a")], extended=[t.PSNoteProperty("E", ps_type=t.PSInt)])
        objs = [cls(E=i) for i in range(n)]
        for i, o in enumerate(objs):
            if i % 2:
                o.A = "a%d" % i
            if i % 3 == 0:
                t.add_note_property(o, "X%d" % i, i)
        for i, o in enumerate(objs):
            got = {k: norm(v) for k, v in vars(o).items() if k != "PSObject"}
            want2: typing.Dict[str, typing.Any] = {"A": "a%d" % i if i % 2 else "a", "E": ("int32", i)}
            if i % 3 == 0:
                want2["X%d" % i] = i
            same(got, want2, "object %d" % i)
        same(vars(cls()).get("A"), "a", "a later object")
    elif what == "chain":
        cls = fresh(["MC.C0"], extended=[t.PSNoteProperty("N0", value="d0")])
        for i in range(1, n):
            cls = fresh(["MC.C%d" % i], base=cls, extended=[t.PSNoteProperty("N%d" % i, value="d%d" % i)])
        n = max(n, 1)
        o = cls()
        same(list(o.PSTypeNames), ["MC.C%d" % i for i in reversed(range(n))] + ["System.Object"], "names")
        same(sorted((p.name, getattr(o, p.name)) for p in o.PSObject.extended_properties), sorted(("N%d" % i, "d%d" % i) for i in range(n)), "properties")
        for i in ends(n):
            same(t.ps_isinstance(o, "MC.C%d" % i), True, "instance test")
    elif what == "registered":
        tag = "MC.Reg%d." % n
        classes = [fresh([tag + str(i)], extended=[t.PSNoteProperty("E%d" % i)], rehydrate=True) for i in range(n)]
        for i, c in enumerate(classes):
            x = t.deserialize(t.serialize(c(i), None), None)
            same((type(x) is c, norm(getattr(x, "E%d" % i))), (True, ("int32", i)), "object of registered class %d" % i)
    elif what in ("scripts", "aliases"):
        o = t.PSObject()
        t.add_note_property(o, "I", 1)
        for i, p in enumerate(props):
            if what == "scripts":
                t.add_script_property(o, p, (lambda k: lambda s: s.I + k)(i))
            elif i < 100:
                t.add_alias_property(o, p, props[i - 1] if i else "I")
            else:
                t.add_alias_property(o, p, "I")
        for v in (1, -5):
            o.I = v
            same([getattr(o, p) for p in props], [v + (i if what == "scripts" else 0) for i in range(n)], what)
    elif what == "writes":
        o = Typed()
        u = Typed()
        for name in [p.name for p in u.PSObject.adapted_properties + u.PSObject.extended_properties if p.ps_type is t.PSInt][:1]:
            for i in range(n):
                setattr(o, name, str(i))
                same(norm(getattr(o, name)), ("int32", i), "typed write")
                same(reason(setattr, o, name, "x%d" % i)[0] == "ok", False, "a write that does not fit")
                same(norm(getattr(o, name)), ("int32", i), "after a refused write")
            same(getattr(u, name), getattr(Typed(), name), "another object")
    ctx.step(n)
    ctx.state(case)


# ------------------------------------------------------------------ writes of properties without a type
class Same:
    """Equal to all others of its kind."""

    def __eq__(self, o: typing.Any) -> bool:
        return isinstance(o, Same)

    __hash__ = None  # type: ignore[assignment]


def untyped() -> typing.List[typing.Any]:
    return [None, 0, 1, True, False, 1.0, "", "1", [], [1], [1], {}, t.PSInt(1), t.PSInt64(1), t.PSDouble(1.0), t.PSChar(1), t.PSString("1"), t.PSUri("1"), t.PSList([1]), t.PSStack([1]), t.PSDict(), t.PSObject(), Same(), Same(), Same]


def gen_untyped(tier: str):
    n = len(untyped())
    for a, b in itertools.product(range(n), repeat=2):
        for where in ("adapted", "extended", "added", "forced", "script"):
            yield (where, a, b)


def run_untyped(case, ctx: Ctx) -> None:
    """What was written last is the very object that is read."""
    where, a, b = case
    vals = untyped()
    cls = fresh(["MC.Untyped"], adapted=[t.PSNoteProperty("A"), t.PSNoteProperty("D", 1)], extended=[t.PSNoteProperty("E")])
    o = cls()
    n = {"adapted": "A", "extended": "E", "added": "N", "forced": "A", "script": "S"}[where]
    if where == "added":
        t.add_note_property(o, "N", vals[b])
        same(o.N is vals[b], True, "N is what it was added with")
    elif where == "forced":
        o.A = vals[b]
        t.add_note_property(o, "A", vals[a], force=True)
        same(o.A is vals[a], True, "A is what replaced it")
    elif where == "script":
        t.add_script_property(o, "S", lambda s: s.E, lambda s, v: setattr(s, "E", v))
    for j, i in enumerate((a, b, a, a, b)):
        if j % 2:
            o[n] = vals[i]
        else:
            setattr(o, n, vals[i])
        same((getattr(o, n) is vals[i], o[n] is vals[i]), (True, True), "%s after writing a %s (value %d)" % (n, type(vals[i]).__name__, i))
        same(o.D, 1, "the other property")
        ctx.step()
    x = cls(vals[a], E=vals[b])
    same((x.A is vals[a], x.E is vals[b], x.D), (True, True, 1), "constructed")
    y = cls()
    same((y.A, y.E, y.D), (None, None, 1), "a fresh instance")
    ctx.state(where, a)


SCENARIOS = [
    Scenario("untyped", gen_untyped, run_untyped, "all pairs of 25 values, many of them equal to each other, written to properties without a type in 5 places"),
    Scenario("many", gen_many, run_many, "up to 140 (300) and around each power of two and ten up to 1024 (4096): properties of a class or object, type names, instances, derived and registered classes, computed properties, writes"),
    Scenario("callables", gen_callable, run_callable, "all signatures of up to 4 required, 3 optional, variable and keyword parameters"),
    Scenario("inheritance", gen_inherit, run_inherit, "chains of 3 classes, 4 ways each"),
    Scenario("writes", gen_writes, run_writes, "all pairs (triples) of 16 values written to typed properties in 4 places"),
    Scenario("classes", gen_each, run_each, "all pairs of 6 changes to an instance of each of %d classes" % len(MAKE)),
    Scenario("deserialized", gen_reg, run_reg, "sequences of up to 3 (4) of 8 operations on received and created instances"),
    Scenario("constructor", gen_init, run_init, "property kinds x positional arguments x all subsets of keyword arguments"),
    Scenario("sequences", gen_seq, run_seq, "all pairs of %d operations (quick: one of them of the reduced alphabet), all triples of %d (quick: of a core of it; thorough: also quadruples of the core)" % (len(FULL), len(SMALL)), chunk=64),
]

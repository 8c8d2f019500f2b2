"""P20: CLIXML streams of a mini shell keep every object on its stream."""
import itertools
import re
import typing
from xml.etree import ElementTree as ET

import psrpcore
from psrpcore import types as t

from checks import p12
from mc.canon import canon, text
from mc.core import Ctx, Scenario, expect, fail, same
from mc.pools import reason
from mc.values import NAMES, VALUES, sizes

RULE = (
    "all sequences of writes (every stream) and flushes up to the stated depth; every value of the alphabet on the output stream in every position and every record on its "
    "stream; all lists of values with and without streams up to the stated length x all header forms; all ways to divide a list of texts.  The flushed text is also read with "
    "an XML parser that knows nothing of the library"
)
ASSUMPTIONS = [
    "on Linux secure strings of a mini shell are encoded, not encrypted, as PowerShell does",
    "an object is written as it is at the time of the flush",
    "a list given to serialize_clixml is a list of values, a list in a list is a value (documented)",
]
CS = t.ClixmlStream
NS = "{http://schemas.microsoft.com/powershell/2004/04}"
MARK = "#< CLIXML\n"


class Hex(t.PSCryptoProvider):
    """How a secure string of a mini shell is encoded."""

    def encrypt(self, value: str) -> str:
        return value.encode("utf-16-le", "surrogatepass").hex().upper()

    def decrypt(self, value: str) -> str:
        return bytes.fromhex(value).decode("utf-16-le", "surrogatepass")


def documents(flushed: typing.List[str]) -> typing.List[ET.Element]:
    """The independent reader: one marker, then one document per line."""
    whole = "".join(flushed)
    if not whole:
        return []
    expect(whole.startswith(MARK), "the output starts with %r", whole[:20])
    same(whole.count("#< CLIXML"), 1, "markers")
    lines = [x for x in whole[len(MARK):].split("\n") if x]
    same(len(lines), len([f for f in flushed if f]), "documents in the output")
    out = []
    for x in lines:
        root = ET.fromstring(x)
        same(root.tag, NS + "Objs", "root element")
        out.append(root)
    return out


# ------------------------------------------------------------------ sequences of writes and flushes
def prog(i: int) -> typing.Any:
    return t.ProgressRecord(ActivityId=i, Activity="act%d" % i, StatusDescription="st%d" % i)


def info(i: int) -> typing.Any:
    return t.InformationRecord.create("data%d" % i, "src%d" % i)


def err(i: int) -> typing.Any:
    return t.ErrorRecord(Exception=t.NETException(Message="err%d" % i), CategoryInfo=t.ErrorCategoryInfo())


WRITES: typing.List[typing.Tuple[str, CS, typing.Callable[[typing.Any, int], None]]] = [
    ("output", CS.OUTPUT, lambda s, i: s.write_output("out%d" % i)),
    ("null", CS.OUTPUT, lambda s, i: s.write_output(None)),
    ("object", CS.OUTPUT, lambda s, i: s.write_output(t.PSCustomObject(v=i))),
    ("error", CS.ERROR, lambda s, i: s.write_error(err(i))),
    ("error text", CS.ERROR, lambda s, i: s.write_error("et%d" % i)),
    ("debug", CS.DEBUG, lambda s, i: s.write_debug("dbg%d" % i)),
    ("verbose", CS.VERBOSE, lambda s, i: s.write_verbose("vrb%d" % i)),
    ("warning", CS.WARNING, lambda s, i: s.write_warning("wrn%d" % i)),
    ("progress", CS.PROGRESS, lambda s, i: s.write_progress(i, prog(i))),
    ("information", CS.INFORMATION, lambda s, i: s.write_information(info(i))),
]
FLUSH = len(WRITES)
CORE = [0, 2, 4, 7, 8, FLUSH]


def raw_ok(name: str, i: int, o: typing.Any) -> None:
    if name == "null":
        same(o, None, "null")
    elif name == "object":
        same(canon(o), canon(t.PSCustomObject(v=i)), "object")
    elif name == "error":
        expect(isinstance(o, t.ErrorRecord), "error is a %s", type(o).__name__)
        same(str(o.Exception.Message), "err%d" % i, "error message")
    elif name == "progress":
        same((canon(o.SourceId), str(o.Record.Activity), int(o.Record.ActivityId), str(o.Record.StatusDescription)), (("PSInt64", i), "act%d" % i, i, "st%d" % i), "progress")
        expect(type(o.Record) is t.ProgressRecord, "progress is a %s", type(o.Record).__name__)
    elif name == "information":
        expect(type(o) is t.InformationRecord, "information is a %s", type(o).__name__)
        same((str(o.MessageData), str(o.Source)), ("data%d" % i, "src%d" % i), "information")
    else:
        same((type(o).__name__, str(o)), ("PSString", {"output": "out", "error text": "et", "debug": "dbg", "verbose": "vrb", "warning": "wrn"}[name] + str(i)), name)


def cooked_ok(name: str, i: int, o: typing.Any) -> None:
    if name == "error text":
        expect(isinstance(o, t.ErrorRecord), "error is a %s", type(o).__name__)
        same(str(o.Exception.Message), "et%d" % i, "error message")
    elif name in ("debug", "verbose", "warning"):
        expect(type(o) is {"debug": t.DebugRecord, "verbose": t.VerboseRecord, "warning": t.WarningRecord}[name], "%s is a %s", name, type(o).__name__)
        same(str(o.Message), {"debug": "dbg", "verbose": "vrb", "warning": "wrn"}[name] + str(i), name)
    elif name == "progress":
        same((type(o).__name__, str(o.Activity), int(o.ActivityId)), ("ProgressRecord", "act%d" % i, i), "progress")
    else:
        raw_ok(name, i, o)


def out_lists(o: typing.Any) -> typing.Dict[str, typing.List[typing.Any]]:
    return {k: list(getattr(o, k)) for k in ("output", "error", "debug", "verbose", "warning", "progress", "information")}


def compare_out(o: typing.Any, written: typing.List[typing.Tuple[str, CS, int]]) -> None:
    got = out_lists(o)
    for k, v in got.items():
        want = [(n, i) for n, s, i in written if s.value == k]
        same(len(v), len(want), "objects on the %s stream" % k)
        for x, (n, i) in zip(v, want):
            cooked_ok(n, i, x)


def gen_seq(tier: str):
    full, core = (4, 6) if tier == "quick" else (5, 7)
    for k in range(0, full + 1):
        yield from itertools.product(range(FLUSH + 1), repeat=k)
    for k in range(full + 1, core + 1):
        yield from itertools.product(CORE, repeat=k)


def run_seq(case, ctx: Ctx) -> None:
    sh = psrpcore.ClixmlShell()
    written: typing.List[typing.Tuple[str, CS, int]] = []
    pending = 0
    flushed: typing.List[str] = []
    for i, x in enumerate(case + (FLUSH,)):
        ctx.step()
        if x != FLUSH:
            name, stream, f = WRITES[x]
            f(sh, i)
            written.append((name, stream, i))
            pending += 1
            continue
        s = sh.data_to_send()
        expect(isinstance(s, str), "flush gave a %s", type(s).__name__)
        if not pending:
            same(s, "", "flush with nothing pending")
        else:
            # each text can be read by itself
            objs = t.deserialize_clixml(s, Hex(), preserve_streams=True)
            mine = written[-pending:]
            same(len(objs), len(mine), "objects in the text")
            for (o, st), (n, ws, wi) in zip(objs, mine):
                same(st, ws, "stream of %s" % n)
                raw_ok(n, wi, o)
            compare_out(psrpcore.ClixmlOutput.from_clixml(s), mine)
            pending = 0
        flushed.append(s)
    same(sh.data_to_send(), "", "flush with nothing pending")
    docs = documents(flushed)
    same([e.attrib.get("S", "output").lower() for d in docs for e in d], [s.value for _, s, _ in written], "streams in the output")
    compare_out(psrpcore.ClixmlOutput.from_clixml(flushed), written)
    ctx.state(tuple(n for n, _, _ in written), len(docs))


# ------------------------------------------------------------------ values and records on their streams
SECRETS = ["", "a", "caf\u00e9\U0001f600", "x" * 40, "\ud800"]
VAL = NAMES + ["secure%d" % i for i in range(len(SECRETS))] + ["credential", "nested secret"]


def value(n: str) -> typing.Any:
    if n.startswith("secure"):
        return t.PSSecureString(SECRETS[int(n[6:])])
    if n == "credential":
        return t.PSCredential(UserName="u", Password=t.PSSecureString("pw"))
    if n == "nested secret":
        return {"k": [t.PSSecureString("deep"), 1]}
    return VALUES[n]()


def same_value(o: typing.Any, n: str, what: str) -> None:
    if n == "credential":
        same((type(o).__name__, str(o.UserName), o.Password.decrypt()), ("PSCredential", "u", "pw"), what)
    else:
        same(canon(o), canon(value(n)), what)


def gen_values(tier: str):
    for a in VAL:
        yield (a,)
    for a, b in itertools.product(VAL, repeat=2):
        yield (a, b)
    if tier != "quick":
        small = ["none", "str", "special", "dict", "list", "custom", "tagged", "cyclic", "secure1", "shared", "enum"]
        yield from itertools.product([v for v in small if v in VAL], repeat=3)


def run_values(case, ctx: Ctx) -> None:
    for flush in (False, True):
        sh = psrpcore.ClixmlShell()
        texts = []
        for n in case:
            sh.write_output(value(n))
            if flush:
                texts.append(sh.data_to_send())
        texts.append(sh.data_to_send())
        documents(texts)
        o = psrpcore.ClixmlOutput.from_clixml(texts)
        same([len(v) for v in out_lists(o).values()], [len(case), 0, 0, 0, 0, 0, 0], "objects on the streams")
        for n, x in zip(case, o.output):
            same_value(x, n, n)
        ctx.step()
    s = t.serialize_clixml([value(n) for n in case], Hex())
    objs = t.deserialize_clixml(s, Hex())
    same(len(objs), len(case), "values")
    for n, x in zip(case, objs):
        same_value(x, n, n)
    if len(case) == 1 and not isinstance(value(case[0]), list):
        objs = t.deserialize_clixml(t.serialize_clixml(value(case[0]), Hex()), Hex())
        same(len(objs), 1, "values")
        same_value(objs[0], case[0], "value that is not in a list")
    wrapped = t.deserialize_clixml(t.serialize_clixml([[value(n) for n in case]], Hex()), Hex())
    same((len(wrapped), type(wrapped[0]).__name__, len(wrapped[0])), (1, "PSList", len(case)), "list in a list")
    for n, x in zip(case, wrapped[0]):
        same_value(x, n, n)
    ctx.step(3)
    ctx.state(case)


TEXT = p12.TEXTS + ["x\ny\r\nz", "]]>", "<Objs>", "#< CLIXML", "\ud83d", "_x000A_", ">", " lead", "a" * 3000]


def gen_text(tier: str):
    for i, j in itertools.product(range(len(TEXT)), repeat=2):
        yield (i, j)


def run_text(case, ctx: Ctx) -> None:
    a, b = TEXT[case[0]], TEXT[case[1]]
    for name in ("error", "debug", "verbose", "warning"):
        sh = psrpcore.ClixmlShell()
        getattr(sh, "write_" + name)(a)
        f = [sh.data_to_send()]
        getattr(sh, "write_" + name)(b)
        f.append(sh.data_to_send())
        sh.write_output(a)
        getattr(sh, "write_" + name)(a)
        f.append(sh.data_to_send())
        if "#< CLIXML" not in (a, b):
            documents(f)
        o = psrpcore.ClixmlOutput.from_clixml(f)
        got = getattr(o, name)
        same([text(str(x.Exception.Message if name == "error" else x.Message)) for x in got], [text(a), text(b), text(a)], name)
        same([text(str(x)) for x in o.output], [text(a)], "output")
        ctx.step(4)
    ctx.state(case)


def gen_err(tier: str):
    step = 5 if tier == "quick" else 1
    yield from itertools.islice(p12.gen_error("quick"), 0, None, step)


def run_err(case, ctx: Ctx) -> None:
    kw = p12.err_kwargs(dict(case, inv=None, it=None))
    rec = t.ErrorRecord(
        Exception=kw["exception"], CategoryInfo=kw.get("category_info") or t.ErrorCategoryInfo(), TargetObject=kw.get("target_object"),
        FullyQualifiedErrorId=kw.get("fully_qualified_error_id"), ErrorDetails=kw.get("error_details"), ScriptStackTrace=kw.get("script_stack_trace"),
    )
    sh = psrpcore.ClixmlShell()
    sh.write_error(rec)
    sh.write_output("o")
    sh.write_error(rec)
    o = psrpcore.ClixmlOutput.from_clixml(sh.data_to_send())
    same((len(o.error), len(o.output)), (2, 1), "objects")
    for r in o.error:
        p12.err_check(r, dict(case, inv=None, it=None))
    ctx.step(2)
    ctx.state(repr(sorted(case.items())))


def gen_prog(tier: str):
    yield from itertools.islice(p12.gen_progress("quick"), 0, None)


PF = {"activity": "Activity", "activity_id": "ActivityId", "status_description": "StatusDescription", "current_operation": "CurrentOperation", "parent_activity_id": "ParentActivityId",
      "percent_complete": "PercentComplete", "record_type": "RecordType", "seconds_remaining": "SecondsRemaining"}


def run_prog(case, ctx: Ctx) -> None:
    kw = {PF[k]: v for k, v in case.items() if v is not None}
    if "RecordType" in kw:
        kw["RecordType"] = t.ProgressRecordType(kw["RecordType"])
    w = {k: (p12.PDEF.get(k) if v is None else v) for k, v in case.items()}
    for sid in (0, -1, 2**63 - 1, -(2**63)):
        sh = psrpcore.ClixmlShell()
        sh.write_progress(sid, t.ProgressRecord(**kw))
        s = sh.data_to_send()
        (o, st), = t.deserialize_clixml(s, Hex(), preserve_streams=True)
        same((st, canon(o.SourceId)), (CS.PROGRESS, ("PSInt64", sid)), "stream and source")
        for r in (o.Record, psrpcore.ClixmlOutput.from_clixml(s).progress[0]):
            for k, f in PF.items():
                v = getattr(r, f)
                v = int(v.value) if f == "RecordType" else p12.tx(v) if isinstance(v, str) else p12.num(v) if v is not None else None
                same(v, text(w[k]) if isinstance(w[k], str) else w[k], f)
        ctx.step()
    ctx.state(repr(case))


def gen_info(tier: str):
    yield from itertools.islice(p12.gen_information("quick"), 0, None)


def run_info(case, ctx: Ctx) -> None:
    kw = p12.info_kwargs(case)
    rec = t.InformationRecord.create(**kw)
    sh = psrpcore.ClixmlShell()
    sh.write_information(rec)
    r, = psrpcore.ClixmlOutput.from_clixml(sh.data_to_send()).information
    expect(type(r) is t.InformationRecord, "record is a %s", type(r).__name__)
    same(canon(r.MessageData), canon(VALUES[case["message_data"]]()), "message data")
    same((p12.tx(r.Source), [p12.tx(x) for x in r.Tags]), (text(case["source"]), [text(x) for x in case["tags"] or ()]), "source and tags")
    for f, k in (("User", "user"), ("Computer", "computer"), ("ProcessId", "process_id"), ("NativeThreadId", "native_thread_id"), ("ManagedThreadId", "managed_thread_id"), ("TimeGenerated", "time_generated")):
        same(canon(getattr(r, f)), canon(getattr(rec, f)), k)
        if case[k] is not None and f != "TimeGenerated":
            same(canon(getattr(r, f))[1], text(case[k]) if isinstance(case[k], str) else case[k], k)
    ctx.step()
    ctx.state(repr(case))


# ------------------------------------------------------------------ objects written several times
def gen_shared(tier: str):
    n = 4 if tier == "quick" else 5
    for k in range(2, n + 1):
        for c in itertools.product(("a", "b", "in", "flush"), repeat=k):
            yield c


def run_shared(case, ctx: Ctx) -> None:
    a = t.PSCustomObject(x=1)
    b = t.PSCustomObject(x=1)
    sh = psrpcore.ClixmlShell()
    texts: typing.List[str] = []
    groups: typing.List[typing.List[str]] = [[]]
    for x in case:
        if x == "flush":
            texts.append(sh.data_to_send())
            groups.append([])
        else:
            sh.write_output({"a": a, "b": b, "in": t.PSCustomObject(o=a, p=b)}[x])
            groups[-1].append(x)
        ctx.step()
    texts.append(sh.data_to_send())
    for s, g in zip(texts, groups):
        objs = psrpcore.ClixmlOutput.from_clixml(s).output
        same(len(objs), len(g), "objects")
        seen: typing.Dict[str, typing.Any] = {}

        def meet(k: str, o: typing.Any) -> None:
            same((str(type(o).__name__), int(o.x)), ("PSCustomObject", 1), "object %s" % k)
            if k in seen:
                expect(seen[k] is o, "object %s came back as two objects", k)
            seen[k] = o

        for k, o in zip(g, objs):
            if k == "in":
                meet("a", o.o)
                meet("b", o.p)
            else:
                meet(k, o)
        if len(seen) == 2:
            expect(seen["a"] is not seen["b"], "two objects came back as one")
    ctx.state(case)


# ------------------------------------------------------------------ lists of values, streams and headers
ITEMS: typing.List[typing.Tuple[typing.Any, typing.Optional[CS]]] = [("s", None), (None, None), (5, CS.OUTPUT)] + [("t", s) for s in CS] + [({"k": 1}, CS.ERROR), (None, CS.WARNING), ([], None)]
HEADS = ["", "#< CLIXML\n", "#< CLIXML\r\n", "#< CLIXML", "\n", "#< CLIXML\n\n"]
ROOTS = ['<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"', '<Objs xmlns="http://schemas.microsoft.com/powershell/2004/04" Version="1.1.0.1"', "<Objs", '<Objs Version="1.1.0.1"']


def gen_lists(tier: str):
    for k in range(0, 4 if tier == "quick" else 5):
        for c in itertools.product(range(len(ITEMS)), repeat=k):
            yield c


def run_lists(case, ctx: Ctx) -> None:
    items = [ITEMS[i] for i in case]
    s = t.serialize_clixml([v if st is None else (v, st) for v, st in items], Hex())
    root = ET.fromstring(s)
    same((root.tag, root.attrib.get("Version"), len(root)), (NS + "Objs", "1.1.0.1", len(items)), "document")
    same([e.attrib.get("S") for e in root], [None if st is None else st.value for _, st in items], "stream attributes")
    same("\n" in s, False, "line breaks in the document")
    want = [(canon(v), st or CS.OUTPUT) for v, st in items]
    i = s.index(">")
    end = s[i - 1:] if s[i - 1] == "/" else s[i:]
    forms = [h + s for h in HEADS] if len(case) < 3 else [s, MARK + s]
    forms += [r + end for r in ROOTS]
    for f in forms:
        got = t.deserialize_clixml(f, Hex(), preserve_streams=True)
        same([(canon(v), st) for v, st in got], want, "values and streams of %.40r" % f)
        same([canon(v) for v in t.deserialize_clixml(f, Hex())], [w for w, _ in want], "values")
        same([canon(v) for v in t.deserialize_clixml(f, Hex(), preserve_streams=False)], [w for w, _ in want], "values")
        ctx.step(3)
    ctx.state(case)
    ctx.outcome(len(case))


ATTRS = [("Output", CS.OUTPUT), ("ERROR", CS.ERROR), ("Debug", CS.DEBUG), ("vErBoSe", CS.VERBOSE), ("Warning", CS.WARNING), ("Progress", CS.PROGRESS), ("Information", CS.INFORMATION),
         ("unknown", CS.OUTPUT), ("", CS.OUTPUT), ("errors", CS.OUTPUT)]


def gen_attr(tier: str):
    for c in itertools.product(range(len(ATTRS)), repeat=2):
        yield c


def run_attr(case, ctx: Ctx) -> None:
    a, b = (ATTRS[i] for i in case)
    doc = '#< CLIXML\r\n<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"><S S="%s">1</S><Obj S="%s" RefId="0"><MS><S N="x">y</S></MS></Obj><S>2</S></Objs>' % (a[0], b[0])
    got = t.deserialize_clixml(doc, Hex(), preserve_streams=True)
    same([s for _, s in got], [a[1], b[1], CS.OUTPUT], "streams")
    same((got[0][0], got[1][0].x, got[2][0]), ("1", "y", "2"), "values")
    ctx.step()
    ctx.state(case)


# ------------------------------------------------------------------ several texts
def gen_texts(tier: str):
    for n in range(0, 5):
        for cut in itertools.product((0, 1), repeat=n):
            for empties in range(3):
                yield (n, cut, empties)


def run_texts(case, ctx: Ctx) -> None:
    n, cut, empties = case
    sh = psrpcore.ClixmlShell()
    other = psrpcore.ClixmlShell()
    texts: typing.List[str] = [""] * empties
    for i in range(n):
        (sh if i % 2 else other).write_output(i)
        (other if i % 2 else sh).write_warning("w%d" % i)
        if cut[i]:
            texts += [sh.data_to_send(), other.data_to_send()]
    texts += [sh.data_to_send(), "", other.data_to_send()]
    o = psrpcore.ClixmlOutput.from_clixml(texts)
    # the order between the two shells is that of their flushes
    want_o: typing.List[int] = []
    want_w: typing.List[str] = []
    pend: typing.List[int] = []
    for i in range(n + 1):
        if i < n:
            pend.append(i)
        if i == n or cut[i]:
            for odd in (1, 0):
                want_o += [j for j in pend if j % 2 == odd]
                want_w += ["w%d" % j for j in pend if j % 2 != odd]
            pend = []
    same(([int(x) for x in o.output], [str(x.Message) for x in o.warning]), (want_o, want_w), "objects of all texts")
    for s in texts:
        one = psrpcore.ClixmlOutput.from_clixml(s)
        expect(len(one.output) + len(one.warning) <= 2 * n, "objects of one text")
    same([len(v) for v in out_lists(psrpcore.ClixmlOutput.from_clixml([])).values()], [0] * 7, "no text")
    same([len(v) for v in out_lists(psrpcore.ClixmlOutput()).values()], [0] * 7, "a new collection")
    ctx.step(4)
    ctx.state(case)


# ------------------------------------------------------------------ how many and how long
def gen_many(tier: str):
    for n in sizes(tier, 1100 if tier == "quick" else 4200):
        for every in (0, 1, 3, 17):
            if every != 1 or n < 300:
                yield ("writes", n, every, n % FLUSH)
        yield ("same", n, 0, n % FLUSH)
    for w in range(FLUSH):
        for n in (140, 300, 1030):
            yield ("same", n, 0, w)
    for n in sizes(tier, 70000 if tier == "quick" else 100001):
        yield ("text", n, 0, 0)
    for n in sizes(tier, 300):
        yield ("list", n, 0, 0)


def run_many(case, ctx: Ctx) -> None:
    k, n, every, w0 = case
    if k == "text":
        x = ("caf\u00e9 _x0041_ " * (n // 12 + 1))[:n]
        sh = psrpcore.ClixmlShell()
        for name in ("error", "debug", "verbose", "warning", "output"):
            getattr(sh, "write_" + name)(x)
            getattr(sh, "write_" + name)("p" * n)
        s = sh.data_to_send()
        documents([s])
        o = psrpcore.ClixmlOutput.from_clixml(s)
        for name in ("error", "debug", "verbose", "warning", "output"):
            got = [text(str(v.Exception.Message if name == "error" else v.Message if name != "output" else v)) for v in getattr(o, name)]
            same(got, [text(x), text("p" * n)], name)
        same(text(t.deserialize_clixml(t.serialize_clixml(t.PSSecureString(x), Hex()), Hex())[0].decrypt()), text(x), "secure string")
        ctx.step(11)
    elif k == "list":
        names = [VAL[i * 7 % len(VAL)] for i in range(n)]
        got = t.deserialize_clixml(t.serialize_clixml([value(m) for m in names], Hex()), Hex())
        same(len(got), n, "values")
        for g, m in zip(got, names):
            same_value(g, m, m)
        ctx.step(n)
    else:
        sh = psrpcore.ClixmlShell()
        written: typing.List[typing.Tuple[str, CS, int]] = []
        flushed: typing.List[str] = []
        for i in range(n):
            name, stream, f = WRITES[w0 if k == "same" else (i * 7 + w0 + i // FLUSH) % FLUSH]
            f(sh, i)
            written.append((name, stream, i))
            if every and i % every == every - 1:
                flushed.append(sh.data_to_send())
        flushed.append(sh.data_to_send())
        same(sh.data_to_send(), "", "flush with nothing pending")
        docs = documents(flushed)
        same([e.attrib.get("S", "output").lower() for d in docs for e in d], [s.value for _, s, _ in written], "streams in the output")
        compare_out(psrpcore.ClixmlOutput.from_clixml(flushed), written)
        pos = 0
        for s in flushed:
            for o, st in t.deserialize_clixml(s, Hex(), preserve_streams=True) if s else []:
                same(st, written[pos][1], "stream")
                raw_ok(written[pos][0], written[pos][2], o)
                pos += 1
        same(pos, n, "objects")
        ctx.step(n)
    ctx.state(case)


SCENARIOS = [
    Scenario("many", gen_many, run_many, "every number up to 139 (299) and around powers of two and ten to 1024 (4096) of writes, flushed never, each time, each 3rd, each 17th; texts to 65536 (100000); lists of up to 299 values", 4, timeout=60.0),
    Scenario("attributes", gen_attr, run_attr, "all pairs of %d stream attributes" % len(ATTRS)),
    Scenario("texts", gen_texts, run_texts, "two shells, up to 4 writes, all flush points"),
    Scenario("shared", gen_shared, run_shared, "all sequences of up to 4 (5) writes of two objects and an object with both, and flushes"),
    Scenario("lists", gen_lists, run_lists, "all lists of up to 3 (4) of %d values with and without a stream x header forms" % len(ITEMS)),
    Scenario("stream texts", gen_text, run_text, "all pairs of %d texts on every text stream" % len(TEXT)),
    Scenario("errors", gen_err, run_err, "error records of P12 (quick: every fifth)"),
    Scenario("progress", gen_prog, run_prog, "progress records of P12 x 4 source ids"),
    Scenario("information", gen_info, run_info, "information records of P12"),
    Scenario("values", gen_values, run_values, "all pairs (triples of a core) of %d values" % len(VAL)),
    Scenario("sequences", gen_seq, run_seq, "all sequences of up to 4 (5) of %d operations and up to 6 (7) of %d" % (FLUSH + 1, len(CORE)), chunk=64),
]

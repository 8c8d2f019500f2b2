"""Exhaustive explorer.

A check is a list of scenarios.  A scenario enumerates a finite space of cases
(operation sequences, schedules, cut points, graphs, value tuples ...) in a
fixed, simplest-first order and runs each of them against the real code,
comparing every step with a reference model.  Nothing is sampled: a run covers
the complete space of the tier or says which cap it hit.

Cases are spread over forked workers in chunks.  The reported violation is the
one with the smallest index of its scenario among those found, and it is
written out as a replay file that ``run_check.py <ID> --replay FILE`` runs
again without the explorer.
"""
from __future__ import annotations

import ctypes
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import typing


class Violation(Exception):
    """The property does not hold on the case that raised this."""


class KnownFinding(Exception):
    """The case is one that the known-findings file lists."""


class CaseTimeout(BaseException):
    """The code under test did not come back."""


def fail(msg: str, *args: typing.Any) -> typing.NoReturn:
    raise Violation(msg % args if args else msg)


def expect(cond: typing.Any, msg: str, *args: typing.Any) -> None:
    if not cond:
        fail(msg, *args)


def same(actual: typing.Any, wanted: typing.Any, what: str) -> None:
    if not (actual == wanted and type(actual) is type(wanted)):
        if actual == wanted and isinstance(actual, (list, tuple)) and isinstance(wanted, (list, tuple)):
            return
        raise Violation("%s: expected %.600r, got %.600r" % (what, wanted, actual))


def _h(key: typing.Any) -> int:
    try:
        return hash(key)
    except TypeError:
        return hash(repr(key))


class Ctx:
    """Measures what a run covered."""

    def __init__(self) -> None:
        self.states: typing.Set[int] = set()
        self.outcomes: typing.Set[int] = set()
        self.transitions = 0
        self.cases = 0
        self.known: typing.List[str] = []
        self.known_table: typing.Dict[str, str] = {}

    def state(self, *key: typing.Any) -> None:
        """A distinct state of the explored system was reached and checked."""
        self.states.add(_h(key))

    def outcome(self, *key: typing.Any) -> None:
        """A distinct observable outcome (used to show that exploration is not vacuous)."""
        self.outcomes.add(_h(key))

    def step(self, n: int = 1) -> None:
        """Transitions (operations, deliveries, conversions) executed and checked."""
        self.transitions += n

    def known_finding(self, key: str) -> bool:
        """Whether `key` identifies a recorded, unrepaired defect."""
        if key in self.known_table:
            if key not in self.known:
                self.known.append(key)
            return True
        return False


class Scenario:
    def __init__(
        self,
        name: str,
        cases: typing.Callable[[str], typing.Iterable[typing.Any]],
        run: typing.Callable[[typing.Any, Ctx], None],
        bound: str = "",
        chunk: int = 16,
        timeout: float = 20.0,
    ) -> None:
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.chunk = chunk
        self.timeout = timeout


def _alarm(signum: int, frame: typing.Any) -> None:
    raise CaseTimeout()


def run_case(sc: Scenario, case: typing.Any, ctx: Ctx, timeout: float) -> typing.Optional[str]:
    """Runs one case, returns what is wrong or None."""
    # Processor time, so that a busy machine is not taken for code that does not terminate; code that waits is stopped by the other.
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.setitimer(signal.ITIMER_REAL, min(6 * timeout, max(300, timeout)))
    try:
        sc.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "no answer within %.0f s: the code under test does not terminate" % timeout
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # anything the code under test raises that the model does not expect
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))
        return "unexpected %s: %.500s (%s)" % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(
    wid: int,
    scenarios: typing.List[Scenario],
    tier: str,
    counters: typing.Any,
    best: typing.Any,
    current: typing.Any,
    deadline: float,
    out: str,
    known_table: typing.Dict[str, str],
    timeout_scale: float,
) -> None:
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(3000)
    ctx = Ctx()
    ctx.known_table = known_table
    res: typing.Dict[str, typing.Any] = {"per": {}, "viol": [], "capped": []}
    for si, sc in enumerate(scenarios):
        s0, t0, c0, o0 = len(ctx.states), ctx.transitions, ctx.cases, time.time()
        gen = enumerate(sc.cases(tier))
        pos = 0
        done = False
        while not done:
            if best[si] >= 0 and counters[si].value * sc.chunk > best[si]:
                break
            if time.time() > deadline:
                res["capped"].append(sc.name)
                break
            with counters[si].get_lock():
                start = counters[si].value * sc.chunk
                counters[si].value += 1
            while pos < start:
                try:
                    next(gen)
                except StopIteration:
                    done = True
                    break
                pos += 1
            if done:
                break
            for idx, case in itertools.islice(gen, sc.chunk):
                pos = idx + 1
                current[2 * wid], current[2 * wid + 1] = si, idx
                ctx.cases += 1
                msg = run_case(sc, case, ctx, sc.timeout * timeout_scale)
                if msg is not None:
                    again = run_case(sc, case, Ctx0(known_table), sc.timeout * timeout_scale)
                    res["viol"].append((si, idx, case, msg, again))
                    with counters[si].get_lock():
                        if best[si] < 0 or idx < best[si]:
                            best[si] = idx
                    break
            else:
                if pos < start + sc.chunk:
                    done = True
                continue
            break
        current[2 * wid] = -1
        per = res["per"].setdefault(sc.name, [0, 0, 0, 0.0])
        per[0] += ctx.cases - c0
        per[1] += len(ctx.states) - s0
        per[2] += ctx.transitions - t0
        per[3] = time.time() - o0
    res.update(
        states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions, cases=ctx.cases, known=ctx.known
    )
    tmp = out + ".tmp"
    with open(tmp, "wb") as fh:
        pickle.dump(res, fh)
    os.rename(tmp, out)


def Ctx0(known_table: typing.Dict[str, str]) -> Ctx:
    c = Ctx()
    c.known_table = known_table
    return c


def jsonable(v: typing.Any) -> typing.Any:
    if isinstance(v, (list, tuple)):
        return [jsonable(i) for i in v]
    if isinstance(v, dict):
        return {str(k): jsonable(i) for k, i in v.items()}
    if isinstance(v, str):
        return v if v.isprintable() and v.isascii() else v.encode("unicode_escape", "surrogatepass").decode()
    if isinstance(v, (bool, int, float)) or v is None:
        return v
    return repr(v)


def load_known(here: str, prop: str) -> typing.Dict[str, str]:
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        data = json.load(fh)
    return {e["key"]: e["what"] for e in data.get("findings", []) if prop in e["properties"]}


def main(argv: typing.List[str], here: str, repo: str) -> int:
    t_start = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("VERIF_BUDGET_S", "780"))
    replay = only = None
    it = iter(argv[1:])
    for a in it:
        if a == "--replay":
            replay = next(it)
        elif a == "--scenario":
            only = next(it)
        elif a == "--jobs":
            jobs = int(next(it))

    known_table = load_known(here, prop)
    replay_dir = os.path.join(here, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, prop + ".replay")

    def write_replay(d: typing.Dict[str, typing.Any]) -> None:
        with open(replay_path, "wb") as fh:
            pickle.dump(d, fh)
        with open(replay_path + ".json", "w") as fh:
            json.dump(jsonable(d), fh, indent=1)

    try:
        from mc import env

        env.prepare(repo)
        mod = importlib.import_module("checks." + prop.lower())
        scenarios: typing.List[Scenario] = mod.SCENARIOS
    except BaseException as e:
        # The code cannot even be loaded: nothing a user relies on holds.
        msg = "psrpcore cannot be loaded: %s: %s" % (type(e).__name__, e)
        traceback.print_exc()
        write_replay({"property": prop, "scenario": "<load>", "case": None, "what": msg})
        write_evidence(here, prop, tier, seed, [], Ctx(), {}, [], [msg], time.time() - t_start, "", [], [])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1

    if only:
        scenarios = [s for s in scenarios if s.name == only]

    if replay:
        with open(replay, "rb") as fh:
            d = pickle.load(fh)
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        for s in scenarios:
            if s.name == d["scenario"]:
                msg = run_case(s, d["case"], Ctx0(known_table), s.timeout)
                print("replay of %s/%s: %s" % (prop, s.name, msg or "holds"))
                if msg:
                    print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1 if msg else 0
        print("no scenario " + d["scenario"])
        return 2

    deadline = t_start + budget
    tmpdir = tempfile.mkdtemp(prefix="mc-")
    mpc = mp.get_context("fork")
    counters = [mpc.Value("q", 0) for _ in scenarios]
    best = mpc.Array("q", [-1] * max(1, len(scenarios)), lock=False)
    current = mpc.Array("q", [-1] * (2 * jobs), lock=False)
    timeout_scale = float(os.environ.get("VERIF_TIMEOUT_SCALE", "1"))
    procs = []
    outs = []
    for w in range(jobs):
        out = os.path.join(tmpdir, "w%d" % w)
        outs.append(out)
        p = mpc.Process(
            target=_worker,
            args=(w, scenarios, tier, counters, best, current, deadline, out, known_table, timeout_scale),
        )
        p.start()
        procs.append(p)
    hard = deadline + 60
    for p in procs:
        p.join(max(1.0, hard - time.time()))
    killed = False
    for p in procs:
        if p.is_alive():
            p.kill()
            p.join()
            killed = True

    total = Ctx()
    per: typing.Dict[str, typing.List[float]] = {}
    viols: typing.List[typing.Any] = []
    capped: typing.Set[str] = set()
    known: typing.Set[str] = set()
    for w, (p, out) in enumerate(zip(procs, outs)):
        if os.path.exists(out):
            with open(out, "rb") as fh:
                r = pickle.load(fh)
            total.states |= r["states"]
            total.outcomes |= r["outcomes"]
            total.transitions += r["transitions"]
            total.cases += r["cases"]
            viols += r["viol"]
            capped |= set(r["capped"])
            known |= set(r["known"])
            for n, (a, b, c, d) in r["per"].items():
                q = per.setdefault(n, [0, 0, 0, 0.0])
                q[0] += a
                q[1] += b
                q[2] += c
                q[3] = max(q[3], d)
        else:
            si, idx = current[2 * w], current[2 * w + 1]
            if si >= 0 and not killed:
                case = next(itertools.islice(scenarios[si].cases(tier), idx, None), None)
                viols.append((si, idx, case, "the process running this case died (exit code %s)" % p.exitcode, None))
            elif si >= 0:
                capped.add(scenarios[si].name)
    for f in os.listdir(tmpdir):
        os.unlink(os.path.join(tmpdir, f))
    os.rmdir(tmpdir)

    viols.sort(key=lambda v: (v[0], v[1]))
    samples = []
    for s in scenarios:
        try:
            cs = list(itertools.islice(s.cases(tier), 0, 400))
            for c in (cs[0], cs[len(cs) // 2]):
                samples.append({"scenario": s.name, "case": jsonable(c)})
        except BaseException:
            pass
    wall = time.time() - t_start
    write_evidence(
        here, prop, tier, seed, scenarios, total, per, sorted(capped),
        ["%s: %s" % (scenarios[v[0]].name, v[3]) for v in viols], wall,
        getattr(mod, "RULE", ""), getattr(mod, "ASSUMPTIONS", []), samples,
    )
    for n, q in per.items():
        print("  %-28s cases=%-8d states=%-8d transitions=%-9d %.1fs%s" % (
            n, q[0], q[1], q[2], q[3], "  CAPPED" if n in capped else ""))
    print("%s tier=%s cases=%d states=%d transitions=%d outcomes=%d wall=%.1fs" % (
        prop, tier, total.cases, len(total.states), total.transitions, len(total.outcomes), wall))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_table[k]))
    if viols:
        si, idx, case, msg, again = viols[0]
        write_replay({
            "property": prop, "scenario": scenarios[si].name, "index": idx, "case": case, "what": msg,
            "repeated_alone": again, "others": [(scenarios[v[0]].name, v[1], v[3]) for v in viols[1:20]],
        })
        print(("%s: case %d: %s" % (scenarios[si].name, idx, jsonable(case)))[:2000])
        print("  " + str(jsonable(msg))[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    return 0


def write_evidence(
    here: str, prop: str, tier: str, seed: int, scenarios: typing.List[Scenario], total: Ctx,
    per: typing.Dict[str, typing.List[float]], capped: typing.List[str], viols: typing.List[str],
    wall: float, rule: str, assumptions: typing.List[str], samples: typing.List[typing.Any],
) -> None:
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.cases,
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": not capped and not viols,
            "rule": rule,
            "scenarios": {
                s.name: {
                    "bound": s.bound,
                    "traces": int(per.get(s.name, [0])[0]),
                    "transitions": int(per.get(s.name, [0, 0, 0])[2]),
                    "capped": s.name in capped,
                }
                for s in scenarios
            },
            "capped": capped,
            "samples": samples[:24],
            "violations_found": viols[:20],
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    path = os.path.join(here, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.rename(path + ".tmp", path)

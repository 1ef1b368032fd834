"""Run loop, monitor, watchdog, evidence and verdicts.

A property module (props/cNN.py) provides

    ID        property id
    LEVEL     verification level
    RULE      how cases are made and what makes one non-trivial
    PLAN      {"quick": [(kind, n), ...], "thorough": [...]}
    REQUIRE   {counter: minimum}  - below it the run is inconclusive
    case(kind, rng, mon)          - runs one workload and observes it

Each case is a function of (seed, property, kind, index) only, so a witness is
replayed by naming those four values.

Verdicts are three-valued: exit 0 held on everything observed, exit 1 violated,
exit 2 inconclusive (too little observed, a watchdog fired, the harness broke).
"""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "sudokutools") + os.sep
CASE_CPU_SECONDS = 100.0       # CPU time of one case, not wall clock
RUN_WALL_SECONDS = {"quick": 600.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    """The code under test broke the property (raised by monitors)."""


class Watchdog(BaseException):
    """A case used up its CPU allowance: inconclusive."""


class Skip(Exception):
    """The case could not be built (an oracle limit was hit)."""


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Monitor(object):
    """Collects what one case observed."""

    def __init__(self, known=()):
        self.counts = Counter()
        self.distinct = set()
        self.samples = []
        self.known_ids = set(known)
        self.index = 0
        self.known = Counter()

    def count(self, name, n=1):
        self.counts[name] += n

    def evaluated(self, case, nontrivial=True, n=1):
        """One oracle evaluation; `case` identifies what it was about."""
        self.counts["evaluations"] += n
        if nontrivial:
            self.distinct.add(digest(case))

    def index_of(self, items):
        """The item this case is about, when all of them are walked."""
        return items[self.index % len(items)]

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append(kw)

    def fail(self, msg, known=None, **witness):
        """Report a violation. `known` names the mechanism, if identified."""
        if known is not None and known in self.known_ids:
            self.known[known] += 1
            return
        raise Violation(json.dumps({"what": msg, "witness": witness},
                                   default=repr, sort_keys=True))

    def check(self, cond, msg, **witness):
        self.counts["assertions"] += 1
        if not cond:
            self.fail(msg, **witness)

    def call(self, what, fn, *args, **kw):
        """Call the code under test on legal input: it must not raise."""
        self.counts["calls"] += 1
        try:
            return fn(*args, **kw)
        except (Violation, Skip):
            raise
        except Exception as e:
            self.fail("%s raised %s: %s" % (what, type(e).__name__, e),
                      traceback=traceback.format_exc().splitlines()[-6:],
                      args=[show(a) for a in args],
                      kwargs={k: show(v) for k, v in kw.items()})

    def collect(self, what, iterable, limit):
        """Drain an iterator of the code under test, at most limit + 1 items."""
        out = []

        def drain():
            for item in iterable:
                out.append(item)
                if len(out) > limit:
                    break
        self.call(what, drain)
        return out


def show(x):
    try:
        if hasattr(x, "box_size") and hasattr(x, "encode"):
            return "Sudoku%r %s" % (x.box_size, x.encode(
                row_sep="/", col_sep=","))
    except Exception:
        pass
    r = repr(x)
    return r if len(r) < 2000 else r[:2000] + "..."


# ---------------------------------------------------------------- coverage

class LineCoverage(object):
    """Which lines of the package ran (sys.monitoring, one event per line)."""

    def __init__(self):
        self.lines = set()
        m = getattr(sys, "monitoring", None)
        self.on = False
        if m is None:
            return
        try:
            m.use_tool_id(m.COVERAGE_ID, "verif")
        except ValueError:
            return
        self.on = True

        def line(code, no):
            fn = code.co_filename
            if fn.startswith(PKG):
                self.lines.add((fn[len(PKG):], no))
            return m.DISABLE
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)


def executable_lines(path):
    """Line numbers inside functions of a module."""
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    out = set()

    def walk(c, top):
        if not top:
            out.update(n for _, _, n in c.co_lines()
                       if n is not None and n != c.co_firstlineno)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k, top and not (k.co_flags & 0x2))
    walk(code, True)
    return out


# ---------------------------------------------------------------- one case

def case_rng(seed, pid, kind, index):
    return random.Random("%s/%s/%s/%s" % (seed, pid, kind, index))


def _alarm(signum, frame):
    raise Watchdog()


def run_case(prop, seed, kind, index, known):
    """Returns (status, message, monitor)."""
    mon = Monitor(known)
    mon.index = index
    rng = case_rng(seed, prop.ID, kind, index)
    # the library draws from the global generator
    random.seed("g/%s/%s/%s/%s" % (seed, prop.ID, kind, index))
    signal.signal(signal.SIGPROF, _alarm)
    # seconds is an allowance of CPU time; it repeats, should it be swallowed
    signal.setitimer(signal.ITIMER_PROF,
                     getattr(prop, "CASE_CPU_SECONDS", CASE_CPU_SECONDS), 5.0)
    try:
        mon.rng = case_rng(seed, prop.ID, kind + "+", index)
        prop.case(kind, rng, mon)
        return "ok", None, mon
    except Violation as e:
        return "violation", str(e), mon
    except Skip as e:
        mon.count("skipped_cases")
        return "ok", None, mon
    except Watchdog:
        return "inconclusive", "CPU watchdog fired", mon
    except RecursionError:
        return "harness", traceback.format_exc(), mon
    except BaseException:
        return "harness", traceback.format_exc(), mon
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# ---------------------------------------------------------------- workers

_W = {}


def _worker_init(pid, seed, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W["prop"] = load_prop(pid)
    _W["seed"] = seed
    _W["known"] = known
    _W["cov"] = LineCoverage()


def _worker_chunk(chunk):
    """Runs a few cases; stops at the first bad one."""
    out = {"counts": Counter(), "distinct": set(), "samples": [],
           "known": Counter(), "bad": None, "cases": 0, "slow": (0, "")}
    cov = _W["cov"]
    for kind, index in chunk:
        t = time.process_time()
        status, msg, mon = run_case(
            _W["prop"], _W["seed"], kind, index, _W["known"])
        t = time.process_time() - t
        out["slow"] = max(out["slow"], (round(t, 2), "%s/%d" % (kind, index)))
        out["cases"] += 1
        out["counts"].update(mon.counts)
        out["counts"]["cases:" + kind] += 1
        out["distinct"] |= mon.distinct
        out["known"].update(mon.known)
        if mon.samples and len(out["samples"]) < 2:
            out["samples"].append(dict(mon.samples[0], case="%s/%d" % (kind, index)))
        if status != "ok":
            out["bad"] = (status, kind, index, msg)
            break
    out["lines"] = set(cov.lines)
    return out


def load_prop(pid):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    return importlib.import_module("props." + pid.lower())


def load_known(pid):
    """Ids of listed known findings of this property: {id: what fails}."""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["id"]: e["what"] for e in data.get("known", [])
            if e["property"] == pid}


def make_chunks(plan, seed):
    cases = [(kind, i) for kind, n in plan for i in range(n)]
    # spread the kinds, in an order that depends on nothing but the plan
    random.Random(12345).shuffle(cases)
    size = max(1, min(25, len(cases) // 160 or 1))
    return [cases[i:i + size] for i in range(0, len(cases), size)], len(cases)


def write_replay(prop, tier, seed, kind, index, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-s%d.json" % (prop.ID, kind, index, seed))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "tier": tier, "seed": seed,
                   "kind": kind, "index": index, "message": msg,
                   "replay": "./check %s --replay %s" % (prop.ID, path)},
                  f, indent=1)
    return path


def run_property(pid, tier, seed, jobs=8):
    import multiprocessing as mp
    t0 = time.time()
    prop = load_prop(pid)
    import sudokutools
    assert os.path.abspath(sudokutools.__file__).startswith(PKG), \
        sudokutools.__file__
    known = load_known(pid)
    plan = prop.PLAN[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if scale != 1:
        # only for experiments: the minima of observations will not be met
        plan = [(k, max(1, int(n * scale))) for k, n in plan]
    chunks, total = make_chunks(plan, seed)
    counts, distinct, samples = Counter(), set(), []
    known_hits, lines, bad = Counter(), set(), []
    done, slow = 0, (0, "")
    stopped = None
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, _worker_init, (pid, seed, set(known))) as pool:
        results = pool.imap_unordered(_worker_chunk, chunks)
        while True:
            left = RUN_WALL_SECONDS[tier] - (time.time() - t0)
            try:
                r = results.next(timeout=max(left, 0.1))
            except StopIteration:
                break
            except mp.TimeoutError:
                stopped = "wall-clock limit"
                break
            counts.update(r["counts"])
            distinct |= r["distinct"]
            known_hits.update(r["known"])
            lines |= r["lines"]
            done += r["cases"]
            slow = max(slow, r["slow"])
            if len(samples) < 6:
                samples.extend(r["samples"])
            if r["bad"]:
                bad.append(r["bad"])
                if r["bad"][0] == "violation":
                    stopped = "violation"
                    break
                if len(bad) > 20:
                    stopped = "too many inconclusive cases"
                    break
        pool.terminate()
    violations = [b for b in bad if b[0] == "violation"]
    others = [b for b in bad if b[0] != "violation"]

    missing = {k: (counts.get(k, 0), v) for k, v in
               getattr(prop, "REQUIRE", {}).items() if counts.get(k, 0) < v}
    cover = {}
    for f in getattr(prop, "FILES", []):
        path = os.path.join(PKG, f)
        if not os.path.exists(path):
            continue
        ex = executable_lines(path)
        hit = {n for fn, n in lines if fn == f}
        cover[f] = "%d of %d lines inside functions" % (len(ex & hit), len(ex))
    coverage = {
        "evaluations": counts.get("evaluations", 0),
        "distinct_nontrivial": len(distinct),
        "rule": prop.RULE,
        "samples": samples[:6] or [{"note": "no case finished"}],
        "cases_run": done,
        "cases_planned": total,
        "observed": {k: v for k, v in sorted(counts.items())
                     if k != "evaluations"},
        "code_reached": cover,
        "slowest_case_cpu_s": list(slow),
    }
    if known_hits:
        coverage["known_findings_hit"] = dict(known_hits)
    if stopped:
        coverage["stopped_early"] = stopped
    evidence = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)"
              % (pid, what, k, known_hits.get(k, 0)))
    print("%s %s seed=%d: %d/%d cases, %d evaluations, %d distinct, %.1fs"
          % (pid, tier, seed, done, total, coverage["evaluations"],
             len(distinct), evidence["wall_s"]))
    if violations:
        _, kind, index, msg = violations[0]
        path = write_replay(prop, tier, seed, kind, index, msg)
        print("witness: " + msg[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if others:
        for status, kind, index, msg in others[:3]:
            print("%s: %s/%d: %s" % (status, kind, index, msg))
        print("INCONCLUSIVE property=%s" % pid)
        return 2
    if missing:
        print("INCONCLUSIVE property=%s too little observed: %r"
              % (pid, missing))
        return 2
    return 0


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    prop = load_prop(pid)
    status, msg, mon = run_case(prop, r["seed"], r["kind"], r["index"],
                                set(load_known(pid)))
    print("%s %s/%d: %s" % (pid, r["kind"], r["index"], status))
    if msg:
        print(msg)
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0 if status == "ok" else 2


def selftest():
    """Checks the oracle against known facts; builds nothing."""
    from vf import oracle, work
    for (w, h), k in {(1, 1): 1, (1, 2): 2, (2, 1): 2, (1, 3): 12,
                      (3, 1): 12, (2, 2): 288, (1, 4): 576}.items():
        n = len(set(oracle.solutions(work.blank(w * h), w, h, 1000)))
        assert n == k, (w, h, n)
    for s in work.HARD9:
        a = oracle.solutions(work.parse9(s), 3, 3, 3)
        assert len(a) == 1 and oracle.is_complete_solution(a[0], 3, 3)
    for n in (2, 4, 6, 8, 10):
        w, h, a, b = work.deep(random.Random(n), n)
        got = oracle.solutions(a, w, h, 3)
        assert [list(map(list, x)) for x in got] == [b], (n, got)
    for w, h in work.ALL_SHAPES:
        g = oracle.Geo(w, h)
        for unit in g.units + g.parts:
            assert len(set(unit)) == g.n
        assert oracle.is_complete_solution(work.canonical(w, h), w, h)
    print("oracle self-test passed")
    return 0


def main(argv):
    if argv[0] == "--selftest":
        sys.exit(selftest())
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = argv[1:]
    jobs = 8
    while args:
        a = args.pop(0)
        if a == "--replay":
            sys.exit(replay(pid, args.pop(0)))
        elif a in ("quick", "thorough"):
            tier = a
        elif a == "--jobs":
            jobs = int(args.pop(0))
        else:
            raise SystemExit("unknown argument " + a)
    sys.exit(run_property(pid, tier, seed, jobs))

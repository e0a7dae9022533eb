"""Runner for generated-input checks.

A check module defines ``PROPERTY``, ``RULE``, ``ASSUMPTIONS`` and ``parts(tier)``, a list of
``Part``. A part draws a *plain data* case (literals only) from a Hypothesis strategy and runs
``fn(case, ctx)``. Case data being literals, a failing (shrunk) case is stored as text and can
be replayed without Hypothesis.
"""
import hashlib
import json
import math
import os
import sys
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


def fail(msg, key=None):
    raise Violation(msg, key)


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Part:
    def __init__(self, name, strategy, fn, quick, thorough=None, budget=60, budget_thorough=None, examples=()):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.budget = budget
        self.budget_thorough = budget_thorough if budget_thorough is not None else budget * 8
        self.examples = examples


def _load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            items = json.load(f)
    except FileNotFoundError:
        items = {"findings": []}
    return {i["key"]: i for i in items["findings"] if i["property"] == pid}


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.evaluations = 0
        self.labels = Counter()
        self.distinct = set()
        self.samples = []
        self.known = _load_known(pid)
        self.known_hit = Counter()
        self.skipped = 0
        self._nontrivial = False
        self._case_labels = set()
        self._n = 0
        self.part = None

    # -- called by part functions
    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def label(self, name, n=1):
        self._case_labels.add(name)

    def newdir(self, prefix="d"):
        while True:
            self._n += 1
            d = os.path.join(self.scratch, "work", f"{prefix}{os.getpid()}-{self._n}")
            try:
                os.makedirs(d)
                return d
            except FileExistsError:
                pass

    def excused(self, key):
        """True when `key` is a recorded finding: the case is counted and the search goes on."""
        if key in self.known:
            self.known_hit[key] += 1
            return True
        return False

    # -- called by the runner
    def begin(self):
        self._nontrivial = False
        self._case_labels = set()

    def end(self, part, case_text):
        self.evaluations += 1
        for x in self._case_labels:
            self.labels[f"{part}:{x}"] += 1
        self.labels[f"{part}:cases"] += 1
        if self._nontrivial:
            h = hashlib.blake2b((part + "|" + case_text).encode(), digest_size=12).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = sum(1 for s in self.samples if s["part"] == part)
                # a few early and a few later samples
                if n < 2 or (n < 4 and len(self.distinct) % 50 == 0):
                    self.samples.append(dict(part=part, case=case_text[:1500]))


def _unwrap(e):
    """Flatten exception groups (Hypothesis wraps flaky and multiple failures)."""
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from _unwrap(x)
    else:
        yield e
        c = e.__cause__ or e.__context__
        if c is not None and not isinstance(e, Violation):
            yield from _unwrap(c)


def _in_repo(e):
    from boot import REPO

    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/src/"):
            return True
        tb = tb.tb_next
    return False


def _in_checks(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.join(VERIF, "checks") + os.sep):
            return True
        tb = tb.tb_next
    return False


def classify(e):
    """-> 'violation' or 'harness'"""
    xs = list(_unwrap(e))
    if any(isinstance(x, HarnessError) for x in xs):
        return "harness"
    for x in xs:
        if isinstance(x, Violation):
            return "violation"
    if any(type(x).__name__ in ("Unsatisfiable", "FailedHealthCheck", "InvalidArgument") for x in xs):
        return "harness"
    for x in xs:
        if _in_repo(x):
            return "violation"
    # raised in a check while it looks at what the code returned
    for x in xs:
        if isinstance(x, (TypeError, ValueError, KeyError, IndexError)) and _in_checks(x):
            return "violation"
    return "harness"


_EVAL_NS = {"nan": math.nan, "inf": math.inf, "__builtins__": {"set": set, "frozenset": frozenset}}


def parse_case(text):
    return eval(text, dict(_EVAL_NS))


class Failure(Exception):
    def __init__(self, part, case_text, exc):
        self.part, self.case_text, self.exc = part, case_text, exc


def run_part(ctx, part):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 60
    n = part.quick if ctx.tier == "quick" else part.thorough
    budget = part.budget if ctx.tier == "quick" else part.budget_thorough
    scale = float(os.environ.get("VP_SCALE", "1"))
    shard, shards = int(os.environ.get("VP_SHARD", "0")), int(os.environ.get("VP_SHARDS", "1"))
    n = max(1, math.ceil(n * scale / shards))
    t0 = time.monotonic()
    state = {"failed": None}

    current = os.open(os.path.join(ctx.scratch, "current-case"), os.O_RDWR | os.O_CREAT | os.O_CLOEXEC)

    def one(case, text):
        ctx.begin()
        # what runs when the process is ended by a signal (see run.sh)
        data = json.dumps(dict(property=ctx.pid, part=part.name, seed=ctx.seed, tier=ctx.tier, case=text)).encode()
        os.ftruncate(current, 0)
        os.pwrite(current, data, 0)
        try:
            part.fn(case, ctx)
        except Violation as e:
            if e.key is not None and ctx.excused(e.key):
                ctx.label("known-finding")
            else:
                state["failed"] = (text, e)
                raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            state["failed"] = (text, e)
            raise
        ctx.end(part.name, text)

    # saved regression cases first
    corpus = os.path.join(VERIF, "corpus", ctx.pid)
    texts = list(part.examples) if shard == 0 else []
    if shard == 0 and os.path.isdir(corpus):
        for name in sorted(os.listdir(corpus)):
            with open(os.path.join(corpus, name)) as f:
                d = json.load(f)
            if d["part"] == part.name:
                texts.append(d["case"])
    for text in texts:
        case = parse_case(text) if isinstance(text, str) else text
        text = repr(case)
        try:
            one(case, text)
        except Exception as e:
            raise Failure(part.name, text, e)

    @hypothesis.seed(zlib.crc32(f"{ctx.seed}:{shard}:{part.name}".encode()))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(part.strategy)
    def test(case):
        if state["failed"] is None and time.monotonic() - t0 > budget:
            ctx.skipped += 1
            return
        one(case, repr(case))

    try:
        test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state["failed"] is None:
            raise Failure(part.name, None, e)
        text, exc = state["failed"]
        raise Failure(part.name, text, exc if classify(exc) == "violation" else e)
    finally:
        ctx.labels[f"{part.name}:seconds"] += int(time.monotonic() - t0 + 0.5)


def write_replay(pid, f, seed, tier):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{f.part}.json")
    with open(path, "w") as g:
        json.dump(
            dict(
                property=pid,
                part=f.part,
                seed=seed,
                tier=tier,
                case=f.case_text,
                error=f"{type(f.exc).__name__}: {f.exc}"[:4000],
                traceback="".join(traceback.format_exception(f.exc))[-6000:],
                how=f"bash run.sh {pid} --replay {path}",
            ),
            g,
            indent=1,
        )
    return path


def main(pid, argv, module):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = os.environ["VP_SCRATCH"]
    t0 = time.monotonic()
    ctx = Ctx(pid, tier, seed, scratch)
    parts = module.parts(tier)

    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            d = json.load(f)
        part = [p for p in parts if p.name == d["part"]][0]
        ctx.begin()
        try:
            part.fn(parse_case(d["case"]), ctx)
        except Exception as e:
            traceback.print_exc()
            if classify(e) == "violation" and not (isinstance(e, Violation) and e.key and ctx.excused(e.key)):
                print(f"VIOLATION property={pid} replay={argv[1]}")
                return 1
            return 0 if classify(e) == "violation" else 2
        print("case passes")
        return 0

    only = os.environ.get("VP_PART")
    failure = None
    rc = 0
    for p in parts:
        if only and p.name not in only.split(","):
            continue
        ctx.part = p.name
        try:
            run_part(ctx, p)
        except Failure as f:
            traceback.print_exception(f.exc)
            if classify(f.exc) != "violation" or f.case_text is None:
                print(f"harness error in {pid}/{f.part}", file=sys.stderr)
                if f.case_text:
                    print("case:", f.case_text[:2000], file=sys.stderr)
                rc = 2
                break
            failure = f
            rc = 1
            break

    if rc in (0, 1):
        cov = dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.distinct),
            rule=module.RULE,
            samples=ctx.samples[:24],
            distribution=dict(sorted(ctx.labels.items())),
            skipped_by_time_budget=ctx.skipped,
        )
        ev = dict(
            property=pid,
            tier=tier,
            seed=seed,
            level=getattr(module, "LEVEL", "exploration"),
            coverage=cov,
            assumptions=list(getattr(module, "ASSUMPTIONS", [])),
            wall_s=round(time.monotonic() - t0, 2),
            violations=1 if failure else 0,
        )
        # (merged with those of the other processes by shards.py)
        out = os.path.join(scratch, "evidence.json")
        with open(out + ".tmp", "w") as g:
            json.dump(
                dict(
                    evidence=ev,
                    distinct=[x.hex() for x in ctx.distinct],
                    known={k: (i["what"], ctx.known_hit[k]) for k, i in ctx.known.items()},
                ),
                g,
            )
        os.rename(out + ".tmp", out)
    if failure is not None:
        path = write_replay(pid, failure, seed, tier)
        print("failing case:", failure.case_text[:3000])
        print("error:", f"{type(failure.exc).__name__}: {failure.exc}"[:2000])
        print(f"VIOLATION property={pid} replay={path}")
    elif rc == 0:
        print(
            f"OK property={pid} tier={tier} seed={seed} evaluations={ctx.evaluations} "
            f"distinct_nontrivial={len(ctx.distinct)} skipped={ctx.skipped} wall={time.monotonic() - t0:.1f}s"
        )
    return rc

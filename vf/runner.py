"""Runs the checks of one property: generation, shrinking, replay, evidence.

A property is decided by one or more `Sub`s.  Each has a Hypothesis strategy (or a list of
cases to enumerate) and a function that raises if the property doesn't hold for a case.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import zlib

from . import env
from .values import Violation, dec, enc

CASE_SECONDS = 60
QUICK = 2      # times the numbers of cases given in the checks
SHRINK_SECONDS = int(os.environ.get("VF_SHRINK", 25))
MEMORY = 4 << 30


class Sub:
    """One sub-check.

    strategy: a Hypothesis strategy, or a function returning one
    cases: alternatively, a function (tier) -> iterable of cases to enumerate
    prop: function of a case; raises if the property doesn't hold; returns whether the
        case was trivial (False: trivial), or a label for the statistics
    n: number of cases in the quick tier (all shards together)
    """

    def __init__(self, name, strategy=None, prop=None, n=400, thorough=None, cases=None,
                 shards=None, db=None):
        self.name = name
        self.strategy = strategy
        self.cases = cases
        self.prop = prop
        self.n = n
        self.thorough = thorough or n * 25
        self.shards = shards


class HarnessError(Exception):
    pass


class Hang(Exception):
    """A case took far too long."""


class _Stop(BaseException):
    pass


def _alarm(*_):
    raise Hang(f"no result after {CASE_SECONDS} s")


def where(exc):
    """The innermost frames of an exception, for the report."""
    out = []
    for fr in traceback.extract_tb(exc.__traceback__)[-6:]:
        out.append(f"{os.path.basename(fr.filename)}:{fr.lineno} {fr.name}")
    return out


class Runner:
    """Runs one prop on cases and collects what happened."""

    def __init__(self, sub, known=()):
        self.sub = sub
        self.known = known
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.best = None
        self.error = None
        self.failed_at = None
        self.findings = set()

    def run(self, case, record=True):
        """Returns the exception if the property fails, else None."""
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            out = self.sub.prop(case)
            exc = None
        except Exception as e:  # any exception means that the property is broken
            if type(e).__module__.startswith("hypothesis"):
                raise
            if type(e).__module__ == "vf.ref" or isinstance(e, HarnessError):
                raise HarnessError(f"{type(e).__name__}: {e}") from e
            exc, out = e, None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if exc is not None:
            key = getattr(exc, "key", None)
            if key is not None and key in self.known:
                self.findings.add(key)
                return None
            return exc
        if record:
            self.evaluations += 1
            if out is not False:
                h = hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"),
                                    digest_size=8).digest()
                if h not in self.hashes:
                    self.hashes.add(h)
                    if len(self.samples) < 3 or (
                        len(self.hashes) & (len(self.hashes) - 1) == 0
                    ):
                        self.samples.append(repr(case)[:700])
                        self.samples = self.samples[-6:]
            labels = out if isinstance(out, (list, tuple, set)) else [out]
            for x in labels:
                if isinstance(x, str):
                    self.labels[x] = self.labels.get(x, 0) + 1
        return None

    def failing(self, case, exc):
        size = len(repr(case))
        if self.best is None or size <= self.best[0]:
            self.best = (size, case, exc)
        if self.failed_at is None:
            self.failed_at = time.monotonic()
        if isinstance(exc, Hang) or time.monotonic() - self.failed_at > SHRINK_SECONDS:
            raise _Stop()

    def generate(self, n, seed):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        strategy = self.sub.strategy
        if callable(strategy) and not hasattr(strategy, "map"):
            strategy = strategy()

        def body(case):
            exc = self.run(case, record=self.failed_at is None)
            if exc is not None:
                self.failing(case, exc)
                raise exc

        test = hypothesis.seed(seed)(
            settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                verbosity=hypothesis.Verbosity.quiet,
            )(given(strategy)(body))
        )
        try:
            test()
        except _Stop:
            pass
        except BaseException as e:
            if self.best is None:
                self.error = "".join(traceback.format_exception(e))[-4000:]

    def enumerate(self, cases):
        try:
            for case in cases:
                exc = self.run(case)
                if exc is not None:
                    self.best = (0, case, exc)
                    return
        except Exception as e:
            self.error = "".join(traceback.format_exception(e))[-4000:]


def _work(job):
    modname, sub_name, shard, shards, n, seed, tier, known = job
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(3000)
    t0 = time.monotonic()
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    r = Runner(sub, known)
    if sub.cases is not None:
        def mine():
            for i, c in enumerate(sub.cases(tier)):
                if i % shards == shard:
                    yield c
        r.enumerate(mine())
    else:
        r.generate(n, seed)
    fail = None
    if r.best is not None:
        _, case, exc = r.best
        fail = {
            "sub": sub_name,
            "case": enc(case),
            "error": f"{type(exc).__name__}: {exc}"[:3000],
            "where": where(exc),
        }
    return {
        "sub": sub_name, "shard": shard, "evaluations": r.evaluations,
        "hashes": r.hashes, "labels": r.labels, "samples": r.samples, "fail": fail,
        "error": r.error, "findings": sorted(r.findings),
        "wall": time.monotonic() - t0,
    }


def load_known(prop):
    """Keys and descriptions of the open findings of a property."""
    out = {}
    try:
        lines = open(os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")).read().splitlines()
    except FileNotFoundError:
        return out
    for line in lines:
        if line.startswith("open: "):
            parts = line.split(None, 3)
            if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    prop = a.property
    modname = f"vf.checks.{prop.lower()}"
    if a.replay:
        return replay(prop, modname, a.replay)

    t0 = time.monotonic()
    known = load_known(prop)
    mod = importlib.import_module(modname)
    cpus = a.jobs or min(8, len(os.sched_getaffinity(0)) or 1)
    jobs = []
    for sub in mod.SUBS:
        if a.sub and sub.name != a.sub:
            continue
        n = QUICK * sub.n if a.tier == "quick" else sub.thorough
        n = max(1, int(n * a.scale))
        # The number of shards must not depend on the machine: it's part of the seed.
        shards = sub.shards or 8
        if a.tier != "quick" and sub.cases is None:
            shards *= 4
        per = -(-n // shards)
        for i in range(shards):
            seed = zlib.crc32(f"{a.seed}/{prop}/{sub.name}/{i}/{a.tier}".encode())
            jobs.append((modname, sub.name, i, shards, per, seed, a.tier, known))

    results = []
    ctx = multiprocessing.get_context("fork")
    if cpus > 1:
        with ctx.Pool(cpus, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_work, jobs, chunksize=1):
                results.append(r)
                if r["fail"]:
                    pool.terminate()
                    break
    else:
        for j in jobs:
            with ctx.Pool(1) as pool:
                r = pool.apply(_work, (j,))
            results.append(r)
            if r["fail"]:
                break

    fails = [r["fail"] for r in results if r["fail"]]
    errors = [r for r in results if r["error"]]
    findings = sorted({k for r in results for k in r["findings"]})
    per_sub = {}
    distinct = 0
    evaluations = 0
    for sub in mod.SUBS:
        rs = [r for r in results if r["sub"] == sub.name]
        hashes = set().union(*(r["hashes"] for r in rs)) if rs else set()
        labels = {}
        for r in rs:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        per_sub[sub.name] = {
            "evaluations": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial": len(hashes),
            "cpu_s": round(sum(r["wall"] for r in rs), 1),
        }
        if labels:
            per_sub[sub.name]["labels"] = dict(sorted(labels.items()))
        distinct += len(hashes)
        evaluations += per_sub[sub.name]["evaluations"]
    samples = []
    for sub in mod.SUBS:
        got = [s for r in sorted(results, key=lambda r: r["shard"])
               if r["sub"] == sub.name for s in r["samples"][:1]]
        samples += [f"{sub.name}: {s}" for s in got[:2]]

    wall = round(time.monotonic() - t0, 2)
    evidence = {
        "property": prop,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": samples or ["(stopped at the first failure)"],
            "subchecks": per_sub,
            "known_findings_met": findings,
        },
        "wall_s": wall,
    }
    code = 0
    if fails:
        fail = min(fails, key=lambda f: (len(json.dumps(f["case"])), f["sub"]))
        out = os.path.join(env.EVIDENCE, "replay")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{prop}.json")
        with open(path, "w") as fp:
            json.dump({"property": prop, **fail}, fp, indent=1)
        evidence["coverage"]["violation"] = fail["error"]
        print(f"{prop}/{fail['sub']}: {fail['error']}")
        print("  at " + " < ".join(reversed(fail["where"])))
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        for r in errors[:3]:
            print(f"HARNESS ERROR in {prop}/{r['sub']}:\n{r['error']}", file=sys.stderr)
        code = 2
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    os.makedirs(env.EVIDENCE, exist_ok=True)
    with open(os.path.join(env.EVIDENCE, f"{prop}.json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
        fp.write("\n")
    print(f"{prop}: {evaluations} cases, {distinct} distinct and non-trivial, {wall} s"
          + (f" [{a.tier}]"))
    return code


def replay(prop, modname, path):
    data = json.load(open(path))
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == data["sub"])
    signal.signal(signal.SIGALRM, _alarm)
    exc = Runner(sub, load_known(prop)).run(dec(data["case"]))
    if exc is None:
        print(f"{prop}/{sub.name}: the property holds for {path}")
        return 0
    traceback.print_exception(exc)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())

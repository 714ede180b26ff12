"""Runner: drives the generated checks of one property, writes evidence and replay files."""
import argparse
import ast
import gc
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib

from harness import bootstrap
from harness.bootstrap import HarnessError, VERIF
from harness.api import Ctx, Violation, digest, short

WORKERS = max(1, min(8, os.cpu_count() or 1))
REGRESS = os.path.join(VERIF, "regress")
MAX_HASHES = 400_000


CASE_CPU_LIMIT = 25.0               # seconds of CPU in one case; cases take milliseconds


CASE_TIME_LIMIT = 60.0              # seconds of real time (module.TIME_LIMIT overrides it)


class Runaway(BaseException):
    """A case burned CPU, or blocked, without ending.  BaseException: must pass `except Exception`."""


def _runaway(signum, frame):
    raise Runaway(signum)


def execute(sub, case):
    """Run one case.  Returns (ctx, None) or (ctx, message)."""
    random.seed(zlib.crc32(repr(case).encode()))
    ctx = Ctx()
    signal.signal(signal.SIGPROF, _runaway)
    signal.signal(signal.SIGALRM, _runaway)
    limit = getattr(sys.modules.get(getattr(sub.run, "__module__", None)), "TIME_LIMIT",
                    CASE_TIME_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            sub.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Runaway as err:
        ctx.hung = True
        where = traceback.extract_tb(err.__traceback__)[-2:-1]
        where = "".join(f" (in {f.name}, {f.filename}:{f.lineno})" for f in where)
        if err.args[0] == signal.SIGALRM:
            return ctx, f"blocked for {limit} s{where}"
        return ctx, f"did not terminate within {CASE_CPU_LIMIT} s of CPU time{where}"
    except HarnessError:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Violation as err:
        return ctx, str(err)
    except Exception as err:
        tb = "".join(traceback.format_exception(type(err), err, err.__traceback__)[-12:])
        return ctx, f"unexpected {type(err).__name__}: {err}\n{tb}"
    return ctx, None


class Stats:
    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None         # (size, case, message)
        self.hung = False

    def record(self, case, ctx):
        self.n += 1
        for label in ctx.labels:
            self.labels[label] = self.labels.get(label, 0) + 1
        if ctx.nt:
            if len(self.nontrivial) < MAX_HASHES:
                self.nontrivial.add(digest(case))
            if len(self.samples) < 3 and len(repr(case)) < 1500:
                self.samples.append(case)

    def fail(self, case, message):
        size = len(repr(case))
        if self.failure is None or size <= self.failure[0]:
            self.failure = (size, case, message)


class Found(Exception):
    pass


class Stop(Exception):
    pass


def literal(case):
    try:
        return ast.literal_eval(repr(case)) == case
    except Exception:
        return False


def drive(sub, tier, seed, shard, shards, scale, stopper):
    """Run this worker's share of a sub-check."""
    stats = Stats()
    if sub.cases is not None:
        for i, case in enumerate(sub.cases(tier)):
            if i % shards != shard:
                continue
            if stopper.is_set():
                break
            ctx, message = execute(sub, case)
            stats.record(case, ctx)
            if message is not None:
                stats.fail(case, message)
                stopper.set()
                break
        return stats

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = float(os.environ.get(
        "VERIF_SHRINK", 25 if tier == "quick" else 90))     # override: development only

    total = sub.quick if tier == "quick" else sub.thorough
    share = max(1, int(total * scale) // shards)
    checked = [False]

    @hypothesis.seed(seed * 1000003 + shard * 7919 + zlib.crc32(sub.name.encode()))
    @settings(max_examples=share, database=None, deadline=None, report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), print_blob=False)
    @given(sub.strategy())
    def test(case):
        if stats.failure is None and stopper.is_set():
            return
        if stats.hung:
            raise Found()               # no more of that: the process may not be usable any more
        if not checked[0]:
            if not literal(case):
                raise HarnessError(f"{sub.name}: case is not a literal: {short(case)}")
            checked[0] = True
        ctx, message = execute(sub, case)
        if stats.failure is None:
            stats.record(case, ctx)
        if message is not None:
            stats.hung = ctx.hung
            stats.fail(case, message)
            stopper.set()
            raise Found()

    try:
        test()
    except HarnessError:
        raise
    except Found:
        pass
    except BaseException as err:
        if stats.failure is None or isinstance(err, KeyboardInterrupt):
            raise
    return stats


def worker(prop, subs, tier, seed, shard, shards, scale, stopper, queue):
    try:
        gc.disable()
        module = sys.modules[f"harness.checks.{prop.lower()}"]
        if hasattr(module, "worker_init"):
            module.worker_init()
        for i, sub in enumerate(module.SUBS):
            if subs and sub.name not in subs:
                continue
            if stopper.is_set():
                break
            if sub.serial:
                if shard != i % shards:
                    continue
                stats = drive(sub, tier, seed, 0, 1, scale, stopper)
            else:
                stats = drive(sub, tier, seed, shard, shards, scale, stopper)
            queue.put(("stats", shard, sub.name, stats))
            gc.collect()
        queue.put(("done", shard, None, None))
    except BaseException:
        queue.put(("error", shard, None, traceback.format_exc()))
    queue.close()
    queue.join_thread()
    os._exit(0)                     # no atexit: the scratch directory belongs to the parent


def load_case(path):
    with open(path) as f:
        text = f.read()
    return ast.literal_eval(text)


def write_replay(prop, sub, case, message, seed, tier):
    folder = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{sub}.case")
    with open(path, "w") as f:
        f.write("# replay: ./check %s --replay %s\n" % (prop, os.path.relpath(path, VERIF)))
        for line in message.splitlines():
            f.write(f"#   {line}\n")
        f.write(repr({"property": prop, "sub": sub, "case": case, "seed": seed, "tier": tier}))
        f.write("\n")
    return os.path.relpath(path, VERIF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sub", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--stats", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    prop = args.property
    start = time.time()
    module = importlib.import_module(f"harness.checks.{prop.lower()}")
    by_name = {sub.name: sub for sub in module.SUBS}

    if args.replay:
        record = load_case(args.replay)
        if hasattr(module, "worker_init"):
            module.worker_init()
        ctx, message = execute(by_name[record["sub"]], record["case"])
        print("labels:", sorted(ctx.labels))
        if message is None:
            print("property held on", args.replay)
            return 0
        print(message)
        print(f"VIOLATION property={prop} replay={args.replay}", flush=True)
        return 1

    total = Stats()
    per_sub = {}
    failures = []

    # 1. saved regression cases, in a child process like everything else
    shards = args.workers
    ctx_mp = multiprocessing.get_context("fork")
    stopper = ctx_mp.Event()
    queue = ctx_mp.Queue()
    errors = []

    regress = []
    folder = os.path.join(REGRESS, prop)
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".case"):
                record = load_case(os.path.join(folder, name))
                if record["sub"] in by_name and (not args.sub or record["sub"] in args.sub):
                    regress.append((name, record))

    def regress_worker():
        try:
            if hasattr(module, "worker_init"):
                module.worker_init()
            for name, record in regress:
                sub = by_name[record["sub"]]
                stats = Stats()
                ctx, message = execute(sub, record["case"])
                stats.record(record["case"], ctx)
                if message is not None:
                    stats.fail(record["case"], f"[saved case {name}] {message}")
                queue.put(("stats", -1, sub.name, stats))
                if ctx.hung:
                    break
            queue.put(("done", -1, None, None))
        except BaseException:
            queue.put(("error", -1, None, traceback.format_exc()))
        queue.close()
        queue.join_thread()
        os._exit(0)

    procs = {}
    if regress:
        p = ctx_mp.Process(target=regress_worker)
        p.start()
        procs[-1] = p
    for shard in range(shards):
        p = ctx_mp.Process(target=worker, args=(
            prop, args.sub, args.tier, args.seed, shard, shards, args.scale, stopper, queue))
        p.start()
        procs[shard] = p

    pending = set(procs)
    import queue as queue_mod
    silent = 0
    while pending:
        try:
            kind, shard, name, payload = queue.get(timeout=1)
            silent = 0
        except queue_mod.Empty:
            dead = [s for s in pending if not procs[s].is_alive()]
            silent += 1
            if dead and silent > 3:
                errors.append(f"worker {dead} died with exit codes "
                              f"{[procs[s].exitcode for s in dead]}")
                pending -= set(dead)
            continue
        if kind == "stats":
            s = per_sub.setdefault(name, Stats())
            for t in (s, total):
                t.n += payload.n
                t.nontrivial |= payload.nontrivial if t is s else {
                    name.encode() + h for h in payload.nontrivial}
                for k, v in payload.labels.items():
                    key = k if t is s else f"{name}:{k}"
                    t.labels[key] = t.labels.get(key, 0) + v
            if len(s.samples) < 3:
                s.samples.extend(payload.samples[:3 - len(s.samples)])
            if payload.failure:
                failures.append((name, payload.failure))
        else:
            pending.discard(shard)
            if kind == "error":
                errors.append(payload)
    for p in procs.values():
        p.join(10)
        if p.is_alive():
            p.kill()

    wall = time.time() - start
    best = {}
    for name, failure in failures:
        if name not in best or failure[0] < best[name][0]:
            best[name] = failure

    samples = []
    for name, s in per_sub.items():
        samples.extend({"check": name, "case": short(c, 1200)} for c in s.samples[:2])
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.n,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": module.RULE,
            "samples": samples,
            "per_check": {
                name: {
                    "evaluations": s.n,
                    "distinct_nontrivial": len(s.nontrivial),
                    "distribution": dict(sorted(s.labels.items())),
                } for name, s in sorted(per_sub.items())
            },
            "saved_cases_replayed": len(regress),
            "workers": shards,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(best),
    }
    if not args.sub and args.scale == 1.0:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
    if args.stats:
        for name, s in sorted(per_sub.items()):
            print(f"{name}: n={s.n} nontrivial={len(s.nontrivial)}")
            for k, v in sorted(s.labels.items()):
                print(f"    {k}: {v} ({100*v/max(1,s.n):.1f}%)")

    for name, (size, case, message) in sorted(best.items()):
        path = write_replay(prop, name, case, message, args.seed, args.tier)
        print(f"[{prop}/{name}] {message}")
        print(f"  case: {short(case, 3000)}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)

    print(f"{prop}: {total.n} cases, {len(total.nontrivial)} distinct non-trivial, "
          f"{wall:.1f}s, {len(best)} violation(s)")
    if best:
        return 1
    if errors:
        print(f"HARNESS ERROR ({len(errors)} worker(s)):",
              "\n".join(errors[0].splitlines()[-25:]), file=sys.stderr)
        return 2
    for line in getattr(module, "known_findings", lambda: [])():
        print(line)
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)

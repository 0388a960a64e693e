"""Runs the check of one property: explores all of its cases, each in a process of its
own, forked from one that has pylattica loaded but has not used it, and writes evidence."""

import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
CASE_LIMIT = 240
BUDGET = {"quick": 700, "thorough": 6 * 3600}


class Violation(Exception):
    def __init__(self, message, info=None):
        super().__init__(message)
        self.message = message
        self.info = info or {}


def plain(x):
    """x as something json can write."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def freeze(x):
    """x as something hashable, that is equal for equal values."""
    import numpy as np

    if isinstance(x, dict):
        return frozenset((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(freeze(v) for v in x)
    if isinstance(x, np.ndarray):
        return freeze(x.tolist())
    return x


class Ctx:
    def __init__(self, tier, case):
        self.tier = tier
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.counts = {}
        self.caps = set()
        self.samples = []
        self.path = None
        self.note = None

    quick = property(lambda self: self.tier == "quick")

    def state(self, x):
        self.states.add(hash(freeze(x)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        self.outcomes.add(hash(freeze(x)))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def cap(self, name):
        self.caps.add(name)

    def sample(self, x, limit=1):
        if len(self.samples) < limit:
            self.samples.append(plain(x))

    def tick(self):
        pass

    def at(self, **note):
        """What is being looked at, for the report of an exception."""
        self.note = note

    def fail(self, message, **info):
        raise Violation(message, info)

    def check(self, ok, message, **info):
        if not ok:
            raise Violation(message, info)

    def equal(self, got, want, message, **info):
        if not (got == want):
            raise Violation(message, {"got": got, "expected": want, **info})

    def summary(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "traces": self.traces,
            "outcomes": self.outcomes,
            "counts": self.counts,
            "caps": sorted(self.caps),
            "samples": self.samples,
        }


def run_case(module, tier, case):
    """-> (violation or None, summary)"""
    ctx = Ctx(tier, case)
    violation = None
    try:
        module.run(case, ctx)
    except Violation as e:
        violation = {"message": e.message, "info": plain(e.info)}
    except BaseException as e:  # whatever the code under test raises
        violation = {
            "message": f"{type(e).__name__}: {e}",
            "info": {"traceback": traceback.format_exc().splitlines()[-12:]},
        }
    if violation is not None:
        violation["choices"] = plain(ctx.path() if callable(ctx.path) else None)
        if ctx.note is not None:
            violation["at"] = plain(ctx.note)
    return violation, ctx.summary()


def _child(module, tier, case, fd, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    limit = getattr(module, "CASE_LIMIT", CASE_LIMIT)

    def too_long(*_):
        raise Violation(f"did not finish within {limit} s")

    if tier == "quick":
        signal.signal(signal.SIGALRM, too_long)
        signal.alarm(limit)
    result = run_case(module, tier, case)
    signal.alarm(0)
    data = pickle.dumps(result)
    with os.fdopen(fd, "wb") as f:
        f.write(struct.pack("<Q", len(data)) + data)


def run_cases(module, tier, cases, budget, workers=WORKERS):
    """Yields (case, violation, summary); each case runs in a forked process."""
    start = time.time()
    scratch_root = os.environ.get("MC_SCRATCH", "/tmp")
    pending = list(enumerate(cases))
    pending.reverse()
    running = {}  # fd -> [pid, index, case, buffer, started]
    limit = getattr(module, "CASE_LIMIT", CASE_LIMIT) + 60
    try:
        yield from _run_cases(
            module, tier, pending, running, budget, workers, start, scratch_root, limit
        )
    finally:
        for entry in running.values():
            _kill_group(entry[0])


def _run_cases(
    module, tier, pending, running, budget, workers, start, scratch_root, limit
):
    skipped = 0
    while pending or running:
        while pending and len(running) < workers:
            if time.time() - start > budget:
                skipped = len(pending)
                pending = []
                break
            index, case = pending.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    # progress output of the code under test is of no interest
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    if not os.environ.get("MC_DEBUG"):
                        os.dup2(null, 2)
                    _child(
                        module, tier, case, w, os.path.join(scratch_root, f"case{index}")
                    )
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = [pid, index, case, b"", time.time()]
        ready, _, _ = select.select(list(running), [], [], 5) if running else ([], 0, 0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][3] += chunk
                continue
            pid, index, case, buf, _ = running.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            _kill_group(pid)
            if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", buf[:8])[0]:
                violation, summary = pickle.loads(buf[8:])
            else:
                violation = {
                    "message": f"the process running the case died (status {status})",
                    "info": {},
                }
                summary = Ctx(tier, case).summary()
            yield index, case, violation, summary
        if tier == "quick":
            for fd, entry in list(running.items()):
                if time.time() - entry[4] > limit:
                    _kill_group(entry[0])
                    try:
                        os.kill(entry[0], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
    if skipped:
        yield None, None, None, {"skipped": skipped}


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as f:
        entries = json.load(f)
    return [
        e for e in entries if e["property"] == prop and e.get("status") == "known"
    ]


def is_known(entry, case, violation):
    return entry.get("case") == case and entry.get("message") == violation["message"]


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    out_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(out_path), exist_ok=True)
    try:
        os.unlink(out_path)
    except FileNotFoundError:
        pass
    violations = []
    try:
        env.install(seed)
        module = importlib.import_module(f"mc.props.{prop.lower()}")
    except BaseException as e:
        # the package does not even load: nothing it promises holds
        if tier and os.path.isdir(os.path.join(env.REPO, "src", "pylattica")):
            tb = traceback.format_exc()
            if "/pylattica/" not in tb:
                raise
            violations.append(
                (
                    0,
                    {},
                    {"message": f"{type(e).__name__}: {e}", "info": tb.splitlines()},
                )
            )
            module = None
        else:
            raise

    total = {
        "states": set(),
        "outcomes": set(),
        "transitions": 0,
        "traces": 0,
        "counts": {},
        "caps": set(),
        "samples": [],
    }
    cases = []
    done = 0
    skipped = 0
    if module is not None:
        cases = list(module.cases(tier))
        stop_after = 3
        for index, case, violation, summary in run_cases(
            module, tier, cases, BUDGET[tier]
        ):
            if index is None:
                skipped = summary["skipped"]
                continue
            done += 1
            total["states"] |= summary["states"]
            total["outcomes"] |= summary["outcomes"]
            total["transitions"] += summary["transitions"]
            total["traces"] += summary["traces"]
            for k, v in summary["counts"].items():
                total["counts"][k] = total["counts"].get(k, 0) + v
            total["caps"] |= set(summary["caps"])
            if summary["samples"] and len(total["samples"]) < 6:
                total["samples"].append({"case": case, "seen": summary["samples"]})
            if violation is not None:
                violations.append((index, case, violation))
                hits = load_known(prop)
                if (
                    sum(
                        not any(is_known(e, plain(c), v) for e in hits)
                        for _, c, v in violations
                    )
                    >= stop_after
                ):
                    break

    known = load_known(prop)
    new = []
    for index, case, violation in sorted(violations, key=lambda v: v[0]):
        hit = next((e for e in known if is_known(e, plain(case), violation)), None)
        if hit is not None:
            print(f"KNOWN-FINDING: property={prop} {hit['what']}")
        else:
            new.append((index, case, violation))

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(total["states"]),
            "transitions": total["transitions"],
            "traces_validated_against_impl": total["traces"],
            "distinct_outcomes": len(total["outcomes"]),
            "cases": len(cases),
            "cases_completed": done,
            "exhaustive": not skipped and not total["caps"] and module is not None,
            "bounds": getattr(module, "BOUNDS", ""),
            "caps_hit": sorted(total["caps"])
            + ([f"time budget: {skipped} cases not run"] if skipped else []),
            "samples": total["samples"],
            **{k: v for k, v in sorted(total["counts"].items())},
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
    }
    with open(out_path, "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if new:
        replay_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(replay_dir, exist_ok=True)
        for n, (index, case, violation) in enumerate(new[:3]):
            path = os.path.join(replay_dir, f"{prop}-{tier}-{index}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(
                    {
                        "property": prop,
                        "tier": tier,
                        "seed": seed,
                        "case": case,
                        "violation": violation,
                    },
                    f,
                    indent=1,
                )
            print(f"{prop}: {violation['message']}")
            print(f"  case {json.dumps(plain(case))[:600]}")
            detail = {k: v for k, v in violation.items() if k != "message"}
            if len(detail.get("choices") or []) > 100:
                detail["choices"] = f"{len(detail['choices'])} choices, see the replay file"
            print(f"  {json.dumps(detail)[:2000]}")
            print(f"VIOLATION property={prop} replay={path}")
        if len(new) > 3:
            print(f"... and {len(new) - 3} more cases")
        return 1
    cov = evidence["coverage"]
    print(
        f"{prop} {tier}: ok, {done} cases, {cov['states']} states, "
        f"{cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces, "
        f"{cov['distinct_outcomes']} outcomes, {evidence['wall_s']} s"
        + ("" if cov["exhaustive"] else f" (incomplete: {cov['caps_hit']})")
    )
    return 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        record = json.load(f)
    env.install(record["seed"])
    module = importlib.import_module(f"mc.props.{record['property'].lower()}")
    for _, case, violation, _ in run_cases(module, record["tier"], [record["case"]], 1e9):
        print(json.dumps({"case": case, "violation": violation}, indent=1))
        if violation is not None:
            print(f"VIOLATION property={record['property']} replay={path}")
            return 1
    return 0


def self_test():
    """The explorer enumerates what it should, on programs of which that is known."""
    import random

    from . import explore, vpool

    env.install(1)
    seen = []
    explore.explore(
        lambda _: (random.choice("ab"), random.randrange(3)),
        lambda result, _: seen.append(result),
    )
    want = sorted((a, b) for a in "ab" for b in range(3))
    assert sorted(seen) == want, seen
    schedules = set()

    def pooled(_):
        with vpool.controlled(3) as pools:
            import multiprocessing

            with multiprocessing.get_context("fork").Pool(3) as pool:
                out = pool.map(abs, [-1, 2, -3], chunksize=1)
            return out, tuple(pools.schedule)

    def check_pooled(result, _):
        assert result[0] == [1, 2, 3], result
        schedules.add(result[1])

    explore.explore(pooled, check_pooled)
    # set partitions of 3 tasks: idle workers are interchangeable
    assert len(schedules) == 5, schedules
    print(f"self-test: ok, {len(want)} draws, {len(schedules)} schedules")
    return 0


def main():
    if sys.argv[1:] == ["--self-test"]:
        sys.exit(self_test())
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(prop, tier))


if __name__ == "__main__":
    main()

"""Stateless exploration of choice sequences.

The code under test runs to completion under a Chooser which answers each nondeterministic
choice (random draw, which worker takes the next task, ...).  `explore` enumerates all the
choice sequences within its bounds, depth first: a run replays a prefix and takes the
default choice 0 afterwards; then every alternative after the prefix becomes a new prefix.

Bounds: `depth`     the number of leading choice points at which alternatives are taken;
                    later points get a fixed fair default (which cycles through the options,
                    so that retry loops end) and are counted, not branched.
        `deviations` the number of non-default choices of one run.
        `max_runs`  a cap; hitting it makes the exploration incomplete, and is reported.
"""

from . import env


class Divergence(Exception):
    """The code under test did not repeat what it did under the same choices."""


class Chooser:
    def __init__(self, prefix=(), depth=None, only=None):
        self.prefix = prefix
        self.depth = depth
        self.only = only
        self.log = []  # (number of options, choice, branchable)
        self.total = 0

    def choose(self, n, kind=""):
        self.total += 1
        if n <= 1:
            return 0
        i = len(self.log)
        branch = (self.depth is None or i < self.depth) and (
            self.only is None or kind in self.only
        )
        if i < len(self.prefix):
            expected_n, c = self.prefix[i]
            if expected_n != n:
                raise Divergence(
                    f"choice {i} had {expected_n} options before and {n} now ({kind})"
                )
        elif branch:
            c = 0
        else:
            c = i % n
        self.log.append((n, c, branch))
        return c

    def path(self):
        return [c for _, c, _ in self.log]


class Spread(Chooser):
    """One fixed sequence of choices, which jumps around among the options."""

    def __init__(self, offset, stride, bend=0):
        super().__init__(depth=0)
        self.offset, self.stride, self.bend = offset, stride, bend

    def choose(self, n, kind=""):
        i = self.total
        self.total += 1
        return (self.offset + self.stride * i + self.bend * i * i) % n if n > 1 else 0


def run_with(chooser, fn):
    previous = env.set_chooser(chooser)
    try:
        return fn(chooser)
    finally:
        env.set_chooser(previous)


class Exploration:
    def __init__(self):
        self.runs = 0
        self.points = 0
        self.complete = True
        self.cut_by_depth = 0


def explore(fn, check=None, depth=None, deviations=None, max_runs=None, ctx=None, only=None):
    """Runs fn(chooser) under every choice sequence within the bounds.

    check(result, chooser) is called after each run, without an active chooser."""
    out = Exploration()
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        if max_runs is not None and out.runs >= max_runs:
            out.complete = False
            break
        chooser = Chooser(prefix, depth, only)
        if ctx is not None:
            ctx.path = lambda chooser=chooser: chooser.path()
        result = run_with(chooser, fn)
        out.runs += 1
        out.points += chooser.total
        if len(chooser.log) < len(prefix):
            raise Divergence(
                f"{len(prefix)} choices before, only {len(chooser.log)} now"
            )
        if check is not None:
            check(result, chooser)
        log = chooser.log
        fresh = []
        for i in range(len(prefix), len(log)):
            n, c, branch = log[i]
            if not branch:
                out.cut_by_depth += 1
                continue
            if deviations is not None and used + 1 > deviations:
                continue
            base = tuple((m, d) for m, d, _ in log[:i])
            for alt in range(1, n):
                fresh.append((base + ((n, alt),), used + 1))
        # shallow deviations last on the stack, so that they are explored first
        stack.extend(reversed(fresh))
        if ctx is not None:
            ctx.tick()
    if ctx is not None:
        ctx.path = None
        ctx.count("choice_points", out.points)
        if not out.complete:
            ctx.cap("max_runs")
    return out

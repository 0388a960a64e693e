"""The settings of the interpreter and of the program make no difference."""

import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

BOUNDS = (
    "about 130 calls (104 of all kinds, real pools, animations, files with any text, and 24 that "
    "have to fail), under each of 18 ways of starting the interpreter (optimized, development "
    "mode, other encodings, isolated, closed or missing streams, ...), each of 24 settings of "
    "the program (errors of numpy, printing, garbage collection, tracing, warnings as errors, "
    "threads, event loops, limits, working directories, ...), made before or after the "
    "objects, every pair of settings, and every setting under 4 ways of starting (all in the "
    "thorough tier)"
)
ASSUMPTIONS = ["warnings that come from other libraries do not count"]

# --- ways of starting the interpreter: (flags, environment, streams)

START = {
    "as usual": ([], {}, ""),
    "optimized": (["-O"], {}, ""),
    "optimized, no docs": (["-OO"], {}, ""),
    "PYTHONOPTIMIZE": ([], {"PYTHONOPTIMIZE": "1"}, ""),
    "development mode": (["-X", "dev"], {}, ""),
    "isolated": (["-I"], {}, ""),
    "no environment": (["-E", "-s"], {}, ""),
    "unbuffered": (["-u"], {}, ""),
    "ascii": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0",
                                 "PYTHONIOENCODING": "ascii"}, ""),
    "latin": (["-X", "utf8=0"], {"LC_ALL": "C.UTF-8", "PYTHONIOENCODING": "latin-1"}, ""),
    "utf8": (["-X", "utf8=1"], {"LC_ALL": "C"}, ""),
    "warnings": (["-W", "always"], {}, ""),
    "encoding warnings": (["-X", "warn_default_encoding"], {}, ""),
    "no input": ([], {}, "0"),
    "no output": ([], {}, "1"),
    "no streams": ([], {}, "012"),
    "other hashes": ([], {"PYTHONHASHSEED": "77"}, ""),
    "other zone": ([], {"TZ": "Pacific/Kiritimati"}, ""),
}


# --- settings of the program: functions that call `go` under the setting

def settings():
    import asyncio
    import decimal
    import gc
    import io
    import locale
    import logging
    import multiprocessing
    import resource
    import threading
    import warnings

    import numpy as np

    def simple(fn):
        def setting(go):
            fn()
            return go()
        return setting

    def thread(daemon):
        def setting(go):
            out = []
            t = threading.Thread(target=lambda: out.append(go()), daemon=daemon)
            t.start()
            t.join()
            return out[0]
        return setting

    def loop(go):
        async def main():
            return go()
        return asyncio.run(main())

    def others(go):
        """While other threads do something else."""
        stop = threading.Event()

        def work():
            while not stop.wait(0.001):
                sum(range(500))

        ts = [threading.Thread(target=work, daemon=True) for _ in range(3)]
        for t in ts:
            t.start()
        try:
            return go()
        finally:
            stop.set()

    def deep(go):
        """At the end of a long chain of calls."""
        def down(n):
            return go() if n == 0 else down(n - 1)
        return down(600)

    def in_except(go):
        try:
            raise KeyError("being handled")
        except KeyError:
            return go()

    def elsewhere(go):
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            return go()

    def trace(fn):
        def tracer(frame, event, arg):
            return tracer
        fn(tracer)
        threading.settrace(tracer if fn is sys.settrace else None)

    def streams(out, err):
        sys.stdout, sys.stderr = out, err

    def sub(go):
        """In the worker of a pool that may have children."""
        r, fd = os.pipe()
        process = multiprocessing.get_context("fork").Process(
            target=lambda: os.write(fd, b"") if not _send(fd, go()) else None)
        process.start()
        os.close(fd)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        process.join()
        return pickle.loads(data)

    def _send(fd, x):
        with os.fdopen(os.dup(fd), "wb") as f:
            f.write(pickle.dumps(x))

    def env_gone():
        os.environ.clear()
        os.environ["MPLBACKEND"] = "Agg"

    return {
        "numpy raises": simple(lambda: np.seterr(all="raise", under="ignore")),
        "numpy prints little": simple(lambda: np.set_printoptions(
            precision=1, threshold=1, edgeitems=1, suppress=True)),
        "numpy prints differently": simple(lambda: np.set_printoptions(
            formatter={"all": lambda x: "?"})),
        "no garbage collection": simple(gc.disable),
        "much garbage collection": simple(lambda: gc.set_threshold(7, 2, 2)),
        "traced": simple(lambda: trace(sys.settrace)),
        "profiled": simple(lambda: trace(sys.setprofile)),
        "warnings are errors": simple(lambda: warnings.filterwarnings(
            "error", module=r"pylattica.*")),
        "no logging": simple(lambda: logging.disable(logging.CRITICAL)),
        "all logging": simple(lambda: logging.basicConfig(
            level=logging.DEBUG, stream=io.StringIO())),
        "decimals": simple(lambda: decimal.setcontext(decimal.Context(prec=2))),
        "umask": simple(lambda: os.umask(0o077)),
        "thread": thread(False),
        "daemon thread": thread(True),
        "event loop": loop,
        "other threads": others,
        "deep": deep,
        "handling an error": in_except,
        "few files": simple(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (80, 4096))),
        "another directory": elsewhere,
        "output kept": simple(lambda: streams(io.StringIO(), io.StringIO())),
        "output nowhere": simple(lambda: streams(None, None)),
        "ascii output": simple(lambda: streams(
            *(io.TextIOWrapper(io.BytesIO(), "ascii") for _ in "ab"))),
        "environment gone": simple(env_gone),
        "locale": simple(lambda: locale.setlocale(locale.LC_ALL, "C.UTF-8")),
        "switching threads": simple(lambda: sys.setswitchinterval(1e-6)),
        "arguments": simple(lambda: sys.argv.__setitem__(slice(None), ["x", "--help"])),
        "in a child": sub,
    }


NAMES = [
    "numpy raises", "numpy prints little", "numpy prints differently", "no garbage collection",
    "much garbage collection", "traced", "profiled", "warnings are errors", "no logging",
    "all logging", "decimals", "umask", "thread", "daemon thread", "event loop",
    "other threads", "deep", "handling an error", "few files", "another directory",
    "output kept", "output nowhere", "ascii output", "environment gone", "locale",
    "switching threads", "arguments", "in a child",
]


# --- the calls

def more_calls():
    from pylattica.core import (
        AsynchronousRunner, BasicController, Lattice, PeriodicStructure, Simulation,
        SimulationResult, SimulationState, StructureBuilder, SynchronousRunner,
    )
    from pylattica.discrete import PhaseSet
    from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
    from pylattica.structures.square_grid import DiscreteGridSetup
    from pylattica.visualization import ResultArtist

    from . import c24

    class Bad(BasicController):
        def __init__(self, update):
            self.update = update

        def get_state_update(self, site_id, prev_state):
            return self.update

    class NoSite(Bad):
        def get_random_site(self, state):
            return None

    text = "µ ∑ é 漢 \x00 \u2028 \"quoted\" \\ \ud7ff 😀"

    def file_of(x, cls):
        path = os.path.abspath("any.json")
        x.to_file(path)
        with open(path, "rb") as f:
            size = len(f.read())
        loaded = cls.from_file(path)
        os.unlink(path)
        return [c24.look(loaded), size > 0]

    def texts(w):
        state = SimulationState()
        state.set_site_state(0, {OCC: text, text: [text, 1e300, 0.1]})
        state.set_general_state({"g": text})
        result = SimulationResult(state)
        result.add_step({0: {OCC: text * 2}})
        return state, result

    def gif(w):
        path = os.path.abspath("out.gif")
        ResultArtist(w.artist, w.two_steps).to_gif(path, cell_size=4)
        from PIL import Image, ImageSequence

        with Image.open(path) as image:
            frames = [f.convert("RGB").tobytes() for f in ImageSequence.Iterator(image)]
        os.unlink(path)
        return [hashlib.sha256(f).hexdigest() for f in frames]

    def parallel(workers, verbose=False):
        def fn(w):
            result = SynchronousRunner(parallel=True, workers=workers).run(
                w.state, w.rule, 2, verbose=verbose)
            return [c24.history(result), c24.content(result.output)]
        return fn

    def collide(lattice, first, second):
        def fn(w):
            struct = PeriodicStructure(Lattice(*lattice))
            struct.add_site("A", first)
            struct.add_site("B", second)
            return "no error"
        return fn

    flat = ([(1, 0), (0, 1)], True)
    calls = {
        "parallel 2": parallel(2),
        "parallel 3": parallel(3),
        "parallel verbose": parallel(2, True),
        "verbose": lambda w: c24.history(w.serial.run(w.state, w.rule, 2, verbose=True)),
        "asynchronous verbose": lambda w: c24.history(
            w.asynchronous.run(w.state, w.rule, 3, verbose=True)),
        "animation": gif,
        "text in results": lambda w: file_of(texts(w)[1], SimulationResult),
        "text in simulations": lambda w: file_of(Simulation(texts(w)[0], w.grid), Simulation),
        "text in pictures": lambda w: w.artist.get_img(
            w.grid_state, cell_size=4, label=repr(w.i) + " step").tobytes(),
        # these have to fail
        "same place": collide(flat, (0, 0), (0, 0)),
        "image": collide(flat, (0.25, 0.5), (3.25, -1.5)),
        "almost": collide(flat, (0, 0), (0.9999999, 1e-7)),
        "open": collide(([(1, 0), (0, 1)], False), (5, 5), (5, 5)),
        "skewed": collide(([(1, 0), (0.5, 1)], (True, False)), (0.5, 1), (1.5, 1)),
        "motif twice": lambda w: PeriodicStructure.build_from(
            w.lattice, w.size, {"A": [(0, 0)], "B": [(0, 0)]}),
        "motif images": lambda w: PeriodicStructure.build_from(
            Lattice(*flat), [2, 2], {"A": [(0, 0), (1, 1)]}),
        "few cells": lambda w: w.lattice.get_scaled_lattice([2]),
        "many cells": lambda w: w.lattice.get_scaled_lattice([2, 2, 2]),
        "build few": lambda w: PeriodicStructure.build_from(w.lattice, [2], w.motif),
        "build many": lambda w: PeriodicStructure.build_from(w.lattice, [2, 1, 1], w.motif),
        "builder few": lambda w: StructureBuilder(w.lattice, w.motif).build((2,)),
        "no room": lambda w: DiscreteGridSetup(PhaseSet(["a", "b"])).setup_random_sites(
            3, 5, "a", {"b": 1}, buffer=1),
        "no file": lambda w: SimulationResult.from_file("nothing.json"),
        "no simulation": lambda w: Simulation.from_file("nothing.json"),
        "no folder": lambda w: w.result.to_file(os.path.join("none", "here.json")),
        "bad update": lambda w: SynchronousRunner().run(w.state, Bad(7), 1),
        "bad update, one by one": lambda w: AsynchronousRunner().run(w.state, Bad(7), 2),
        "no site": lambda w: AsynchronousRunner().run(w.state, NoSite({}), 2),
        "bad step": lambda w: w.result.get_step(99),
        "bad neighbors": lambda w: w.hood.neighbors_of("x"),
        "bad vectors": lambda w: Lattice([(1, 0, 0), (0, 1)]),
        "not invertible": lambda w: Lattice([(1, 0), (2, 0)]).get_fractional_coords((1, 1)),
        "abstract": lambda w: BasicController(),
    }
    return calls


def _world(i):
    from . import c24

    w = c24.World(i)
    w.two_steps = _two_steps(w)
    return w


def _two_steps(w):
    from pylattica.core import SimulationResult

    result = SimulationResult(w.grid_state.copy())
    result.add_step({0: {"DISCRETE_OCCUPANCY": "Q"}})
    return result


def _answers(worlds, calls):
    from .. import explore as ex
    from . import c24

    out = {}
    for i, w in enumerate(worlds):
        for name, fn in calls.items():
            if name == "asynchronous verbose" and sys.stderr is None:
                continue  # progress bars need a stream
            try:
                value = ex.run_with(ex.Chooser(depth=0), lambda _: c24.look(fn(w)))
                text = json.dumps(value, sort_keys=True, default=lambda x: x.hex()
                                  if isinstance(x, bytes) else type(x).__name__)
                out[f"{name} {i}"] = (hashlib.sha256(text.encode("utf8", "replace")).hexdigest(),
                                      text[:200])
            except (Exception, SystemExit) as e:
                out[f"{name} {i}"] = ("error", f"{type(e).__name__}")
    return out


def child():
    """Reads jobs, writes what the calls give in each."""
    with open(os.environ["MC_JOB"], encoding="utf-8") as f:
        jobs = json.load(f)
    path = os.environ["MC_OUT"]
    # streams that are closed stay closed for the code under test
    from .. import env

    env.install()
    from . import c24

    table = settings()
    calls = {**{n: fn for n, fn in c24.CALLS.items() if not n.startswith("parallel")},
             **more_calls()}
    out = []
    for job in jobs:
        r, fd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                folder = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
                os.chdir(folder)
                try:
                    worlds = [_world(i) for i in (0, 1)] if job["made"] == "before" else None

                    def go():
                        return _answers(worlds or [_world(i) for i in (0, 1)], calls)

                    for name in job["settings"]:
                        go = (lambda inner, s: lambda: s(inner))(go, table[name])
                    data = ("ok", go())
                except BaseException as e:
                    data = ("error", f"{type(e).__name__}: {e}")
                sys.settrace(None)
                sys.setprofile(None)
                with os.fdopen(fd, "wb") as f:
                    pickle.dump(data, f)
            finally:
                os._exit(0)
        os.close(fd)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else ("error", "the process died"))
    with open(path, "wb") as f:
        pickle.dump(out, f)
    os._exit(0)


def ask(start, jobs):
    flags, extra, closed = START[start]
    folder = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    job, out = os.path.join(folder, "job"), os.path.join(folder, "out")
    with open(job, "w", encoding="utf-8") as f:
        json.dump(jobs, f)
    code = f"import sys; sys.path.insert(0, {VERIF!r}); from mc.props import c29; c29.child()"
    base = {k: v for k, v in os.environ.items() if k != "PYTHONOPTIMIZE"}

    def close():
        for fd in closed:
            os.close(int(fd))

    errors = os.path.join(folder, "err")
    with open(errors, "wb") as err:
        done = subprocess.run(
            [sys.executable, "-B", *flags, "-c", code], stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=err, preexec_fn=close, check=False,
            env={**base, "MC_JOB": job, "MC_OUT": out, **extra}, timeout=600)
    if done.returncode != 0 or not os.path.exists(out):
        with open(errors, encoding="utf-8", errors="replace") as f:
            return None, f.read()[-600:]
    with open(out, "rb") as f:
        return pickle.load(f), None


EXPECTED = []


def expect():
    if not EXPECTED:
        EXPECTED.append(ask("as usual", [{"settings": [], "made": "after"}]))


def cases(tier):
    expect()
    out = []
    for start in START:
        out.append({"start": start, "first": []})
        for name in NAMES if tier == "thorough" else ():
            out.append({"start": start, "first": [name]})
    for start in ("optimized, no docs", "development mode", "ascii", "no streams"):
        out.append({"start": start, "first": None})
    for name in NAMES:
        out.append({"start": "as usual", "first": [name]})
    return out


def run(case, ctx):
    expect()
    want, error = EXPECTED[0]
    ctx.check(want is not None and want[0][0] == "ok", "the calls fail", error=error or want)
    want = want[0][1]
    if case["first"] is None:
        chosen = [[name] for name in NAMES]
    elif case["first"]:
        after = NAMES[NAMES.index(case["first"][0]) + 1:]
        chosen = [case["first"], *([*case["first"], other] for other in after)]
    else:
        chosen = [[]]
    jobs = [{"settings": c, "made": made} for c in chosen
            for made in (("before", "after") if len(c) < 2 else ("after",))]
    got, error = ask(case["start"], jobs)
    ctx.check(got is not None, "the calls fail", error=error, start=case["start"])
    for job, (status, answers) in zip(jobs, got):
        info = {"start": case["start"], "settings": job["settings"], "made": job["made"]}
        ctx.check(status == "ok", "the calls fail", error=answers, **info)
        for name, value in want.items():
            if name not in answers:
                continue
            ctx.check(answers[name][0] == value[0] and (
                value[0] != "error" or answers[name][1] == value[1]),
                "a call gives something else under other settings", call=name,
                got=answers[name][1], expected=value[1], **info)
            ctx.step()
        ctx.state((case["start"], job["settings"], job["made"]))
        ctx.trace()



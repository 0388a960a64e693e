"""Files: what loads is what was saved last, or an error comes out."""

import errno
import itertools
import os
import pickle
import resource
import signal
import subprocess
import sys

from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationResult
from pylattica.discrete.state_constants import DISCRETE_OCCUPANCY as OCC
from pylattica.structures.square_grid.lattice import SquareGridLattice2D
from pylattica.visualization import DiscreteCellArtist, ResultArtist, SquareGridArtist2D
from pylattica.core.simulation_state import SimulationState

from .. import env, vpool
from ..rules import GENERAL, SITES
from ..sut import build_state, content, history

BOUNDS = (
    "results and simulations of up to 40 sites: a file cut after every byte, a device that is "
    "full after every byte, over no file, a shorter and a longer file; values that cannot be "
    "encoded, at every place; all sequences of 4 (quick) or 5 (thorough) operations of 12 on two "
    "paths, loaded in between, also with files whose size and time stay the same; files that may only be read, loaded by a user without privileges; two settings of the locale"
)
ASSUMPTIONS = ["files are cut and changed by nobody else than by a save that fails"]


def make_result(n, steps=2, value=0):
    result = SimulationResult(build_state({
        SITES: {i: {"_site_id": i, "v": value + i} for i in range(n)},
        GENERAL: {"name": "r" * n, "value": value},
    }))
    for k in range(steps):
        result.add_step({SITES: {k: {"v": [k, value]}}, GENERAL: {"at": k}})
    return result


def make_simulation(n, value=0):
    struct = PeriodicStructure.build_from(
        Lattice([[1, 0], [0.5, 2]], (True, False)), [n, 1], {"A": [(0, 0)], "B": [(0.25, 1)]}
    )
    state = SimulationState.from_struct(struct)
    for s in struct.site_ids:
        state.set_site_state(s, {"v": value + s})
    state.set_general_state({"value": value})
    return Simulation(state, struct)


def look(x):
    if isinstance(x, SimulationResult):
        return ["result", history(x)]
    if isinstance(x, Simulation):
        return ["simulation", content(x.state),
                [(s["_site_id"], s["_site_class"], s["_location"].tolist())
                 for s in x.structure.sites()],
                x.structure.lattice.vecs.tolist(), list(x.structure.lattice.periodic)]
    return ["something else", repr(x)[:100]]


KINDS = {"result": (make_result, SimulationResult), "simulation": (make_simulation, Simulation)}
# compressed, as the name says; simulations are always plain text
NAMES = {"result": ("f.json", "f", "f.json.gz"), "simulation": ("f.json", "f")}


class BadObject:
    pass


BAD = {
    "object": BadObject,
    "set": lambda: {1, 2},
    "complex": lambda: 2j,
    "bytes": lambda: b"xyz",
    "nested": lambda: {"a": [1, {"b": BadObject()}]},
}


def bad_result(place, bad):
    result = make_result(3)
    if place == "site":
        result.initial_state.set_site_state(2, {"w": bad})
    elif place == "general":
        result.initial_state.set_general_state({"w": bad})
    elif place == "first step":
        result = make_result(3, 0)
        result.add_step({0: {"w": bad}})
        result.add_step({1: {"w": 1}})
    elif place == "last step":
        result.add_step({SITES: {}, GENERAL: {"w": bad}})
    else:  # after more than fits into any buffer
        for k in range(3):
            result.add_step({i: {"v": f"{k}" * 20} for i in range(400)})
        result.add_step({0: {"w": bad}})
    return result


def bad_simulation(place, bad):
    simulation = make_simulation(200 if place == "far" else 3)
    if place in ("site", "first step"):
        simulation.state.set_site_state(0, {"w": bad})
    elif place in ("general", "last step"):
        simulation.state.set_general_state({"w": bad})
    else:
        simulation.state.set_site_state(399, {"w": bad})
    return simulation


MAKE_BAD = {"result": bad_result, "simulation": bad_simulation}
PLACES = ("site", "general", "first step", "last step", "far")


def cases(tier):
    out = []
    for kind in KINDS:
        for name in NAMES[kind]:
            for n in (1, 3) if tier == "quick" else (1, 3, 40):
                out.append({"kind": "cut", "what": kind, "name": name, "n": n})
                for old in (None, 1, 20):
                    out.append({"kind": "full", "what": kind, "name": name, "n": n, "old": old})
            out.append({"kind": "encode", "what": kind, "name": name})
            out.append({"kind": "read only", "what": kind, "name": name})
            out.append({"kind": "locale", "what": kind, "name": name})
            out.append({"kind": "paths", "what": kind, "name": name})
        for first in range(len(OPS)):
            for stamped in (False, True):
                out.append({"kind": "history", "what": kind, "first": first, "stamped": stamped,
                            "depth": 4 if tier == "quick" else 5})
    for frames in (1, 3):
        out.append({"kind": "animation", "frames": frames})
    return out


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def full_after(k, fn):
    """Runs fn while no file can grow beyond k bytes."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    before = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
    try:
        return attempt(fn)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, before)


def put(name, data):
    with open(name, "wb") as f:
        f.write(data)


def get(name):
    with open(name, "rb") as f:
        return f.read()


def check_clean(ctx, allowed, what, **info):
    ctx.equal(sorted(os.listdir(".")), sorted(allowed), f"{what} left other files", **info)


def _cut(case, ctx):
    """A save that was interrupted, by whatever: the file holds a part of the text."""
    make, cls = KINDS[case["what"]]
    x = make(case["n"])
    want = look(x)
    name = case["name"]
    x.to_file(name)
    data = get(name)
    ctx.equal(look(cls.from_file(name)), want, "the file does not hold what was saved")
    for k in range(len(data)):
        ctx.at(cut=k)
        put(name, data[:k])
        got, error = attempt(lambda: cls.from_file(name))
        # without its last white space, a file is as good as complete
        ctx.check(error is not None or look(got) == want,
                  "a part of a file was loaded as something else", cut=k, of=len(data),
                  got=None if error is not None else look(got))
        ctx.equal(get(name), data[:k], "loading changed the file", cut=k)
        ctx.step()
        ctx.state((case["what"], name, case["n"], k))
        ctx.outcome(type(error).__name__)
    ctx.trace(len(data))
    put(name, data)
    ctx.equal(look(cls.from_file(name)), want, "the complete file does not load")
    ctx.count("cuts", len(data))


def _full(case, ctx):
    """The device is full after k bytes, for every k."""
    make, cls = KINDS[case["what"]]
    x = make(case["n"])
    want = look(x)
    name = case["name"]
    x.to_file(name)
    size = len(get(name))
    os.unlink(name)
    old = None if case["old"] is None else make(case["old"], value=7)
    for k in range(size):
        ctx.at(space=k)
        if old is not None:
            old.to_file(name)
        got, error = full_after(k, lambda: x.to_file(name))
        if error is None:
            # compressed files hold the time, by which their size can differ
            ctx.check(os.path.getsize(name) <= k and look(cls.from_file(name)) == want,
                      "a file that could not be written was saved", space=k, of=size)
        else:
            ctx.check(isinstance(error, OSError) and error.errno == errno.EFBIG,
                      "another error came out", space=k, got=repr(error))
        if os.path.exists(name):
            got, error = attempt(lambda: cls.from_file(name))
            ok = error is not None or look(got) == want or (
                old is not None and look(got) == look(old))
            ctx.check(ok, "what is left of a failed save loads as something else", space=k,
                      got=None if error is not None else look(got))
        else:
            ctx.check(old is None, "a failed save removed the file that was there", space=k)
        # there is room again
        x.to_file(name)
        ctx.equal(look(cls.from_file(name)), want, "saving again does not help", space=k)
        check_clean(ctx, [name], "saving", space=k)
        os.unlink(name)
        ctx.equal(look(x), want, "a failed save changed what was to be saved", space=k)
        ctx.step(2)
        ctx.state((case["what"], name, case["n"], case["old"], k))
    ctx.trace(size)
    ctx.outcome((case["what"], case["old"]))
    ctx.count("full_devices", size)


def _encode(case, ctx):
    make, cls = KINDS[case["what"]]
    name = case["name"]
    for bad, place, with_old in itertools.product(BAD, PLACES, (False, True)):
        ctx.at(value=bad, place=place, over_a_file=with_old)
        old = make(4, value=5)
        if with_old:
            old.to_file(name)
        x = MAKE_BAD[case["what"]](place, BAD[bad]())
        _, error = attempt(lambda: x.to_file(name))
        if error is not None:
            if with_old:
                ctx.check(os.path.exists(name), "a failed save removed the file before it",
                          value=bad, place=place)
                got, error = attempt(lambda: cls.from_file(name))
                ctx.check(error is None, "a failed save spoiled the file that was there: "
                          f"{error!r}", value=bad, place=place)
                ctx.equal(look(got), look(old), "a failed save changed the file that was there",
                          value=bad, place=place)
            elif os.path.exists(name):
                _, error = attempt(lambda: cls.from_file(name))
                ctx.check(error is not None, "what a failed save left can be loaded",
                          value=bad, place=place)
        else:
            # then it must have been kept somehow
            ctx.equal(look(cls.from_file(name)), look(x),
                      "a value was lost without a word", value=bad, place=place)
        old.to_file(name)
        ctx.equal(look(cls.from_file(name)), look(old), "saving after a failed save",
                  value=bad, place=place)
        check_clean(ctx, [name], "saving", value=bad, place=place)
        os.unlink(name)
        ctx.step(3)
        ctx.trace()
        ctx.state((case["what"], name, bad, place, with_old))
        ctx.outcome((bad, place))


def _read_only(case, ctx):
    """By somebody who may read the file, but not write it."""
    make, cls = KINDS[case["what"]]
    name = case["name"]
    x = make(3)
    x.to_file(name)
    want, data = look(x), get(name)
    os.utime(name, (1, 1))
    os.chmod(name, 0o444)
    os.chmod(".", 0o555)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                dropped = True
            except OSError:
                dropped = False
            got, error = attempt(lambda: look(cls.from_file(name)))
            text = pickle.dumps((got, None if error is None else repr(error), dropped))
            with os.fdopen(w, "wb") as f:
                f.write(text)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        text = f.read()
    os.waitpid(pid, 0)
    os.chmod(".", 0o755)
    ctx.check(bool(text), "the process that loads the file died")
    got, error, dropped = pickle.loads(text)
    ctx.check(error is None, f"a file that may only be read cannot be loaded: {error}")
    ctx.equal(got, want, "something else was loaded")
    ctx.equal(get(name), data, "loading changed the file")
    ctx.equal(os.stat(name).st_mtime, 1.0, "loading wrote the file")
    check_clean(ctx, [name], "loading")
    ctx.count("as_other_user", int(dropped))
    ctx.step()
    ctx.trace()
    ctx.state((case["what"], name))


ELSEWHERE = """
import sys
from pylattica.core import Simulation, SimulationResult
cls = {"result": SimulationResult, "simulation": Simulation}[sys.argv[1]]
cls.from_file(sys.argv[2]).to_file(sys.argv[3])
"""


def _locale(case, ctx):
    """What one process saves, another one with other settings for texts loads and saves."""
    make, cls = KINDS[case["what"]]
    name = case["name"]
    x = make(2)
    state = x.initial_state if case["what"] == "result" else x.state
    state.set_site_state(0, {"\u00fc": "\u2192 \u4e2d", "n": "a\nb\r\nc\t"})
    state.set_general_state({"\u00e9": ["\U0001f600", ""]})
    want = look(x)
    x.to_file(name)
    for i, settings in enumerate((
        {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
        {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"},
    )):
        there = f"{i}{name}"
        done = subprocess.run(
            [sys.executable, "-B", "-c", ELSEWHERE, case["what"], name, there],
            env={**os.environ, "PYTHONPATH": os.path.join(env.REPO, "src"), **settings},
            capture_output=True, text=True, errors="replace", check=False,
        )
        ctx.check(done.returncode == 0, "a file could not be loaded and saved elsewhere",
                  settings=settings, error=done.stderr[-500:])
        ctx.equal(look(cls.from_file(there)), want, "something else was saved elsewhere",
                  settings=settings)
        ctx.step(2)
        ctx.trace()
        ctx.state((case["what"], name, i))


def _paths(case, ctx):
    make, cls = KINDS[case["what"]]
    x = make(2)
    want = look(x)
    name = case["name"]
    ending = name[1:]
    os.makedirs("some/folder")
    os.makedirs("there")
    os.symlink("some/folder/real" + ending, "link" + ending)
    make(5).to_file("some/folder/real" + ending)
    here = os.getcwd()
    for path in (
        name, f"./{name}", f"some/folder/{name}", os.path.join(here, "there", name),
        f"with space{ending}", f"ü{ending}", f"there/../a{ending}", "link" + ending,
        f"{name}{ending}", f"99{ending}", f".hidden{ending}",
    ):
        ctx.at(path=path)
        for _ in range(2):
            x.to_file(path)
            ctx.check(os.path.isfile(path), "nothing was saved there", path=path)
            ctx.equal(look(cls.from_file(path)), want, "another file was loaded", path=path)
            ctx.step(2)
        ctx.trace()
        ctx.state(path)
        ctx.equal(os.getcwd(), here, "the working directory changed")
    # one file by two names
    os.symlink("some/folder", "to")
    links = ["link" + ending, "some/folder/real" + ending, "to/real" + ending,
             os.path.join(here, "to/../folder/real" + ending)]
    for n, (to, at) in enumerate(itertools.permutations(links, 2)):
        ctx.at(saved=to, loaded=at)
        y = make(1 + n % 5)
        y.to_file(to)
        ctx.equal(look(cls.from_file(at)), look(y),
                  "what was saved by one name of a file is not loaded by another")
        ctx.step(2)
        ctx.state((to, at))
    for path in (f"nowhere/{name}", "some/folder", f"missing{ending}"):
        ctx.at(path=path)
        before = sorted(os.listdir(".")), sorted(os.listdir("some/folder"))
        got, error = attempt(lambda: cls.from_file(path))
        ctx.check(isinstance(error, OSError), "a file that does not exist was loaded",
                  path=path, got=repr(error))
        if not path.startswith("missing"):
            got, error = attempt(lambda: x.to_file(path))
            ctx.check(isinstance(error, OSError), "something was saved where nothing can be",
                      path=path, got=repr(error))
        ctx.equal((sorted(os.listdir(".")), sorted(os.listdir("some/folder"))), before,
                  "files appeared", path=path)
        ctx.step()
        ctx.trace()
        ctx.state(path)


# (operation, path, what); the twin needs as many bytes as the short one
OPS = (
    [("save", p, k) for p in "ab" for k in ("short", "twin", "long")]
    + [("fail", p, None) for p in "ab"]
    + [("delete", p, None) for p in "ab"]
    + [("copy", p, None) for p in "ab"]
)


def _history(case, ctx):
    """Sequences of operations on two files, against a dictionary of what they hold."""
    make, cls = KINDS[case["what"]]
    objects = {"short": make(1, value=1), "twin": make(1, value=3), "long": make(4, value=2),
               "bad": MAKE_BAD[case["what"]]("general", BadObject())}
    looks = {k: look(v) for k, v in objects.items() if k != "bad"}
    sizes = []
    for which in ("short", "twin"):
        objects[which].to_file("a")
        sizes.append(os.path.getsize("a"))
    ctx.check(sizes[0] == sizes[1], "the harness has no twins", sizes=sizes)
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = [OPS[case["first"]], *rest]
        ctx.at(ops=ops)
        for p in "ab":
            if os.path.exists(p):
                os.unlink(p)
        model = {}
        for op, p, which in ops:
            q = "b" if p == "a" else "a"
            if op == "save":
                objects[which].to_file(p)
                model[p] = looks[which]
            elif op == "fail":
                _, error = attempt(lambda: objects["bad"].to_file(p))
                ctx.check(error is not None, "a result that cannot be encoded was saved")
                if p not in model and os.path.exists(p):
                    os.unlink(p)
            elif op == "delete":
                if p in model:
                    os.unlink(p)
                    del model[p]
            elif op == "copy" and p in model:
                cls.from_file(p).to_file(q)
                model[q] = model[p]
            if case["stamped"]:
                for q in "ab":
                    if q in model:
                        # a clock that stands still, or a file put back with its old time
                        os.utime(q, (10**9, 10**9))
            for p in model:
                ctx.equal(look(cls.from_file(p)), model[p], "not what was saved last", ops=ops,
                          path=p)
        for p in "ab":
            got, error = attempt(lambda: cls.from_file(p))
            if p in model:
                ctx.check(error is None, f"a saved file cannot be loaded: {error!r}", ops=ops)
                ctx.equal(look(got), model[p], "not what was saved last", ops=ops, path=p)
            else:
                ctx.check(isinstance(error, FileNotFoundError), "a file without contents was "
                          "loaded", ops=ops, path=p)
        ctx.step(len(ops))
        ctx.trace()
        ctx.state((case["what"], sorted(model.items(), key=repr)))
    check_clean(ctx, [p for p in "ab" if os.path.exists(p)], "saving")
    ctx.outcome(case["first"])


def _animation(case, ctx):
    struct = PeriodicStructure.build_from(SquareGridLattice2D(), [2, 2], {"A": [(0, 0)]})
    state = SimulationState.from_struct(struct)
    for s in struct.site_ids:
        state.set_site_state(s, {OCC: "PQ"[s % 2]})
    result = SimulationResult(state)
    for k in range(1, case["frames"]):
        result.add_step({0: {OCC: "QP"[k % 2]}})
    before = history(result)
    cells = DiscreteCellArtist({"P": (255, 0, 0), "Q": (0, 0, 255)})
    artist = SquareGridArtist2D(struct, cells)

    def gif():
        with vpool.controlled(cpus=2):
            ResultArtist(artist, result).to_gif("out.gif", cell_size=4)

    def png():
        artist.save_img(state, "out.png", cell_size=4)

    for save, name in ((gif, "out.gif"), (png, "out.png")):
        save()
        data = get(name)
        for k in range(0, len(data), 1 if name == "out.png" else 7):
            ctx.at(file=name, space=k)
            if os.path.exists(name):
                os.unlink(name)
            _, error = full_after(k, save)
            ctx.check(error is not None, "a picture that could not be written was saved",
                      space=k, of=len(data))
            ctx.equal(history(result), before, "a failed save changed the result")
            ctx.equal(sorted(set(os.listdir(".")) - {"out.gif", "out.png"}), [],
                      "a failed save left other files", space=k)
            ctx.step()
            ctx.state((name, case["frames"], k))
        save()
        ctx.equal(get(name), data, "saving again gives something else")
        ctx.trace(len(data))


def run(case, ctx):
    {"cut": _cut, "full": _full, "encode": _encode, "read only": _read_only, "paths": _paths, "locale": _locale,
     "history": _history, "animation": _animation}[case["kind"]](case, ctx)


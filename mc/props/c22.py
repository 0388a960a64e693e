"""Every module can be imported, in any order, and importing has no side effects."""

import atexit
import importlib
import io
import os
import pkgutil
import random
import sys
import traceback
from contextlib import redirect_stderr, redirect_stdout

import matplotlib.pyplot  # what pylattica builds upon is there already
import monty.serialization  # noqa: F401
import numpy as np
import plotly.graph_objects  # noqa: F401
import pymatgen.core.structure  # noqa: F401
import rustworkx  # noqa: F401
import tqdm  # noqa: F401
from PIL import (  # noqa: F401
    GifImagePlugin,
    Image,
    ImageDraw,
    ImageFile,
    ImageFont,
    PngImagePlugin,
)

from .. import env

BOUNDS = (
    "every module of the package first, every ordered pair of modules (in the thorough tier "
    "every ordered triple of the packages), each in a process of its own; the documented names"
)
ASSUMPTIONS = ["the packages that pylattica builds upon can be imported"]

NAMES = {
    "pylattica.core": [
        "BasicController", "SimulationResult", "SynchronousRunner", "AsynchronousRunner",
        "SimulationState", "PeriodicStructure", "Simulation", "Lattice", "StateAnalyzer",
        "StructureBuilder", "Neighborhood", "StochasticNeighborhood",
        "DistanceNeighborhoodBuilder", "MotifNeighborhoodBuilder",
    ],
    "pylattica.core.runner": ["SynchronousRunner", "AsynchronousRunner"],
    "pylattica.core.constants": ["SITES", "GENERAL", "SITE_ID", "LOCATION", "SITE_CLASS"],
    "pylattica.core.simulation_state": ["SITES", "GENERAL", "SimulationState"],
    "pylattica.core.lattice": ["Lattice"],
    "pylattica.core.periodic_structure": ["PeriodicStructure"],
    "pylattica.core.simulation_result": ["SimulationResult"],
    "pylattica.core.simulation": ["Simulation"],
    "pylattica.core.basic_controller": ["BasicController"],
    "pylattica.core.analyzer": ["StateAnalyzer"],
    "pylattica.core.structure_builder": ["StructureBuilder"],
    "pylattica.core.neighborhoods": ["Neighborhood", "StochasticNeighborhood"],
    "pylattica.core.neighborhood_builders": [
        "AnnularNeighborhoodBuilder", "DistanceNeighborhoodBuilder",
        "MotifNeighborhoodBuilder", "SiteClassNeighborhoodBuilder",
        "StochasticNeighborhoodBuilder", "NeighborhoodBuilder",
    ],
    "pylattica.discrete": ["DiscreteStepAnalyzer", "DiscreteResultAnalyzer", "PhaseSet"],
    "pylattica.discrete.state_constants": ["DISCRETE_OCCUPANCY"],
    "pylattica.models.game_of_life": [
        "GameOfLifeController", "Life", "Seeds", "Anneal", "Diamoeba", "Maze",
    ],
    "pylattica.models.growth": ["GrowthController"],
    "pylattica.structures.honeycomb": [
        "RhombohedralLattice", "HoneycombTilingBuilder", "HoneycombNeighborhoodBuilder",
    ],
    "pylattica.structures.square_grid": [
        "SquareGridLattice2D", "MooreNbHoodBuilder", "PseudoHexagonalNeighborhoodBuilder2D",
        "PseudoHexagonalNeighborhoodBuilder3D", "PseudoPentagonalNeighborhoodBuilder",
        "VonNeumannNbHood2DBuilder", "VonNeumannNbHood3DBuilder", "DiscreteGridSetup",
        "SimpleSquare2DStructureBuilder", "SimpleSquare3DStructureBuilder", "GrowthSetup",
    ],
    "pylattica.structures.square_grid.grid_setup": ["DiscreteGridSetup"],
    "pylattica.structures.square_grid.growth_setup": ["GrowthSetup"],
    "pylattica.structures.square_grid.neighborhoods": [
        "MooreNbHoodBuilder", "VonNeumannNbHood2DBuilder", "VonNeumannNbHood3DBuilder",
    ],
    "pylattica.structures.square_grid.lattice": ["SquareGridLattice2D", "SquareGridLattice3D"],
    "pylattica.visualization": [
        "SquareGridArtist2D", "SquareGridArtist3D", "ResultArtist", "CellArtist",
        "DiscreteCellArtist",
    ],
    "pylattica.atomic.pymatgen_struct_converter": ["PymatgenStructureConverter"],
}
PACKAGES = [
    "pylattica.core", "pylattica.discrete", "pylattica.models.game_of_life",
    "pylattica.models.growth", "pylattica.structures.honeycomb",
    "pylattica.structures.square_grid", "pylattica.visualization",
    "pylattica.atomic.pymatgen_struct_converter", "pylattica.core.runner",
]


def modules():
    import pylattica

    found = {"pylattica"} | set(NAMES)
    todo = [("pylattica", list(pylattica.__path__))]
    while todo:
        prefix, path = todo.pop()
        for info in pkgutil.iter_modules(path, prefix + "."):
            if info.name.rsplit(".", 1)[1] == "__main__":
                continue
            found.add(info.name)
            if info.ispkg:
                where = info.module_finder.path
                todo.append((info.name, [os.path.join(where, info.name.rsplit(".", 1)[1])]))
    return sorted(found)


def cases(tier):
    out = [{"first": m, "then": "nothing"} for m in modules()]
    out += [{"first": m, "then": "each module"} for m in modules()]
    if tier != "quick":
        out += [{"first": m, "then": "two packages"} for m in PACKAGES]
    return out


def run(case, ctx):
    first = case["first"]
    if case["then"] == "nothing":
        orders = [(first,), (first, first)]
    elif case["then"] == "each module":
        orders = [(first, m) for m in modules() if m != first]
    else:
        orders = [(first, a, b) for a in PACKAGES for b in PACKAGES if len({first, a, b}) == 3]
    for order in orders:
        ctx.at(order=order)
        problem = in_process(order)
        ctx.check(problem is None, f"cannot import {order[-1]} properly", order=order,
                  problem=problem)
        ctx.state(order)
        ctx.step(len(order))
        ctx.trace()


def in_process(order):
    """Imports the modules in this order in a process of its own. -> what went wrong"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                problem = imports(order)
            except BaseException:
                problem = traceback.format_exc()[-1500:]
            if problem:
                os.write(w, problem.encode()[:4000])
            else:
                os.write(w, b"fine")
        finally:
            os._exit(0)
    os.close(w)
    said = b""
    while chunk := os.read(r, 65536):
        said += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not said:
        return "the process ended"
    return None if said == b"fine" else said.decode()


LIBRARIES = ("random", "json", "json.encoder", "json.decoder", "copy", "math", "pickle", "os",
             "sys", "builtins", "multiprocessing", "collections", "itertools", "datetime",
             "warnings", "logging", "threading", "tempfile", "io", "time", "numpy",
             "numpy.linalg", "numpy.random", "matplotlib", "matplotlib.pyplot", "tqdm", "PIL",
             "PIL.Image", "PIL.ImageDraw", "PIL.ImageFile", "PIL.ImageFont",
             "PIL.PngImagePlugin", "PIL.GifImagePlugin", "socket", "locale", "plotly.graph_objects", "plotly.io", "rustworkx",
             "monty.json", "monty.serialization", "pymatgen.core.lattice",
             "pymatgen.core.structure")
CLASSES = (("json", "JSONEncoder"), ("monty.json", "MontyEncoder"), ("PIL.Image", "Image"),
           ("monty.json", "MontyDecoder"), ("tqdm", "tqdm"), ("rustworkx", "PyDiGraph"),
           ("pymatgen.core.structure", "Structure"), ("pymatgen.core.lattice", "Lattice"))


def settings():
    """What a program can set for all of its process."""
    import decimal
    import faulthandler
    import gc
    import locale
    import logging
    import multiprocessing
    import signal
    import socket
    import tempfile
    import threading
    import warnings

    import matplotlib as mpl
    import plotly.io

    umask = os.umask(0o22)
    os.umask(umask)
    out = {
        "way in which numpy prints": repr(sorted(np.get_printoptions().items(), key=str)),
        "way in which numpy treats errors": repr((np.geterr(), np.geterrcall())),
        "settings of figures": repr(sorted(dict(mpl.rcParams).items(), key=str)),
        "open figures": matplotlib.pyplot.get_fignums(),
        "template of plots": repr((plotly.io.templates.default, plotly.io.renderers.default)),
        "warnings that are shown": repr(warnings.filters),
        "way in which warnings are shown": warnings.showwarning,
        "handlers of the log": repr(logging.getLogger().handlers),
        "levels of the log": (logging.getLogger().level, logging.root.manager.disable),
        "signal handlers": [(s, signal.getsignal(s)) for s in signal.valid_signals()],
        "timer": signal.getitimer(signal.ITIMER_REAL),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook,
                  sys.gettrace(), sys.getprofile(), sys.breakpointhook),
        "threads": (threading.active_count(), threading.stack_size(),
                    sys.getswitchinterval()),
        "children": multiprocessing.active_children(),
        "standard streams": (sys.stdin, sys.__stdout__, sys.__stderr__),
        "search path of modules": (list(sys.path), list(sys.path_hooks)),
        "digits of numbers": (sys.get_int_max_str_digits(), sys.float_info),
        "timeouts": socket.getdefaulttimeout(),
        "folder for temporary files": tempfile.tempdir,
        "umask": umask,
        "crash handler": faulthandler.is_enabled(),
        "processors": sorted(os.sched_getaffinity(0)),
        "priority": os.nice(0),
        "pictures that are accepted": (Image.MAX_IMAGE_PIXELS,),
    }
    for name in LIBRARIES:
        if name in sys.modules:
            lib = sys.modules[name]
            out[f"contents of {name}"] = {
                k: id(v) for k, v in vars(lib).items()
                if not k.startswith("__") and not hasattr(v, "__path__")
                and k not in ("_inited", "_sys", "flags")
            }
    for name, cls in CLASSES:
        cls = getattr(sys.modules[name], cls)
        out[f"methods of {cls.__name__}"] = {k: id(v) for k, v in vars(cls).items()
                                             if not k.startswith("_abc")}
    return out


def same_setting(before, after):
    if isinstance(before, dict):  # modules can be loaded within a package
        return all(k in after and after[k] == v for k, v in before.items())
    return before == after


settings()  # what it loads is loaded before anything is compared


def around():
    import multiprocessing

    return {
        **settings(),
        "random numbers": random.getstate(),
        "random numbers of numpy": [str(x) for x in np.random.get_state()],
        "working directory": os.getcwd(),
        "files": sorted(os.listdir(".")),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "start method": multiprocessing.get_start_method(allow_none=True),
    }


def imports(order):
    for name in [m for m in sys.modules if m == "pylattica" or m.startswith("pylattica.")]:
        del sys.modules[name]
    env.set_chooser(None)
    atexit._clear()  # of this process, which is a fork
    before = around()
    out, err = io.StringIO(), io.StringIO()
    with redirect_stdout(out), redirect_stderr(err):
        for name in order:
            importlib.import_module(name)
    if out.getvalue():
        return f"printed {out.getvalue()[:200]!r}"
    for what, value in around().items():
        if not same_setting(before[what], value):
            return f"importing changed the {what}"
    # nothing is said or written when the program ends
    end = io.StringIO()
    with redirect_stdout(end), redirect_stderr(end):
        atexit._run_exitfuncs()
    if end.getvalue():
        return f"printed {end.getvalue()[:200]!r} at the end"
    if sorted(os.listdir(".")) != before["files"]:
        return "files are written at the end"
    for name in order:
        module = sys.modules[name]
        for attr in NAMES.get(name, []):
            if not hasattr(module, attr):
                return f"{name} has no {attr}"
    # what is exported in two places is the same thing
    seen = {}
    for name in NAMES:
        if name in sys.modules:
            for attr in NAMES[name]:
                value = getattr(sys.modules[name], attr, None)
                if value is None:
                    return f"{name} has no {attr}"
                if seen.setdefault(attr, value) is not value:
                    return f"{attr} is not the same everywhere"
    return None

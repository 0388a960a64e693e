"""Puts every source of nondeterminism of pylattica under the control of the explorer.

`install()` has to run before pylattica is imported.  It
  * puts /repo/src first on the module path,
  * replaces the generator behind the `random` module, and the functions of `numpy.random`,
    so that each random draw asks the active chooser (see mc.explore), if there is one,
  * silences progress bars.
"""

import os
import random
import sys

REPO = os.environ.get("MC_REPO", "/repo")

_chooser = None


def set_chooser(chooser):
    global _chooser
    previous = _chooser
    _chooser = chooser
    return previous


def chooser():
    return _chooser


# how many values a continuous draw can take when it is explored
CONTINUOUS_LEVELS = 6


class ExploredRandom(random.Random):
    """A random.Random whose draws are choices of the explorer while one is active, and
    the usual (seeded) ones otherwise."""

    def _randbelow(self, n):
        if _chooser is not None and n > 0:
            return _chooser.choose(n, "randbelow")
        return super()._randbelow(n)

    def random(self):
        if _chooser is not None:
            return (
                _chooser.choose(CONTINUOUS_LEVELS, "random") + 0.5
            ) / CONTINUOUS_LEVELS
        return super().random()


def _install_random(seed):
    inst = ExploredRandom(seed)
    for name in list(random.__all__) + ["_inst"]:
        current = getattr(random, name, None)
        if name == "_inst":
            continue
        if callable(current) and hasattr(inst, name) and not isinstance(current, type):
            setattr(random, name, getattr(inst, name))
    random._inst = inst
    return inst


def _install_numpy(seed):
    import numpy as np

    npr = np.random
    npr.seed(seed % 2**32)
    original = {
        k: getattr(npr, k)
        for k in (
            "choice",
            "randint",
            "random_integers",
            "random",
            "random_sample",
            "ranf",
            "rand",
            "uniform",
            "shuffle",
            "permutation",
            "default_rng",
        )
        if hasattr(npr, k)
    }

    def below(n):
        return _chooser.choose(int(n), "numpy")

    def shaped(size, draw):
        if size is None:
            return draw()
        count = int(np.prod(size))
        return np.array([draw() for _ in range(count)]).reshape(size)

    def real():
        return (below(CONTINUOUS_LEVELS) + 0.5) / CONTINUOUS_LEVELS

    def choice(a, size=None, replace=True, p=None):
        if _chooser is None:
            return original["choice"](a, size, replace, p)
        pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            pool = [x for x, w in zip(pool, p) if w > 0]
        if size is None:
            return pool[below(len(pool))]
        out = []
        for _ in range(int(np.prod(size))):
            k = below(len(pool))
            out.append(pool[k] if replace else pool.pop(k))
        return np.array(out).reshape(size)

    def randint(low, high=None, size=None, dtype=int):
        if _chooser is None:
            return original["randint"](low, high, size, dtype)
        if high is None:
            low, high = 0, low
        return shaped(size, lambda: int(low) + below(int(high) - int(low)))

    def random_(size=None):
        if _chooser is None:
            return original["random"](size)
        return shaped(size, real)

    def rand(*size):
        if _chooser is None:
            return original["rand"](*size)
        return shaped(size or None, real)

    def uniform(low=0.0, high=1.0, size=None):
        if _chooser is None:
            return original["uniform"](low, high, size)
        return shaped(size, lambda: low + (high - low) * real())

    def shuffle(x):
        if _chooser is None:
            return original["shuffle"](x)
        for i in range(len(x) - 1, 0, -1):
            j = below(i + 1)
            if i != j:
                x[i], x[j] = np.copy(x[j]), np.copy(x[i])
        return None

    def permutation(x):
        if _chooser is None:
            return original["permutation"](x)
        out = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        res = []
        while out:
            res.append(out.pop(below(len(out))))
        return np.array(res)

    class Rng:
        """What default_rng gives while draws are explored."""

        def __init__(self, real_rng):
            self._real = real_rng

        def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
            if _chooser is None:
                return self._real.integers(low, high, size, dtype, endpoint)
            if high is None:
                low, high = 0, low
            return randint(low, high + 1 if endpoint else high, size)

        def choice(self, a, size=None, replace=True, p=None, **kw):
            if _chooser is None:
                return self._real.choice(a, size, replace, p, **kw)
            return choice(a, size, replace, p)

        def random(self, size=None, **kw):
            if _chooser is None:
                return self._real.random(size, **kw)
            return random_(size)

        def uniform(self, low=0.0, high=1.0, size=None):
            if _chooser is None:
                return self._real.uniform(low, high, size)
            return uniform(low, high, size)

        def shuffle(self, x, **kw):
            if _chooser is None:
                return self._real.shuffle(x, **kw)
            return shuffle(x)

        def permutation(self, x, **kw):
            if _chooser is None:
                return self._real.permutation(x, **kw)
            return permutation(x)

        def __getattr__(self, name):
            return getattr(self._real, name)

    def default_rng(s=None):
        return Rng(original["default_rng"](seed if s is None else s))

    npr.choice = choice
    npr.randint = randint
    npr.random = random_
    npr.random_sample = random_
    npr.ranf = random_
    npr.rand = rand
    npr.uniform = uniform
    npr.shuffle = shuffle
    npr.permutation = permutation
    npr.default_rng = default_rng


def install(seed=1):
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "src"))
    _install_random(seed)
    _install_numpy(seed)
    from . import threads

    threads.install_locks()
    import warnings

    warnings.simplefilter("ignore")
    # the scratch folder of this run is the working directory: whatever the code under
    # test writes without being told where ends up there
    import logging

    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    import pylattica

    where = os.path.dirname(os.path.abspath(pylattica.__file__))
    expected = os.path.join(REPO, "src", "pylattica")
    if os.path.realpath(where) != os.path.realpath(expected):
        raise RuntimeError(f"pylattica was imported from {where}, not {expected}")

"""Import nbkode from /repo in its interpreted mode and prepare it for symbolic runs."""
from __future__ import annotations

import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load(interpreted=True):
    setup_path()
    if interpreted:
        os.environ["NBKODE_NONUMBA"] = "1"
    else:
        os.environ.pop("NBKODE_NONUMBA", None)
    import nbkode

    assert os.path.realpath(nbkode.__file__).startswith(os.path.realpath(REPO)), nbkode.__file__
    return nbkode


_state = {}


def patched():
    """Symbolic-ready package (numpy, math, float replaced in its globals)."""
    nb = load(True)
    if "undo" not in _state:
        from . import npshim

        import nbkode.core, nbkode.event_handler, nbkode.buffer, nbkode.util  # noqa
        import nbkode.nbcompat.zeros, nbkode.nbcompat.common  # noqa
        import nbkode.multistep.core, nbkode.runge_kutta.core, nbkode.runge_kutta.explicit  # noqa

        _state["orig"] = dict(
            j_newton=nbkode.nbcompat.zeros.j_newton,
            newton_hd=nbkode.nbcompat.zeros.newton_hd,
            newton=nbkode.nbcompat.zeros.newton,
            bisect=nbkode.nbcompat.zeros.bisect,
            select_initial_step=getattr(nbkode.core, "select_initial_step", None),
        )
        _state["undo"] = npshim.patch_package("nbkode")
        _state["float"] = {}
    return nb


def twin(f):
    """A copy of the function that a replacement of `f` leaves alone."""
    if not isinstance(f, types.FunctionType):
        return f
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def replace_everywhere(orig, new):
    """Every use of the function `orig` of the package is a use of `new`, also where it was kept in a closure."""
    undo = []
    if isinstance(orig, types.FunctionType) and not orig.__closure__:
        old = orig.__code__, orig.__defaults__, orig.__kwdefaults__
        slot = f"_verif_{len(orig.__globals__)}_{id(orig)}"
        orig.__globals__[slot] = new
        env = {}
        exec(f"def {orig.__name__}(*a, **k):\n    return {slot}(*a, **k)", env)
        orig.__defaults__ = orig.__kwdefaults__ = None
        orig.__code__ = env[orig.__name__].__code__
        return [(orig, slot, old)]
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "nbkode" or name.startswith("nbkode.")):
            continue
        for k, v in list(mod.__dict__.items()):
            if v is orig:
                undo.append((mod.__dict__, k, v))
                mod.__dict__[k] = new
    return undo


def restore(undo):
    for g, k, v in reversed(undo):
        if isinstance(g, types.FunctionType):
            g.__code__, g.__defaults__, g.__kwdefaults__ = v
            del g.__globals__[k]
        else:
            g[k] = v


def orig(name):
    return _state["orig"][name]

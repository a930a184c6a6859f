"""Bring the code under test into this process, with its lock seam owned by the simulator.

The package is imported from the working tree of the repository (default /repo). While it is being imported
`threading.Lock`/`RLock` are the simulator's cooperative locks, so every lock the package creates at import time
is one whose blocking the scheduler decides (outside a simulation they behave like ordinary locks).
"""
import importlib
import os
import pkgutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True

_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import igraph  # noqa: F401  third party code keeps real locks
    import antlr4  # noqa: F401
    import pygments  # noqa: F401
    import pathlib, runpy, json, tempfile, weakref, gc, shutil, argparse, gettext, concurrent.futures, asyncio, queue  # noqa
    load()


def load():
    from . import simlock
    import threading

    real = (threading.Lock, threading.RLock)
    threading.Lock, threading.RLock = simlock.SimLock, simlock.SimRLock
    try:
        import explorerscript

        root = os.path.realpath(os.path.dirname(explorerscript.__file__))
        want = os.path.realpath(os.path.join(REPO, "explorerscript"))
        if root != want:
            raise RuntimeError(f"explorerscript imported from {root}, wanted {want}")
        mods = []
        for m in pkgutil.walk_packages([want], "explorerscript."):
            if m.name.startswith("explorerscript.cli."):
                continue  # run as __main__ by the CLI node, never as imported modules
            mods.append(m.name)
        for name in sorted(mods):
            try:
                importlib.import_module(name)
            except ImportError:
                pass
    finally:
        threading.Lock, threading.RLock = real


def reload():
    """The package as in a process that has not used it yet (for a child that forgets everything its parent did)."""
    for n in [n for n in sys.modules if n == "explorerscript" or n.startswith("explorerscript.")]:
        del sys.modules[n]
    load()

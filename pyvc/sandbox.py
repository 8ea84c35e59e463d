"""Scratch environment for running the real code: fake data registry, private data directories, no network."""
import atexit
import os
import shutil
import sys
import tempfile

STATE = {}

class FakePooch:
    """stands in for the remote data registry (contents: STATE['registry'] name -> local path)"""
    @property
    def registry(self):
        return STATE["registry"]

    def load_registry_from_doi(self, *a, **k):
        STATE["loads"] = STATE.get("loads", 0) + 1

    def fetch(self, name, *a, **k):
        return STATE["registry"][name]

def enter():
    if STATE:
        return STATE
    d = tempfile.mkdtemp(prefix="pyvc-run-")
    STATE.update(dir=d, registry={}, loads=0, pid=os.getpid())
    for k in ("DATA", "CACHE", "CONFIG", "STATE"):
        os.environ[f"XDG_{k}_HOME"] = os.path.join(d, k.lower())
        os.makedirs(os.environ[f"XDG_{k}_HOME"])
    for k in ("http_proxy", "https_proxy"):
        os.environ[k] = "http://127.0.0.1:9"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(d, "numba")
    atexit.register(leave)
    import pooch
    pooch.create = lambda *a, **k: FakePooch()
    pooch.os_cache = lambda *a, **k: d
    src = os.environ.get("PYVC_SRC", "/repo/src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import logging
    logging.disable(logging.CRITICAL)
    return STATE

def own():
    """a forked child works in directories of its own, below its parent's"""
    if STATE.get("owner", STATE["pid"]) != os.getpid():
        STATE["owner"] = os.getpid()
        STATE["dir"] = tempfile.mkdtemp(prefix="child-", dir=STATE["dir"])
        for k in ("DATA", "CACHE", "CONFIG", "STATE"):
            os.environ[f"XDG_{k}_HOME"] = os.path.join(STATE["dir"], k.lower())
            os.makedirs(os.environ[f"XDG_{k}_HOME"])

def fresh_data():
    """empty the user's data directory and the registry"""
    own()
    d = os.path.join(STATE["dir"], "data")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    STATE["registry"] = {}

def leave():
    if STATE and STATE.get("pid") == os.getpid():
        shutil.rmtree(STATE["dir"], ignore_errors=True)

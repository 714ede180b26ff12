"""Paths, bytecode hygiene and optional native build.  Import this first.

The code under test is always the working tree at /repo (override: VERIF_REPO, for development
only).  Bytecode is read from and written to a directory that does not exist, so a stale .pyc can
never hide an edit.
"""
import atexit
import importlib.util
import os
import runpy
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-no-bytecode-{os.getpid()}")


class HarnessError(Exception):
    """The check itself cannot do its job; never a verdict about the code."""


def setup_paths():
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)      # at the end: only supplies what /opt/venv lacks (hypothesis)


setup_paths()
_scratch = None


def scratch():
    """A private scratch directory, removed when the process that asked for it ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        owner = os.getpid()

        def cleanup(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(cleanup)
    return _scratch


def load_openssl_backend():
    """Build snmp.openssl from the current source, outside /repo, and register it.

    Must run before anything imports snmp.security.usm.priv.openssl.  Returns None, or the reason
    why the extension is not available.
    """
    if "snmp.openssl" in sys.modules:
        return None
    src = os.path.join(REPO, "snmp", "cffi", "openssl.py")
    build = os.path.join(scratch(), "ext")
    os.makedirs(build, exist_ok=True)
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1)
    try:
        os.dup2(devnull, 1)
        ffi = runpy.run_path(src)["ffi"]
        path = ffi.compile(tmpdir=build)
    finally:
        os.dup2(saved, 1)
        os.close(saved)
        os.close(devnull)
    import snmp
    spec = importlib.util.spec_from_file_location("snmp.openssl", path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    sys.modules["snmp.openssl"] = module
    snmp.openssl = module
    return None

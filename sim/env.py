"""Process environment of a simulated run: import path, single-threaded XLA, fresh copies of the library."""
import importlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")

os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
_flags = os.environ.get("XLA_FLAGS", "")
if "xla_cpu_multi_thread_eigen" not in _flags:
    os.environ["XLA_FLAGS"] = (_flags + " --xla_cpu_multi_thread_eigen=false").strip()
sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")
import logging

logging.disable(logging.CRITICAL)  # jax logs the traceback of every injected callback error

import numpy as np  # noqa: E402
import jax  # noqa: E402

jax.config.update("jax_cpu_enable_async_dispatch", False)
if os.environ.get("VERIF_XLA_CACHE"):      # per-check scratch directory: workers share compiled programs (keyed by their HLO)
    jax.config.update("jax_compilation_cache_dir", os.environ["VERIF_XLA_CACHE"])
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)

MODULES = (
    "prelude", "calc", "domain", "integrate", "model", "ode", "opt", "quaternions", "r_fun",
    "sampling", "spline", "surface_integral", "tr", "utils",
)


def load_magpi():
    """A fresh copy of the library (module state, caches, classes) from the working tree."""
    for name in [m for m in sys.modules if m == "magpi" or m.startswith("magpi.")]:
        del sys.modules[name]
    importlib.invalidate_caches()
    pkg = importlib.import_module("magpi")
    assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + "/magpi/"), pkg.__file__
    ns = types.SimpleNamespace(pkg=pkg)
    for m in MODULES:
        setattr(ns, m, importlib.import_module("magpi." + m))
    return ns

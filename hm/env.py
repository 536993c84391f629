"""Environment of a worker process: must be imported before jax.

The code under test is imported from the working tree of the repository (HM_REPO, /repo by default).
"""
from __future__ import annotations

import os
import sys

REPO = os.path.realpath(os.environ.get("HM_REPO", "/repo"))

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_DISABLE_MOST_OPTIMIZATIONS", "1")
os.environ.setdefault(
    "XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
if os.environ.get("HM_CACHE"):
    os.environ["JAX_COMPILATION_CACHE_DIR"] = os.environ["HM_CACHE"]
    os.environ["JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS"] = "0"
    os.environ["JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES"] = "-1"

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import logging
import warnings

warnings.filterwarnings("ignore")
logging.getLogger("jax").setLevel(logging.ERROR)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402,F401
import horqrux  # noqa: E402

assert os.path.realpath(horqrux.__file__).startswith(REPO + os.sep), horqrux.__file__

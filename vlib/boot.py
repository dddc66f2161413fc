"""Process set-up shared by every check: environment, import paths, tool packages.

Only the test-generation packages are taken from the tool environment; numpy, jax, flax and optax are
always the ones of the interpreter that runs the repository's own tests, and `nnx` is always the
working tree of /repo.
"""
import importlib.machinery
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NNX_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
_ALLOWED = ("hypothesis", "_hypothesis", "sortedcontainers", "attr", "attrs", "atheris")


class _ToolFinder:
  """Finds the generator packages (and nothing else) in the tool environment."""

  @classmethod
  def find_spec(cls, fullname, path=None, target=None):
    top = fullname.split(".")[0]
    if path is None and (top in _ALLOWED or top.startswith("_hypothesis")):
      return importlib.machinery.PathFinder.find_spec(fullname, [TOOLS])
    return None


def env(devices=1):
  e = dict(os.environ)
  e.update(
      JAX_PLATFORMS="cpu",
      PYTHONDONTWRITEBYTECODE="1",
      PYTHONHASHSEED="0",
      TF_CPP_MIN_LOG_LEVEL="3",
      HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent",
      XLA_FLAGS=(
          f"--xla_force_host_platform_device_count={devices} "
          "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
      ),
      OMP_NUM_THREADS="1",
      OPENBLAS_NUM_THREADS="1",
  )
  e.pop("JAX_ENABLE_X64", None)
  return e


def setup():
  sys.dont_write_bytecode = True
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
  sys.meta_path.append(_ToolFinder)
  import warnings

  warnings.filterwarnings("ignore", category=DeprecationWarning)
  warnings.filterwarnings("ignore", category=FutureWarning)
  import nnx

  where = os.path.realpath(nnx.__file__)
  if not where.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError(f"nnx was imported from {where}, not from {REPO}")

"""setup_cmd: nothing is compiled; this only verifies that the tool packages and the working tree import."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot

os.environ.update({k: v for k, v in boot.env().items() if k in ("JAX_PLATFORMS",)})
boot.setup()
import hypothesis
import jax
import nnx

print("hypothesis", hypothesis.__version__, "jax", jax.__version__, "nnx", nnx.__file__)

"""Process environment shared by every worker: pin the threading / platform settings, put the code under test first
on the path and the (pure Python) property-testing library last, so that the repository's own numpy / jax always win.
"""
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
ENV = dict(JAX_PLATFORMS='cpu', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', JAX_ENABLE_X64='1',
           TF_CPP_MIN_LOG_LEVEL='3')
for _k, _v in ENV.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(_HYP)

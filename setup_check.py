#!/opt/venv/bin/python
"""setup_cmd: nothing to build; make sure that the interpreter, the property-testing library and the code import."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core  # noqa
import jax, mfs  # noqa
print('ok', sys.version.split()[0], 'hypothesis', core.hypothesis.__version__, 'jax', jax.__version__, mfs.__path__)

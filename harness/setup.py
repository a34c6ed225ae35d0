"""setup_cmd: check that the interpreter can import Hypothesis and the code under test."""
import subprocess
import sys

from run import HERE, PY, VERIF, child_env

sys.exit(subprocess.run(
    [PY, "-c", "import hypothesis, sys; sys.path.insert(0, %r); import gens; print('ok', hypothesis.__version__)" % HERE],
    env=child_env("x64"), cwd=VERIF).returncode)

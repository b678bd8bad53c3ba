"""setup_cmd: nothing to build; verifies that the interpreter and the solver the checks use are there."""
import subprocess
import sys

sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '.'); import symx.core, numpy, scipy"]))

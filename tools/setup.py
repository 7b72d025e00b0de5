"""Nothing to build: confirms that the engine and /repo can be imported."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo', V]
import symx.terms, symx.tensor  # noqa
import mmrazor  # noqa
print('ready', symx.terms.z3.get_version_string())

"""setup: checks that the interpreter, the solvers and the code under test are loadable (nothing has to be built)"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('MPLBACKEND', 'Agg')
import pydv  # noqa: E402,F401
import z3  # noqa: E402
import cvc5  # noqa: E402
import numpy  # noqa: E402
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__ if hasattr(cvc5, '__version__') else '', 'numpy', numpy.__version__)

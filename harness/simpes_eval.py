"""The test potential, evaluated without i-PI."""
import ast
import os

import numpy as np

# the function is taken from simpes.py, which itself can only be imported with i-PI
_src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "simpes.py")).read()
_ns = {"np": np}
for _n in ast.parse(_src).body:
    if isinstance(_n, ast.FunctionDef) and _n.name == "evaluate":
        exec(compile(ast.Module([_n], []), "simpes", "exec"), _ns)
evaluate = _ns["evaluate"]

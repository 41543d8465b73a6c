import sys

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    try:
        import z3  # noqa: F401
    except ImportError:
        import importlib.util
        import os
        _s = importlib.util.spec_from_file_location(
            "z3", os.path.join(_p, "z3", "__init__.py"),
            submodule_search_locations=[os.path.join(_p, "z3")])
        _m = importlib.util.module_from_spec(_s)
        sys.modules["z3"] = _m
        _s.loader.exec_module(_m)

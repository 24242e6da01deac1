"""Symbolic execution of the real SimCATS Python code with z3 as the deciding step."""
import importlib.util
import sys

_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'


def _load_z3():
    if 'z3' in sys.modules:
        return
    try:
        import z3  # noqa: F401
        return
    except ImportError:
        pass
    spec = importlib.util.spec_from_file_location('z3', _Z3 + '/__init__.py', submodule_search_locations=[_Z3])
    m = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = m
    spec.loader.exec_module(m)


_load_z3()

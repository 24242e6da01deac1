"""Swap numpy/math/builtins in the globals of every loaded simcats module for the symbolic stand-ins, and back."""
import builtins
import functools
import importlib
import math
import pkgutil
import sys
import tempfile
import types

import numpy as np

from . import npshim
from .npshim import ModProxy, FuncProxy, UfuncProxy, MathProxy

_loaded = False


def load_simcats():
    """import every module of the package from /repo's working tree, without stale byte code"""
    global _loaded
    if _loaded:
        return
    import os
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for m in ('scipy.ndimage', 'scipy.optimize', 'scipy.stats', 'sympy', 'bezier', 'colorednoise', 'diplib', 'matplotlib.pyplot',
              'cv2'):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    d = tempfile.mkdtemp(prefix='symx_pyc_')
    old = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix, sys.dont_write_bytecode = d, True
    try:
        repo = os.environ.get('DEV_REPO', '/repo')      # (development only: a scratch copy; the checks use /repo)
        sys.path.insert(0, repo)
        import simcats
        assert simcats.__file__.startswith(repo + '/'), simcats.__file__
        for m in pkgutil.walk_packages(simcats.__path__, 'simcats.'):
            importlib.import_module(m.name)
    finally:
        sys.pycache_prefix, sys.dont_write_bytecode = old
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    _loaded = True
    _state.clear()
    _state.extend(_snapshot())


# process state of the package: module variables, class attributes, caches, mutable default arguments ---------------------
_state = []


def _data(v):
    return not (isinstance(v, (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, functools.partial,
                               property, staticmethod, classmethod)) or callable(v) and not _ours(v))


def _ours(v):
    return (getattr(type(v), '__module__', '') or '').split('.')[0] == 'simcats'


def _functions(ns, mod):
    for v in list(ns.values()):
        v = getattr(v, '__func__', v)
        for f in (v.fget, v.fset) if isinstance(v, property) else (v,):
            if callable(f) and str(getattr(f, '__module__', '') or '').startswith('simcats'):
                yield f


def _namespaces():
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == 'simcats' or name.startswith('simcats.')):
            yield mod, mod.__dict__
            for c in list(mod.__dict__.values()):
                if isinstance(c, type) and c.__module__ == name:
                    yield c, c.__dict__


def _containers(v, out, seen, depth=0):
    if id(v) in seen or depth > 8:
        return
    if isinstance(v, (list, set, dict)) or type(v).__name__ in ('deque', 'WeakKeyDictionary', 'WeakValueDictionary'):
        seen.add(id(v))
        out.append((v, list(v.items()) if hasattr(v, 'items') else list(v)))
        for x in (list(v.values()) if hasattr(v, 'values') else list(v)):
            _containers(x, out, seen, depth + 1)
    elif isinstance(v, tuple):
        for x in v:
            _containers(x, out, seen, depth + 1)
    elif isinstance(v, np.ndarray) and v.dtype.kind in 'fiub' and v.flags.writeable:
        seen.add(id(v))
        out.append((v, v.copy()))
    elif _ours(v) and not isinstance(v, type) and hasattr(v, '__dict__'):
        _containers(v.__dict__, out, seen, depth + 1)


def _snapshot():
    out, seen = [], set()
    for owner, ns in _namespaces():
        vals = {k: v for k, v in ns.items() if not k.startswith('__') and _data(v)}
        out.append(('names', owner, set(ns), vals))
        for v in vals.values():
            c = []
            _containers(v, c, seen)
            out += [('content', *x) for x in c]
        for f in _functions(ns, owner):
            c = []
            for d in (*(getattr(f, '__defaults__', None) or ()), *(getattr(f, '__kwdefaults__', None) or {}).values(),
                      getattr(f, '__dict__', {})):
                _containers(d, c, seen)
            for cell in getattr(f, '__closure__', None) or ():
                try:
                    if _data(cell.cell_contents):
                        _containers(cell.cell_contents, c, seen)
                except ValueError:
                    pass
            out += [('content', *x) for x in c]
            if hasattr(f, 'cache_clear'):
                out.append(('cache', f))
    return out


def reset_state(state=None):
    """put the process state of the package back to what it was after importing it (or to an earlier current_state())"""
    for k, *a in (_state if state is None else state):
        if k == 'cache':
            a[0].cache_clear()
        elif k == 'content':
            v, old = a
            if isinstance(v, np.ndarray):
                v[...] = old
            elif isinstance(v, list):
                v[:] = old
            else:
                v.clear()
                (v.extend if hasattr(v, 'extend') else v.update)(old)
        else:
            owner, names, vals = a
            ns = owner.__dict__
            for n, v in vals.items():
                if ns.get(n, ns) is not v:
                    setattr(owner, n, v)
            for n in [n for n in ns if n not in names and not n.startswith('__') and n not in npshim.BUILTINS]:
                if _data(ns[n]) and not isinstance(ns[n], (ForeignModule, ModProxy, FuncProxy, UfuncProxy, MathProxy)):
                    delattr(owner, n)


def current_state():
    return [x for x in _snapshot() if x[0] != 'cache']


class Patches:
    """foreign: {real object: replacement} for functions/classes/modules of other libraries the harness stubs"""

    def __init__(self, foreign=None, random_module=None, np_over=None):
        self.foreign = list((foreign or {}).items()) if isinstance(foreign, dict) else list(foreign or [])
        self.random_module = random_module
        self.np = ModProxy(np, {'random': random_module} if random_module is not None else {})
        self.np_over = {k: functools.partial(f, getattr(self.np, k)) for k, f in (np_over or {}).items()}
        if np_over:
            self.np = ModProxy(np, {**({'random': random_module} if random_module is not None else {}), **self.np_over})
        self.math = MathProxy()
        self.saved = []

    def map_value(self, v):
        for real, rep in self.foreign:
            if v is real:
                return rep
        if v is np:
            return self.np
        if v is math:
            return self.math
        if v is np.linalg:
            return npshim.LINALG
        if v is np.random and self.random_module is not None:
            return self.random_module
        if isinstance(v, types.ModuleType):
            n = v.__name__
            if n.split('.')[0] in ('scipy', 'diplib', 'colorednoise', 'bezier', 'sympy', 'random', 'warnings', 'cv2'):
                extra = {}
                for real, rep in self.foreign:
                    nm = getattr(real, '__name__', None)
                    if nm and getattr(v, nm, None) is real:
                        extra[nm] = rep
                if extra or n == 'scipy':
                    return ForeignModule(v, self, extra)
            return None
        if isinstance(v, np.ufunc):
            return UfuncProxy(v)
        try:
            if v in npshim.OV:
                return npshim.OV[v]
        except TypeError:
            return None
        if isinstance(v, type) and getattr(np, v.__name__, None) is v and v.__name__ in npshim.TYPES:
            return npshim.TYPES[v.__name__]
        if callable(v) and (getattr(v, '__module__', '') or '').split('.')[0] == 'numpy' and not isinstance(v, type):
            if getattr(v, '__self__', None) is math:
                return None
            if v is np.random.default_rng and self.random_module is not None:
                return self.random_module.default_rng
            return FuncProxy(v)
        if isinstance(v, types.BuiltinFunctionType) and getattr(v, '__module__', None) == 'math':
            return getattr(self.math, v.__name__)
        return None

    def __enter__(self):
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'simcats' or name.startswith('simcats.')):
                continue
            g = mod.__dict__
            changes = {}
            for k, v in list(g.items()):
                if k.startswith('__'):
                    continue
                r = self.map_value(v)
                if r is not None:
                    changes[k] = r
            for k, v in npshim.BUILTINS.items():
                if k not in g:
                    changes[k] = v
            self.saved.append((g, {k: g[k] for k in changes if k in g}, [k for k in changes if k not in g]))
            g.update(changes)
        self._imp = builtins.__import__
        imp = self._imp

        def hook(name, globals=None, locals=None, fromlist=(), level=0):
            m = imp(name, globals, locals, fromlist, level)
            if globals is not None and str(globals.get('__name__', '')).startswith('simcats'):
                r = self.map_value(m)
                if r is not None:
                    return r
                if fromlist and isinstance(m, types.ModuleType):
                    ch = {}
                    for f in fromlist:
                        v = getattr(m, f, None)
                        rr = self.map_value(v) if v is not None else None
                        if rr is not None:
                            ch[f] = rr
                    if ch:
                        return ForeignModule(m, self, ch)
            return m
        builtins.__import__ = hook
        return self

    def __exit__(self, *a):
        builtins.__import__ = self._imp
        for g, old, new in self.saved:
            g.update(old)
            for k in new:
                g.pop(k, None)
        self.saved = []


class ForeignModule:
    def __init__(self, real, patches, extra):
        self.__dict__['_real'], self.__dict__['_p'], self.__dict__['_extra'] = real, patches, extra

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        v = getattr(self._real, n)
        r = self._p.map_value(v)
        return v if r is None else r

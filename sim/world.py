"""A fresh copy of the framework per simulated run.

Every run imports ombott anew from /repo's working tree (source compiled once per
process, executed into new module objects per run), so no module-level state of the
code under test - the default application, caches, class closures - survives from one
run to the next and one plan is one repeatable execution.
"""
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

_code_cache = {}
_all_codes = []          # every code object of the code under test (for the scheduler)


def _collect(code):
    _all_codes.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with open(self.path, 'rb') as f:
                src = f.read()
            code = _code_cache[self.path] = compile(src, self.path, 'exec', dont_inherit=True)
            _collect(code)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'ombott' and not name.startswith('ombott.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            file, search = os.path.join(base, '__init__.py'), [base]
        else:
            file, search = base + '.py', None
        if not os.path.exists(file):
            return None
        return importlib.util.spec_from_file_location(
            name, file, loader=_Loader(file), submodule_search_locations=search)


_finder = _Finder()


def install():
    sys.dont_write_bytecode = True
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def drop():
    for k in [k for k in sys.modules if k == 'ombott' or k.startswith('ombott.')]:
        del sys.modules[k]


def fresh():
    """Import ombott anew; returns the package module."""
    install()
    drop()
    m = importlib.import_module('ombott')
    assert os.path.dirname(os.path.abspath(m.__file__)) == os.path.join(REPO, 'ombott'), m.__file__
    return m


def all_codes():
    return _all_codes

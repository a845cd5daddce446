"""Load the extension built by vf.build and the Python layer of /repo."""
import importlib
import importlib.util
import os
import pathlib
import sys
import types

from . import stubs

REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
PKG = REPO / 'src' / 'pyinterp'


def _missing(name):
    """Placeholder for a name the subset extension does not provide."""

    class Missing:
        """Any use of this object is an error of the harness."""

        def __init__(self, *args, **kwargs):
            raise RuntimeError(f'{name} is not part of this build')

        def __class_getitem__(cls, item):
            return cls

    class Meta(type):

        def __getattr__(cls, item):
            if item.startswith('__'):
                raise AttributeError(item)
            return _missing(f'{name}.{item}')

    return Meta(name.rsplit('.', 1)[-1], (Missing, ), {})


class _Fallback(types.ModuleType):

    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__path__ = []

    def __getattr__(self, name):
        real = self.__dict__['_real']
        if hasattr(real, name):
            value = getattr(real, name)
            if isinstance(value, types.ModuleType):
                value = _Fallback(f'{self.__name__}.{name}', value)
            self.__dict__[name] = value
            return value
        if name.startswith('__'):
            raise AttributeError(name)
        return _missing(f'{self.__name__}.{name}')


def load(so):
    """Import the extension as pyinterp.core and prepare package pyinterp."""
    spec = importlib.util.spec_from_file_location('pyinterp.core', str(so))
    core = importlib.util.module_from_spec(spec)
    pkg = types.ModuleType('pyinterp')
    pkg.__path__ = [str(PKG)]
    sys.modules['pyinterp'] = pkg
    sys.modules['pyinterp.core'] = core
    spec.loader.exec_module(core)
    # classes registered by pybind11 pickle as pyinterp.core.X: keep the real
    # module there, and give the Python layer the same module completed by
    # placeholders.
    front = _Fallback('pyinterp.core', core)
    for name in dir(core):
        value = getattr(core, name)
        if not name.startswith('__'):
            front.__dict__[name] = value
        if isinstance(value, types.ModuleType):
            sub = _Fallback(f'pyinterp.core.{name}', value)
            front.__dict__[name] = sub
            sys.modules[f'pyinterp.core.{name}'] = sub
            for n2 in dir(value):
                v2 = getattr(value, n2)
                if isinstance(v2, types.ModuleType):
                    s2 = _Fallback(f'pyinterp.core.{name}.{n2}', v2)
                    sub.__dict__[n2] = s2
                    sys.modules[f'pyinterp.core.{name}.{n2}'] = s2
    sys.modules['pyinterp.core'] = front
    pkg.core = front
    version = types.ModuleType('pyinterp.version')
    version.release = lambda: '0'
    version.date = lambda: '0'
    sys.modules['pyinterp.version'] = version
    return core


def layer(name):
    """Import pyinterp.<name> from the Python sources of /repo."""
    sys.dont_write_bytecode = True
    stubs.install()
    return importlib.import_module('pyinterp.' + name)

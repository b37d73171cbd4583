"""Names of files known in advance."""
import posixpath
from pathlib import PurePosixPath

from . import val
from .val import c, cv, is_c

ATTRIBUTES = ('name', 'stem', 'suffix', 'suffixes', 'parent', 'parts',
              'anchor')
METHODS = ('with_name', 'with_suffix', 'with_stem', 'joinpath', 'as_posix',
           'relative_to', 'is_absolute', 'is_relative_to')
SAME = ('resolve', 'absolute', 'expanduser')
FUNCTIONS = ('join', 'dirname', 'basename', 'splitext', 'abspath', 'normpath')


def known(v):
    return is_c(v) and isinstance(cv(v), PurePosixPath)


def attribute(v, name):
    if not known(v) or name not in ATTRIBUTES:
        return None
    r = getattr(cv(v), name)
    return (val.seq(type(r).__name__, [c(x) for x in r])
            if isinstance(r, (list, tuple)) else c(r))


def method(v, name, args, kwargs):
    if not known(v) or kwargs:
        return None
    if name in SAME and not args:
        return v
    if name in METHODS and all(constant(x) for x in args):
        try:
            return c(getattr(cv(v), name)(*map(cv, args)))
        except ValueError:
            return None
    return None


def divide(a, b):
    if (known(a) or known(b)) and constant(a) and constant(b):
        return c(cv(a) / cv(b))
    return None


def constant(v):
    return is_c(v) and isinstance(cv(v), (str, PurePosixPath))


def path(self, args, kwargs):
    args = [self.resolve(x) for x in args]
    if args and not kwargs and all(map(constant, args)):
        return c(PurePosixPath(*map(cv, args)))
    return None


def function(name):
    def call(self, args, kwargs):
        args = [self.resolve(x) for x in args]
        if not args or kwargs or not all(map(constant, args)):
            return None
        r = getattr(posixpath, name)(*map(cv, args))
        return (val.seq('tuple', [c(x) for x in r]) if isinstance(r, tuple)
                else c(r))

    return call


def install(builtins):
    for name in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PurePosixPath',
                 'pathlib.PosixPath'):
        builtins[name] = path
    for name in FUNCTIONS:
        for module in ('os.path.', 'posixpath.'):
            builtins[module + name] = function(name)

"""Modules the import of which has unwanted effects, or is bound to fail, with
CPython on Linux; submodules of theirs are not to be imported either."""
UNSUPPORTED = ['antigravity', 'crypt', 'idlelib', 'lib2to3.pgen2.conv', 'this',
               'tkinter', 'turtle', 'turtledemo', 'distutils._msvccompiler',
               'distutils.command.bdist_msi', 'asyncio.windows_events',
               'asyncio.windows_utils', 'ctypes.wintypes',
               'distutils.msvc9compiler', 'encodings.mbcs', 'encodings.oem',
               'multiprocessing.popen_spawn_win32']


def is_unsupported(module_path):
    for name in UNSUPPORTED:
        path = tuple(name.split('.'))
        if module_path[:len(path)] == path:
            return True
    return False


def supported(modules_paths):
    return [path for path in modules_paths if not is_unsupported(path)]

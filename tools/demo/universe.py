"""Parses stubs given as texts with the library's own parser."""
import pathlib
import tempfile


def parse(texts):
    from paradigm._core import caching, execution, sources

    directory = tempfile.TemporaryDirectory()
    root = pathlib.Path(directory.name)
    paths = {}
    for name, text in texts.items():
        path = root / (name + '.pyi')
        path.write_text(text)
        paths[tuple(name.split('.'))] = path
    sources._stubs_cache = {**sources._stubs_cache, **paths}
    sources.stubs_stdlib_modules_paths = [
        *sources.stubs_stdlib_modules_paths, *paths
    ]

    def fail(*args, **kwargs):
        raise OSError('nothing is cached')

    caching.load = fail
    caching.save = lambda *args, **kwargs: None
    execution.call_in_process = (
        lambda function, *args, **kwargs: function(*args, **kwargs))
    from paradigm._core import stubs
    directory.cleanup()
    return stubs

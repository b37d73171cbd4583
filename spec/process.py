"""Delegation of calls to child processes."""
import multiprocessing
import multiprocessing.process


def named_main():
    return multiprocessing.current_process().name == 'MainProcess'


def named_main_too():
    return multiprocessing.process.current_process().name == 'MainProcess'


def parentless():
    return multiprocessing.parent_process() is None


def parentless_too():
    return multiprocessing.process.parent_process() is None


def received(result, error):
    if error is None:
        return result
    raise error

"""Entry point of the analysis engine."""
import os

from . import calls, domain, exprs, interp, program, val  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')


def load(root=REPO):
    return interp.Interp(program.load_modules(root))

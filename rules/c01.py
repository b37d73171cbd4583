"""PlainSignature.expects, with everything it calls, is abstractly interpreted
over an arbitrary well-formed parameter list and arbitrary arguments into a
value graph with symbolic path conditions; the result and the exceptions have
to be equivalent to those of the reference definition in spec/models.py."""
from . import models

ASSUMPTIONS = ['parameters of the signature are well-formed (C05, C06)']


def check(ctx):
    models.against_spec(ctx, 'PlainSignature.expects',
                        'the verdict is that of the call rules of Python')

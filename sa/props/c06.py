from .common import *
from .. import serial

def run(root, tier):
    t = analyse(root, tier)
    findings, info = serial.check(root, t)
    return dict(findings=findings, assumptions=ASSUMPTIONS[1:2] + [
        'operations reached only with more than one process need no serial '
            'counterpart'],
        coverage=base_coverage(t, 'Every operation invoked on a communicator '
        '(found by the interprocedural analysis, with the form of each '
        'argument) and every attribute of the MPI module is looked up in the '
        'serial stand-ins; their signature must accept the call and their '
        'body, evaluated abstractly for that form, must do what the operation '
        'means for one process.', **info))

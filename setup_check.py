#!/opt/venv/bin/python
"""Nothing to build: checks that the interpreter, the code under test and the framework can be imported."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get('VERIF_REPO', '/repo')]

from mc import engine, lib, wire  # noqa: E402

pub_cfg = dict(schema='S1', enc='g', opts='ngl', sign='', mps=900, deg=3)
with open(os.devnull, 'w') as null:
    out, sys.stdout = sys.stdout, null
    try:
        pub = lib.publish(pub_cfg, lib.data(2000))
        got = lib.read(pub)
    finally:
        sys.stdout = out
assert got == pub.content
print('ready: %d packets, repository at %s' % (len(pub.wires), engine.REPO))

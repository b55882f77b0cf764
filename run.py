#!/opt/venv/bin/python
"""run.py PID | run.py --replay FILE     (tier from VERIF_TIER, default quick)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONPYCACHEPREFIX'] = os.path.join(HERE, 'no-pycache')  # never read stale bytecode
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
from mc import engine  # noqa: E402


def main(argv):
    if len(argv) >= 2 and argv[0] == '--replay':
        return engine.replay(argv[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return engine.run_property(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

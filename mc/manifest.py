"""Writes MANIFEST.json from properties.jsonl and the modules in mc/props (run by hand after adding a module)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo']


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        pid = json.loads(line)['id']
        if not os.path.exists(os.path.join(HERE, 'mc', 'props', pid.lower() + '.py')):
            na.append(dict(property=pid, reason='check not built yet'))
            continue
        m = importlib.import_module('mc.props.' + pid.lower())
        checks.append(dict(
            property=pid,
            quick_cmd='/opt/venv/bin/python run.py %s quick' % pid,
            thorough_cmd='/opt/venv/bin/python run.py %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=getattr(m, 'TECHNIQUE', 'model checking: exhaustive bounded enumeration of executions of the real code against an independent reference'),
            level=getattr(m, 'LEVEL', 'model_checking'),
            level_note=getattr(m, 'LEVEL_NOTE', 'Every execution within the bound is run on the real code and compared with an independent reference. ') +
            ' Quick bound: ' + (m.BOUND['quick'] if isinstance(m.BOUND, dict) else m.BOUND) + '. Assumes: ' + '; '.join(m.ASSUMPTIONS)))
    out = dict(version=1, setup_cmd='/opt/venv/bin/python setup_check.py', checks=checks, not_applicable=na,
               notes='Fixed defects and known findings: known_findings.txt. Replays: run.py --replay FILE. No hooks in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

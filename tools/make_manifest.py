"""Writes MANIFEST.json from the check modules (run with /opt/venv/bin/python -W ignore)."""
import sys, os, json, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo/src', ROOT]
PY = '/opt/venv/bin/python -W ignore mc/run.py'
from mc import ladder
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding = 'utf-8'):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'mc', 'checks', pid.lower() + '.py')):
        m = importlib.import_module('mc.checks.' + pid.lower())
        checks.append(dict(property = pid, quick_cmd = '%s %s --tier quick' % (PY, pid), thorough_cmd = '%s %s --tier thorough' % (PY, pid),
                           evidence_file = 'evidence/%s.json' % pid, technique = m.TECHNIQUE, level = m.LEVEL, level_note = m.NOTE + ('; all sizes of the ladders: ' + ', '.join(n for n, _, _ in ladder.FAMILIES[pid]) if pid in ladder.FAMILIES else '')))
    else:
        na.append(dict(property = pid, reason = 'check not built yet'))
out = dict(version = 1, setup_cmd = '/opt/venv/bin/python -W ignore -c "import parsimonious, six, sys; print(sys.version)"', checks = checks, not_applicable = na,
           notes = 'No hooks in /repo: the checks import the working tree of /repo (HYPERTAG_REPO overrides the path) and use the public interface only.')
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent = 1)

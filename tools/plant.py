"""make(id, property, file, [(old, new)], needs, breaks, demo): write seeded/<id> from an edit of /repo's HEAD."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository. exit 0: property holds, nonzero: broken
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:$D${PYTHONPATH:+:$PYTHONPATH}"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cd "$T" && timeout 200 "$PY" "$D/demo.py"
'''


def make(id, prop, file, edits, needs, breaks, demo, extra=()):
    files = [file] if isinstance(file, str) else file
    edits = {files[0]: edits} if isinstance(edits, list) else edits
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/w'])
    try:
        for f, es in edits.items():
            p = os.path.join(t, 'w', f)
            s = open(p).read()
            for old, new in es:
                assert s.count(old) == 1, (id, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    for e in extra:
        shutil.copy(e, d)

"""Development aid: write seeded/<id>/ from an edit. usage: from mkbug import bug"""
import json, os, subprocess, tempfile
PRE = 'import sys\nsys.path.insert(0, "/repo/_build/swig/python")\nimport numpy as np\nimport gridpp\n'
def bug(id, prop, edits, demo, needs, breaks, lang='py'):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True); R = '/tmp/scr/clone/'
    subprocess.run('mkdir -p /tmp/scr; [ -d /tmp/scr/clone ] || git clone -q /repo /tmp/scr/clone; git -C /tmp/scr/clone checkout -q -- .', shell=True, check=True)
    for f, a, b in edits:
        s = open(R + f, newline='').read(); crlf = '\r\n' in s
        if crlf: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == 1, (id, f, s.count(a), a); t = s.replace(a, b); open(R + f, 'w', newline='').write(t)
    out = subprocess.run(['git', '-C', R, 'diff'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(out)
    if lang == 'py':
        open(d + '/demo.py', 'w').write(PRE + demo); open(d + '/demo.sh', 'w').write('#!/bin/bash\npython3 "$(dirname "$0")/demo.py"\n')
    else: open(d + '/demo.sh', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

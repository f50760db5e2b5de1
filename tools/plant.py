#!/usr/bin/env python3
"""Development aid: confirm a planted bug (seeded/<id>) in a scratch copy of /repo mounted over /repo in a private
mount namespace: the demonstration passes without the patch; with it the build and the stable tests pass, the
demonstration fails; finally the property's quick check is run. usage: plant.py [--nocheck|--notest] id ..."""
import json, os, subprocess, sys, shutil, time
V = '/verif/seeded'
def sh(cmd, t=1500): return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=t)
def inner(id, opts):
    d = V + '/' + id; meta = json.load(open(d + '/meta.json')); r = {}
    r['demo_clean'] = sh(f'cd /repo && bash {d}/demo.sh').returncode
    a = sh(f'git -C /repo apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
    if '--notest' not in opts:
        a = sh('bash /opt/vp/test.sh /tmp/scr/o.json'); b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/scr/o.json'))
        r['tests_missing'] = sorted(set(b['stable']) - set(o['passed']))[:8]
        if len(o['passed']) == 0: print(a.stdout[-1500:], a.stderr[-1500:])
    else: sh('bash /opt/vp/build.sh')
    x = sh(f'cd /repo && bash {d}/demo.sh'); r['demo_bug'] = x.returncode; r['demo_out'] = (x.stdout + x.stderr)[-200:]
    if '--nocheck' not in opts:
        x = sh('cd /verif && VERIF_NOEVIDENCE=1 python3 run.py ' + meta['property']); r['check'] = x.returncode; r['viol'] = [l[:160] for l in x.stdout.splitlines() if 'VIOLATION' in l or 'tag' in l][:3]; 
    r['GOOD'] = r['demo_clean'] == 0 and r['demo_bug'] != 0 and not r.get('tests_missing'); r['CAUGHT'] = r.get('check') == 1
    print(id, json.dumps(r), flush=True)
if __name__ == '__main__':
    opts = [a for a in sys.argv[1:] if a.startswith('--')]; ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--inner' in opts: inner(ids[0], opts); sys.exit()
    for id in ids:
        # rsync-like refresh so timestamps of unchanged files stay
        subprocess.run('mkdir -p /tmp/scr/repo && rsync -a --delete /repo/ /tmp/scr/repo/ 2>/dev/null || (rm -rf /tmp/scr/repo && cp -a /repo /tmp/scr/repo)', shell=True)
        subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind /tmp/scr/repo /repo && python3 /verif/tools/plant.py --inner {" ".join(opts)} {id}'])

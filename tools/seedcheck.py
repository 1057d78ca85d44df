#!/usr/bin/env python3
"""seedcheck.py [ids]: for each planted bug, in a bind-mounted copy of /repo: build, tests, demo on both trees, the property's check."""
import os, sys, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(R + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def ns(copy, script, to=1000):
    try:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'TIMEOUT', ''


def one(i):
    d = R + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        c = t + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', c])
        dd = t + '/demo'; shutil.copytree(d, dd)
        res = {'id': i, 'prop': prop}
        if '--quick' not in sys.argv: res['clean_demo'] = ns(c, 'bash %s/demo.sh' % dd)[0]
        subprocess.check_call(['git', '-C', c, 'apply', d + '/patch.diff'])
        if '--quick' not in sys.argv:
            rc, out = ns(c, 'bash /opt/vp/test.sh %s/out.json' % t)
            p = json.load(open(t + '/out.json'))
            res['tests'] = 'ok' if stable <= set(p['passed']) else 'BROKEN %s' % sorted(stable - set(p['passed']))[:3]
            if res['tests'] != 'ok': res['log'] = out[-600:]
            res['bug_demo'] = ns(c, 'bash %s/demo.sh' % dd)[0]
        rc, out = ns(c, 'cd %s && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % (R, prop))
        res['check'] = rc
        res['out'] = [l for l in out.split('\n') if l.strip()][-5:]
        bad = res.get('clean_demo') not in (0, None) or res.get('bug_demo') == 0 or res.get('tests', 'ok') != 'ok'
        print(('** INVALID ' if bad else '') + ('caught ' if rc == 1 else 'MISSED ') + i, {k: v for k, v in res.items() if k not in ('out', 'id')})
        for l in res['out']: print('      ', l[:260])
        sys.stdout.flush()
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(2) as ex: list(ex.map(one, ids))

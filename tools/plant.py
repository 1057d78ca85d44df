#!/usr/bin/env python3
"""Helper used while planting bugs: writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} from a description."""
import os, json, subprocess, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property held in the demonstration; non-zero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -g -w %(flags)s -Isrc -Iinclude -I3rd_party/base64/src -I_build/generated -I_build/generated/lightstep-tracer-common -I_build/headers/include -I"$here" "$here/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s -lpthread || exit 9
cd "$t"
timeout %(to)d ./demo
'''


def plant(id, prop, edits, demo, srcs=(), flags="-O1", libs="", needs="", breaks="", to=120, stubs=False):
    d = R + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'], stderr=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = t + '/w/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/w', 'diff']).decode()
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
        shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    if stubs: shutil.copytree(R + "/harness/stubs/opentracing", d + "/opentracing", dirs_exist_ok=True)
    if stubs == 'all': shutil.copytree(R + "/harness/stubs/lightstep", d + "/lightstep", dirs_exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO % dict(flags=flags, srcs=' '.join(srcs), libs=libs, to=to))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

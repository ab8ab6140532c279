"""plant(id, prop, edits, needs, breaks, code): writes /verif/seeded/<id> (patch against /repo's HEAD, demo, meta)"""
import os, subprocess, json, tempfile, shutil
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_prelude.h')).read()
SH = '''#!/bin/bash
# builds demo.cpp against the library built from /repo and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'find "$w" -delete' EXIT
inc=$(find /repo/_build -name Export.h -printf '-I%h/.. ')
g++ -std=gnu++14 -O1 -I/repo/lib/include -I/repo/lib/src -I/repo/_build/lib/include $inc "$here/demo.cpp" -o "$w/demo" \\
	/repo/_build/output/libcuttlefish.a -lfreeimage -lpthread || exit 3
cd "$w" && timeout 120 ./demo
'''


def plant(id, prop, edits, needs, breaks, code, sh=None, files=()):
    d = '/verif/seeded/' + id
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run('git -C /repo archive HEAD lib tool | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (w, w), shell=True, check=True)
    for f, o, n in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    r = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True, check=True)
    shutil.rmtree(w)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(r.stdout)
    if code:
        open(d + '/demo.cpp', 'w').write(PRE + code)
    open(d + '/demo.sh', 'w').write(sh or SH)
    for n, c in files:
        open(d + '/' + n, 'w').write(c)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

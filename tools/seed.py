#!/usr/bin/env python3
# seed.py DEFS.py [id...]: makes /verif/seeded/<id> from definitions and confirms each one in a scratch copy:
# applies, builds, passes the stable tests, demo passes without and fails with the change
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs demo_test.go in package %(pkg)s of the repository in the current directory; its files go to test temp directories
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
over=$(mktemp)
trap 'rm -f -- "$over"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$over"
%(pre)sgo test -count=1 -timeout 280s -overlay "$over" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def make(id, d):
    tmp = tempfile.mkdtemp(prefix='seed-'+id+'-', dir='/tmp')
    log = []
    try:
        repo = tmp + '/repo'
        sh(f'cp -a /repo {repo}')
        out = os.path.join(VER, 'seeded', id)
        os.makedirs(out, exist_ok=True)
        for f, old, new in d['edits']:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: return id, 'NO MATCH '+old
            if s.count(old) > 1 and not d.get('first') : return id, f'{s.count(old)} matches '+old
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh(f'git -C {repo} diff').stdout
        open(out+'/patch.diff', 'w').write(diff)
        if 'script' in d:
            open(out+'/demo.sh', 'w').write(d['script'])
        else:
            open(out+'/demo.sh', 'w').write(DEMO % dict(pkg=d['pkg'], pre=d.get('pre', '')))
        os.chmod(out+'/demo.sh', 0o755)
        if 'test' in d: open(out+'/demo_test.go', 'w').write(d['test'])
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out+'/meta.json', 'w'), indent=1)
        r = sh(f'. /opt/vp/env.sh; cd {repo} && go build ./...')
        if r.returncode: return id, 'BUILD '+r.stdout
        r = sh(f'. /opt/vp/env.sh; cd {repo} && go test -count=1 -run "TestProveAndVerify|TestProveFromSplitPK|TestSetup|TestSetupFromPartedR1CS" ./test')
        if r.returncode: return id, 'TESTS FAIL '+r.stdout[-1500:]
        r = sh(f'bash {out}/demo.sh', cwd=repo)
        if r.returncode == 0: return id, 'DEMO PASSES WITH BUG '+r.stdout[-1500:]
        msg = r.stdout[-300:]
        sh(f'git -C {repo} checkout -- .')
        r = sh(f'bash {out}/demo.sh', cwd=repo)
        if r.returncode: return id, 'DEMO FAILS CLEAN '+r.stdout[-2500:]
        return id, 'ok; with bug: ' + msg.strip().replace('\n', ' | ')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:] or list(ns['SEEDS'])
with cf.ThreadPoolExecutor(3) as ex:
    for id, res in ex.map(lambda i: make(i, ns['SEEDS'][i]), ids):
        print(id, res, flush=True)

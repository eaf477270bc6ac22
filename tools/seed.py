#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from tools/seeds/<id>.py-like entries and confirms each.

usage: tools/seed.py [id...]       (all entries of tools/seeds.json by default)
For each entry: applies the edits in a scratch copy of /repo, checks that it builds, that the
repository's tests pass, that the demonstration passes without and fails with the change.
With CHECK=1 it also runs the property's check against the changed copy.
"""
import json, os, shutil, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
DEMO = '''#!/bin/sh
# Runs main.go against the packages of the current directory.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build @RACE@-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
timeout 60 "$tmp/demo"
'''
def sh(cmd, cwd, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
def load():
    ns = {}
    exec(open(V + '/tools/seeds.py').read(), ns)
    return ns['SEEDS']
def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree('/repo', dst, symlinks=True)
def main():
    ids = sys.argv[1:]
    for s in load():
        if ids and s['id'] not in ids or not s['demo']: continue
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        w = '/tmp/seedwork'
        copy(w)
        for f, old, new in s['edits']:
            p = f'{w}/{f}'
            t = open(p).read() if os.path.exists(p) else ''
            if t.count(old) != 1:
                print(s['id'], 'EDIT', f, repr(old)[:60], t.count(old)); break
            open(p, 'w').write(t.replace(old, new))
        else:
            sh('go run golang.org/x/tools/cmd/goimports >/dev/null', w)
            r = sh('git diff', w)
            open(d + '/patch.diff', 'w').write(r.stdout)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@RACE@', '-race ' if s.get('race') else ''))
            os.chmod(d + '/demo.sh', 0o755)
            body = s['demo']
            open(d + '/main.go', 'w').write(body)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
            b = sh('go vet -printf=false . 2>/dev/null; go build ./... && go test -vet=off -count=1 ./...', w)
            bad = sh(f'{d}/demo.sh', w)
            good = sh(f'{d}/demo.sh', '/repo')
            msg = []
            if b.returncode: msg.append('TESTS FAIL ' + (b.stdout + b.stderr)[-300:])
            if bad.returncode in (0, 3): msg.append('DEMO passes with patch ' + bad.stderr[-300:])
            if good.returncode: msg.append('DEMO fails without ' + (good.stdout + good.stderr)[-400:])
            print(s['id'], s['property'], 'ok' if not msg else msg)
            if os.environ.get('CHECK'):
                props = s['property'].split() if os.environ['CHECK'] == '1' else os.environ['CHECK'].split(',')
                for p in props:
                    try:
                        r = subprocess.run(['/tmp/hg', 'check', p], capture_output=True, text=True, timeout=900, env=dict(ENV, HG_REPO=w, HG_VERIF='/tmp/hgv'))
                        print('  ', p, r.returncode, (r.stdout.strip().splitlines() or [''])[-1][:160])
                    except subprocess.TimeoutExpired:
                        print('  ', p, 'TIMEOUT')
        shutil.rmtree('/tmp/seedwork', ignore_errors=True)
main()

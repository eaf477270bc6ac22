#!/usr/bin/env python3
"""Behaviour-preserving changes on which the checks have to stay quiet.

usage: tools/variants.py [NAME-PREFIX [CHECK...]]     (env HG=binary J=jobs)
Each entry is (name, group, edits); an edit is (file, old, new).
"""
import os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
HG = os.environ.get('HG', V + '/bin/hgverify')
GROUPS = {
 'jamo': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C23'.split(),
 'cp': 'C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23'.split(),
 'hanja': 'C11 C12 C23 C24 C25 C26'.split(),
}
exec(open(V + '/tools/variants_list.py').read())
exec(open(V + '/tools/variants_list2.py').read())
def one(v, checks):
    name, group, edits = v
    w = tempfile.mkdtemp(prefix='variant.', dir='/tmp')
    out = []
    try:
        r = w + '/r'
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in edits:
            p = f'{r}/{f}'
            t = open(p).read() if os.path.exists(p) else ''
            if t.count(old) != 1 and old != '':
                return [f'{name}: EDIT {f} {old[:50]!r} {t.count(old)}']
            open(p, 'w').write(t.replace(old, new) if old else t + new)
        b = subprocess.run('go vet ./... && go test -count=1 ./...', shell=True, cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode:
            out.append(f'{name}: BUILD/TEST ' + (b.stdout + b.stderr)[-300:])
        cs = checks or GROUPS[group]
        for c in cs:
            d = f'{w}/{c}'
            os.makedirs(d)
            e = dict(ENV, HG_REPO=r, HG_VERIF=d)
            try:
                p = subprocess.run([HG, 'check', c], env=e, capture_output=True, text=True, timeout=int(os.environ.get('T', '900')))
            except subprocess.TimeoutExpired:
                out.append(f'{name} {c}: TIMEOUT'); continue
            m = re.search(r'\(([0-9.]+)s\)', p.stdout)
            t = float(m.group(1)) if m else -1
            if p.returncode:
                out.append(f'{name} {c}: ALARM rc={p.returncode} ' + '\n'.join(l[:300] for l in (p.stdout + p.stderr[-500:]).split('\n')[:3]))
            elif t > 120:
                out.append(f'{name} {c}: slow {t}s')
    finally:
        shutil.rmtree(w)
    return out or [f'{name}: quiet']
if __name__ == '__main__':
    if sys.argv[1:2] == ['--make']:
        for n, _, edits in VARIANTS:
            if n == sys.argv[2]:
                r = sys.argv[3]
                shutil.rmtree(r, ignore_errors=True)
                shutil.copytree('/repo', r, symlinks=True)
                for f, old, new in edits:
                    p = f'{r}/{f}'
                    t = open(p).read() if os.path.exists(p) else ''
                    assert not old or t.count(old) == 1, (f, old)
                    open(p, 'w').write(t.replace(old, new) if old else t + new)
        sys.exit()
    pre = sys.argv[1] if len(sys.argv) > 1 else ''
    checks = sys.argv[2:]
    with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
        from concurrent.futures import as_completed
        for f in as_completed([ex.submit(one, v, checks) for v in VARIANTS if v[0].startswith(pre)]):
            res = f.result()
            print('\n'.join(res), flush=True)

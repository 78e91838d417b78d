#!/usr/bin/env python3
"""seed.py NAME...|all [--keep]: make /verif/seeded/NAME/{patch.diff,meta.json} from defs below
in a scratch copy of /repo, then verify build + stable tests + demo on both trees.
Mutants of the private corpus (kind 'own' / 'benign') only get a tree in /tmp/mut."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_defs import DEFS

ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='1')
V = '/verif'

def sh(cmd, cwd, timeout=600):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def make(name, d):
    t = '/tmp/mut/' + name
    if os.path.exists(t): shutil.rmtree(t)
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree('/repo', t)
    tpl0 = open(t + '/skipmap.tpl').read()
    for e in d['edits']:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else None
        s = open(f'{t}/{f}').read()
        c = s.count(old)
        if c == 0 or (n is None and c != 1): raise SystemExit(f'{name}: {f}: {c} matches of {old!r}')
        if n is None or n == 'all': s = s.replace(old, new)
        else:  # n = list of indexes
            parts = s.split(old); out = parts[0]
            for i, p in enumerate(parts[1:]):
                out += (new if i in n else old) + p
            s = out
        open(f'{t}/{f}', 'w').write(s)
    if d.get('generate', True):
        rc, o = sh('go generate .', t)
        if rc: raise SystemExit(f'{name}: generate: {o}')
    if d.get('kind', 'seed') == 'seed' or d.get('gofiles'):  # only source files count in a planted bug's patch: the template stays
        open(t + '/skipmap.tpl', 'w').write(tpl0)
    rc, o = sh('go build ./... && go build -o /dev/null gen.go', t)
    if rc: raise SystemExit(f'{name}: build: {o}')
    return t

def tests(t, runs=1):
    return sh(f"go test -race -vet=off -count={runs} -timeout 10m ./...", t)

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    if args == ['all']: args = list(DEFS)
    for name in args:
        d = DEFS[name]
        t = make(name, d)
        res = []
        if '--notest' not in sys.argv:
            rc, o = tests(t, d.get('runs', 2))
            res.append(f'tests={"ok" if rc == 0 else "FAIL"}')
            if rc: res.append(o[-1500:])
        if d.get('kind', 'seed') == 'seed':
            s = f'{V}/seeded/{name}'
            os.makedirs(s, exist_ok=True)
            _, diff = sh('git diff HEAD', t)
            open(s + '/patch.diff', 'w').write(diff)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(s + '/meta.json', 'w'), indent=1)
            if os.path.exists(s + '/demo.sh') and '--nodemo' not in sys.argv:
                for tree, want in (('/repo', 0), (t, 1)):
                    rc, o = sh(f'bash {s}/demo.sh', tree, 300)
                    ok = (rc == 0) == (want == 0)
                    res.append(f'demo@{tree}={rc}{"" if ok else " WRONG"}')
                    if not ok or '-v' in sys.argv: res.append(o[-1500:])
        print(name, d.get('property', ''), *res, flush=True)
        if d.get('kind', 'seed') == 'seed' and '--keep' not in sys.argv: shutil.rmtree(t)

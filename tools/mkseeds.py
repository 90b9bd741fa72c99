#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in tools/seeds.py.

mkseeds.py            (re)writes the ones whose spec changed or that do not exist
mkseeds.py --verify   confirms each: applies, builds, stable tests, demo 0/!=0,
                      removed lines blamed to the base commit
mkseeds.py --catch    applies each to /repo, runs its property's check, undoes
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS, PRELUDE
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = '7d8a806'
ENV = dict(os.environ, HOME='/root', PATH='/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')

def out(s):
    return os.path.join('/tmp/own' if s.get('own') else OUT, s['id'])

def sh(cmd, cwd='/repo', **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy():
    d = tempfile.mkdtemp(prefix='seed')
    sh(['git', 'clone', '-q', '/repo', d + '/repo'], cwd='/')
    return d

def write(only):
    d = copy()
    r = d + '/repo'
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        sh(['git', 'checkout', '-q', '--', '.'], cwd=r)
        bad = False
        for e in s['edits']:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else None
            p = os.path.join(r, f)
            t = open(p).read()
            c = t.count(old)
            if n is None and c != 1 or c <= (n if isinstance(n, int) else 0):
                print('%s: %r occurs %d times in %s' % (s['id'], old, c, f))
                bad = True
                break
            if n == 'all':
                t = t.replace(old, new)
            else:
                i = -1
                for _ in range((n or 0) + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, 'w').write(t)
        if bad:
            continue
        diff = sh(['git', 'diff'], cwd=r).stdout
        o = out(s)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write('#!/bin/bash\n# ' + s['breaks'].replace('\n', ' ') + '\n' + PRELUDE + s['demo'].strip('\n') + '\nexit 0\n')
        os.chmod(o + '/demo.sh', 0o755)
        for n, t in s.get('files', {}).items():
            open(o + '/' + n, 'w').write(t)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)

def verify(only):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    base = set()
    d = copy()
    r = d + '/repo'
    bad = 0
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        o = out(s)
        sh(['git', 'checkout', '-q', '--', '.'], cwd=r)
        why = []
        x = tempfile.mkdtemp(prefix='demo')
        for f in os.listdir(o):
            if not f.endswith(('.diff', '.json')):
                shutil.copy(o + '/' + f, x)
        a = sh(['bash', x + '/demo.sh'], cwd=r)
        if a.returncode:
            why.append('demo fails on unchanged tree: ' + a.stdout[-600:])
        if sh(['git', 'apply', o + '/patch.diff'], cwd=r).returncode:
            why.append('does not apply')
        if sh(['go', 'build', './...'], cwd=r).returncode:
            why.append('does not build')
        t = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd=r).stdout
        ok = set()
        for l in t.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get('Action') == 'pass' and e.get('Test'):
                ok.add(e['Package'] + '/' + e['Test'])
        if stable - ok:
            why.append('fails tests %s' % sorted(stable - ok)[:3])
        a = sh(['bash', x + '/demo.sh'], cwd=r)
        if a.returncode == 0:
            why.append('demo passes with the patch')
        shutil.rmtree(x)
        # blame of removed lines
        nbase = 0
        cur = None
        for l in open(o + '/patch.diff'):
            m = re.match(r'--- a/(.*)', l)
            if m:
                cur = m.group(1).strip(); continue
            m = re.match(r'@@ -(\d+)', l)
            if m:
                ln = int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'):
                b = sh(['git', 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], cwd=r).stdout
                if b.lstrip('^').startswith(BASE):
                    nbase += 1
                else:
                    why.append('not an original line: ' + l.strip())
                ln += 1
            elif l.startswith(' '):
                ln += 1
        if not nbase:
            why.append('changes no original line')
        print(s['id'], 'ok' if not why else 'BAD ' + '; '.join(why), flush=True)
        bad += bool(why)
    shutil.rmtree(d)
    return bad

def catch(only):
    """Runs the property's check on a copy of /repo with each patch; what
    caught it goes to caught.json."""
    d = copy()
    r, verif = d + '/repo', os.path.dirname(HERE)
    rec = os.path.join(HERE, 'caught.json')
    known = json.load(open(rec)) if os.path.exists(rec) else {}
    for s in SEEDS:
        if only and s['id'] not in only:
            continue
        o = out(s)
        sh(['git', 'checkout', '-q', '--', '.'], cwd=r)
        if sh(['git', 'apply', o + '/patch.diff'], cwd=r).returncode:
            print(s['id'], 'does not apply'); continue
        a = sh([verif + '/bin/vpengine', '-repo', r, '-verif', verif, '-prop', s['prop'], '-tier', 'quick'], cwd=verif)
        v = [l for l in a.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = a.returncode == 1 and v
        known[s['id']] = ''
        if ok:
            known[s['id']] = json.load(open(v[0].split('replay=')[1].strip()))['harness'].replace('vpH_', '')
        print(s['id'], s['prop'], 'CAUGHT ' + known[s['id']] if ok else 'missed exit %d' % a.returncode, flush=True)
        if a.returncode not in (0, 1):
            print(a.stdout[-1500:])
        json.dump(known, open(rec, 'w'), indent=0, sort_keys=True)
    shutil.rmtree(d)

if __name__ == '__main__':
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--verify' in sys.argv:
        sys.exit(1 if verify(only) else 0)
    elif '--catch' in sys.argv:
        catch(only)
    else:
        write(only)

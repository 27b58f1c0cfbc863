#!/usr/bin/env python3
"""Plant, confirm and try bugs.

  seed.py plant SPEC.py [ID ...]   build /verif/seeded/<ID>/ from a spec file (BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)])
                                   and confirm each: applies, 216 tests pass, demo 0 without / nonzero with it
  seed.py try [ID ...]             run the property's quick check against each planted bug (in a scratch copy), print caught / MISSED
Everything happens in scratch copies under /tmp which are removed.
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: property holds, nonzero: broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        self.r = os.path.join(self.d, 'repo')
        shutil.copytree('/repo', self.r, symlinks=True)
        return self.r

    def __exit__(self, *a):
        assert self.d.startswith('/tmp/seed-')
        shutil.rmtree(self.d)


def tests(r):
    p = sh([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r,
           env={**os.environ, 'PYTHONHASHSEED': '0', 'PYTHONPATH': r})
    return p.returncode == 0, p.stdout[-1500:]


def demo(r, d):
    t = tempfile.mkdtemp(prefix='seeddemo-', dir='/tmp')
    try:
        for f in os.listdir(d):
            if f not in ('meta.json', 'patch.diff'):
                shutil.copy(os.path.join(d, f), t)
        return sh(['bash', os.path.join(t, 'demo.sh')], cwd=r, timeout=300)
    finally:
        shutil.rmtree(t)


def original_lines(patch, r):
    """every line the patch removes belongs to the original commit"""
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo').stdout.split()[0]
    bad, seen, fn, ln = [], 0, None, 0
    blame = {}
    for l in open(patch):
        if l.startswith('--- a/'):
            fn = l[6:].strip()
            out = sh(['git', 'blame', '-s', '-l', '--root', fn], cwd='/repo').stdout.splitlines()
            blame[fn] = [x.split()[0] for x in out]
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif fn and l.startswith('-') and not l.startswith('---'):
            seen += 1
            if not blame[fn][ln - 1].startswith(base[:20]):
                bad.append((fn, ln))
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return seen, bad


def plant(spec, ids):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    for b in ns['BUGS']:
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(S, b['id'])
        with Scratch() as r:
            ok = True
            for fn, old, new in b['edits']:
                p = os.path.join(r, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print(b['id'], 'EDIT matches', t.count(old), 'times:', old[:60])
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            diff = sh(['git', 'diff'], cwd=r).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            seen, bad = original_lines(os.path.join(d, 'patch.diff'), r)
            tok, out = tests(r)
            d1 = demo(r, d)
            d0 = demo('/repo', d)
            good = tok and d1.returncode != 0 and d0.returncode == 0 and seen and not bad
            print(b['id'], 'OK' if good else 'BAD', '' if tok else 'TESTS FAIL\n' + out, '' if d1.returncode else 'demo passes with bug',
                  '' if d0.returncode == 0 else 'demo fails on unchanged tree\n' + d0.stdout[-1200:], '' if seen else 'no original line changed',
                  f'lines of mine {bad}' if bad else '', '| ' + (d1.stdout.strip().splitlines() or [''])[-1][:140] if good else '', flush=True)
            if not good:
                shutil.rmtree(d)


def trial(ids):
    res = {}
    for i in sorted(os.listdir(S)):
        if ids and not any(i == x or i.startswith(x) for x in ids):
            continue
        d = os.path.join(S, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        with Scratch() as r:
            p = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r)
            if p.returncode:
                print(i, 'does not apply', p.stdout)
                continue
            t = time.time()
            p = sh([sys.executable, 'check.py', prop], cwd=V,
                   env={**os.environ, 'DST_REPO': r, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'DST_SHRINK': os.environ.get('DST_SHRINK', '5')})
            caught = p.returncode == 1 and f'VIOLATION property={prop} ' in p.stdout
            res[i] = caught
            cf = os.path.join(V, 'tools', 'caught.json')
            known = json.load(open(cf)) if os.path.exists(cf) else {}
            known[i] = f'yes ({time.time() - t:.0f} s)' if caught else 'NO'
            json.dump(known, open(cf, 'w'), indent=0, sort_keys=True)
            first = [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
            print(f'{i:34} {"caught" if caught else "MISSED rc=%d" % p.returncode} {time.time() - t:.0f}s', (first or p.stdout.splitlines()[-1:] or [''])[0][:160], flush=True)
    print(sum(res.values()), 'of', len(res), 'caught; missed:', [k for k in res if not res[k]])


if __name__ == '__main__':
    if sys.argv[1] == 'plant':
        plant(sys.argv[2], sys.argv[3:])
    else:
        trial(sys.argv[2:])

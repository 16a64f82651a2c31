#!/usr/bin/env python3
"""Build / verify a planted bug.
  seed.py make NAME SPEC.py      SPEC defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)
  seed.py verify [NAME...]       apply in a scratch copy: build, stable tests, demo both ways, checks
"""
import json, os, subprocess, sys, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: broken. Uses the translated tree that build.sh makes.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
PYTHONPATH="${TRACER_TREE:-/opt/vp/py3/tree}" exec /opt/venvpp/bin/python "$here/demo.py"
'''
def make(name, spec):
    d = runpy.run_path(spec)
    dst = os.path.join(S, name)
    os.makedirs(dst, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['cp', '-a', '/repo', tmp + '/r'])
    for f, o, n in d['EDITS']:
        p = os.path.join(tmp, 'r', f); t = open(p).read()
        if t.count(o) != 1: sys.exit('%s: %d matches of %r' % (f, t.count(o), o))
        open(p, 'w').write(t.replace(o, n))
    diff = subprocess.run(['git', '-C', tmp + '/r', 'diff'], stdout=subprocess.PIPE, check=True).stdout
    open(dst + '/patch.diff', 'wb').write(diff)
    open(dst + '/demo.sh', 'w').write(SH); os.chmod(dst + '/demo.sh', 0o755)
    open(dst + '/demo.py', 'w').write(d['DEMO'].lstrip('\n'))
    json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(dst + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)

def verify(name):
    out = []
    tmp = tempfile.mkdtemp(prefix='seedv')
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/r'])
        meta = json.load(open('%s/%s/meta.json' % (S, name)))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
        def tr(): subprocess.run(['/usr/bin/python3', '/opt/vp/py3/translate.py', tmp + '/r', tmp + '/t'], cwd='/opt/vp/py3', stdout=subprocess.DEVNULL, check=True)
        def demo():
            return subprocess.run(['bash', '%s/%s/demo.sh' % (S, name)], cwd=tmp + '/r', env=dict(env, TRACER_TREE=tmp + '/t'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        tr(); r0 = demo()
        subprocess.check_call(['git', '-C', tmp + '/r', 'apply', '%s/%s/patch.diff' % (S, name)])
        tr(); r1 = demo()
        subprocess.run(['/opt/venvpp/bin/python', '-m', 'pytest', '-p', 'seed_random', '-q', '-p', 'no:cacheprovider', '-c', '/dev/null', '--rootdir=' + tmp + '/t', '--timeout=300', '--continue-on-collection-errors', '--ignore=tests/test_assembly_tree.py', '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml', 'tests'], cwd=tmp + '/t', env=dict(env, PYTHONPATH=tmp + '/t:/opt/vp/py3/plugin'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/j.xml'], stdout=subprocess.DEVNULL)
        got = json.load(open(tmp + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = got.get('passed') or got.get('stable') or []
        lost = sorted(set(base) - set(passed))
        ok = r0.returncode == 0 and r1.returncode != 0 and not lost
        out.append('%s %s: demo clean %d, patched %d, lost %s' % ('OK ' if ok else 'BAD', name, r0.returncode, r1.returncode, lost))
        if r0.returncode: out.append(r0.stdout.decode()[-800:])
        elif not r1.returncode: out.append(r1.stdout.decode()[-300:])
        else: out.append('    ' + (r1.stdout.decode().strip().splitlines() or [''])[-1][:200])
        props = [meta['property']]
        if os.environ.get('ALL'):
            props = sorted(f[:3].upper() for f in os.listdir('/verif/sa/props') if f.startswith('c'))
        for p in props:
            if not os.path.exists('/verif/sa/props/%s.py' % p.lower()): out.append('    %s no check' % p); continue
            r = subprocess.run(['python3', '/verif/check.py', p, 'quick'], cwd='/verif', env=dict(os.environ, VERIF_REPO=tmp + '/r', VERIF_EVID=tmp + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            tx = r.stdout.decode()
            if p == meta['property'] or r.returncode: out.append('    %s exit %d %s' % (p, r.returncode, 'CAUGHT' if 'VIOLATION property=' + p in tx else 'missed'))
    except Exception as e:
        out.append('BAD %s %r' % (name, e))
    finally:
        shutil.rmtree(tmp)
    return '\n'.join(out)
if sys.argv[1] == 'make':
    make(sys.argv[2], sys.argv[3]); print(verify(sys.argv[2]))
else:
    names = sys.argv[2:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(verify, names): print(r, flush=True)

"""refac.py [NAME...]: apply each behaviour-preserving edit to a copy, run the stable tests, then all checks; report alarms and lost decisions"""
import sys, os, shutil, subprocess, tempfile, json, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MOD = os.environ.get('CORPUS', 'refacs')
R = __import__(MOD).R
only = [a for a in sys.argv[1:]]
props = os.environ.get('PROPS', '').split() or ['C%02d' % i for i in range(1, 29) if os.path.exists('/verif/sa/props/c%02d.py' % i)]
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def prep(name, edits):
    d = tempfile.mkdtemp(prefix='refac_')
    subprocess.check_call(['cp', '-a', '/repo', d + '/r'])
    for f, o, n in edits:
        p = d + '/r/' + f; s = open(p).read()
        if s.count(o) != 1: shutil.rmtree(d); return None, '%d matches of %r' % (s.count(o), o[:60])
        open(p, 'w').write(s.replace(o, n))
    subprocess.run(['/usr/bin/python3', '/opt/vp/py3/translate.py', d + '/r', d + '/t'], cwd='/opt/vp/py3', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/opt/venvpp/bin/python', '-m', 'pytest', '-p', 'seed_random', '-q', '-p', 'no:cacheprovider', '-c', '/dev/null', '--rootdir=' + d + '/t', '--timeout=300', '--continue-on-collection-errors', '--ignore=tests/test_assembly_tree.py', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml', 'tests'], cwd=d + '/t', env=dict(env, PYTHONPATH=d + '/t:/opt/vp/py3/plugin'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'], stdout=subprocess.DEVNULL)
    got = json.load(open(d + '/o.json'))
    lost = sorted(set(base) - set(got.get('passed') or []))
    return d, lost
def check(d, p):
    e = dict(os.environ, VERIF_REPO=d + '/r', VERIF_EVID=d + '/ev' + p)
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py'), p], env=e, capture_output=True, text=True)
    return r.returncode, r.stdout
todo = [x for x in R if not only or x[0] in only]
with ThreadPoolExecutor(8) as ex:
    ds = list(ex.map(lambda x: prep(*x[:2]), todo))
    jobs = {}
    for x, (d, lost) in zip(todo, ds):
        if d is None: print('BAD EDIT', x[0], lost); continue
        if lost: print('TESTS LOST', x[0], lost[:3])
        ps = props
        if len(x) > 2: ps = [x[2]] if not os.environ.get('ALL') else props
        for p in ps: jobs[x[0], p] = ex.submit(check, d, p)
    for x, (d, lost) in zip(todo, ds):
        if d is None: continue
        bad = []; und = []; caught = []
        for (nm, p), j in jobs.items():
            if nm != x[0]: continue
            rc, out = j.result()
            m = re.search(r'(\d+) undecided', out)
            if rc == 1: (caught if len(x) > 2 else bad).append(p + (': ' + ' | '.join(l for l in out.splitlines() if l.strip())[:300] if len(x) < 3 or os.environ.get('V') else ''))
            elif rc != 0: bad.append('%s rc=%d' % (p, rc))
            if m and int(m.group(1)): und.append('%s:%s' % (p, m.group(1)))
        if len(x) > 2: print('%-22s %s %s%s' % (x[0], x[2], 'caught ' + ' '.join(caught) if caught else 'MISSED', ' und ' + ' '.join(und) if und else ''))
        else: print('%-22s %s%s' % (x[0], 'ok' if not bad else 'ALARM', ' und ' + ' '.join(und) if und else ''))
        for b in bad: print('      ', b)
        sys.stdout.flush()
        shutil.rmtree(d)

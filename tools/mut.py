"""mut.py [PROP ...]: run the textual variants of tools/mutants.py against the checks, 8 at a time.
V: the check must report a violation; Q: must stay quiet (behaviour is the same)."""
import sys, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from mutants import M
def one(k):
    props, f, edits, want = k
    d = tempfile.mkdtemp(prefix='sa_mut_')
    try:
        shutil.copytree('/repo/tracer', d + '/tracer', ignore=shutil.ignore_patterns('*.pyc', '__pycache__'))
        if isinstance(edits[0], str): edits = [edits]
        for e in edits:
            p = d + '/tracer/' + (e[2] if len(e) > 2 else f)
            s = open(p).read()
            if e[0] not in s: return [(k, 'PATTERN NOT FOUND', '')]
            open(p, 'w').write(s.replace(e[0], e[1], 1))
        out = []
        for q in props.split(','):
            t = time.time()
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + '/ev')
            r = subprocess.run([sys.executable, here + '/../check.py', q], env=env, capture_output=True, text=True)
            got = {0: 'Q', 1: 'V'}.get(r.returncode, 'E')
            lines = r.stdout.strip().splitlines()
            out.append((k, ('ok  ' if got == want else 'FAIL') + ' %s want %s got %s %.1fs' % (q, want, got, time.time() - t), lines))
        return out
    finally: shutil.rmtree(d)
sel = sys.argv[1:]
todo = [k for k in M if not sel or any(p in sel for p in k[0].split(','))]
bad = 0
with ThreadPoolExecutor(8) as ex:
    for res in ex.map(one, todo):
        for k, st, lines in res:
            if st.startswith('ok') and not os.environ.get('V'): continue
            bad += not st.startswith('ok')
            e = k[2] if isinstance(k[2][0], str) else k[2][0]
            print(st, k[1], '|', e[0].strip()[:50].replace('\n', '~'), '=>', e[1].strip()[:70].replace('\n', '~'))
            for l in lines[:int(os.environ.get('N', 3))]: print('      ', l[:int(os.environ.get('W', 240))])
print(len(todo), 'variants,', bad, 'not as expected')

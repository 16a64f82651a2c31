"""try.py PROP[,PROP] FILE 'old' 'new': run checks against a copy of /repo/tracer with one textual change"""
import sys, os, shutil, subprocess, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='sa_try_')
shutil.copytree('/repo/tracer', d + '/tracer', ignore=shutil.ignore_patterns('*.pyc', '__pycache__'))
p = d + '/tracer/' + f
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
assert old in s, 'pattern not found'
open(p, 'w').write(s.replace(old, new, 1))
for q in props.split(','):
    e = dict(os.environ, VERIF_REPO=d, VERIF_EVID='/tmp/sa_try_ev')
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'check.py'), q], env=e, capture_output=True, text=True)
    print(q, 'rc=%d' % r.returncode, '\n   '.join(r.stdout.strip().splitlines()[:int(os.environ.get('N', 4))]), r.stderr[-500:])
shutil.rmtree(d)

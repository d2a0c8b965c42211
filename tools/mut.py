"""mut.py 'PIDS' file old new : run checks on a scratch copy with one textual replacement"""
import sys, shutil, subprocess, tempfile, os
pids, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    for x in ('jax_fem', 'applications'):
        if os.path.isdir('/repo/' + x):
            shutil.copytree('/repo/' + x, d + '/' + x, ignore=shutil.ignore_patterns('*.msh','*.vtu','*.png','*.gif','data','*.pdf','*.inp'))
    p = d + '/' + f
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'not found'
    n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    i = -1
    for _ in range(n + 1):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    compile(s, p, 'exec')
    open(p, 'w').write(s)
    for pid in pids.split(','):
        r = subprocess.run(['python3', '/verif/check.py', pid, '--repo', d], capture_output=True, text=True)
        print(pid, 'rc', r.returncode, '\n'.join(r.stdout.splitlines()[-(6 if len(sys.argv) <= 6 else 30):])[:1800], r.stderr[-500:])
finally:
    shutil.rmtree(d)

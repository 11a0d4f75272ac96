"""Development tool: makes /verif/seeded/<name> from a specification.

usage: plant.py SPEC.py   where SPEC.py sets BUGS = [dict(name, property,
file, old, new, needs, what, demo), ...]; old/new may be lists of pairs in
`edits`.  Works on a scratch copy of /repo under /tmp, checks that the demo
passes before and fails after, and that the stable tests still pass when
--tests is given.
"""
import json, os, shutil, subprocess, sys, textwrap
spec = {}
exec(open(sys.argv[1]).read(), spec)
W = '/tmp/plant'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
for b in spec['BUGS']:
    d = '/verif/seeded/' + b['name']
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(textwrap.dedent(b['demo']).lstrip())
    pyx = any(f.endswith(('pyx', 'pxi')) for f, _, _ in edits)
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python -B '
        '-W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=W, env=env,
                        capture_output=True, text=True)
    for f, old, new in edits:
        p = os.path.join(W, 'src/pydsm', f)
        s = open(p).read()
        assert s.count(old) == 1, (b['name'], f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', W, 'diff', '--no-color'],
                                   text=True)
    open(d + '/patch.diff', 'w').write(diff)
    if pyx:
        subprocess.run('cd %s && /opt/venv/bin/python setup.py -q build_ext '
                       '--inplace >/tmp/plant.log 2>&1' % W, shell=True)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=W, env=env,
                        capture_output=True, text=True)
    json.dump({'property': b['property'], 'needs': b['needs'],
               'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'),
              indent=1)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(b['name'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode,
          '' if r0.returncode == 0 else r0.stderr[-400:],
          r1.stderr.strip().split('\n')[-1][:100])
    if '--tests' in sys.argv:
        t = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '-n', '6', '--doctest-modules',
             '--benchmark-disable', 'src'], cwd=W,
            env=dict(env, PYTHONPATH=W + '/src'), capture_output=True,
            text=True)
        print('   tests:', t.stdout.strip().split('\n')[-1])
shutil.rmtree(W)

#!/usr/bin/env python3
"""Make a planted change: seed.py SPEC.py  -- SPEC defines id, prop, file, old, new (or edits=[(file, old, new)]), needs, breaks, demo (python source).
Writes seeded/<id>/, then runs the demonstration on the unchanged and the changed tree and the property's check on the changed tree (scratch copies)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sid = ns['id']
d = os.path.join(V, 'seeded', sid)
w = tempfile.mkdtemp(prefix='seed')
try:
    r = os.path.join(w, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '--no-hardlinks', '/repo', r])
    base = {}
    for f, old, new in ns.get('edits') or [(ns['file'], ns['old'], ns['new'])]:
        p = os.path.join(r, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, 'occurrences', t.count(old))
        open(p, 'w').write(t.replace(old, new))
        b = subprocess.run(['git', '-C', r, 'show', '6132d8d:' + f], capture_output=True, text=True).stdout
        o = [l for l in t.replace(old, new).split('\n')]
    diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
    for l in diff.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in b.split('\n') and len(ns.get('edits') or [1]) == 1:
            print('WARNING: not an original line:', l)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    stub = '''import sys, types
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
try:
    import assimulo.problem
except ImportError:
    for n in ['assimulo', 'assimulo.problem', 'assimulo.solvers']:
        sys.modules[n] = types.ModuleType(n)
    sys.modules['assimulo.problem'].Explicit_Problem = object
    sys.modules['assimulo.problem'].Implicit_Problem = object
    sys.modules['assimulo.solvers'].CVode = object
    sys.modules['assimulo.solvers'].IDA = object
'''
    body = (stub.replace('%r', 'sys.argv[1]') + ns['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.py'), 'w').write(body)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" "$PWD"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print(sid, 'unchanged', a.returncode, (a.stderr[-600:] if a.returncode else ''), '| patched', b.returncode, b.stderr.strip().split('\n')[-1][:150])
    c = subprocess.run(['python3', V + '/check.py', ns['prop']], cwd=V, capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': r})
    print('   check', ns['prop'], c.returncode, '\n      '.join(x[:240] for x in c.stdout.strip().split('\n')[:3]))
finally:
    shutil.rmtree(w)

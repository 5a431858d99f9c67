#!/usr/bin/env python3
"""seed.py validate ID...: applies seeded/ID/patch.diff in a scratch copy of /repo, builds, runs the stable tests and the demo on the
clean and the patched copy.   seed.py check ID [Cxx]: runs the check of the bug's property on the patched copy.
seed.py new ID PROPERTY FILE: reads 'old' and 'new' text from stdin separated by a line '=====' and several edits by '#####'."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1')


def copy(tag):
    d = '/tmp/seed_%s_%d' % (tag, os.getpid())
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    a = subprocess.Popen(['git', '-C', '/repo', 'archive', 'HEAD'], stdout=subprocess.PIPE)
    subprocess.check_call(['tar', 'x', '-C', d], stdin=a.stdout)
    return d


def apply(i, d):
    subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + d, os.path.join(V, 'seeded', i, 'patch.diff')], cwd='/')


def tests(d):
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    fs = sorted({'tests/%s.py' % w.split('::')[0].split('.')[1] for w in want})
    bad = []
    ps = []
    for f in fs:
        x = os.path.join(d, os.path.basename(f) + '.xml')
        ps.append((x, subprocess.Popen(['timeout', '400', '/opt/venv/bin/python', '-m', 'pytest', f, '-q', '-p', 'no:cacheprovider', '--timeout=300',
                   '-p', 'no:xdist', '--randomly-seed=0', '--randomly-dont-reorganize', '-o', 'junit_family=xunit2', '--junitxml=' + x],
                   cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    ok = set()
    import xml.etree.ElementTree as E
    for x, p in ps:
        p.wait()
        try:
            for c in E.parse(x).getroot().iter('testcase'):
                if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
                    ok.add(c.get('classname') + '::' + c.get('name'))
        except Exception as e:
            print(x, e)
    return [w for w in want if w not in ok]


def demo(i, d):
    e = '/tmp/seeddemo_%s_%d' % (i, os.getpid())
    shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'seeded', i), e, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    # the demo runs with cwd /repo; in the scratch copy the import path is the cwd
    try:
        r = subprocess.run(['bash', e + '/demo.sh'], cwd=d, env=os.environ, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
    finally:
        shutil.rmtree(e)
    return r.returncode, r.stdout.decode()[-400:]


def validate(i, full=True):
    d = copy(i)
    try:
        a = demo(i, d)
        apply(i, d)
        b = demo(i, d)
        t = tests(d) if full else []
    finally:
        shutil.rmtree(d)
    print('%s: clean demo %s, patched demo %s, failing tests %s' % (i, a[0], b[0], t))
    if a[0] or not b[0]:
        print(a[1], '\n---\n', b[1])
    return a[0] == 0 and b[0] != 0 and not t


def check(i, cs=None):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    d = copy(i)
    try:
        apply(i, d)
        for c in cs or [m['property']]:
            r = subprocess.run(['python3', 'run.py', c], cwd=V, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            ls = [l for l in out.split('\n') if not l.startswith('KNOWN')]
            print('%s %s: rc %d' % (i, c, r.returncode), '|', ' '.join(ls)[:330])
    finally:
        shutil.rmtree(d)


def new(i, prop, edits, needs, breaks, demo_py):
    """edits: [(file, old, new)]"""
    d = copy(i)
    s = os.path.join(V, 'seeded', i)
    os.makedirs(s, exist_ok=True)
    try:
        subprocess.check_call('git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm a', shell=True, cwd=d)
        for f, old, nw in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, nw))
        diff = subprocess.check_output(['git', 'diff'], cwd=d)
        open(os.path.join(s, 'patch.diff'), 'wb').write(diff)
    finally:
        shutil.rmtree(d)
    open(os.path.join(s, 'demo.py'), 'w').write(demo_py)
    open(os.path.join(s, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" </dev/null\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(s, 'meta.json'), 'w'), indent=1)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'validate':
        for i in ids:
            validate(i)
    elif cmd == 'quickdemo':
        for i in ids:
            validate(i, False)
    elif cmd == 'check':
        for i in ids:
            check(i)
    elif cmd == 'all':
        for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
            check(i)

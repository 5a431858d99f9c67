"""Runs the obligations of one property in worker processes and turns them into verdict, report and evidence."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Job:
    """name: the obligation; fn(*args) -> Outcome; limit: seconds; weight: scheduling hint (heavier first)"""

    def __init__(self, name, fn, *args, limit=240, weight=1, fallback=None, kinds=None):
        self.name, self.fn, self.args, self.limit, self.weight = name, fn, args, limit, weight
        self.fallback = fallback
        self.kinds = kinds


class Outcome:
    """status: proved | bounded | undecided | violated"""

    def __init__(self):
        self.findings = []      # (rule, construct, message, where)
        self.undecided = []
        self.funcs = set()
        self.paths = 0
        self.sites = 0
        self.bounded = None
        self.notes = []
        self.anchor = None

    def find(self, rule, construct, msg, where=''):
        self.findings.append((rule, construct, msg, where))

    def merge(self, o):
        self.findings += o.findings
        self.undecided += o.undecided
        self.funcs |= o.funcs
        self.paths += o.paths
        self.sites += o.sites
        self.bounded = self.bounded or o.bounded
        self.notes += o.notes
        self.anchor = self.anchor or o.anchor

    @property
    def status(self):
        if self.findings:
            return 'violated'
        if self.undecided:
            return 'undecided'
        return 'bounded' if self.bounded else 'proved'


def _work(conn, job):
    try:
        sys.setrecursionlimit(20000)
        o = job.fn(*job.args)
    except BaseException as e:
        o = Outcome()
        if type(e).__name__ == 'AnchorMissing':
            o.anchor = str(e)
        o.undecided.append('analyser: %s: %s' % (type(e).__name__, e))
        if os.environ.get('SA_TRACE'):
            traceback.print_exc()
    try:
        conn.send(o)
    finally:
        conn.close()


def run_jobs(jobs, workers=None, budget=None):
    workers = workers or int(os.environ.get('SA_WORKERS', os.cpu_count() or 4))
    t0 = time.time()
    res = {}
    todo = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    running = {}
    import threading
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(b, jobs[i]))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        import multiprocessing.connection as mc
        mc.wait([c for _, c, _ in running.values()], timeout=1.0)
        for i in list(running):
            p, c, ts = running[i]
            if c.poll():
                try:
                    res[i] = c.recv()
                except EOFError:
                    o = Outcome()
                    o.undecided.append('analyser process died')
                    res[i] = o
                p.join()
                c.close()
                del running[i]
            elif time.time() - ts > jobs[i].limit or (budget and time.time() - t0 > budget):
                p.kill()
                p.join()
                c.close()
                o = Outcome()
                o.undecided.append('time limit of %ds' % jobs[i].limit)
                res[i] = o
                del running[i]
    return [res[i] for i in range(len(jobs))]


def known():
    """(property, rule, construct, what) -> description of the entries that suppress"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                head, _, desc = l[6:].partition(' -- ')
                d = {}
                for part in head.strip().split(' ;; '):
                    k, _, v = part.partition('=')
                    d[k.strip()] = v.strip()
                out[(d['property'], d['rule'], d['construct'], d['what'])] = desc
    return out


def main(cid, tier, spec):
    t0 = time.time()
    jobs = spec['jobs'](tier)
    outs = run_jobs(jobs, budget=800 if tier == 'quick' else 6 * 3600)
    kn = known()
    viol, kfound = [], []
    funcs = set()
    counts = {'proved': 0, 'bounded': 0, 'undecided': 0, 'violated': 0}
    rows = []
    paths = sites = 0
    seen = set()
    anchors = []
    for j, o in zip(jobs, outs):
        fs = []
        for f in o.findings:
            k = (cid, f[0], f[1], f[2])
            if k in kn:
                kfound.append((k, f))
            else:
                fs.append(f)
                if (f[0], f[1], f[2]) not in seen:
                    seen.add((f[0], f[1], f[2]))
                    viol.append((j.name, f))
        st = o.status
        if o.findings and not fs:
            st = 'violated (known)'
            counts['violated'] += 1
        else:
            counts[st] += 1
        funcs |= o.funcs
        paths += o.paths
        sites += o.sites
        if o.anchor:
            anchors.append('%s: %s' % (j.name, o.anchor))
        rows.append({'obligation': j.name, 'status': st, 'paths': o.paths, 'sites': o.sites,
                     'findings': [dict(rule=f[0], construct=f[1], what=f[2], where=f[3]) for f in fs],
                     'undecided': o.undecided, 'bounded': o.bounded, 'notes': o.notes})
    wall = time.time() - t0
    print('%s: %d obligations: %d proved, %d proved for bounded sizes only, %d undecided, %d violated; %d abstract paths, '
          '%d sites, %d functions analysed, %.1fs' % (cid, len(jobs), counts['proved'], counts['bounded'],
                                                      counts['undecided'], counts['violated'], paths, sites, len(funcs), wall))
    und = {}
    for r in rows:
        for u in r['undecided']:
            und.setdefault(u, []).append(r['obligation'])
    for u, ns in list(und.items())[:8]:
        print('  undecided: %s%s: %s' % (ns[0], ' and %d more' % (len(ns) - 1) if len(ns) > 1 else '', u[:300]))
    for k, f in {k: f for k, f in kfound}.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (cid, f[1], f[2]))
    ev = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {'obligations': len(jobs), 'discharged': counts['proved'] + counts['bounded'],
           'checker_cmd': 'python3 run.py %s%s' % (cid, ' --thorough' if tier == 'thorough' else ''),
           'trusted_base': spec.get('trusted', TRUSTED), 'rule': spec['rule'],
           'explanation': spec['explain'],
           'obligations_proved_for_all_sizes': counts['proved'], 'obligations_proved_for_bounded_sizes': counts['bounded'],
           'obligations_undecided': counts['undecided'], 'obligations_violated': counts['violated'],
           'abstract_paths': paths, 'sites': sites, 'functions_analysed': sorted(funcs), 'detail': rows,
           'samples': [r['obligation'] for r in rows[:5]]}
    e = {'property': cid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec['level'],
         'coverage': cov, 'wall_s': round(wall, 2), 'assumptions': spec.get('assume', []), 'violations': len(viol)}
    json.dump(e, open(os.path.join(ev, cid + '.json'), 'w'), indent=1, default=str)
    if viol:
        rp = os.path.join(ev, cid + '.violations.txt')
        with open(rp, 'w') as fh:
            for n, f in viol:
                t = '%s\n  obligation: %s\n  rule: %s\n  construct: %s\n  what: %s\n' % (f[3] or f[1], n, f[0], f[1], f[2])
                fh.write(t)
        for n, f in viol[:8]:
            print('  %s [%s] %s: %s (%s)' % (n, f[0], f[1], f[2], f[3]))
        print('VIOLATION property=%s replay=%s' % (cid, rp))
        return 1
    if anchors and counts['proved'] + counts['bounded'] == 0 or not jobs:
        print('analysis broken: ' + '; '.join(anchors))
        return 2
    if counts['proved'] + counts['bounded'] == 0 and not kfound:
        print('analysis broken: no obligation could be decided')
        return 2
    return 0


TRUSTED = ['abstract interpreter /verif/sa (abstract semantics of the Python subset used by the package)',
           'models of numpy and numba calls in sa/nplib.py', 'CPython ast parser',
           'specification tables in sa/models.py and sa/checks']

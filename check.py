#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      run a property's check
check.py --replay <file>                   run one recorded case again
check.py --setup                           build everything once

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: the check could not be made."""
import json, multiprocessing as mp, os, re, shutil, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from mon import cases, checks, directed, memcheck, run, stress, unit

EVID = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
PROPS = ['C%02d' % i for i in range(1, 32)]
FLAGS = {'C14': ('OPERAND',), 'C23': ('OPERAND',), 'C24': ('OPERAND',), 'C25': ('OPERAND', 'LEAK')}


def known_findings(prop):
    """{case hash: description} of the open findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = 400 if tier == 'quick' else checks.THOROUGH_BUDGET
        self.known = known_findings(prop)
        self.known_seen = {}
        self.viol = []
        self.nviol = 0
        self.cov = {'evaluations': 0, 'rule': checks.RULES[prop], 'samples': []}
        self.hashes = set()
        self.tags, self.kinds, self.byvar = {}, {}, {}
        self.num = {'fields': 0, 'unanswered': 0, 'inconclusive': 0, 'allocations_checked': 0, 'comparisons_of_two_executions': 0, 'comparisons_over_every_length': 0}
        self.max_err = 0.0
        self.errors = []
        self.tmp = os.path.join(ROOT, 'build', 'tmp', '%s-%d' % (prop, os.getpid()))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def jobs(self, rnd):
        plan = checks.QUICK.get(self.prop, checks.DEFAULT_QUICK) if self.tier == 'quick' else checks.THOROUGH.get(self.prop, checks.DEFAULT_THOROUGH)
        k = 0
        flags = FLAGS.get(self.prop, ())
        base = (self.seed * 1000 + rnd) * 10000
        if rnd == 0 and (self.prop in directed.DIRECTED or self.prop in cases.WRAP):
            v = [x[0] for x in plan]
            for variant in dict.fromkeys(v):
                if variant.endswith('be'):
                    continue
                of = 8 if self.prop in directed.DIRECTED else 24
                for i in range(of):
                    yield dict(prop=self.prop, variant=variant, directed=(i, of), seed=i, tag='d-%s-%d' % (variant, i), flags=flags)
        if self.prop == 'C28' and rnd == 0:
            # every precision and scale there is, and the ones just outside
            for variant in ('dev', 'rel'):
                for i in range(8):
                    yield dict(prop='C28', variant=variant, precisions=list(range(-3 + i, 1006, 8)), seed=i, tag='all-%s-%d' % (variant, i), flags=flags)
        if self.prop in cases.LENS and rnd == 0:
            # numbers of every length
            for variant in ('dev', 'rel'):
                for i in range(cases.LENS_OF):
                    yield dict(prop=self.prop, variant=variant, lens=cases.LENS[self.prop], part=i, tier=self.tier, seed=self.seed, tag='len-%s-%d' % (variant, i), flags=flags)
        if self.prop in cases.SCALES and rnd == 0:
            # plain values with every scale
            for variant in ('dev', 'rel'):
                for i in range(min(cases.SCALES_OF, len(cases.SCALES[self.prop]))):
                    yield dict(prop=self.prop, variant=variant, scales=i, tier=self.tier, seed=i, tag='sc-%s-%d' % (variant, i), flags=flags)
        for variant, units, n in plan:
            for i in range(units):
                k += 1
                yield dict(prop=self.prop, variant=variant, seed=base + k, n=n, be=variant.endswith('be'), tag='%s-%d' % (variant, k), flags=flags)

    def twins(self, j):
        if self.prop == 'C29':
            j['others'] = [(v, run.build(v)) for v in ('rel', 'dev-be', 'rel-be') if self.tier != 'quick' or v != ('dev-be' if j['seed'] % 2 else 'rel-be')]
        elif self.prop == 'C30':
            j['reorder'] = True

    def add(self, r):
        self.num['comparisons_of_two_executions'] += r.get('compared', 0)
        self.num['comparisons_over_every_length'] += r.get('lens', 0)
        self.cov['evaluations'] += r['n'] - r['unanswered']
        self.hashes |= r['hashes']
        for a, b in ((self.tags, r['tags']), (self.kinds, r['kinds'])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.byvar[r['variant']] = self.byvar.get(r['variant'], 0) + r['n'] - r['unanswered']
        self.num['fields'] += r['fields']
        self.num['unanswered'] += r['unanswered']
        self.num['inconclusive'] += r['inconclusive']
        self.num['allocations_checked'] += r['allocs']
        self.max_err = max(self.max_err, r['max_err'])
        if len(self.cov['samples']) < 8:
            self.cov['samples'] += r['samples'][:1]
        n = r['nviol']
        for v in r['viol']:
            if self.violation(v, r['job']):
                n -= 1
        self.nviol += max(0, n - len(r['viol']))
        if self.prop == 'C25':
            for m in r['alloc_violations'][:2]:
                self.violation({'msg': m, 'op': '', 'args': [], 'case': unit.fhash(re.sub(r'0x[0-9a-f]+', '', m)), 'index': -1}, r['job'])

    def violation(self, v, job):
        """True if it is a listed finding"""
        if v['case'] in self.known:
            self.known_seen[v['case']] = self.known_seen.get(v['case'], 0) + 1
            return True
        self.nviol += 1
        if len(self.viol) < 10:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, len(self.viol) + 1))
            with open(path, 'w') as f:
                json.dump(dict(v, property=self.prop, job=job), f, indent=1)
            self.viol.append(v)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('    %s %s: %s' % (v['op'], ' '.join(a[:120] for a in v['args']), v['msg'][:600]), flush=True)
        return False

    def run_jobs(self):
        rnd = 0
        bins = {}
        with mp.Pool(min(8, os.cpu_count() or 8)) as pool:
            while True:
                js = list(self.jobs(rnd))
                for j in js:
                    if j['variant'] not in bins:
                        bins[j['variant']] = run.build(j['variant'])
                    j['binary'] = bins[j['variant']]
                    j['tmp'] = self.tmp
                    if self.prop == 'C25':
                        memcheck.prepare(j)
                    self.twins(j)
                for r in pool.imap_unordered(unit.run_unit, js):
                    if 'error' in r:
                        self.errors.append(r['error'])
                        if len(self.errors) < 4:
                            print('check error: %s' % r['error'][-1500:], file=sys.stderr)
                        continue
                    self.add(r)
                    if self.nviol > 20 or self.left() < 0 or (self.nviol and time.time() - self.t0 > 150):
                        pool.terminate()
                        return
                rnd += 1
                if self.tier == 'quick' or self.viol or self.left() < 30 or self.errors:
                    return

    def run(self):
        os.makedirs(EVID, exist_ok=True)
        ev = os.path.join(EVID, self.prop + '.json')
        if os.path.exists(ev):
            os.unlink(ev)
        if os.path.isdir(REPLAYS):
            for f in os.listdir(REPLAYS):
                if f.startswith(self.prop + '-'):
                    os.unlink(os.path.join(REPLAYS, f))
        try:
            if self.prop == 'C26':
                stress.check(self)
            else:
                if self.prop == 'C25':
                    memcheck.check(self)
                self.run_jobs()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        for k, what in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        self.cov['distinct_nontrivial'] = len(self.hashes)
        self.cov.update({k: v for k, v in self.num.items() if v})
        self.cov['cases_by_kind'] = dict(sorted(self.tags.items(), key=lambda x: -x[1])[:40])
        self.cov['cases_by_build'] = self.byvar
        if self.kinds:
            names = {'B': 'numeric results', 'N': 'None results', 'P': 'documented panics', 'E': 'errors'}
            self.cov['observed'] = {names[k]: v for k, v in self.kinds.items()}
        if self.max_err:
            self.cov['largest_error_in_last_digit_units'] = self.max_err
        if self.known_seen:
            self.cov['known_finding_hits'] = sum(self.known_seen.values())
        with open(ev, 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': checks.LEVEL, 'coverage': self.cov,
                       'wall_s': round(time.time() - self.t0, 2), 'violations': self.nviol}, f, indent=1)
        if self.viol:
            print('%s: %d violations' % (self.prop, self.nviol))
            return 1
        if self.errors or not self.cov['evaluations']:
            print('%s: the check failed' % self.prop)
            return 2
        print('%s: held on %d executions (%d distinct non-trivial) in %.0f s' % (self.prop, self.cov['evaluations'], len(self.hashes), time.time() - self.t0))
        return 0


def replay(path):
    d = json.load(open(path))
    job = d['job']
    if d['property'] == 'C26' or job.get('special'):
        return (stress if d['property'] == 'C26' else memcheck).replay(d)
    job['binary'] = run.build(job['variant'])
    cs = unit.job_cases(job)
    tmp = os.path.join(ROOT, 'build', 'tmp', 'replay-%d' % os.getpid())
    sel = cs if d['index'] < 0 else [cs[d['index']]]
    if d['property'] in ('C29', 'C30'):
        # the whole job again: the comparison needs the other executions
        ck = Check(d['property'], 'thorough', 1)
        ck.twins(job)
        job['tmp'] = os.path.join(ROOT, 'build', 'tmp', 'replay-%d' % os.getpid())
        r = unit.run_unit(job)
        shutil.rmtree(job['tmp'], ignore_errors=True)
        hit = [v for v in r.get('viol', ()) if v['case'] == d['case']] or r.get('viol', ())
        for v in hit[:1]:
            print('case:     %s %s\nverdict:  %s' % (v['op'], ' '.join(v['args'])[:3000], v['msg']))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1 if hit else 0
    try:
        obs, info = run.run_lines(job['binary'], [c.line() for c in sel], tmp, 'r', env=dict(job.get('env') or {}), mem=job.get('mem', 4 << 30))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = 0
    for c, o in zip(sel, obs):
        m = unit.judge_obs(job, c, o) if o else 'not answered'
        if d['index'] >= 0:
            print('case:     %s\nobserved: %s\nverdict:  %s' % (c.line()[:3000], ' '.join(o.fields)[:3000] if o else None, m or 'holds'))
        bad += bool(m)
    for m in info['alloc_violations']:
        print(m)
        bad += d['property'] == 'C25'
    if bad:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == '--replay':
        return replay(a[1])
    if a == ['--setup']:
        # dependencies and first builds; every check builds again what has changed
        for v in ('dev', 'rel', 'dev-be', 'rel-be', 'asan', 'tsan'):
            t0 = time.time()
            run.build(v)
            print('built %s in %.0f s' % (v, time.time() - t0), flush=True)
        memcheck.warm()
        return 0
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        return Check(a[0], tier, int(os.environ.get('VERIF_SEED') or 1)).run()
    except run.BuildError as e:
        print('cannot build the driver against the tree: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())

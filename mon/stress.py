"""C26: several threads on shared operands, natively and under ThreadSanitizer; every thread's observations
must be those of sequential execution, and the sequential ones must be right."""
import multiprocessing as mp, os, random, re, time
from . import cases, directed, num as N, run, unit
from .gen import Gen

# operations whose code keeps constants or could keep scratch state
PARTS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24']
HEAVY = ('C16', 'C17', 'C18', 'C19', 'C20')


def pick(seed, n, maxline=400, parts=PARTS):
    """n cases from all parts, none of them long"""
    g = Gen(seed)
    r = g.r
    out = []
    while len(out) < n:
        p = r.choice(parts)
        got = 0
        for c in cases.GENS[p](g, 6):
            if len(c.line()) <= (60 if p in HEAVY else maxline):
                out.append((p, c))
                got += 1
            if got == 2 or len(out) >= n:
                break
    return out[:n]


def one(job):
    """one process of many threads"""
    os.makedirs(job['tmp'], exist_ok=True)
    N.set_be(False)
    cs = pick(job['seed'], job['n'], parts=job.get('parts', PARTS))
    if job.get('quick_cases'):
        # drop what takes long: it would only cost time here
        obs, _ = run.run_lines(job['timer'], [c.line() for _, c in cs], job['tmp'], 'p%s' % job['tag'], env={'PGN_TIME': '1'})
        keep = []
        for (p, c), o in zip(cs, obs):
            ns = [int(f[4:]) for f in o.flags if f.startswith('!ns=')] if o else []
            if ns and ns[0] < job['quick_cases']:
                keep.append((p, c))
        cs = keep
    inp = os.path.join(job['tmp'], job['tag'] + '.in')
    outp = os.path.join(job['tmp'], job['tag'] + '.out')
    with open(inp, 'w') as f:
        for i, (_, c) in enumerate(cs):
            f.write('%d\t%s\n' % (i, c.line()))
    t0 = time.time()
    rc, why, err = run.spawn(job['binary'], inp, outp, cpu=600, mem=0, wall=240, args=('stress', str(job['threads']), str(job['rounds']), str(job['seed'])),
                             env={'TSAN_OPTIONS': 'halt_on_error=0 exitcode=66 report_bugs=1 history_size=4', 'RUST_MIN_STACK': str(4 << 20)})
    res = {'seed': job['seed'], 'n': len(cs), 'viol': [], 'obs': 0, 'overlaps': 0, 'met': 0, 'sig': '', 'why': why, 'job': {k: v for k, v in job.items() if k not in ('binary', 'timer')},
           'refs': 0, 'ops': {}, 'hashes': set(), 'wall': 0}
    line = None
    with open(outp, encoding='utf-8', errors='replace') as f:
        for l in f:
            x = l.rstrip('\n').split('\t')
            if x[0] == 'MISMATCH':
                c = cs[int(x[1])][1]
                res['viol'].append((c, 'threads and sequential execution differ: %s' % ' '.join(x[2:])[:1500]))
            elif x[0] == 'REF':
                p, c = cs[int(x[1])]
                o = run.Obs('ok', [y for y in x[2:] if y[:1] != '!' or len(y) < 2], [y for y in x[2:] if y[:1] == '!' and len(y) > 1])
                m = unit.judge_obs({}, c, o)
                res['refs'] += 1
                res['ops'][c.op] = res['ops'].get(c.op, 0) + 1
                if m:
                    res['viol'].append((c, 'sequential execution after the threads: %s' % m))
            elif x[0] == 'STRESS':
                line = x
    races = re.findall(r'WARNING: ThreadSanitizer: (.*?)\n={18}', err, re.S)
    for m in races[:3]:
        res['viol'].append((None, 'ThreadSanitizer: ' + m[:1500]))
    if line:
        res['obs'], res['overlaps'], res['met'], res['sig'] = int(line[1]), int(line[3]), int(line[4]), line[6]
        for _, c in cs:
            res['hashes'].add(unit.chash(c.line()))
    elif why == 'wall' or why == 'cpu':
        # does it also hang alone?
        obs, _ = run.run_lines(job['timer'], [c.line() for _, c in cs], job['tmp'], 's%s' % job['tag'])
        if any(o is None or o.status != 'ok' for o in obs):
            res['inconclusive'] = 'slow or failing case'
        else:
            res['viol'].append((None, 'threads never finished, though the same operations do when run one after another'))
    elif not races:
        res['viol'].append((None, 'the process died (%s, exit %s): %s' % (why, rc, err[-800:])))
    for p in (inp, outp, outp + '.err'):
        if os.path.exists(p):
            os.unlink(p)
    res['wall'] = time.time() - t0
    return res


def plan(chk, rnd):
    base = (chk.seed * 1000 + rnd) * 10000
    q = chk.tier == 'quick'
    js = []
    for i in range(60 if q else 100):       # cold starts: every thread's first operation is the first of the process
        js.append(dict(kind='cold', variant='dev', seed=base + i, n=4, threads=8, rounds=1))
    for i in range(8 if q else 16):         # long mixed runs
        js.append(dict(kind='mixed', variant='dev', seed=base + 2000 + i, n=60, threads=6, rounds=12, quick_cases=3_000_000))
    for i in range(4 if q else 8):          # optimised code, tighter interleaving
        js.append(dict(kind='mixed', variant='rel', seed=base + 3000 + i, n=60, threads=8, rounds=40, quick_cases=3_000_000))
    for i in range(8 if q else 16):
        js.append(dict(kind='tsan', variant='tsan', seed=base + 4000 + i, n=40, threads=4, rounds=2, quick_cases=1_000_000))
    for i in range(16 if q else 32):
        js.append(dict(kind='tsan cold', variant='tsan', seed=base + 5000 + i, n=4, threads=4, rounds=1, quick_cases=3_000_000))
    # one kind of operation at a time, many times over, so that equal operations meet
    for i, p in enumerate(PARTS):
        js.append(dict(kind='focus', variant='rel' if i % 3 else 'dev', seed=base + 6000 + i, n=12, threads=8, rounds=60, quick_cases=300_000, parts=[p]))
        js.append(dict(kind='tsan focus', variant='tsan', seed=base + 7000 + i, n=8, threads=4, rounds=3, quick_cases=300_000, parts=[p]))
    for i, j in enumerate(js):
        j['tag'] = 's%d' % i
    return js


def check(chk):
    bins = {v: run.build(v) for v in ('dev', 'rel', 'tsan')}
    tot = {'observations_compared': 0, 'operations_overlapping_another_threads': 0, 'pairs_of_operations_that_met': 0, 'thread_operations_under_tsan': 0}
    sigs = set()
    rnd = 0
    while True:
        js = plan(chk, rnd)
        for j in js:
            j.update(binary=bins[j['variant']], timer=bins['dev'], tmp=chk.tmp)
        with mp.Pool(4) as pool:
            for r in pool.imap_unordered(guarded, js):
                if 'error' in r:
                    chk.errors.append(r['error'])
                    print(r['error'])
                    continue
                chk.cov['evaluations'] += r['obs']
                chk.byvar[r['job']['kind']] = chk.byvar.get(r['job']['kind'], 0) + r['obs']
                tot['observations_compared'] += r['obs']
                tot['operations_overlapping_another_threads'] += r['overlaps']
                tot['pairs_of_operations_that_met'] += r['met']
                if r['job']['kind'].startswith('tsan'):
                    tot['thread_operations_under_tsan'] += r['obs']
                if r['sig']:
                    sigs.add(r['sig'])
                chk.hashes |= r['hashes']
                for k, v in r['ops'].items():
                    chk.tags[k] = chk.tags.get(k, 0) + v
                if r.get('inconclusive'):
                    chk.num['inconclusive'] += 1
                if len(chk.cov['samples']) < 8 and r['obs']:
                    chk.cov['samples'].append('%s seed %d: %d threads, %d rounds, %d operations; %d observations, %d overlapping, order %s' % (
                        r['job']['kind'], r['seed'], r['job']['threads'], r['job']['rounds'], r['n'], r['obs'], r['overlaps'], r['sig']))
                for c, m in r['viol']:
                    chk.violation({'op': c[0] if c else r['job']['kind'], 'args': c[1] if c else [], 'msg': m, 'case': unit.fhash(c[2] if c else re.sub(r'0x[0-9a-f]+|\d+', '', m)), 'index': -1}, r['job'])
                if chk.nviol > 20 or chk.left() < 0:
                    pool.terminate()
                    break
        rnd += 1
        if chk.tier == 'quick' or chk.viol or chk.errors or chk.left() < 60:
            break
    tot['distinct_thread_orders_seen'] = len(sigs)
    chk.cov.update(tot)


def guarded(j):
    import traceback
    try:
        r = one(j)
        # cases carry their judges, which do not travel between processes
        r['viol'] = [(c and (c.op, c.args, c.line()), m) for c, m in r['viol'][:20]]
        return r
    except Exception:
        return {'error': traceback.format_exc()}


def replay(d):
    j = d['job']
    j.update(binary=run.build(j['variant']), timer=run.build('dev'), tmp=os.path.join(run.BUILD, 'tmp', 'replay-%d' % os.getpid()))
    import shutil
    n = 0
    try:
        for _ in range(10):
            r = one(j)
            for c, m in r['viol']:
                print('%s: %s' % (c.line()[:500] if c else '', m))
                n += 1
            if n:
                break
    finally:
        shutil.rmtree(j['tmp'], ignore_errors=True)
    print('reproduced' if n else 'not reproduced in 10 runs')
    return 1 if n else 0

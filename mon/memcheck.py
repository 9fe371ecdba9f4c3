"""C25: the same operations under memory monitors: the checking allocator with two fill patterns, debug assertions and
the standard library's own checks (dev build), AddressSanitizer, and Miri."""
import os, re, subprocess, threading, time
from . import cases, num as N, run, unit
from .gen import Gen

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:malloc_context_size=8'}
MIRI_FLAGS = '-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-deterministic-floats'


def prepare(j):
    if j['variant'] == 'asan':
        j['mem'] = 0
        j['env'] = dict(ASAN_ENV)
    else:
        j['env'] = {'PGN_FILL': '205'}
        j['fill2'] = '23'      # 0x1717: a digit above one half


def miri_cases(seed, n, timer, tmp, limit_ns):
    """cases cheap enough to interpret, spread over all operations"""
    N.set_be(False)
    g = Gen(seed)
    r = g.r
    parts = cases.ALL + ['C15', 'C15', 'C23', 'C24', 'C24', 'C14', 'C08', 'C25']
    cs = []
    for p in parts:
        k = 0
        for c in cases.GENS[p](g, 60):
            if len(c.line()) <= 260:
                cs.append(c)
                k += 1
            if k >= 30:
                break
    obs, _ = run.run_lines(timer, [c.line() for c in cs], tmp, 'miripick', env={'PGN_TIME': '1'})
    byop = {}
    for c, o in zip(cs, obs):
        ns = [int(f[4:]) for f in o.flags if f.startswith('!ns=')] if o else []
        if ns and ns[0] < limit_ns:
            byop.setdefault(c.op, []).append(c)
    out = []
    while len(out) < n and any(byop.values()):
        for op in sorted(byop):
            if byop[op]:
                out.append(byop[op].pop())
    return out[:n]


def miri_build(path):
    tdir = os.path.join(run.BUILD, 't-miri')
    env = run.cargo_env(CARGO_TARGET_DIR=tdir, PGN_CASES=path, MIRIFLAGS=MIRI_FLAGS)
    return [run.find_cargo(), '+nightly', 'miri', 'run', '--offline', '--locked', '-q', '--no-default-features', '--', 'embedded'], env


def miri(chk, n, wall, shards=8, limit_ns=150_000):
    os.makedirs(chk.tmp, exist_ok=True)
    cs = miri_cases(chk.seed, n, run.build('dev'), chk.tmp, limit_ns)
    path = os.path.join(run.BUILD, 'miri-cases.txt')
    with open(path, 'w') as f:
        for i, c in enumerate(cs):
            f.write('%d\t%s\n' % (i, c.line()))
    args, env = miri_build(path)
    d = os.path.join(run.ROOT, 'driver')
    t0 = time.time()
    # builds, and interprets nothing
    b = subprocess.run(args + ['0', '100000000'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if 'END' not in b.stdout and 'Undefined Behavior' not in b.stdout:
        raise run.BuildError('miri: ' + b.stdout[-2000:])
    end = time.time() + wall
    done = {}
    stats = {'finished': 0, 'unsupported': 0}
    lock = threading.Lock()

    def shard(s):
        mine = list(range(s, len(cs), shards))
        at = 0
        while at < len(mine) and end - time.time() > 5:
            left = end - time.time()
            out = open(os.path.join(chk.tmp, 'miri%d.out' % s), 'w+')
            err = open(os.path.join(chk.tmp, 'miri%d.err' % s), 'w+')
            p = subprocess.Popen(args + [str(s), str(shards), '0', str(at), str(int(left))], cwd=d, env=env, stdout=out, stderr=err, start_new_session=True)
            killed = False
            try:
                p.wait(timeout=left + 60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                killed = True
            out.seek(0)
            err.seek(0)
            last = None
            clean = False
            with lock:
                for l in out.read().splitlines():
                    x = l.split('\t')
                    if x[0] == 'START':
                        last = int(x[1])
                    elif x[0] == 'END':
                        clean = True
                    elif x[0].isdigit() and int(x[0]) == last:
                        done[last] = x[1:]
                e = err.read()
                stats['finished'] += clean
                m = re.search(r'error: (Undefined Behavior|memory leaked|abnormal termination|deadlock).*?(?=\n\n|\Z)', e, re.S)
                if m:
                    c = cs[last] if last is not None and not clean else None
                    chk.violation({'op': c.op if c else 'miri', 'args': c.args if c else [], 'msg': 'Miri: ' + m.group(0)[:1500], 'case': unit.fhash(c.line() if c else m.group(0)), 'index': -1},
                                  {'special': 'miri', 'lines': [c.line()] if c else [cs[k].line() for k in mine]})
                    if c is None:
                        return
                elif killed or clean:
                    return
                elif 'unsupported operation' in e:
                    stats['unsupported'] += 1
                else:
                    chk.errors.append('Miri could not go on: ' + e[-1500:])
                    print(chk.errors[-1])
                    return
            if last is None:
                return
            at = mine.index(last) + 1

    ts = [threading.Thread(target=shard, args=(s,)) for s in range(shards)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for i, f in done.items():
        # what Miri observed is judged like any other observation
        c = cs[i]
        fields = [y for y in f if y[:1] != '!' or len(y) < 2]
        m = unit.judge_obs({}, c, run.Obs('ok', fields))
        if m:
            chk.violation({'op': c.op, 'args': c.args, 'msg': 'under Miri: ' + m, 'case': unit.fhash(c.line()), 'index': -1}, {'special': 'miri', 'lines': [c.line()]})
    ops = {}
    for i in done:
        ops[cs[i].op] = ops.get(cs[i].op, 0) + 1
        if cs[i].nt:
            chk.hashes.add(unit.chash(cs[i].line()))
    chk.cov['evaluations'] += len(done)
    chk.byvar['miri'] = len(done)
    chk.cov['miri'] = {'operations_interpreted': len(done), 'chosen': len(cs), 'by_operation': ops, 'processes_finished_with_leak_check': stats['finished'], 'stopped_at_snprintf': stats['unsupported'], 'seconds': round(time.time() - t0)}


def warm():
    path = os.path.join(run.BUILD, 'miri-cases.txt')
    open(path, 'w').close()
    args, env = miri_build(path)
    subprocess.run(args + ['0', '100000000'], cwd=os.path.join(run.ROOT, 'driver'), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)


def check(chk):
    q = chk.tier == 'quick'
    miri(chk, 320 if q else 4000, 70 if q else 300)


def replay(d):
    path = os.path.join(run.BUILD, 'miri-cases.txt')
    with open(path, 'w') as f:
        for i, l in enumerate(d['job']['lines']):
            f.write('%d\t%s\n' % (i, l))
    args, env = miri_build(path)
    r = subprocess.run(args + ['0', '1'], cwd=os.path.join(run.ROOT, 'driver'), env=env)
    return 1 if r.returncode else 0

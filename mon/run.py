"""Builds the driver against the current tree and runs cases through it, watching for death and hangs."""
import fcntl, hashlib, os, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, 'build')
REPO = os.environ.get('PGN_REPO', '/repo')


def src_hash():
    h = hashlib.sha256()
    fs = []
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'driver', 'src')):
        for d, _, names in os.walk(base):
            fs += [os.path.join(d, n) for n in names]
    fs += [os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'driver', 'Cargo.toml')]
    for f in sorted(fs):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def cargo_env(**kw):
    e = dict(os.environ)
    e.pop('RUSTC', None)
    e.pop('CARGO', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.setdefault('CARGO_TERM_COLOR', 'never')
    e.update(kw)
    return e


def find_cargo():
    for c in (os.path.expanduser('~/.cargo/bin/cargo'), '/usr/local/cargo/bin/cargo', shutil.which('cargo')):
        if c and os.path.exists(c):
            return c
    return 'cargo'


def build(variant='dev', log=None):
    """variants: dev, rel, dev-be, rel-be, asan, tsan.  Returns the binary's path."""
    os.makedirs(BUILD, exist_ok=True)
    tdir = os.path.join(BUILD, 't-' + variant)
    os.makedirs(tdir, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock-' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = src_hash()
        mark = os.path.join(tdir, '.srchash')
        old = open(mark).read() if os.path.exists(mark) else ''
        rel = variant.startswith('rel')
        if old != h:
            for d, names, _ in os.walk(tdir):
                if os.path.basename(d) == '.fingerprint':
                    for n in names:
                        if n.startswith('pgnumeric-') or n.startswith('pgn-driver-'):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        args = [find_cargo()]
        env = cargo_env(CARGO_TARGET_DIR=tdir)
        out = os.path.join(tdir, 'release' if rel else 'debug', 'pgn-driver')
        tail = []
        if variant in ('asan', 'tsan'):
            args.append('+nightly')
            env['RUSTFLAGS'] = '-Zsanitizer=' + ('address' if variant == 'asan' else 'thread') + ' -Cunsafe-allow-abi-mismatch=sanitizer' * 0
            tail = ['--target', 'x86_64-unknown-linux-gnu', '--no-default-features']
            if variant == 'tsan':
                tail += ['-Zbuild-std']
            out = os.path.join(tdir, 'x86_64-unknown-linux-gnu', 'debug', 'pgn-driver')
        args += ['build', '--offline', '--locked'] + tail
        if rel:
            args.append('--release')
        if variant.endswith('-be'):
            args += ['--features', 'be']
        r = subprocess.run(args, cwd=os.path.join(ROOT, 'driver'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if l.startswith('error')][:5]
            raise BuildError('cargo %s failed: %s\n%s' % (' '.join(args[1:]), errs, r.stdout[-3000:]))
        with open(mark, 'w') as f:
            f.write(h)
        return out
    finally:
        lock.close()


def limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def spawn(binary, infile, outfile, cpu=100, mem=4 << 30, wall=400, args=(), env=None):
    """returns (returncode, why, stderr)"""
    e = dict(os.environ)
    e['RUST_BACKTRACE'] = '0'
    e['RUST_MIN_STACK'] = str(8 << 20)
    e.update(env or {})
    with open(infile, 'rb') as i, open(outfile, 'wb') as o, open(outfile + '.err', 'w+b') as er:
        used = resource.getrusage(resource.RUSAGE_CHILDREN)
        p = subprocess.Popen([binary] + list(args), stdin=i, stdout=o, stderr=er, env=e, preexec_fn=limits(cpu, mem))
        try:
            rc = p.wait(timeout=wall)
            why = 'exit'
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
            u = resource.getrusage(resource.RUSAGE_CHILDREN)
            # idle: it waits for something that never comes; otherwise the machine is merely too busy to tell
            why = 'wall' if u.ru_utime + u.ru_stime - used.ru_utime - used.ru_stime < 5 else 'killed'
        er.seek(0)
        err = er.read(20000).decode('utf-8', 'replace')
    if rc == -signal.SIGXCPU:
        why = 'cpu'
    elif rc == -signal.SIGKILL and why == 'exit':
        why = 'killed'
    elif rc < 0 and why == 'exit':
        why = 'signal %d' % -rc
    return rc, why, err


def read_out(path):
    rows = {}
    end = None
    with open(path, 'r', encoding='utf-8', errors='replace') as f:
        for l in f:
            if not l.endswith('\n'):
                break
            fs = l[:-1].split('\t')
            if fs[0] == 'END':
                end = fs
            else:
                rows[fs[0]] = fs[1:]
    return rows, end


class Obs:
    """what was observed of one case"""
    __slots__ = ('status', 'fields', 'flags', 'note')

    def __init__(self, status, fields=(), flags=(), note=''):
        self.status, self.fields, self.flags, self.note = status, fields, flags, note


HANG_CPU = 60


def run_lines(binary, lines, tmp, tag, cpu=100, env=None, mem=4 << 30, max_bad=3):
    """lines: list of 'op\\targ...'; returns (list of Obs or None, info)"""
    os.makedirs(tmp, exist_ok=True)
    inp = os.path.join(tmp, tag + '.in')
    outp = os.path.join(tmp, tag + '.out')
    obs = [None] * len(lines)
    todo = list(range(len(lines)))
    info = {'allocs': 0, 'alloc_violations': [], 'inconclusive': 0, 'stderr': ''}
    bad = 0
    retries = 0
    while todo:
        with open(inp, 'w') as f:
            for i in todo:
                f.write('%d\t%s\n' % (i, lines[i]))
        rc, why, err = spawn(binary, inp, outp, cpu=cpu, env=env, mem=mem)
        rows, end = read_out(outp)
        for k, fs in rows.items():
            obs[int(k)] = Obs('ok', [x for x in fs if x[:1] != '!' or len(x) < 2], [x for x in fs if x[:1] == '!' and len(x) > 1])
        av = [l for l in err.splitlines() if l.startswith('ALLOC-VIOLATION')]
        info['alloc_violations'] += av[:3]
        if end and rc == 0:
            info['allocs'] += int(end[1])
            break
        rest = [i for i in todo if obs[i] is None]
        if not rest:
            info['stderr'] = err[-500:]
            break
        culprit = rest[0]
        note = err.strip()[-600:]
        if why in ('cpu', 'wall', 'killed'):
            with open(inp, 'w') as f:
                f.write('%d\t%s\n' % (culprit, lines[culprit]))
            rc2, why2, err2 = spawn(binary, inp, outp, cpu=HANG_CPU, env=env, mem=mem, wall=240)
            rows, end = read_out(outp)
            if str(culprit) in rows:
                fs = rows[str(culprit)]
                obs[culprit] = Obs('ok', [x for x in fs if x[:1] != '!' or len(x) < 2], [x for x in fs if x[:1] == '!' and len(x) > 1])
                retries += 1
                todo = rest[1:]
                if retries > 20:
                    info['inconclusive'] += len(todo)
                    break
                continue
            if why2 == 'cpu':
                obs[culprit] = Obs('hang', note='no answer within %d s of CPU time' % HANG_CPU)
                bad += 1
            elif why2 == 'wall':
                obs[culprit] = Obs('hang', note='no answer within 240 s, and hardly any CPU time used')
                bad += 1
            elif why2 == 'killed':
                info['inconclusive'] += 1
                todo = rest[1:]
                retries += 1
                if retries > 20:
                    break
                continue
            else:
                obs[culprit] = Obs('crash', note='%s: %s' % (why2, err2.strip()[-600:]))
                bad += 1
        else:
            obs[culprit] = Obs('crash', note='%s (exit %s): %s' % (why, rc, note))
            bad += 1
        todo = rest[1:]
        if bad >= max_bad or (obs[culprit] and obs[culprit].status == 'hang'):
            break
    for p in (inp, outp, outp + '.err'):
        try:
            os.unlink(p)
        except OSError:
            pass
    return obs, info

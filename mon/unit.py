"""One unit of work: generate cases from a seed, run them, judge them."""
import hashlib, os, random, re, time, traceback
from . import num as N, model as M, cases, directed, run
from .gen import Gen
from .num import ZERO


def gen_cases(prop, seed, n):
    fn = cases.GENS[prop]
    for c in fn(Gen(seed), n):
        if len(c.line()) < 3_000_000:
            yield c


def job_cases(job):
    """the cases of a job; the same job always gives the same cases"""
    N.set_be(job.get('be', False))
    if job['prop'] == 'C28' and job.get('precisions'):
        return [cases.C('typmods', [str(p)], cases.j_typmods(p), tag='every scale') for p in job['precisions']]
    if job.get('lens'):
        return [c for k in job['lens'] for c in cases.lens_cases(k, job['tier'], job['variant'], job['seed'], job['part'])]
    if job.get('scales') is not None:
        return cases.scales_cases(job['prop'], job['tier'], job['variant'], job['scales'])
    del M.DEEP[:]
    if job.get('directed') is not None:
        i, of = job['directed']
        return [c for k, c in enumerate(directed.of(job['prop'])) if k % of == i]
    cs = list(gen_cases(job['prop'], job['seed'], job['n']))
    if job['prop'] in cases.SLOW and job['n'] >= 2000:
        # many cheap cases; the costly ones have units of their own
        cs = [c for c in cs if cases.lean(c)]
    return cs


def chash(line):
    return hashlib.blake2b(line.encode(), digest_size=8).digest()


def fhash(line):
    return hashlib.blake2b(line.encode(), digest_size=8).hexdigest()


def run_unit(job):
    """job: dict(prop, seed, n, variant, binary, be, env, tmp, tag, flags)"""
    try:
        return run_unit_(job)
    except Exception:
        return {'error': traceback.format_exc(), 'job': job}


def judge_obs(job, c, o):
    """message or None, for one observed case"""
    if o.status != 'ok':
        return '%s: %s' % (o.status, o.note)
    for fl in o.flags:
        if any(x in fl for x in job.get('flags', ())):
            return fl[1:].lower()
    try:
        return cases.judge_case(c, o.fields)
    except Exception as e:
        # an output the judge cannot even read is reported as such
        if isinstance(e, (ValueError, IndexError, N.Bad, UnicodeDecodeError)) and o.fields and not readable(o.fields):
            return 'unreadable output %r' % (o.fields,)
        raise


def swap_image(h):
    """little-endian image in hex to big-endian varlen, and back (the length word alone changes)"""
    b = bytes.fromhex(h[:8])
    return ((int.from_bytes(b, 'little') >> 2) & 0x3fffffff).to_bytes(4, 'big').hex() + h[8:]


def unswap_image(h):
    b = bytes.fromhex(h[:8])
    return ((int.from_bytes(b, 'big') << 2) & 0xffffffff).to_bytes(4, 'little').hex() + h[8:]


def be_line(l):
    return re.sub(r'(?<=[\t:])(#|@\d)([0-9a-f]{8,})', lambda m: m.group(1) + swap_image(m.group(2)), l)


def be_field(f):
    try:
        if f[:1] in 'BS' and len(f) > 12:
            return f[0] + unswap_image(f[1:])
        m = re.match(r'(-|V[^/]*|P[0-9a-f]*)/([0-9a-f]{12,})', f)
        if m:
            return m.group(1) + '/' + unswap_image(m.group(2)) + f[m.end():]
    except ValueError:
        pass
    return f


def differ(what, o, p):
    if o.status != p.status:
        return '%s: %s %s, the first run %s' % (what, p.status, p.note, o.status)
    for i, (x, y) in enumerate(zip(o.fields, p.fields)):
        if x != y:
            return '%s %s, the first run %s (field %d)' % (what, M.show_out(y)[:400], M.show_out(x)[:400], i)
    return '%s %d fields, the first run %d' % (what, len(p.fields), len(o.fields))


def run_unit_(job):
    prop = job['prop']
    t0 = time.time()
    M.ERR[0] = ZERO
    cs = job_cases(job)
    lines = [c.line() for c in cs]
    kw = dict(mem=job.get('mem', 4 << 30), cpu=job.get('cpu', 100))
    obs, info = run.run_lines(job['binary'], lines, job['tmp'], job['tag'], env=dict(job.get('env') or {}), **kw)
    res = {'prop': prop, 'variant': job.get('variant', ''), 'n': len(cs), 'hashes': [], 'tags': {}, 'kinds': {}, 'viol': [], 'samples': [], 'max_err': 0.0,
           'unanswered': 0, 'allocs': info['allocs'], 'alloc_violations': info['alloc_violations'], 'inconclusive': info['inconclusive'],
           'stderr': info['stderr'], 'fields': 0, 'nviol': 0, 'lens': 0, 'job': {k: v for k, v in job.items() if k not in ('binary', 'others')}}
    if job.get('fill2'):
        # the same cases with every fresh allocation filled differently: outputs must not change
        env2 = dict(job.get('env') or {})
        env2['PGN_FILL'] = str(job['fill2'])
        obs2, info2 = run.run_lines(job['binary'], lines, job['tmp'], job['tag'] + 'f', env=env2, **kw)
        res['alloc_violations'] += info2['alloc_violations']
        res['allocs'] += info2['allocs']
    else:
        obs2 = None
    # the same cases on other builds, or in another order: the outputs must be the same
    twins = []
    for v, b in job.get('others', ()):
        be = v.endswith('be')
        ls = [be_line(x) for x in lines] if be else lines
        o3, info3 = run.run_lines(b, ls, job['tmp'], job['tag'] + v, env=dict(job.get('env') or {}), **kw)
        if be:
            for c, o in zip(cs, o3):
                if o:
                    o.fields = [be_field(x) for x in o.fields]
                    if c.op == 'serde':
                        # bincode: an 8-byte length, then the image
                        o.fields = [x[:16] + unswap_image(x[16:]) if re.fullmatch('[0-9a-f]{28,}', x) else x for x in o.fields]
        twins.append(('the %s build gives' % v, o3))
        res['inconclusive'] += info3['inconclusive']
    if job.get('reorder'):
        perm = [i for i in range(len(lines)) for _ in range(2)]
        random.Random(job['seed']).shuffle(perm)
        o3, info3 = run.run_lines(job['binary'], [lines[i] for i in perm], job['tmp'], job['tag'] + 'p', env=dict(job.get('env') or {}), **dict(kw, cpu=2 * kw['cpu']))
        first, second = [None] * len(lines), [None] * len(lines)
        for i, o in zip(perm, o3):
            if first[i] is None:
                first[i] = o
            else:
                second[i] = o
        twins.append(('after other calls it gives', first))
        twins.append(('when repeated later it gives', second))
        res['inconclusive'] += info3['inconclusive']
    res['compared'] = 0
    nt = set()
    maxerr = ZERO
    for k, (c, line, o) in enumerate(zip(cs, lines, obs)):
        if o is None:
            res['unanswered'] += 1
            continue
        M.ERR[0] = ZERO
        msg = judge_obs(job, c, o)
        if not msg and obs2 and obs2[k] and (obs2[k].status != o.status or obs2[k].fields != o.fields):
            msg = 'output depends on the content of fresh memory: %r and %r' % (o.fields[:4], obs2[k].fields[:4] or obs2[k].note)
        for what, o3 in twins:
            if o3[k] is None:
                continue
            res['compared'] += 1
            if not msg and (o3[k].status != o.status or o3[k].fields != o.fields):
                msg = differ(what, o, o3[k])
        for f in o.fields:
            h = f[:1]
            if h and h in 'BNPE':
                res['kinds'][h] = res['kinds'].get(h, 0) + 1
            res['fields'] += 1
        if M.ERR[0] > maxerr and not msg:
            maxerr = M.ERR[0]
        if c.nt:
            nt.add(chash(line))
        if c.op == 'lens' and not msg:
            res['lens'] += int(o.fields[0][1:])
        t = c.tag or c.op
        res['tags'][t] = res['tags'].get(t, 0) + 1
        if msg:
            res['nviol'] += 1
            if len(res['viol']) < 5:
                res['viol'].append({'op': c.op, 'args': c.args, 'msg': msg, 'index': k, 'case': fhash(line),
                                    'fields': [x[:2000] for x in o.fields[:12]]})
    res['hashes'] = nt
    res['max_err'] = float(maxerr)
    for i in random.Random(job.get('seed', 0)).sample(range(len(cs)), min(2, len(cs))):
        if obs[i]:
            res['samples'].append(lines[i][:160] + ' => ' + ' '.join(obs[i].fields)[:160])
    res['wall'] = time.time() - t0
    return res


def readable(fields):
    for f in fields:
        if f[:1] in 'BT':
            try:
                bytes.fromhex(f[1:])
            except ValueError:
                return False
    return True

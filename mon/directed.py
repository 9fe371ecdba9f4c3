"""Fixed cases run by every check before the generated ones: inputs that once failed, and corners."""
from decimal import Decimal
import struct
from . import num as N, model as M, cases
from .gen import Gen
from .num import *
from .cases import C, arg, lazy, hx, two, j_debin, j_dejson, j_serde, j_tofloat, j_typmod, j_hist, bincode_bytes, parse_model, WRAP


def nm(s, ds=None):
    if s == 'NaN':
        return N.NAN
    v = Decimal(s)
    if ds is None:
        ds = max(0, -v.as_tuple().exponent)
    return Num(v if v else ZERO, ds)


def parse(s):
    es = parse_model(s)

    def j(f):
        for e in es:
            if len(f) == 1 and M.judge(e, f[0]) is None:
                return None
        return 'parsing %r gave %s, expected %r' % (s[:60], [M.show_out(x) for x in f], es)
    return C('parse', [hx(s)], j, tag='directed')


def un(op, fn, a, ok=(), at=None):
    x = arg(a)
    if at:
        x = '@%d%s' % (at, x[1:])
    return C(op, [x], lazy(fn, a), ok=ok, tag='directed')


def bi(op, fn, a, b, ok=()):
    return C(op, [arg(a), arg(b)], lazy(fn, a, b), ok=ok, tag='directed')


def powc(a, b):
    return bi('pow', M.pow_, nm(a), nm(b), ok=(M.POW0, M.POWNEG))


def d_C01():
    for s in ('0e1000000', '0e131073', '0' * 140000 + '1', '0' * 140000 + '.5', '0.' + '0' * 16383, '1e131071', '1e131072', '9' * 131072, '1e-16383', '1e-16384', '0e-16384', '-0',
              '.5', '5.', '+.5e-3', '1e+0005', 'nan', ' NaN\n', '+NaN', '1e', '1e+', '--1', '1_0', '', ' ', '.', 'e5', '0x10', '١', '1e2147483648', '1e99999999999', '-.e1'):
        yield parse(s)


def d_C03():
    b = EX.subtract(pow10(131072), Decimal(1))
    yield bi('add', M.add, Num(b, 0), nm('1'))
    yield bi('add', M.add, Num(b, 0), nm('0.5'))
    yield bi('sub', M.sub, Num(-b, 0), nm('1'))
    yield bi('sub', M.sub, nm('1', 0), nm('1.000', 3))


def d_C04():
    yield bi('mul', M.mul, Num(ZERO, 16383), Num(ZERO, 16383))
    yield bi('mul', M.mul, Num(ZERO, 16383), Num(Decimal(1), 1))
    yield bi('mul', M.mul, Num(ZERO, 8191), Num(Decimal(5), 8192))
    yield bi('mul', M.mul, nm('1e65536', 0), nm('1e65535', 0))
    yield bi('mul', M.mul, nm('1e65536', 0), nm('1e65536', 0))


def d_C07():
    for a, s in (('9.5', 0), ('99999999.5', 0), ('0.5', 0), ('-0.5', 0), ('5', -1), ('4', -1), ('50', -2), ('9999', -4), ('5000', -4), ('4999', -4), ('0.00005', 4), ('0.00004999', 4)):
        a = nm(a)
        yield C('round', [arg(a), str(s)], two(M.round_, a, s), ok=(M.OVF,), tag='directed')
        yield C('trunc', [arg(a), str(s)], two(M.trunc, a, s), tag='directed')
    big = Num(EX.subtract(pow10(131072), Decimal(1)), 0)
    for s in (-1, -4, 0, 2000, -2147483648, 2147483647):
        yield C('round', [arg(big), str(s)], two(M.round_, big, s), ok=(M.OVF,), tag='directed')
    for v in ('0', '0.000', '5', '-0.5', '1e-100', '1e-9000', '-9999.9999', '99995e60', '7e-16383', '1e131071'):
        for s in (-2147483648, -2147483645, -2147483641, 2147483647, 2147483644, 2147483640, -1000, -1001, 1000, 1001):
            a = nm(v)
            yield C('round', [arg(a), str(s)], two(M.round_, a, s), ok=(M.OVF,), tag='directed')
            yield C('trunc', [arg(a), str(s)], two(M.trunc, a, s), tag='directed')
    for v in (Decimal('0.5'), Decimal('0.0001'), Decimal('0.9999')):
        top = EX.add(EX.subtract(pow10(131072), Decimal(1)), v)
        for w in (top, -top):
            a = Num(w, 4)
            yield un('ceil', M.ceil, a, ok=(M.OVF,))
            yield un('floor', M.floor, a, ok=(M.OVF,))
            for s in (0, 1, 3, 4):
                yield C('round', [arg(a), str(s)], two(M.round_, a, s), ok=(M.OVF,), tag='directed')
            yield C('trunc', [arg(a), '0'], two(M.trunc, a, 0), tag='directed')


def d_C08():
    for p, s in ((5, 2), (1, 0), (1000, 1000)):
        yield C('typmod', [arg(N.NAN), '%d,%d' % (p, s)], ['V0', N.NAN], tag='directed')
    for v in ('0.5', '0.4', '0.9999', '0.00049', '0.9995'):
        a = Num(EX.add(EX.subtract(pow10(131072), Decimal(1)), Decimal(v)), 5)
        for a in (a, Num(-a.val, 7)):
            for p, s in ((1000, 0), (5, 0), (1000, 3), (1000, 4), (1000, 1000)):
                yield C('typmod', [arg(a), '%d,%d' % (p, s)], j_typmod(a, p, s), tag='directed')


def hist(x, steps):
    """steps: (text, value afterwards, flag)"""
    exp, y = [], x
    for s in steps:
        op, _, k = s.partition(':')
        flag = None
        if op == 'typmod':
            p, q = map(int, k.split(','))
            flag, e = M.typmod(y, p, q)
        elif op == 'to':
            flag, e = ('to', k, y), y
        elif op in ('round', 'trunc'):
            e = (M.round_ if op == 'round' else M.trunc)(y, int(k))
        else:
            e = {'inc': M.inc, 'neg': M.neg, 'negv': M.neg, 'negn': M.neg, 'abs': M.abs_, 'ceil': M.ceil, 'floor': M.floor, 'addself': M.add, 'mulself': M.mul}.get(op, lambda *a: y)
            e = e(y, y) if op[3:] == 'self' else e(y)
            if e is M.NONE:
                e = M.OVERFLOW_PANIC
        exp.append((flag, e))
        if type(e) is not M.Panic:
            y = e
    return C('hist', [arg(x), ';'.join(steps)], j_hist(x, steps, exp), nt=True, ok=None, tag='directed')


def d_C24():
    top = EX.add(EX.subtract(pow10(131072), Decimal(1)), Decimal('0.5'))
    for v in (top, -top):
        a = Num(v, 1)
        yield hist(a, ['round:0', 'neg', 'typmod:9,0', 'abs', 'floor', 'own', 'ceil', 'trunc:0', 'neg', 'inc', 'round:-1', 'addself', 'typmod:1000,1'])
    # a leading digit made by rounding, then every way to use the value up
    for v, d in (('0.00009999', 4), ('0.00009999', 7), ('-0.000000009999999', 12), ('9999.99999', 4), ('-99999999.9999', 3), ('0.99999', 4), ('9999', -4), ('0.0000999999999', 5)):
        for ds in (0, 70):
            x = nm(v)
            x = Num(x.val, x.dscale + ds)
            for u in ('to:i8', 'to:u64', 'to:i128', 'to:f64', 'trunc:2', 'trunc:-3', 'abs', 'neg', 'negv', 'negn', 'own', 'cow', 'clone', 'clonefrom', 'swapfork', 'round:2', 'typmod:9,1', 'ceil', 'floor', 'inc', 'mulself', 'reparse', 'json', 'bin'):
                yield hist(x, ['round:%d' % d, u, 'neg', 'round:%d' % (d - 4), u, 'to:i64'])


def d_C12():
    for t in ('f32', 'f64'):
        for s in ('1e400', '-1e400', '1e131071', '3.4028235677973366e38', '3.4028235677973365e38', '1e39', '1e-46', '7.0064923216240854e-46', '1e-324', '2e-324', '2.4703282292062328e-324', '1e-400', '5e-16383',
                  '0.500000029802322387695312500000000000000000001', '1.000000178813934326171875000000001', '1.00000017881393432617187499', '9007199254740993', '9007199254740992.99999', '0', '0.000', 'NaN',
                  '1.08205438282034e-308', '1.7976931348623158e308', '1.7976931348623159e308', '1.79769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880e308'):
            a = nm(s)
            yield C('toint', [arg(a), t], j_tofloat(a, t), tag='directed')


    # the midpoint above every power of two, and just beside it
    for t, mant, lo, hi in (('f64', 52, -1074, 1023), ('f32', 23, -149, 127)):
        for e in range(lo, hi + 1):
            u = max(e - mant, lo)
            for k in (0, 1, 2):
                m = EX.add(two_to(e), EX.multiply(two_to(u - 1), Decimal(2 * k + 1))) if k < 2 else EX.subtract(two_to(e), two_to(max(e - 1 - mant, lo) - 1))
                tail = pow10(-1090)
                for v in (m, EX.add(m, tail), EX.subtract(m, tail)):
                    if t == 'f64' and e % 7 and v is not m:
                        continue
                    a = Num(v, max(0, -v.normalize(RD).as_tuple().exponent))
                    yield C('toint', [arg(a), t], j_tofloat(a, t), tag='directed')


def two_to(e):
    return EX.power(Decimal(2), e) if e >= 0 else EX.multiply(EX.power(Decimal(5), -e), pow10(e))


def d_C15():
    z = N.image
    for b in (b'', b'\0', b'\0' * 4, b'\0' * 6, b'\x18\0\0\0\0\x80', b'\x18\0\0\0\0\xc0', b'\x18\0\0\0\xff\xff', b'\x18\0\0\0\0\0', b'\x1c\0\0\0\0\0\0', b'\x20\0\0\0\0\0\0\0', b'\x20\0\0\0\0\x40\0\0',
              b'\x18\0\0\0\0\xa0', b'\x20\0\0\0\0\x80\x10\x27', b'\x20\0\0\0\0\x80\x0f\x27', b'\x20\0\0\0\0\x80\xff\xff', b'\x20\0\0\0\0\x80\0\0', b'\x1c\0\0\0\0\x80\x01', b'\xff\xff\xff\xff\0\x80\1\0',
              b'\0\0\0\0\0\x80\1\0', b'\x04\0\0\0\0\x80\1\0', b'\x21\0\0\0\0\x80\1\0'):
        if N.BE and len(b) >= 4:
            b = N.varlen(b[4:]) if b[0] == len(b) * 4 else b
        for off in (0, 1):
            yield C('debin', [bincode_bytes(b).hex(), str(off)], j_debin(b), tag='directed')


def d_C16():
    for s in ('1e-2001', '1e-2002', '2.5e-2001', '1e-2010', '1e-5000', '3e-16383', '1e-16382', '0', '0.00', '1', '2', '4', '1e131071', '9999', '99980001', '0.25', '1e-1000'):
        yield un('sqrt', M.sqrt, nm(s))
    yield un('sqrt', M.sqrt, N.NAN)
    yield un('sqrt', M.sqrt, nm('-1e-10'), ok=('cannot take square root',))


def d_C17():
    one = Decimal(1)
    for s in ('10', '2', '0.9', '1.1', '1', '1.000', '1e131071', '1e-16383', '1e65536', '7e-9000', '0.1', '1e-1'):
        yield un('ln', M.ln, nm(s))
        yield un('log2', lambda a: M.log(a, Num(Decimal(2), 0)), nm(s))
        yield un('log10', lambda a: M.log(a, Num(Decimal(10), 0)), nm(s))
    for e in (5, 500, 1001, 1030, 2000):
        n = nm(str(EX.add(one, pow10(-e))))
        yield un('ln', M.ln, n)
        yield bi('log', M.log, n, nm('7'), ok=(M.DIV0,))
        yield bi('log', M.log, nm('7'), n, ok=(M.DIV0,))
        for b in ('1.5', '0.9', '1.01', '2'):
            yield bi('log', M.log, n, nm(b))
    yield bi('log', M.log, nm('5'), nm('1.0'), ok=(M.DIV0,))
    yield bi('log', M.log, nm('1.0'), nm('5'))
    for s in ('0', '-1'):
        yield un('ln', M.ln, nm(s), ok=(M.LN0, M.LNNEG))


def d_C18():
    for s in ('0', '1', '-1', '0.01', '-0.01', '5999.9', '-5999.9', '6000', '-6000', '6001', '1e1000', '-1e1000', '2302.585092994', '-2302.585092994', '-2400', '1e-50', '-1e-1000', 'NaN', '1e-16000'):
        yield un('exp', M.exp, nm(s))


def d_C19():
    for a, b in (('1.000000000123', '2147483647'), ('1.000000000123', '-2147483648'), ('0.999999999', '-2147483648'), ('-1', '-2147483648'), ('-1', '2147483647'), ('1.00001', '1000000'),
                 ('0.99999', '-1000000'), ('12.3456789012345678901234', '1000'), ('0.12345678901234567890', '300'), ('10', '131071'), ('10', '131072'), ('0.1', '16383'), ('10', '-1000'), ('10', '-1001'),
                 ('2', '435411'), ('2', '435412'), ('-2', '435411'), ('0', '5'), ('0', '0'), ('5', '0'), ('0', '-1'), ('0', '-2'), ('3', '-1'), ('3', '1'), ('3', '2'), ('NaN', '0'), ('NaN', '3'), ('1', 'NaN'),
                 ('99999999.9999', '16'), ('1.0000000000000000000000000001', '100000'), ('123456789123456789.123456789', '37')):
        yield powc(a, b)
    for n in (-5, 0, 1, 2, 20, 21, 33, 34, 100, 1000):
        yield C('fact', [str(n)], lazy(M.factorial, n), tag='directed')
    for n in (32177, 32178, 40000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 2 ** 40, 2 ** 62, 2 ** 63 - 1, -2 ** 63):
        yield C('fact', [str(n)], lazy(M.factorial, n), tag='directed')


def d_C20():
    for a, b in (('-1', '3000000001'), ('-1', '3000000000'), ('-1.5', '3000000001'), ('-0.5', '3000000000'), ('1.5', '-7000.5'), ('1.5', '-5600.5'), ('1.5', '-6000.25'), ('0.5', '5000.5'), ('0.5', '3400.5'), ('0.5', '8000.5'), ('2', '0.5'),
                 ('2', '-0.5'), ('0', '0.5'), ('0', '3000000000'), ('0', '-0.5'), ('-2', '0.5'), ('1', '0.5'), ('1.000', '1e20'), ('1e100', '0.001'), ('1e-100', '0.001'), ('1e131071', '0.00001'), ('1e-16383', '0.0001'),
                 ('1.0000001', '1e10'), ('1.0000001', '-1e10'), ('-1.0000000001', '1e11'), ('-1.0000000001', '100000000001'), ('NaN', '0'), ('NaN', '0.5'), ('1', 'NaN'), ('2', 'NaN'), ('123456789', '1e-100')):
        yield powc(a, b)
    for e, k in ((1010, 1012), (1200, 1201), (900, 902)):
        yield bi('pow', M.pow_, nm(str(EX.add(Decimal(1), pow10(-e)))), Num(pow10(k), 0))
        yield bi('pow', M.pow_, nm(str(EX.subtract(Decimal(1), pow10(-e)))), Num(pow10(k), 0))


def d_C30():
    """the same call more often than a 16-bit counter can count"""
    g = Gen(30)
    r = g.r
    done = 0
    for k in range(24):
        c = None
        while c is None:
            a, b = (Num(Decimal(r.randint(10 ** 6, 10 ** 9)).scaleb(-4, EX), 4) for _ in range(2))
            if k in (4, 9, 10):
                a, b = nm('1.2345'), nm('3.7')
            c = cases.op_case(a, b, r, k)
        times = 12000 if c.op in ('ln', 'log', 'log2', 'log10') else 70000 if c.op in ('exp', 'pow', 'sqrt', 'fact') else 300000
        yield C('soak', [str(times), c.op] + c.args, c.exp, ok=c.ok, tag='soak')
    a, b = nm('-1234.5678'), nm('987654.321')
    for c in (cases.op_case(nm('99.5'), nm('0.25'), r, 9), hist(a, ['round:2', 'neg', 'abs', 'to:i64', 'clone', 'trunc:1', 'typmod:9,1', 'inc']),
              C('toint', [arg(b), 'f64'], j_tofloat(b, 'f64')), C('fromf64', ['%x' % struct.unpack('<Q', struct.pack('<d', 1234.5678))[0]], [nm('1234.5678')])):
        if c is not None:
            yield C('soak', [str(70000 if c.op == 'pow' else 300000), c.op] + c.args, c.exp, ok=c.ok, tag='soak')


def of(prop):
    """a property's own fixed cases; the properties about all operations take everyone's"""
    if prop in DIRECTED:
        yield from DIRECTED[prop]()
    if prop in WRAP:
        for p, fn in DIRECTED.items():
            for k, c in enumerate(fn()):
                if p == 'C30' or p == 'C12' and k % 25:
                    continue
                if p == 'C15' and prop == 'C13':
                    continue
                if c.op == 'fact' and c.args == ['32177'] and prop == 'C25':
                    continue
                yield WRAP[prop](c)


DIRECTED = {k[2:]: v for k, v in list(globals().items()) if k[:2] == 'd_'}

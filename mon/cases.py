"""Case generators, one per property: what to run and what must be observed."""
import decimal, math, struct
from decimal import Decimal
from . import num as N
from .num import *
from . import model as M
from .model import Panic, OVF, DIV0
from .gen import Gen


class C:
    """op and arguments; exp: list of expected fields (None = not judged) or a callable fields -> message;
    ok: panic messages that are documented for this case; nt: non-trivial by the property's rule"""
    __slots__ = ('op', 'args', 'exp', 'ok', 'nt', 'tag')

    def __init__(self, op, args, exp=None, ok=(), nt=True, tag=''):
        self.op, self.args, self.exp, self.ok, self.nt, self.tag = op, args, exp, ok, nt, tag

    def line(self):
        return '\t'.join([self.op] + self.args)


def hx(s):
    return s.encode('utf-8').hex() if isinstance(s, str) else s.hex()


def arg(n, r=None):
    """operand, sometimes stored long where short would do, or at an odd address"""
    img = n.img
    if r is not None:
        if not n.nan and r.random() < 0.12:
            w, d = n.weight_digits()
            img = image(n.val < 0, w, d, n.dscale, form='long')
        if n.nan and r.random() < 0.3:
            img = nan_image(r.randint(0, 0x3fff))
        if r.random() < 0.12:
            return '@%d%s' % (r.randint(1, 7), img.hex())
    return '#' + img.hex()


def args2(a, b, r):
    """two operands; one number may be one object in both places"""
    return [arg(a, r), '=0' if a is b else arg(b, r)]


def lazy(fn, *a):
    """expectation computed when judged"""
    def j(fields):
        e = fn(*a)
        if len(fields) != 1:
            return 'unexpected output %r' % (fields,)
        return M.judge(e, fields[0])
    return j


def judge_list(exp, fields):
    if len(fields) != len(exp):
        return 'unexpected output %s' % [M.show_out(f) for f in fields]
    for i, (e, f) in enumerate(zip(exp, fields)):
        if e is None:
            continue
        m = M.judge(e, f)
        if m:
            return (('field %d: ' % i) if len(exp) > 1 else '') + m
    return None


def judge_case(c, fields):
    if callable(c.exp):
        return c.exp(fields)
    return judge_list(c.exp, fields)


def T(s):
    return 'T' + hx(s)


def simple(n):
    return n.nan or (len(n.digits) <= 2)


# ---- C01 parsing -------------------------------------------------------------------------------

import re
WS = ' \t\n\x0c\r'
RX = re.compile(r'([+-]?)(?:(\d+)(?:\.(\d*))?|\.(\d+))(?:[eE]([+-]?)(\d+))?\Z', re.A)
RXP = re.compile(r'([+-]?)(?:(\d+)(?:\.(\d*))?|\.(\d+))[eE]([+-]?)(\d+)', re.A)


def parse_model(s):
    """set of acceptable outcomes: Num or error field"""
    t = s.strip(WS)
    if not t:
        return ['Eempty']
    if t.lower() == 'nan' and t.isascii():
        return [N.NAN]
    m = RX.match(t)
    if not m:
        # malformed; a huge exponent before the malformed part may be noticed first
        p = RXP.match(t)
        if p and big_exp(p.group(6)):
            return ['Einvalid', 'Eoverflow']
        return ['Einvalid']
    sign, ip, fp, fp2, es, ed = m.groups()
    ip = ip or ''
    f = fp if fp is not None else (fp2 or '')
    e = 0
    if ed:
        if big_exp(ed):
            return ['Eoverflow']
        e = int(ed) * (-1 if es == '-' else 1)
    ds = max(0, len(f) - e)
    if ds > 16383:
        return ['Eoverflow']
    digs = (ip + f).lstrip('0')
    if not digs:
        return [Num(ZERO, ds)]
    mag = len(digs) - len(f) + e        # value < 10^mag, >= 10^(mag-1)
    if mag - 1 >= 131072:
        return ['Eoverflow']
    v = Decimal(digs).scaleb(e - len(f), EX)
    return [Num(-v if sign == '-' else v, ds)]


def big_exp(d):
    d = d.lstrip('0')
    return len(d) > 10 or (d != '' and int(d) >= 0x3fffffff)


def judge_parse(s):
    def j(fields):
        es = parse_model(s)
        ms = [judge_list([e], fields) for e in es]
        return None if None in ms else ms[0]
    return j


def pcase(s, tag='', nt=True):
    return C('parse', [hx(s)], judge_parse(s), nt=nt, tag=tag)


JUNK = ['', ' ', '.', '-', '+', 'e', 'E', '0', '00', '1', '9', 'x', 'N', 'n', 'a', 'A', '\t', '\n', '\r', '\x0b', '\x0c', '\xa0',
        '\u3000', '\u0661', '\uff11', '_', ',', '\0', '/', ':', 'inf', 'Infinity', 'nan', '0x1', '--', '1.', '.1', 'e5', 'e-5', 'e+', '1e', "'", '\u2212']


def gen_digits(r, n):
    k = r.randrange(5)
    if k == 0:
        return '0' * n
    if k == 1:
        return '9' * n
    if k == 2:
        return '0' * (n // 2) + ''.join(r.choice('0123456789') for _ in range(n - n // 2))
    if k == 3:
        return ''.join(r.choice('0123456789') for _ in range(n - n // 2)) + '0' * (n // 2)
    return ''.join(r.choice('0123456789') for _ in range(n))


def gen_literal(r):
    ni = r.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 17, 40, 121, 125, 130, 256))
    nf = r.choice((0, 0, 0, 1, 2, 3, 4, 5, 8, 9, 16, 31, 64, 100))
    s = r.choice(('', '', '', '-', '-', '+'))
    s += gen_digits(r, ni)
    if nf or r.random() < 0.2 or not ni:
        s += '.' + gen_digits(r, nf)
    if r.random() < 0.45:
        k = r.randrange(8)
        if k < 4:
            e = r.randint(0, 40)
        elif k == 4:
            e = r.randint(0, 400)
        elif k == 5:
            e = r.choice((131071, 131072, 131073, 131070, 131068, 131069, 131060)) - r.choice((0, ni, ni, ni - 1, ni + 1))
        elif k == 6:
            e = r.choice((16383, 16384, 16382, 16380, 16379)) + r.choice((0, -nf, -nf, -nf + 1, -nf - 1))
        else:
            e = r.choice((1 << 30, (1 << 30) - 1, (1 << 30) - 2, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 33, 99999999999, 9999999999, 10 ** 10, 10 ** 20, 200000, 10 ** 6, 10 ** 9))
        e = max(0, e)
        sg = r.choice(('', '+', '-', '-')) if k != 6 else '-'
        if k == 5:
            sg = r.choice(('', '+'))
        s += r.choice('eE') + sg + '0' * r.choice((0, 0, 0, 1, 3, 12)) + str(e)
    return s


def gen_C01(g, n):
    r = g.r
    for _ in range(n):
        x = r.random()
        if x < 0.62:
            s = gen_literal(r)
            tag = 'literal'
            if r.random() < 0.2:
                s = r.choice(WS) * r.randint(0, 3) + s + r.choice(WS) * r.randint(0, 3)
                tag = 'spaced'
        elif x < 0.86:
            s = gen_literal(r)
            for _ in range(r.randint(1, 2)):
                i = r.randint(0, len(s))
                j = i + r.choice((0, 0, 1))
                s = s[:i] + r.choice(JUNK) + s[j:]
            tag = 'mutated'
        elif x < 0.90:
            s = ''.join(r.choice(JUNK) for _ in range(r.randint(0, 5)))
            tag = 'junk'
        elif x < 0.93:
            s = r.choice(('nan', 'NaN', 'NAN', 'nAn', 'naN', 'Nan', 'nanx', 'na', 'n', '-nan', '+NaN', 'NaN1', 'nan nan', 'nan.', 'N aN', 'NaN\0', 'na\u0274'))
            s = r.choice(('', ' ', '\t\n')) + s + r.choice(('', ' ', '\r', '\x0b'))
            tag = 'nan'
        elif x < 0.97:
            s = M.text_of(g.num(nan=0))
            tag = 'text'
        elif x < 0.985:
            # long runs
            k = r.choice((1000, 4000, 16383, 16384, 16390, 20000))
            s = r.choice(('0.' + '0' * k + '7', '0' * k + '12', '1' + '0' * k, '0' * k, '0.' + '0' * k, '.' + '9' * k, '9' * k + '.5'))
            if r.random() < 0.3:
                s += 'e' + str(r.choice((5, -5, k, -k, k - 1, 16383)))
            tag = 'long'
        elif r.random() < 0.3:
            k = r.choice((131071, 131072, 131073, 131076, 140000))
            z = r.choice((0, 0, 9, 20000))
            s = '0' * z + r.choice('19') * k + r.choice(('', '.5'))
            tag = 'huge'
        else:
            s = '0' * r.choice((1, 5)) + r.choice(('e', 'E')) + r.choice(('131072', '131075', '1000000', '536870911', '1073741822', '-16383', '-16384'))
            tag = 'zero'
        yield pcase(s, tag, nt=len(s.strip()) > 3)


# ---- C02, C21, C22, C14 ------------------------------------------------------------------------

def shaped(g, r, extreme=0.01):
    return g.extreme() if r.random() < extreme else g.num(nan=0.01)


def gen_C02(g, n):
    r = g.r
    for _ in range(n):
        a = shaped(g, r)
        if r.random() < 0.15:
            a = g.plain()
        t = M.text_of(a)
        yield C('text', [arg(a, r)], [T(t), 'B' + a.img.hex(), a], nt=not simple(a), tag='nan' if a.nan else '')


def gen_C21(g, n):
    r = g.r
    for _ in range(n):
        x = r.random()
        if x < 0.02:
            a = g.extreme()
        elif x < 0.12:
            # powers of ten and near, exponents over the whole range
            e = r.choice((r.randint(-1100, 1100), r.randint(-30, 30), r.randint(-16383, 131071) if r.random() < 0.15 else 999, -1000, -1001, 1000, 99, 100, -99, -100, -10, 9, 10))
            v = Decimal((r.randint(0, 1), (r.randint(1, 9),), e))
            a = Num(v, min(16383, max(0, -e) + g.extra()))
            if not M.fits(v, max(0, -e)):
                a = g.num()
        else:
            a = g.num()
        low = M.sci(a)
        # re-reading gives an equal value; the display scale may differ
        def j(fields, a=a, low=low):
            if len(fields) != 3:
                return 'unexpected output %s' % [M.show_out(f) for f in fields]
            m = judge_list([T(low), T(M.sci(a, 'E'))], fields[:2])
            if m:
                return m
            f = fields[2]
            if a.nan:
                return M.judge(NAN, f)
            if f[:1] != 'B':
                e = parse_model(low)
                return None if f in e else 'parsing %r back gave %s' % (low[:80], f)
            b = decode(bytes.fromhex(f[1:]))
            return None if not b.nan and b.val == a.val else 'parsing %r back gave %r' % (low[:80], b)
        yield C('sci', [arg(a, r)], j, nt=not a.nan and bool(a.val) and a.val.normalize(RD).as_tuple().exponent != 0)


def pred_field(a):
    return 'Q%d%d%d%s' % (a.nan, (not a.nan and a.val < 0), (not a.nan and a.val >= 0), 'None' if a.nan else 'Some(%d)' % a.dscale)


def nan_case(g, r):
    """NaN as an operand of any operation"""
    b = r.choice((g.num(nan=0), g.plain(), NAN, Num(Decimal(r.choice((0, 1, -1, 2))), r.choice((0, 3, 70)))))
    x, y = (NAN, b) if r.random() < 0.5 else (b, NAN)
    k = r.randrange(10)
    if k < 2:
        op, fn = r.choice(UNARY)
        return C(op, [arg(NAN, r)], lazy(fn, NAN), tag='nan ' + op)
    if k == 2:
        if x is b and not b.nan and b.val <= 0 or y is b and not b.nan and b.val <= 0:
            b = NAN
            x = y = b
        return C('log', [arg(x, r), arg(y, r)], lazy(M.log, x, y), ok=LOGP, tag='nan log')
    if k == 3:
        return C('pow', [arg(x, r), arg(y, r)], lazy(M.pow_, x, y), tag='nan pow')
    if k < 6:
        op = r.choice(('add', 'sub', 'mul', 'div', 'dtrunc', 'rem'))
        return bin_case(op, x, y, r, 'nan ' + op)
    if k == 6:
        s = r.choice((0, 2, -3, 100, r.randint(-2 ** 31, 2 ** 31 - 1)))
        op = r.choice(('round', 'trunc'))
        return C(op, [arg(NAN, r), str(s)], two(M.round_ if op == 'round' else M.trunc, NAN, s), tag='nan ' + op)
    if k == 7:
        p, s = r.choice(((10, 2), (5, 5), (1000, 0), (1, 1)))
        return C('typmod', [arg(NAN, r), '%d,%d' % (p, s)], j_typmod(NAN, p, s), tag='nan typmod')
    if k == 8:
        t = r.choice(list(M.INT))
        return C('toint', [arg(NAN, r), t], lazy(M.toint, NAN, t), tag='nan toint')
    return C('text', [arg(NAN, r)], [T(M.text_of(NAN)), 'B' + NAN.img.hex(), NAN], tag='nan text')


def gen_C22(g, n):
    r = g.r
    for _ in range(n):
        if r.random() < 0.05:
            yield nan_case(g, r)
            continue
        x = r.random()
        a = g.extreme() if x < 0.01 else g.num(nan=0.02)
        if x > 0.9:
            # carries of inc: ...9999.xxx and -1.xxx, -0.xxx
            k = r.randint(1, 6)
            v = Decimal('9' * r.choice((4 * k, 4 * k - 1, k))) + Decimal(r.randint(0, 9999)).scaleb(-r.choice((0, 0, 4, 7)), EX)
            v = r.choice((v, -v, Decimal(-1), Decimal('-0.5'), EX.subtract(Decimal(-1), Decimal(r.randint(0, 99)).scaleb(-r.randint(1, 9), EX))))
            a = Num(v, fit_dscale(v) + r.choice((0, 0, 2)))
        exp = [M.neg(a), M.abs_(a), M.signum(a), M.inc(a), M.neg(a), M.abs_(a), pred_field(a)]
        yield C('sign', [arg(a, r)], exp, nt=not simple(a) or a.nan or not a.val, ok=(OVF,))


def gen_C14(g, n):
    r = g.r
    for _ in range(n):
        x = r.random()
        a = g.extreme() if x < 0.01 else g.num(nan=0.04)
        if x > 0.95:
            a = Num(ZERO, r.choice((0, 1, 2, 31, 32, 62, 63, 64, 65, 1000, 8191, 16383)))
        if a.nan:
            img = nan_image(r.choice((0, 0, 1, 0x2000, 0x3fff, r.randint(0, 0x3fff))))
        else:
            w, d = a.weight_digits()
            short = a.dscale <= 63 and -64 <= w <= 63
            img = image(a.val < 0, w, d, a.dscale, form='long' if not short or r.random() < 0.45 else None)
        off = r.randint(0, 7)
        hexi = img.hex()
        rawtext = M.text_of(a)
        yield C('image', ['@%d%s' % (off, hexi)], j14(a, hexi, rawtext), nt=off != 0 or a.nan or not a.val or len(a.digits) > 1,
                tag='nan' if a.nan else ('zero' if not a.val else ('long' if not (img[5] & 0x80) else 'short')))


def j14(a, hexi, rawtext):
    def j(f):
        exp = [pred_field(a), 'B' + hexi, a, T(rawtext), M.add(a, Num(ZERO, 0)), M.sub(Num(ZERO, 0), a), M.neg(a), M.trunc(a, 0),
               T(M.normalize(a)), '11', T('')]
        return judge_list(exp, f)
    return j


# ---- arithmetic --------------------------------------------------------------------------------

OPS = {'add': M.add, 'sub': M.sub, 'mul': M.mul, 'div': M.div, 'dtrunc': M.dtrunc, 'rem': M.rem}


def bin_case(op, a, b, r, tag=''):
    return C(op, args2(a, b, r), lazy(OPS[op], a, b), nt=not (simple(a) and simple(b)), tag=tag)


def add_pair(g, r):
    x = r.random()
    if x < 0.85:
        return g.pair()
    if x < 0.93:
        # far apart weights
        a = g.num(nan=0)
        b = g.num(nan=0)
        sh = r.choice((4, 8, 40, 200, 256, 260)) * r.choice((1, -1))
        v = b.val.scaleb(sh, EX) if b.val else ZERO
        ds = fit_dscale(v)
        return a, Num(v, ds) if M.fits(v, ds) else b
    if x < 0.98:
        # carry through a run of nines, borrow through a run of zeros
        k = r.randint(1, 12)
        w = r.randint(0, k)
        a = g.make(False, w, [9999] * k, 0)
        b = Num(Decimal((r.randint(0, 1), (1,), -r.randint(0, 4 * k))), 0)
        b = Num(b.val, fit_dscale(b.val))
        if r.random() < 0.5:
            a = g.make(r.random() < 0.5, k, [1] + [0] * r.randint(0, k) + [r.randint(0, 1)], 0)
        return a, b
    a = g.extreme()
    return (a, g.extreme()) if r.random() < 0.5 else (g.num(), a)


def overflow_pair(g, r):
    """sums close to 10^131072"""
    nd = r.randint(1, 6)
    a = g.make(False, 32767, [9999] * nd, 0)
    unit = 4 * (32767 - nd + 1)
    b = Num(Decimal(r.choice((1, 1, 9, 10, 9999, 10000))).scaleb(unit - r.choice((0, 0, 1, 4)), EX), 0)
    if not M.fits(b.val, b.dscale) or b.val != b.val.to_integral_value():
        return a, a
    if r.random() < 0.5:
        a, b = M.neg(a), M.neg(b)
    return a, b


def gen_C03(g, n):
    r = g.r
    for _ in range(n):
        if r.random() < 0.02:
            a, b = overflow_pair(g, r)
            op = r.choice(('add', 'sub'))
            if op == 'sub':
                b = M.neg(b)
            tag = 'limit'
        else:
            a, b = add_pair(g, r)
            op = r.choice(('add', 'sub'))
            tag = ''
        yield bin_case(op, a, b, r, tag)


def mul_pair(g, r):
    x = r.random()
    if x < 0.75:
        return g.pair()
    if x < 0.95:
        return g.dense(r.randint(2, 60)), g.dense(r.randint(2, 60))
    if x < 0.97:
        # weights adding up to the limit
        w = r.randint(0, 32767)
        a = g.make(r.random() < 0.5, w, g.digit_list(r.randint(1, 3)), 0)
        b = g.make(r.random() < 0.5, max(0, min(32767, 32767 - w - r.choice((0, 0, 1, 1, 2)))), g.digit_list(r.randint(1, 3)), 0)
        return a, b
    if x < 0.985:
        # scales adding up to the limit
        s = r.randint(0, 16383)
        t = max(0, min(16383, 16383 - s + r.choice((-1, 0, 1, 2))))
        a = Num(Decimal(r.randint(0, 99)), s)
        b = Num(Decimal(r.choice((0, 1, r.randint(0, 10 ** 9)))), t)
        return a, b
    return g.extreme(), g.num()


def gen_C04(g, n):
    r = g.r
    for i in range(n):
        a, b = mul_pair(g, r)
        if i % 400 == 399:
            # many columns: deferred carries must not overflow
            k = r.choice((214, 215, 216, 430, 500, 800, 1200))
            a = g.make(False, r.randint(0, k), [9999] * k, 0)
            b = g.make(True, r.randint(0, k), [9999] * r.choice((k, k, k // 2)), 0)
        yield bin_case('mul', a, b, r)


def div_pair(g, r):
    x = r.random()
    if x < 0.80:
        return g.divpair()
    if x < 0.86:
        # an exact tie at the selected scale: scale of the dividend decides
        s = r.randint(16, 60)
        v = Decimal(r.randint(1, 10 ** r.randint(1, 30)) | 1).scaleb(-s, EX)
        z = r.choice((2, 20, 200, 2000, 20000, 2 * 10 ** 8, 4, 8, 5, 50, 500))
        return Num(v if r.random() < 0.5 else -v, s), Num(Decimal(z), 0)
    if x < 0.92:
        # the quotient's first digit decides the scale
        n = r.randint(1, 4)
        d = g.digit_list(n)
        d[0] = max(1, d[0])
        e = [max(1, min(9999, d[0] + r.choice((-1, 0, 0, 1))))] + g.digit_list(n)
        return g.make(r.random() < 0.5, r.randint(-6, 6), d), g.make(r.random() < 0.5, r.randint(-6, 6), e)
    if x < 0.97:
        return g.dense(r.randint(1, 100)), g.dense(r.randint(1, 60))
    if x < 0.98:
        return g.num(), Num(ZERO, r.choice((0, 3, 70)))
    if x < 0.99:
        b = g.num(nan=0)
        return Num(ZERO, r.choice((0, 3, 70))), b
    return g.num(big=1.0), g.num(big=1.0)


def far_div(g, r):
    """quotients near the top and the bottom of the range"""
    k = r.randrange(4)
    if k == 0:
        a = g.make(r.random() < 0.5, r.randint(32700, 32767), g.digit_list(2), 0)
        b = g.make(r.random() < 0.5, -r.randint(0, 80), [r.randint(1, 9999)], 0)
    elif k == 1:
        a = g.make(r.random() < 0.5, -r.randint(0, 4000), [r.randint(1, 9999)], 0)
        b = g.make(r.random() < 0.5, r.randint(0, 32767), g.digit_list(2), 0)
    elif k == 2:
        a = Num(Decimal(r.randint(1, 10 ** 6)), r.choice((999, 1000, 1001, 16383)))
        b = Num(Decimal(r.randint(1, 10 ** 6)), r.choice((0, 999, 1001)))
    else:
        a, b = g.num(), g.make(False, r.choice((-260, -300, 249, 250, 251)), g.digit_list(3), 0)
    return a, b


def gen_C05(g, n):
    r = g.r
    for i in range(n):
        a, b = far_div(g, r) if i % 60 == 59 else div_pair(g, r)
        yield bin_case('div', a, b, r, 'zero divisor' if not b.nan and not b.val else '')


def gen_C06(g, n):
    r = g.r
    for i in range(n):
        a, b = div_pair(g, r)
        if i % 10 == 9:
            # a large quotient
            a = g.dense(r.randint(10, 60), r.randint(10, 100))
        if i % 200 == 199:
            a, b = far_div(g, r)
        yield bin_case(r.choice(('dtrunc', 'rem')), a, b, r, 'zero divisor' if not b.nan and not b.val else '')


# ---- rounding ----------------------------------------------------------------------------------

def tied(g, r):
    """(number, scale) with the number at or next to a rounding boundary of the scale"""
    s = r.choice((r.randint(-12, 24), r.randint(-40, 80)))
    hi = g.num(nan=0, wide=False)
    if r.random() < g.broad_p:
        hi = g.broad()
        s = int(2 ** r.uniform(3, 9.96)) * r.choice((1, 1, -1))
    v = M.quant(hi.val, s, decimal.ROUND_DOWN)
    if r.random() < 0.25:
        v = EX.subtract(pow10(r.randint(-s, -s + (14 if r.random() < 0.97 else 1500))), pow10(-s))
    half = Decimal((0, (5,), -s - 1))
    k = r.randrange(6)
    if k == 0:
        t = half
    elif k == 1:
        t = EX.subtract(half, pow10(-s - 1 - r.randint(1, 12)))
    elif k == 2:
        t = EX.add(half, pow10(-s - 1 - r.randint(1, 12)))
    elif k == 3:
        t = EX.subtract(pow10(-s), pow10(-s - r.randint(1, 12)))
    elif k == 4:
        t = pow10(-s - r.randint(1, 12))
    else:
        t = ZERO
    v = EX.add(abs(v), t)
    if r.random() < 0.5 and v:
        v = -v
    ds = fit_dscale(v) + r.choice((0, 0, 0, 1, 5))
    return Num(v if v else ZERO, ds), s


def round_arg(g, r):
    x = r.random()
    if x < 0.6:
        return tied(g, r)
    if x < 0.62:
        a = g.extreme()
        return a, r.choice((0, -1, -4, 1, 1000, -1000, 16383, 4, r.randint(-1000, 1000)))
    a = g.num(nan=0.01)
    k = r.randrange(7)
    if k == 0:
        s = r.choice((1000, 1001, -1000, -1001, 2000, -2000, 2147483647, -2147483648, 999, -999, -2147483648 + r.randint(0, 40), 2147483647 - r.randint(0, 40), r.randint(-2 ** 31, 2 ** 31 - 1)))
    elif k == 1:
        s = r.choice((0, 63, 64, -1, 1))
    elif not a.nan and a.val and k < 5:
        # around the first or the last digit
        s = r.choice((-4 * a.weight, -a.val.adjusted(), a.dscale)) + r.randint(-5, 5)
    else:
        s = r.randint(-30, 60)
    return a, s


def gen_C07(g, n):
    r = g.r
    for i in range(n):
        a, s = round_arg(g, r)
        k = r.randrange(4)
        nt = not a.nan and a.dscale > 0
        if k == 0:
            yield C('round', [arg(a, r), str(s)], two(M.round_, a, s), ok=(OVF,), nt=not a.nan, tag='round')
        elif k == 1:
            yield C('trunc', [arg(a, r), str(s)], two(M.trunc, a, s), nt=not a.nan, tag='trunc')
        else:
            if r.random() < 0.5:
                a, _ = tied_int(g, r)
            op = 'ceil' if k == 2 else 'floor'
            yield C(op, [arg(a, r)], lazy(M.ceil if k == 2 else M.floor, a), ok=(OVF,), nt=nt, tag=op)


def tied_int(g, r):
    k = r.choice((0, 1, 3, 4, 5, 8, 12, 16, 20))
    if r.random() < g.broad_p:
        k = int(2 ** r.uniform(4, 14))
    v = r.choice((EX.subtract(pow10(k), 1), pow10(k), Decimal(r.randint(0, 10 ** min(k, 4000))), EX.multiply(9999, pow10(k))))
    f = r.choice((ZERO, pow10(-r.randint(1, 30)), EX.subtract(Decimal(1), pow10(-r.randint(1, 30))), Decimal('0.5')))
    v = EX.add(v, f)
    if r.random() < 0.5 and v:
        v = -v
    return Num(v if v else ZERO, fit_dscale(v) + r.choice((0, 0, 3))), 0


def two(fn, a, s):
    def j(fields):
        e = fn(a, s)
        return judge_list([e, e], fields)
    return j


def gen_C08(g, n):
    r = g.r
    for i in range(n):
        if i % 8 == 0:
            p = r.choice((0, 1, 2, 999, 1000, 1001, -1, -2147483648, 2147483647, 65536, 65537, r.randint(1, 1000)))
            s = r.choice((0, 1, p, p - 1, p + 1, -1, 1000, 1001, 65536, r.randint(0, 1000)))
            s = max(-2 ** 31, min(2 ** 31 - 1, s))
            yield C('mktypmod', [str(p), str(s)], j_mktypmod(p, s), tag='make')
            continue
        x = r.random()
        if x < 0.03:
            a = g.num(nan=0.1)
            yield C('typmod', [arg(a, r), 'default'], ['V0', a], tag='default')
            continue
        if x < 0.06:
            p = r.randint(1, 1000)
            s = r.randint(0, p)
            yield C('typmod', [arg(NAN, r), '%d,%d' % (p, s)], ['V0', NAN], tag='nan')
            continue
        if x < 0.10:
            p = r.randint(1, 1000)
            s = r.randint(0, p)
            a = g.extreme()
        elif x < 0.55:
            a, s = tied(g, r)
            s = max(0, s)
            d = a.val.adjusted() + 1 if a.val else 1
            p = max(1, s, s + d + r.choice((-1, 0, 0, 0, 1, 2)))
        elif x < 0.85:
            # right at 10^(p-s)
            s = r.choice((0, 0, 1, 2, 3, 4, 5, 8, 12, 20, 60, 63, 64, r.randint(0, 100)))
            m = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20, r.randint(0, 80)))
            p = max(1, s + m)
            lim = pow10(p - s)
            e = r.choice((ZERO, pow10(-s), Decimal((0, (5,), -s - 1)), pow10(-s - r.randint(1, 9)), EX.add(Decimal((0, (5,), -s - 1)), pow10(-s - 9)),
                          EX.subtract(Decimal((0, (5,), -s - 1)), pow10(-s - 9))))
            v = EX.subtract(lim, e) if r.random() < 0.7 else EX.add(lim, e)
            if r.random() < 0.5 and v:
                v = -v
            a = Num(v if v else ZERO, min(16383, fit_dscale(v) + r.choice((0, 0, 2))))
        else:
            a = g.num(nan=0)
            p = r.choice((r.randint(1, 40), r.randint(1, 1000)))
            s = r.randint(0, p)
        if p > 1000:
            p, s = 1000, min(s, 1000)
        yield C('typmod', [arg(a, r), '%d,%d' % (p, s)], j_typmod(a, p, s), nt=not a.nan and bool(a.val))


def j_typmod(a, p, s):
    def j(fields):
        f, v = M.typmod(a, p, s)
        return judge_list(['V%d' % f, v], fields)
    return j


def j_mktypmod(p, s):
    def j(fields):
        if len(fields) != 3:
            return 'unexpected output %r' % (fields,)
        if fields[2] != '-1':
            return 'the default typmod is %s' % fields[2]

        def want(p, s):
            if 1 <= p <= 1000 and 0 <= s <= p:
                return '(%d, %d)' % (p, s)
            return None
        for f, w in ((fields[0], want(p, s)), (fields[1], want(p, 0))):
            if w is None:
                if f != 'N':
                    return 'typmod (%d,%d) exists: %s' % (p, s, f)
            else:
                q = f[1:].split('|')
                if f[:1] != 'M' or q[0] != w or q[1] != str(typmod_value(*map(int, w[1:-1].split(',')))) or q[2] != w or q[3] != 'true':
                    return 'typmod (%d,%d): %s' % (p, s, f)
        return None
    return j


def typmod_value(p, s):
    return ((p << 16) | s) + 4 if 1 <= p <= 1000 and 0 <= s <= p else None


def j_typmods(p):
    def j(f):
        if len(f) != 1 or f[0][:1] != 'L':
            return 'unexpected output %s' % [M.show_out(z) for z in f]
        got = f[0][1:].split(';')[:-1]
        for s, x in zip(range(-2, min(max(p, 0), 1100) + 3), got):
            v = typmod_value(p, s)
            want = 'N' if v is None else '%d,(%d, %d),(%d, %d),1' % (v, p, s, p, s)
            if x != want:
                return 'typmod (%d,%d) is %s, expected %s' % (p, s, x, want)
        return None if len(got) == min(max(p, 0), 1100) + 5 else 'incomplete'
    return j


# numbers of every length, made and judged digit by digit in the driver
LENS = {'C01': ('parse',), 'C02': ('text',), 'C03': ('add',), 'C04': ('mul', 'mul9'), 'C05': ('div', 'div9'), 'C06': ('divt', 'divt9'), 'C07': ('round',),
        'C09': ('cmp',), 'C10': ('norm',), 'C15': ('serde',), 'C16': ('sqrt9',), 'C21': ('sci',), 'C22': ('sign',)}
LENS_OF = 12


def lens_cases(kind, tier, variant, seed, i, of=LENS_OF):
    """the i-th part of the ranges of lengths for this kind"""
    top = 131071
    dev = variant != 'rel'
    if kind.endswith('9'):
        if tier == 'quick':
            full, step, last, by = (400, 1024, 5000, 20) if dev else (1500, 256, 8200, 50)
        else:
            full, step, last, by = (1200, 256, 8200, 20) if dev else (5000, 128, 16400, 50)
        slow = 2000
    else:
        if tier == 'quick':
            full, step, last, by = (2600, 4096, top, 100) if dev else (10000, 1024, top, 250)
        else:
            full, step, last, by = (20000, 1024, top, 100) if dev else (top, top, top, 250)
        slow = 30000
    rs = [(lo, min(full, lo + by - 1)) for lo in range(1, full + 1, by)]
    rs += [(k - 3, min(top, k + 2)) for k in range(full - full % step + step, last + 2, step)]
    # the longer ones take longer: smaller pieces of them
    out = []
    for lo, hi in rs:
        w = hi - lo + 1 if lo < slow // 4 else max(6, (hi - lo + 1) * slow // (8 * max(lo, 1)))
        out += [(a, min(hi, a + w - 1)) for a in range(lo, hi + 1, w)]
    return [C('lens', [kind, str(a), str(b), str(seed)], j_lens, tag='every length: ' + kind) for a, b in out[i::of]]


# plain values, tried at every scale there is
SCALES = {
    'C05': [('div', '1', '3'), ('div', '22', '-7'), ('div', '10', '10'), ('div', '-5', '5'), ('div', '2', '10000'), ('div', '100', '0.25'), ('div', '1', '7e9')],
    'C16': [('sqrt', x) for x in ('1', '2', '3', '4', '10', '100', '10000', '0.5', '0.0001', '12345.678', '0', '7e20')],
    'C17': [('ln', x) for x in ('10', '2', '100', '0.5', '3', '1', '10000', '1.1', '0.1', '2.718281828459045')] + [('log10', '2'), ('log10', '1000'), ('log10', '0.01'), ('log2', '10'), ('log2', '8'),
            ('log', '10', '2'), ('log', '2', '10'), ('log', '7', '3'), ('log', '5', '5')],
    'C18': [('exp', x) for x in ('0', '1', '-1', '2', '0.5', '10', '-10', '0.0001', '100', '-100')],
    'C19': [('pow', a, b) for a, b in (('2', '3'), ('10', '20'), ('-10', '5'), ('1.5', '7'), ('0.1', '9'), ('7', '-1'), ('3', '-5'), ('10', '-3'), ('1', '100'), ('-1', '101'), ('10', '1'), ('3', '2'), ('5', '0'))],
    'C20': [('pow', a, b) for a, b in (('2', '0.5'), ('10', '0.5'), ('10', '-0.5'), ('10', '0.1'), ('1.5', '2.5'), ('4', '1.5'), ('0.5', '0.25'), ('1', '0.5'), ('100', '-1.5'), ('0', '0.5'))],
}
SCALES_OF = 16


def scales_cases(prop, tier, variant, i):
    """the i-th part of the operations on plain values with every scale"""
    M.DEEP[:] = [1100]
    fns = {'div': M.div, 'sqrt': M.sqrt, 'ln': M.ln, 'exp': M.exp, 'pow': M.pow_, 'log': M.log, 'log10': lambda a: M.log(a, M.TEN), 'log2': lambda a: M.log(a, M.TWO)}
    dev = variant != 'rel'
    costly = prop in ('C17', 'C20')
    if tier == 'quick':
        ss = list(range(0, 50 if dev and costly else 130)) + ([] if dev and costly else list(range(135, 1010, 25)) if costly or dev else list(range(130, 1010)))
    else:
        ss = list(range(0, 200)) + list(range(203, 1010, 10)) if dev and costly else list(range(0, 1010))
    out = []
    for k, (op, *xs) in enumerate(SCALES[prop][i::SCALES_OF]):
        vs = [Decimal(x) for x in xs]
        own = [max(0, -v.as_tuple().exponent) for v in vs]
        for s in ss:
            # the scale in the first operand, the second, both
            for m in range(1, 1 << len(vs)):
                if len(vs) == 2 and m != 1 + (s + k) % 3 and (tier == 'quick' or costly):
                    continue
                a = [Num(v if v else ZERO, max(o, s) if m >> q & 1 else o) for q, (v, o) in enumerate(zip(vs, own))]
                out.append(C(op, [arg(x) for x in a], lazy(fns[op], *a), ok=(M.POW0, M.DIV0), tag='every scale'))
    return out


def j_lens(f):
    if len(f) == 1 and f[0][:1] == 'L' and f[0][1:].isdigit():
        return None if int(f[0][1:]) else 'nothing compared'
    return M.show_out(f[-1]) if f else 'no output'


def gen_C28(g, n):
    """precisions dealt from the seed so that the quick check's jobs cover them all"""
    r = g.r
    for i in range(n):
        p = r.choice((0, 1, 2, 999, 1000, 1001, -1, 2 ** 31 - 1, -2 ** 31, 65535, 65536, 65537, 32767, 32768, r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(1, 1000)))
        s = r.choice((0, 1, -1, p, p - 1, p + 1, 65535, 65536, 65537, -65536, 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(0, 1000)))
        s = max(-2 ** 31, min(2 ** 31 - 1, s))
        yield C('mktypmod', [str(p), str(s)], j_mktypmod(p, s), nt=True, tag='one pair')


def j_wfail(a):
    def j(f):
        if len(f) != 8:
            return 'unexpected output %s' % [M.show_out(z) for z in f]
        for i, x in enumerate(f):
            what, n, letters, cut = x[1:].split('/')
            cut = int(cut)
            want = 'f' * cut + 'o' * (len(letters) - cut)
            if letters != want:
                k = next(q for q in range(len(letters)) if letters[q] != want[q])
                return '%s form %d of %d bytes: with a sink that fails after the %s of %d limits the outcome is %s (o whole, f error after a prefix, P panic, capitals wrong), expected %s' % (
                    what, i, int(n), '%d-th' % k, len(letters), letters[k], want[k])
        return None
    return j


def gen_C31(g, n):
    r = g.r
    for i in range(n):
        a = g.extreme() if r.random() < 0.003 else g.num(nan=0.03)
        if not a.nan and r.random() < 0.2 and len(a.digits) < 60:
            a = Num(a.val, min(16383, a.dscale + r.choice((1, 7, 100))))
        if not a.nan and a.dscale < 400 and len(a.hex()) < 600:
            yield C('wfail', [arg(a, r)], j_wfail(a), nt=a.nan or bool(a.val), tag='nan' if a.nan else 'finite')
        else:
            yield C('wfail', [arg(a, r)], j_wfail(a), tag='long')


# ---- comparison, hashing -----------------------------------------------------------------------

def gen_C09(g, n):
    r = g.r
    for i in range(n):
        if i % 12 == 11:
            ns = []
            base = g.num(nan=0.05)
            for _ in range(r.randint(3, 9)):
                ns.append(g.related(base) if r.random() < 0.6 else g.num(nan=0.1))
            yield C('sort', [arg(x, r) for x in ns], j_sort(ns), tag='sort')
            continue
        a, b = (g.extreme(), g.extreme()) if r.random() < 0.01 else g.pair(nan=0.04)
        yield C('cmp', args2(a, b, r), j_cmp(a, b), nt=not (simple(a) and simple(b)), tag='cmp')


def j_cmp(a, b):
    def j(f):
        e = M.cmp(a, b)
        if len(f) != 3 or f[0] != 'C%d' % e:
            return 'cmp(%r, %r) gave %s, expected %d' % (a, b, M.show_out(f[0]) if f else f, e)
        if f[2]:
            return 'comparison forms disagree with cmp(%r, %r) = %d: %s' % (a, b, e, f[2])
    return j


def j_sort(ns):
    import functools
    def j(f):
        idx = sorted(range(len(ns)), key=functools.cmp_to_key(lambda x, y: M.cmp(ns[x], ns[y])))
        k = len({'nan' if x.nan else M.normalize(x) for x in ns})
        want = ['O' + ','.join(map(str, idx)), str(k), str(k)]
        if f != want:
            return 'sorting %r gave %r, expected %r' % (ns, f, want)
    return j


def gen_C10(g, n):
    r = g.r
    streams = {}
    texts = {}

    def j(a):
        def k(f):
            if len(f) != 3:
                return 'unexpected output %s' % [M.show_out(x) for x in f]
            if f[0] != 'H1':
                return 'owned, borrowed and cloned forms of %r feed different data to the hasher' % a
            t = M.normalize(a)
            m = M.judge(T(t), f[2])
            if m:
                return 'normalize: ' + m
            if streams.setdefault(t, f[1]) != f[1]:
                return 'equal values %s feed different data to a hasher: %s and %s' % (M.show(Decimal(t)) if t != 'NaN' else t, streams[t][:80], f[1][:80])
        return k
    i = 0
    while i < n:
        a = g.extreme() if r.random() < 0.01 else g.num(nan=0.02)
        if r.random() < 0.15:
            a = Num(Decimal(r.choice((1, 10, 100, 1000, 10000, 5, 50, 12300, 120000000))).scaleb(r.choice((0, 4, -4, -1, -2, 8, 3)), EX), 16)
            a = Num(a.val, fit_dscale(a.val))
        group = [a]
        if not a.nan:
            for _ in range(r.randint(1, 3)):
                ds = r.choice((a.dscale, a.dscale + 1, a.dscale + 4, a.dscale + 7, max(64, a.dscale), max(63, a.dscale), a.dscale + 300))
                group.append(Num(a.val, min(16383, ds), wd=a.weight_digits()))
        for b in group:
            i += 1
            yield C('hash', [arg(b, r)], j(b), nt=not b.nan and b.dscale > 0)


# ---- conversions -------------------------------------------------------------------------------

def gen_C11(g, n):
    r = g.r
    types = list(M.INT)
    for i in range(n):
        x = r.random()
        if x < 0.3:
            t = r.choice(types)
            lo, hi = M.INT[t]
            v = r.choice((lo, hi, 0, lo + 1, hi - 1, hi // 2, r.randint(lo, hi), r.randint(lo, hi), r.randint(-10, 10), 9999, 10000, 10001, -10000, 10 ** r.randint(0, 38),
                          -10 ** r.randint(0, 38), 10 ** r.randint(0, 38) - 1, r.randint(0, 10 ** r.randint(0, 38))))
            if r.random() < 0.5:
                # next to a power of two, of ten, of ten thousand, or a multiple of one
                v = r.choice((2 ** r.randint(0, 128), 10 ** r.randint(0, 38), 10000 ** r.randint(0, 9) * r.randint(1, 10000))) + r.randint(-2, 2)
                v *= r.choice((1, -1))
                if not lo <= v <= hi:
                    v = lo + abs(v) % (hi - lo + 1)
            v = max(lo, min(hi, v))
            yield C('fromint', [t, str(v)], [Num(Decimal(v), 0)], nt=abs(v) > 9999, tag='from')
            continue
        if x < 0.305:
            b = r.randint(0, 1)
            yield C('fromint', ['bool', str(b)], [Num(Decimal(b), 0)], nt=False, tag='from')
            continue
        t = r.choice(types)
        lo, hi = M.INT[t]
        y = r.random()
        if y < 0.6:
            base = r.choice((lo, hi, 0, lo, hi, r.randint(lo, hi), 2 ** r.randint(0, 128), -2 ** r.randint(0, 128), 10 ** r.randint(0, 40)))
            f = r.choice((Decimal('0.5'), Decimal('0.4'), Decimal('0.49999999999999999999999999'), Decimal('0.50000000000000000001'), Decimal(1), Decimal('0.9999'), Decimal('1.5'), Decimal('0.00001'), ZERO, ZERO))
            v = EX.add(Decimal(base), f) if r.random() < 0.5 else EX.subtract(Decimal(base), f)
            a = Num(v if v else ZERO, fit_dscale(v) + r.choice((0, 0, 3)))
        elif y < 0.62:
            a = NAN
        elif y < 0.64:
            a = g.extreme()
        elif y < 0.8:
            # wrap-around candidates: a multiple of 2^k beyond the range
            k = r.choice((8, 16, 32, 64, 128))
            v = Decimal(r.randint(-3, 3) * 2 ** k + r.randint(-2, 2))
            a = Num(v if v else ZERO, 0)
        else:
            a = g.num(wide=r.random() < 0.3)
        yield C('toint', [arg(a, r), t], lazy(M.toint, a, t), nt=not a.nan and abs(a.val) > 99, tag='to')


def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def f32_nearest(d):
    """(bits or None for overflow) of the f32 nearest to Decimal d, ties to even"""
    if not d:
        return 0
    a = abs(d)
    sgn = 0x80000000 if d < 0 else 0
    if a >= Decimal('1e60'):
        return None
    if a < Decimal('1e-60'):
        return sgn
    n, m = a.as_integer_ratio()
    # value = n/m; find exponent
    e = n.bit_length() - m.bit_length()
    if (n << max(0, -e)) < (m << max(0, e)):
        e -= 1
    # 2^e <= value < 2^(e+1)
    q = max(e - 23, -149)
    num, den = (n, m << q) if q >= 0 else (n << -q, m)
    k, rem = divmod(num, den)
    if rem * 2 > den or (rem * 2 == den and k & 1):
        k += 1
    # k * 2^q
    if k == 0:
        return sgn
    while k >= 1 << 24:
        k >>= 1
        q += 1
    if q + 23 > 127:
        return None
    if k < 1 << 23:
        return sgn | k
    return sgn | ((q + 150) << 23) | (k - (1 << 23))


def j_tofloat(a, t):
    def j(f):
        if len(f) != 1:
            return 'unexpected output %r' % (f,)
        o = f[0]
        if a.nan:
            return None if o == 'Dnan' else 'NaN became %s' % M.show_out(o)
        if t == 'f64':
            x = float(a.val)
            b = f64_bits(x)
            ok = {b} if b << 1 & (2 ** 64 - 1) else {0, 1 << 63}
            want = x
        else:
            b = f32_nearest(a.val)
            want = 'out of range' if b is None or (b & 0x7fffffff == 0 and a.val) else struct.unpack('<f', struct.pack('<I', b))[0]
            if want == 'out of range':
                return None if o == 'Eoverflow' else '%r to f32 gave %s, expected out of range' % (a, M.show_out(o))
            ok = {b} if b & 0x7fffffff else {0, 1 << 31}
        if o[:1] == 'D' and o != 'Dnan' and int(o[1:], 16) in ok:
            return None
        return '%r to %s gave %s, expected %r' % (a, t, show_float(o, t), want)
    return j


def show_float(o, t):
    if o[:1] != 'D' or o == 'Dnan':
        return M.show_out(o)
    b = int(o[1:], 16)
    return repr(struct.unpack('<d', struct.pack('<Q', b))[0] if t == 'f64' else struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0])


def j_fromfloat(x, digits):
    def j(f):
        if len(f) != 1:
            return 'unexpected output %r' % (f,)
        if x != x:
            return M.judge(NAN, f[0])
        if math.isinf(x):
            return None if f[0] == 'Einvalid' else 'infinity gave %s' % M.show_out(f[0])
        d = Decimal(x)
        res = []
        for mode in (decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP):
            c = decimal.Context(prec=digits, rounding=mode, Emin=EMIN, Emax=EMAX)
            v = c.plus(d)
            v = v if v else ZERO
            res.append(Num(v, fit_dscale(v)))
        ms = [M.judge(e, f[0]) for e in res]
        return None if None in ms else ms[0]
    return j


def gen_C12(g, n):
    r = g.r
    for i in range(n):
        x = r.random()
        if x < 0.35:
            if r.random() < 0.5:
                k = r.randrange(6)
                if k == 0:
                    b = r.getrandbits(64)
                elif k == 1:
                    b = f64_bits(float(r.randint(-10 ** r.randint(0, 25), 10 ** r.randint(0, 25))))
                elif k == 2:
                    b = f64_bits(r.randint(-10 ** 9, 10 ** 9) / 10 ** r.randint(0, 9))
                elif k == 3:
                    b = f64_bits(float('%de%d' % (r.choice((1, 9, 99, 999999999999999, 9999999999999999, 5, 15)), r.randint(-320, 300))))
                elif k == 4:
                    b = r.choice((0, 1 << 63, 1, 2, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001, 0x10000000000000, 0xfffffffffffff))
                else:
                    b = f64_bits(r.random() * 10 ** r.randint(-20, 20))
                v = struct.unpack('<d', struct.pack('<Q', b))[0]
                yield C('fromf64', ['%x' % b], j_fromfloat(v, 15), nt=v == v and v != 0, tag='fromf64')
            else:
                k = r.randrange(4)
                if k == 0:
                    b = r.getrandbits(32)
                elif k == 1:
                    b = r.choice((0, 1 << 31, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x800000, 0x7fffff))
                else:
                    b = struct.unpack('<I', struct.pack('<f', r.choice((r.randint(-10 ** 9, 10 ** 9) / 10 ** r.randint(0, 9), r.random() * 10.0 ** r.randint(-38, 37), float(r.randint(0, 10 ** r.randint(0, 12)))))))[0]
                v = struct.unpack('<f', struct.pack('<I', b))[0]
                yield C('fromf32', ['%x' % b], j_fromfloat(v, 6), nt=v == v and v != 0, tag='fromf32')
            continue
        t = r.choice(('f64', 'f32'))
        y = r.random()
        if y < 0.3:
            # at and next to a midpoint between two floats
            if t == 'f64':
                b = r.getrandbits(63)
                lo, hi = struct.unpack('<d', struct.pack('<Q', b))[0], struct.unpack('<d', struct.pack('<Q', b + 1))[0]
                if r.random() < 0.7:
                    lo = r.choice((r.random() * 10 ** r.randint(0, 20), float(r.randint(2 ** 53, 2 ** 62)), r.random()))
                    hi = math.nextafter(lo, math.inf)
            else:
                b = r.getrandbits(31)
                if r.random() < 0.5:
                    b = struct.unpack('<I', struct.pack('<f', r.random() * 10.0 ** r.randint(-5, 12)))[0]
                lo, hi = struct.unpack('<f', struct.pack('<I', b))[0], struct.unpack('<f', struct.pack('<I', b + 1))[0]
            if lo == lo and hi == hi and not math.isinf(hi):
                v = EX.divide(EX.add(Decimal(lo), Decimal(hi)), Decimal(2))
                k = r.randrange(3)
                e = max(-1100, v.as_tuple().exponent)
                if k:
                    d = Decimal((k - 1, (1,), e - r.randint(1, 5)))
                    v = EX.add(v, d)
                if r.random() < 0.5:
                    v = -v
                a = Num(v if v else ZERO, fit_dscale(v))
            else:
                a = g.num()
        elif y < 0.55:
            # over the whole exponent range, and past it
            e = r.choice((r.randint(-340, 320), r.randint(-50, 42), r.choice((307, 308, 309, 310, -323, -324, -325, -308, 38, 39, -38, -45, -46, -44))))
            k = r.randint(1, 25)
            v = Decimal((r.randint(0, 1), tuple(r.choice((r.randint(0, 9), 9)) for _ in range(k)), e - k))
            v = v if v else ZERO
            a = Num(v, fit_dscale(v))
        elif y < 0.57:
            a = g.extreme()
        elif y < 0.6:
            a = NAN
        elif y < 0.7:
            big = Decimal(r.choice((2 ** 1024, 2 ** 128, 2 ** 1024 - 2 ** 970, 2 ** 128 - 2 ** 103, 2 ** 128 - 2 ** 104, 2 ** 1024 - 2 ** 971)) + r.choice((-1, 0, 1)))
            a = Num(big if r.random() < 0.5 else -big, r.choice((0, 3)))
        else:
            a = g.num(wide=r.random() < 0.5)
        yield C('toint', [arg(a, r), t], j_tofloat(a, t), nt=not a.nan and bool(a.val), tag='to' + t)


# ---- inexact functions -------------------------------------------------------------------------

def pos(n):
    return M.abs_(n)


def gen_C16(g, n):
    g = g.light(0.01 if n >= 2000 else 0)
    r = g.r
    for i in range(n):
        x = r.random()
        if x < 0.25:
            # perfect squares and neighbours
            q = pos(g.num(nan=0, wide=False))
            v = EX.multiply(q.val, q.val)
            k = r.randrange(3)
            if k and v:
                d = Decimal((k - 1, (1,), v.as_tuple().exponent - r.choice((0, 0, 1, 5, 20))))
                v = EX.add(v, d)
            v = v if v > 0 else ZERO
            a = Num(v, fit_dscale(v) + g.r.choice((0, 0, 0, 3)))
        elif x < 0.35:
            e = r.choice((r.randint(-60, 60), r.randint(-300, 300)))
            v = Decimal((0, tuple(r.randint(1, 9) for _ in range(r.randint(1, 6))), e))
            a = Num(v, fit_dscale(v))
        elif x < 0.38:
            a = Num(ZERO, r.choice((0, 1, 16, 17, 64, 999, 1000, 1001, 16383)))
        elif x < 0.39:
            a = g.extreme()
            if not a.nan:
                a = pos(a)
            if not a.nan and len(a.digits) > 3000:
                a = g.num()
        elif x < 0.41:
            a = M.neg(pos(g.num(nan=0)))
        elif x < 0.413:
            a = g.long(100, 1500, (-300, 1400), neg=False)
        elif x < 0.43:
            e = -r.randint(900, 4200)
            v = Decimal(r.randint(1, 99)).scaleb(e, EX)
            a = Num(v, fit_dscale(v))
        else:
            a = g.num()
            if not a.nan and r.random() < 0.97:
                a = pos(a)
        if a.dscale > 16383:
            continue
        neg = not a.nan and a.val < 0
        yield C('sqrt', [arg(a, r)], lazy(M.sqrt, a), ok=('cannot take square root of a negative number',) if neg else (), nt=not a.nan and a.val > 0,
                tag='negative' if neg else '')


def log_arg(g, r):
    x = r.random()
    if x < 0.30:
        # close to one
        k = r.randint(1, 40)
        d = Decimal((r.randint(0, 1), (r.randint(1, 9),), -k))
        v = EX.add(Decimal(1), d)
        if r.random() < 0.3:
            v = EX.add(v, Decimal((0, (1,), -r.randint(k, k + 20))))
        return Num(v, fit_dscale(v) + r.choice((0, 0, 3)))
    if x < 0.45:
        v = Decimal(r.choice(('0.9', '1.1', '0.89', '1.11', '0.99', '1.01', '2', '10', '100', '0.1', '0.5', '9', '0.01', '0.25', '1', '1.0000', '2.718281828459045', '0.70710678', '1.4142', '1.1892', '1.0905')))
        return Num(v, fit_dscale(v) + r.choice((0, 0, 0, 20)))
    if x < 0.55:
        v = EX.add(Decimal(r.choice(('0.9', '1.1'))), Decimal((r.randint(0, 1), (r.randint(0, 9),), -r.randint(2, 30))))
        return Num(v, fit_dscale(v))
    if x < 0.60:
        a = g.extreme()
        if a.nan or len(a.digits) <= 60:
            return a if a.nan else pos(a)
    if x < 0.66:
        e = r.choice((r.randint(-200, 200), r.randint(-4000, 30000)))
        v = Decimal((0, tuple(r.randint(1, 9) for _ in range(r.randint(1, 5))), e))
        if M.fits(v, fit_dscale(v)):
            return Num(v, fit_dscale(v))
    a = g.num()
    return a if a.nan else pos(a)


LOGP = ('cannot take logarithm of zero', 'cannot take logarithm of a negative number')


def gen_C17(g, n):
    g = g.light(0.01 if n >= 2000 else 0)
    r = g.r
    for i in range(n):
        a = log_arg(g, r)
        if r.random() < 0.0025:
            a = g.long(60, 1000, (-30, 900), neg=False)
        if r.random() < 0.02:
            a = r.choice((NAN, Num(ZERO, 0), Num(ZERO, 70), M.neg(pos(g.num(nan=0)))))
        k = r.randrange(5)
        dom = LOGP if not a.nan and a.val <= 0 else ()
        nt = not a.nan and a.val > 0 and a.val != 1
        if k < 2:
            yield C('ln', [arg(a, r)], lazy(M.ln, a), ok=dom, nt=nt, tag='ln')
        elif k == 2:
            op, b = r.choice((('log2', M.TWO), ('log10', M.TEN)))
            yield C(op, [arg(a, r)], lazy(M.log, a, b), ok=dom, nt=nt, tag=op)
        else:
            b = log_arg(g, r)
            if r.random() < 0.003:
                b = g.long(60, 400, (-30, 300), neg=False)
                if r.random() < 0.3:
                    a = g.long(60, 400, (-30, 300), neg=False)
            if r.random() < 0.02:
                b = r.choice((NAN, Num(ZERO, 0), M.neg(pos(g.num(nan=0))), Num(Decimal(1), r.choice((0, 5)))))
            if r.random() < 0.2 and not a.nan and a.val > 0:
                # powers: near-integer logarithms
                e = r.randint(1, 6)
                v = EX.power(b.val, e) if not b.nan and b.val > 0 and len(b.digits) < 4 else a.val
                if M.fits(v, fit_dscale(v)):
                    a = Num(v, fit_dscale(v))
            if r.random() < 0.06:
                # a logarithm far below the result scale, bases around one
                e = r.randint(400, 2200)
                t = EX.multiply(Decimal(r.choice((1, -1)) * r.randint(1, 99)), pow10(-e))
                x = Num(EX.add(Decimal(1), t), e)
                y = r.choice((Decimal(r.randint(1010, 1990)).scaleb(-3, EX), Decimal(r.randint(100, 990)).scaleb(-3, EX), Decimal(r.randint(2, 99))))
                a, b = x, Num(y, 3)
                if r.random() < 0.1:
                    a, b = b, a
            if r.random() < 0.02:
                b = a
            dom2 = LOGP if not b.nan and b.val <= 0 else ()
            dom1 = (DIV0,) if not b.nan and b.val == 1 else ()
            dom = LOGP if not a.nan and a.val <= 0 else ()
            yield C('log', args2(a, b, r), lazy(M.log, a, b), ok=dom + dom1 + dom2, nt=nt, tag='log')


def gen_C18(g, n):
    g = g.light(0.01 if n >= 2000 else 0)
    r = g.r
    for i in range(n):
        x = r.random()
        if x < 0.35:
            v = Decimal(r.randint(-10 ** 9, 10 ** 9)).scaleb(-r.randint(0, 12), EX)
            if abs(v) > 100:
                v = v.scaleb(-6, EX)
        elif x < 0.50:
            v = Decimal(r.randint(-600000, 600000)).scaleb(-r.choice((2, 2, 3, 3, 4)), EX)
        elif x < 0.62:
            v = Decimal((r.randint(0, 1), (r.randint(1, 9),), -r.randint(1, 60)))
        elif x < 0.68:
            v = Decimal(r.choice((6000, -6000, 5999, -5999, 6001, '5999.9999', '-5999.9999', '6000.0001', '5999.99999999999999999999', '-5999.99999999999999999999', '-2300', '-2310', '-2303', '-36', '-37', '0', '0.01', '1', '-1', '0.009999', '0.02')))
        elif x < 0.715:
            a = g.extreme()
            v = None
        elif x < 0.72:
            a = g.long(10, 1000, (-3, 0))
            a = Num(a.val.scaleb(-r.choice((0, 1, 2, 3)), EX), a.dscale + 3) if a.dscale < 16000 else a
            v = None
        elif x < 0.8:
            # just around powers of ten: the estimate of the result's size matters
            k = r.randint(-900, 900) if r.random() < 0.3 else r.randint(-40, 40)
            c = M.ctx(30)
            v = c.multiply(Decimal(k), c.ln(Decimal(10)))
            v = v.quantize(pow10(-r.randint(1, 25)), context=RD)
        else:
            a = g.num(nan=0.03, wide=r.random() < 0.2)
            v = None
        if v is not None:
            v = v if v else ZERO
            a = Num(v, min(16383, fit_dscale(v) + r.choice((0, 0, 0, 0, 5, 30, 100 if r.random() < 0.2 else 1))))
        if not a.nan and abs(a.val) > 1000 and r.random() < 0.6:
            a = Num(Decimal(r.randint(-99999, 99999)).scaleb(-4, EX), r.choice((4, 8)))
        yield C('exp', [arg(a, r)], lazy(M.exp, a), nt=not a.nan and bool(a.val), tag='limit' if not a.nan and abs(a.val) >= 6000 else '')


POWP = ('zero raised to a negative power is undefined', 'a negative number raised to a non-integer power yields a complex result')


def gen_C19(g, n):
    g = g.light(0.01 if n >= 2000 else 0)
    r = g.r
    for i in range(n):
        if i % 25 == 24:
            k = r.choice((r.randint(-5, 25), r.randint(0, 300), r.randint(300, 1500), -2 ** 63, 2 ** 63 - 1, 32178, 32177 + r.randint(1, 10 ** 6), 2 ** 31, 2 ** 32 + 5, 0, 1, 2))
            yield C('fact', [str(k)], lazy(M.factorial, k), nt=k > 7, tag='factorial')
            continue
        x = r.random()
        ok = ()
        if x < 0.45:
            a = g.num(nan=0, wide=False, big=0)
            if len(a.digits) > 12:
                a = g.plain()
            e = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 31, 32, 33, r.randint(0, 60)))
            if len(a.digits) > 6:
                e = min(e, 17)
            if r.random() < 0.4:
                e = -e
        elif x < 0.65:
            # close to one with large exponents
            v = EX.add(Decimal(1), Decimal((r.randint(0, 1), (r.randint(1, 9),), -r.randint(1, 9))))
            a = Num(v if r.random() < 0.7 else -v, fit_dscale(v) + r.choice((0, 0, 2)))
            k = -v.quantize(Decimal(1)).adjusted() + r.randint(1, 5)
            e = r.randint(0, 10 ** r.randint(1, 4)) * r.choice((1, -1))
            if abs(math.log10(float(abs(v))) * e) > 3000:
                e = r.randint(-100, 100)
        elif x < 0.75:
            # small results at the edge of the scale
            v = Decimal((0, (r.randint(1, 9),), -r.randint(1, 8)))
            a = Num(v if r.random() < 0.5 else -v, fit_dscale(v) + r.choice((0, 0, 20, 100)))
            e = r.randint(1, 30)
        elif x < 0.83:
            a = Num(Decimal(r.choice((2, 3, 7, 10, -2, -10, 5, 99, 9999, 10000))), r.choice((0, 0, 2)))
            e = r.choice((r.randint(0, 300), -r.randint(0, 300), r.randint(300, 2000)))
        elif x < 0.90:
            a = Num(r.choice((Decimal(0), Decimal(1), Decimal(-1))), r.choice((0, 4, 70)))
            e = r.choice((0, 1, 2, -1, -2, 2147483647, -2147483648, 2147483646, -2147483647, r.randint(-10 ** 6, 10 ** 6)))
            if not a.val and e < 0:
                ok = POWP
        elif x < 0.93:
            # overflow and underflow
            a = Num(r.choice((Decimal(2), Decimal(10), Decimal(-3), Decimal('0.5'), Decimal('0.1'), Decimal(99999), Decimal('-0.001'), Decimal('1e5000'), Decimal('1.5'))), r.choice((3,)))
            e = r.choice((2147483647, -2147483648, 10 ** 6, -10 ** 6, 500000, -500000, 2 ** 30, 45, -45))
            if abs(a.val) > 1:
                e = abs(e) if r.random() < 0.5 or abs(e) < 10 ** 6 else e
            big = M.ctx(20).multiply(M.ctx(20).log10(abs(a.val)), Decimal(e))
            if 3000 < big < 140000:
                e = 2147483647
        elif x < 0.95:
            a = g.num(nan=1) if r.random() < 0.5 else g.num()
            b = NAN if not a.nan or r.random() < 0.3 else Num(Decimal(r.randint(-2, 2)), 0)
            yield C('pow', args2(a, b, r), lazy(M.pow_, a, b), nt=False, tag='nan')
            continue
        elif x < 0.975:
            # a power whose reciprocal is just beside a short decimal (long runs of nines or zeros in the quotient)
            t = Decimal(2) ** r.randint(-6, 8) * Decimal(5) ** r.randint(-4, 4)
            v = EX.add(t, Decimal((r.randint(0, 1), (r.choice((1, 2, 5, r.randint(1, 9))),), t.adjusted() - r.randint(8, 60))))
            a = Num(v if r.random() < 0.7 else -v, fit_dscale(v) + r.choice((0, 0, 4, r.randint(0, 120))))
            e = -r.choice((2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12))
        elif x < 0.985:
            # long bases
            e = r.choice((2, 3, 3, 4, 5, 7, 11, -1, -2, -3, -3, -5))
            if e > 0 and r.random() < 0.5:
                a = g.long(13, 1500 // e, (0, 1400 // e))
            else:
                a = g.long(13, 250, (-20, 20))
        else:
            # exponent with a fractional scale, still an integer
            a = g.plain()
            e = r.randint(-12, 12)
        if not a.val and e < 0:
            ok = POWP
        b = Num(Decimal(e), r.choice((0, 0, 0, 1, 5) if r.random() < 0.97 else (64, 300, 1001, 16383)))
        yield C('pow', args2(a, b, r), lazy(M.pow_, a, b), ok=ok, nt=bool(a.val) and abs(a.val) != 1 and abs(e) > 1, tag='pow')
    # a few results with very many digits
    for _ in range(max(1, n // 1500)):
        k = r.randrange(5)
        if k == 0:
            a, e = Num(Decimal(10), 0), r.choice((131071, 131072, 131070, 131073))
        elif k == 1:
            a, e = Num(Decimal(2), 0), r.choice((435411, 435412, 435410, 100000))
        elif k == 2:
            a, e = Num(Decimal('1.1'), 1), r.choice((20000, 100000))
        elif k == 3:
            a, e = Num(Decimal(10) ** 1000, 0), r.choice((131, 132))
        else:
            a, e = Num(Decimal('-0.1'), 1), -r.choice((131071, 5000, 131072))
        yield C('pow', [arg(a, r), arg(Num(Decimal(e), 0), r)], lazy(M.pow_, a, Num(Decimal(e), 0)), tag='many digits')
    yield C('fact', [str(r.choice((5000, 9999, 10000)))], None, tag='factorial') if False else C('fact', ['3000'], lazy(M.factorial, 3000), tag='factorial')


def gen_C20(g, n):
    g = g.light(0.01 if n >= 2000 else 0)
    r = g.r
    for i in range(n):
        x = r.random()
        ok = ()
        if x < 0.4:
            a = pos(g.plain())
            if not a.val:
                a = Num(Decimal('0.5'), 1)
            v = Decimal(r.randint(-10 ** r.randint(1, 6), 10 ** r.randint(1, 6))).scaleb(-r.randint(1, 6), EX)
        elif x < 0.55:
            a = log_arg(g, r)
            if a.nan or not a.val > 0:
                a = Num(Decimal('1.5'), 1)
            v = Decimal(r.randint(-10 ** r.randint(1, 8), 10 ** r.randint(1, 8))).scaleb(-r.randint(1, 10), EX)
        elif x < 0.75:
            v1 = EX.add(Decimal(1), Decimal((r.randint(0, 1), (r.randint(1, 9),), -r.randint(1, 12))))
            a = Num(v1, fit_dscale(v1))
            v = Decimal(r.randint(-10 ** r.randint(1, 12), 10 ** r.randint(1, 12))).scaleb(-r.randint(1, 4), EX)
        elif x < 0.82:
            # roots
            a = Num(Decimal(r.choice((4, 9, 2, 10, 100, 1024, 8, 27, '0.25', '0.01', 16, 81))), r.choice((0, 2)))
            if r.random() < 0.4:
                # of any number, short and long
                a = pos(g.plain()) if r.random() < 0.7 else g.long(10, 120, r.choice(((-20, 20), None)), neg=False)
                if a.nan or not a.val:
                    a = Num(Decimal(3), 1)
            v = Decimal(r.choice(('0.5', '-0.5', '0.25', '1.5', '2.5', '0.3333333333', '0.1', '-1.5', '0.0001', '100.5')))
        elif x < 0.87:
            # integers beyond i32: exponent magnitude with base near one
            v1 = EX.add(Decimal(1), Decimal((r.randint(0, 1), (r.randint(1, 9),), -r.randint(8, 14))))
            a = Num(v1 if r.random() < 0.6 else -v1, fit_dscale(v1))
            v = Decimal(r.choice((2147483648, -2147483649, 2147483649, 4294967296, 4294967297, 10 ** 10, 10 ** 12 + 1, -10 ** 11)))
        elif x < 0.91:
            # the limit |b ln a| = 6000
            c = M.ctx(30)
            a = pos(g.plain())
            if not a.val or a.val == 1:
                a = Num(Decimal(7), 0)
            v = c.divide(Decimal(r.choice((6000, -6000, 5999, -5999, 2302, -2302, 6001, 100, -100))), c.ln(a.val))
            v = v.quantize(pow10(-r.randint(1, 8)), context=RD)
        elif x < 0.918:
            # long bases, long exponents
            if r.random() < 0.5:
                a = g.long(10, 240, r.choice(((-20, 20), None)), neg=False)
                v = Decimal(r.choice(('0.5', '0.5', '0.25', '1.5', '-0.5', '0.0001', '-2.25', '7.77', '3.000000001')))
            else:
                a = pos(g.plain())
                if not a.val:
                    a = Num(Decimal(3), 0)
                b = g.long(10, 240, (-2, 0))
                v = b.val.scaleb(-r.choice((0, 2, 3)), EX)
        elif x < 0.94:
            a = Num(ZERO, r.choice((0, 3)))
            v = Decimal(r.choice(('0.5', '-0.5', '2.5', '2147483648', '-2147483649')))
            if v < 0:
                ok = POWP
        elif x < 0.97:
            a = M.neg(pos(g.plain()))
            v = Decimal(r.randint(-999, 999)).scaleb(-r.randint(1, 3), EX)
            ok = POWP
        else:
            a = r.choice((NAN, Num(Decimal(1), r.choice((0, 3))), g.num()))
            b = r.choice((NAN, Num(ZERO, 2), Num(Decimal('0.5'), 1)))
            if a.nan or b.nan:
                yield C('pow', args2(a, b, r), lazy(M.pow_, a, b), nt=False, tag='nan')
                continue
            v = Decimal('1.25')
        v = v if v else ZERO
        b = Num(v, min(16383, fit_dscale(v) + r.choice((0, 0, 0, 2, 20))))
        if r.random() < 0.01:
            # x to the power of x
            v = Decimal(r.randint(1, 10 ** r.randint(1, 6))).scaleb(-r.randint(1, 5), EX)
            a = b = Num(v, fit_dscale(v) + r.choice((0, 0, 1, 30)))
            ok = ()
        if not a.nan and a.val > 0 and b.val and b is not a:
            # keep the cost bounded: results up to 10^400, except sometimes
            m = abs(float(M.ctx(20).multiply(b.val, M.ctx(20).ln(a.val)))) if a.val != 1 else 0
            if 900 < m < 5990 and r.random() < 0.8:
                b = Num(Decimal('1.5'), 1)
        yield C('pow', args2(a, b, r), lazy(M.pow_, a, b), ok=ok, nt=not a.nan and a.val > 0 and a.val != 1, tag='pow')


# ---- operator forms, histories -----------------------------------------------------------------

def gen_C23(g, n):
    g = g.light(0.002)
    r = g.r
    for i in range(n):
        x = r.random()
        if x < 0.80:
            a, b = g.pair(nan=0.03)
        elif x < 0.88:
            a, b = g.num(), Num(ZERO, r.choice((0, 3, 70)))
        elif x < 0.94:
            a, b = overflow_pair(g, r)
        else:
            a, b = mul_pair(g, r)
            if len(a.digits if not a.nan else ()) > 2000:
                a = g.num()

        def j(f):
            if len(f) != 2 or f[0][:1] != 'F':
                return 'unexpected output %s' % [M.show_out(z) for z in f]
            return None if not f[1] else 'operator forms: ' + f[1][:1500]
        # the checked operations themselves must be right as well, or agreement means nothing
        yield C('forms', args2(a, b, r), j, nt=True, tag='zero divisor' if not b.nan and not b.val else '')


STEP2 = ('add', 'sub', 'mul', 'div', 'rem')


def gen_hist(g, r, maxlen=12):
    g = g.light(0.003)
    x = g.extreme() if r.random() < 0.02 else g.num(nan=0.01)
    start = x
    steps, exp = [], []
    if not x.nan and len(x.digits) > 300:
        maxlen = 4
    tight = r.random() < 0.08
    if tight:
        # nines that round up into a new leading digit: the buffer is left without a spare digit in front
        e1, m = 4 * (r.choice((0, -1, -1, -2, 1, r.randint(-70, 70))) + 1), r.randint(1, 14)
        v = EX.subtract(pow10(e1), pow10(e1 - m))
        if m - e1 >= 0:
            x = Num(v if r.random() < 0.5 else -v, m - e1 + r.choice((0, 0, 3, 64)))
            start = x
        d = m - e1 - r.randint(1, m)
        steps.append('round:%d' % d)
        x = M.round_(x, d)
        exp.append((None, x))
        if type(x) is Panic:
            x = start
    for _ in range(r.randint(2, maxlen)):
        k = r.random()
        if tight and len(steps) == 1 and r.random() < 0.6:
            k = r.choice((0.9, 0.9, 0.92, 0.3, 0.6, 0.05))
        if steps and steps[-1][:5] in ('round', 'typmo', 'trunc') and r.random() < 0.2:
            k = 0.9     # use up a value fresh from rounding
        e, flag = None, None
        if k < 0.09:
            s, e = 'neg', M.neg(x)
        elif k < 0.15:
            s, e = 'abs', M.abs_(x)
        elif k < 0.28:
            d = round_arg(g, r)[1] if r.random() < 0.3 or x.nan else r.choice((x.dscale - 1, x.dscale, x.dscale + 1, x.dscale - 2, -4 * x.weight, -4 * x.weight - 4, 0, -1, 1000))
            s, e = 'round:%d' % d, M.round_(x, d)
        elif k < 0.38:
            d = r.choice((0, 1, -1, -4, 4, 1000, -1000, r.randint(-20, 20)))
            s, e = 'trunc:%d' % d, M.trunc(x, d)
        elif k < 0.50:
            p = r.choice((r.randint(1, 40), r.randint(1, 1000), 1000))
            sc = r.randint(0, p)
            flag, e = M.typmod(x, p, sc)
            s = 'typmod:%d,%d' % (p, sc)
            if r.random() < 0.05:
                s, flag, e = 'typmod:default', False, x
        elif k < 0.80:
            op = r.choice(STEP2)
            y = (g.related(x) if r.random() < 0.4 else g.num(nan=0.01, big=0)) if r.random() < 0.97 else g.extreme()
            if r.random() < 0.06:
                y = Num(ZERO, r.choice((0, 3)))
            if not x.nan and not y.nan and len(x.digits) > 300 and len(y.digits) > 300:
                y = Num(Decimal(7), 0)
            s = '%s%s:%s' % (op, r.choice(('', '', 'v', 'b', 'n')), y.hex())
            e = OPS[op](x, y)
            if e is M.NONE:
                e = Panic(DIV0 if op in ('div', 'rem') and not y.val else OVF)
        elif k < 0.86:
            s = r.choice(('addself', 'subself', 'mulself'))
            if s == 'mulself' and not x.nan and len(x.digits) > 60:
                s = 'subself'
            e = {'addself': M.add, 'subself': M.sub, 'mulself': M.mul}[s](x, x)
            if e is M.NONE:
                e = M.OVERFLOW_PANIC
        elif k < 0.88:
            s, e = 'inc', M.inc(x)
        elif k < 0.91:
            t = r.choice(list(M.INT) + ['f64', 'f32'])
            s, e = 'to:' + t, x
            flag = ('to', t, x)
            if not x.nan and t[0] == 'f' and len(x.digits) > 200:
                s, flag = 'negn', None
                e = M.neg(x)
        elif k < 0.95:
            s = r.choice(('negv', 'negb', 'negn', 'reparse', 'bin', 'json', 'round2', 'trunc2', 'ceil', 'floor', 'sign'))
            if s[:3] == 'neg':
                e = M.neg(x)
            elif s in ('round2', 'trunc2'):
                d = r.choice((x.dscale, x.dscale - 1, x.dscale + 2, 0, 2, -1, -4, r.randint(-12, 20)))
                e = (M.round_ if s == 'round2' else M.trunc)(x, d)
                s = '%s:%d' % (s, d)
            elif s in ('ceil', 'floor', 'sign'):
                e = {'ceil': M.ceil, 'floor': M.floor, 'sign': M.signum}[s](x)
            else:
                e = x
        else:
            s = r.choice(('clone', 'own', 'cow', 'cowmut', 'fork', 'swapfork', 'mutfork', 'clonefrom'))
            e = x
            if s == 'mutfork' and not x.nan and x.weight > 32000:
                s = 'fork'
        steps.append(s)
        exp.append((flag, e))
        if type(e) is not Panic:
            x = e
    return start, steps, exp


def j_hist(start, steps, exp):
    def j(f):
        if len(f) != len(steps) + 1:
            return 'history %s: unexpected output %s' % (';'.join(steps)[:300], [M.show_out(z) for z in f][:5])
        prev = f[0][1:]
        m = M.judge(start, 'B' + prev)
        if m:
            return 'starting value: ' + m
        for i, (s, (flag, e)) in enumerate(zip(steps, exp)):
            o = f[i + 1]
            kind, _, img = o.partition('/')
            msg = None
            if '!' in img:
                msg = img[img.index('!'):]
                img = img[:img.index('!')]
            if type(e) is Panic:
                m = M.judge(e, kind)
                if m:
                    msg = m if kind[:1] == 'P' else 'no panic (%s), expected %r' % (M.show_out('B' + img), e)
                elif img != prev:
                    msg = 'the failed step changed the value from %s to %s' % (M.show_out('B' + prev), M.show_out('B' + img))
            else:
                if kind[:1] == 'P':
                    msg = M.show_out(kind)
                elif type(flag) is tuple:
                    msg = (judge_list([M.toint(flag[2], flag[1])], [kind[1:]]) if flag[1][0] != 'f' else j_tofloat(flag[2], flag[1])([kind[1:]])) or msg or M.judge(e, 'B' + img)
                elif flag is not None and kind != 'V%d' % flag:
                    msg = 'overflow flag %s, expected %s' % (kind, flag)
                else:
                    msg = msg or M.judge(e, 'B' + img)
            if msg:
                return 'step %d (%s) of %d from %s: %s' % (i, s[:200], len(steps), M.show_out('B' + prev)[:200], msg)
            prev = img
        return None
    return j


def gen_C24(g, n):
    r = g.r
    for i in range(n):
        start, steps, exp = gen_hist(g, r)
        yield C('hist', [arg(start, r), ';'.join(steps)], j_hist(start, steps, exp), nt=len({s.split(':')[0] for s in steps}) > 1, ok=None,
                tag='with failure' if any(type(e) is Panic for _, e in exp) else 'clean')


# ---- serde -------------------------------------------------------------------------------------

def bincode_bytes(b):
    return struct.pack('<Q', len(b)) + b


def valid_image(b):
    """'yes', 'no', or 'maybe' (well formed, but not canonical)"""
    try:
        decode(b, strict=True)
        return 'yes'
    except Bad:
        pass
    try:
        n = decode(b)
    except Bad:
        return 'no'
    h = struct.unpack('<H', b[4:6])[0]
    if h & 0xC000 == 0xC000:
        return 'maybe'
    # a canonical value merely stored with the long header is a valid image
    if h & 0xC000 != 0x8000 and not (N.BE and b[0] >> 6) and (N.BE or not (b[0] & 3)):
        w, d = n.weight_digits()
        if image(h & 0x4000 != 0, w, d, n.dscale, form='long') == b and (d or not h & 0x4000):
            fr = fit_dscale(n.val)
            if fr <= n.dscale:
                return 'yes'
    return 'maybe'


def j_debin(b):
    def j(f):
        if len(f) != 2:
            return 'unexpected output %s' % [M.show_out(z) for z in f]
        v = valid_image(b)
        for name, o in (('owned', f[0]), ('borrowed', f[1])):
            if o == 'E':
                if v == 'yes':
                    return 'valid image %s (%s) rejected' % (b.hex(), name)
                continue
            if v == 'no':
                return 'malformed image %s accepted (%s): %s' % (b.hex(), name, M.show_out(o))
            if o[:1] != 'B' or name == 'borrowed' and o != 'B' + b.hex():
                return 'image %s (%s) gave %s' % (b.hex(), name, M.show_out(o))
            # an owned copy may be stored in another form
            try:
                d = decode(bytes.fromhex(o[1:]))
            except Bad as e:
                return 'image %s (%s) gave a malformed image %s: %s' % (b.hex(), name, o[1:], e)
            if not M.same(d, decode(b)):
                return 'image %s (%s) gave %s' % (b.hex(), name, M.show_out(o))
    return j


def mutate_image(g, r, b):
    b = bytearray(b)
    for _ in range(r.randint(1, 2)):
        k = r.randrange(9)
        if k == 0:
            b = b[:r.randint(0, len(b))]
        elif k == 1:
            b += bytes(r.choice((0, 255, r.randrange(256))) for _ in range(r.randint(1, 4)))
        elif k == 2 and b:
            b[r.randrange(len(b))] = r.randrange(256)
        elif k == 3 and b:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 4 and len(b) >= 4:
            b[0:4] = r.choice((struct.pack('<I', len(b)), struct.pack('<I', r.getrandbits(32)), struct.pack('<I', (len(b) + r.choice((-2, -1, 1, 2, 100, 4096))) * 4 & 0xffffffff),
                               b'\0\0\0\0', b'\xff\xff\xff\xff', struct.pack('<I', len(b) * 4 | r.randint(1, 3)), struct.pack('>I', len(b))))
        elif k == 5 and len(b) >= 6:
            b[4:6] = struct.pack('<H', r.choice((0xC000, 0xFFFF, 0, 0x4000, 0x7fff, 0x3fff, 0x8000, 0xA000, 0xBFFF, r.getrandbits(16))))
        elif k == 6 and len(b) >= 10:
            i = r.randrange(6, len(b) - 1)
            b[i:i + 2] = struct.pack('<h', r.choice((10000, 9999, -1, 32767, -32768, 12345, 0)))
        elif k == 7:
            # keep the length word consistent after cutting
            b = b[:r.randint(0, len(b))]
            if len(b) >= 4:
                b[0:4] = varlen(bytes(b[4:]))[0:4]
        else:
            b = bytearray(varlen(bytes(b[4:])))
    return bytes(b)


def jesc(r, s):
    return '"%s"' % s


def gen_C15(g, n):
    r = g.r
    for i in range(n):
        x = r.random()
        if x < 0.45:
            a = shaped(g, r, 0.005)
            if not a.nan and len(a.digits) > 2000:
                a = g.num()
            yield C('serde', [arg(a, None) if r.random() < 0.7 else '@%d%s' % (r.randint(1, 7), a.img.hex())], j_serde(a), nt=not simple(a), tag='round trip')
        elif x < 0.80:
            a = g.num(nan=0.05, big=0)
            b = a.img
            if not a.nan and r.random() < 0.2:
                w, d = a.weight_digits()
                b = image(a.val < 0, w, d, a.dscale, form='long')
            y = r.random()
            if y < 0.75:
                b = mutate_image(g, r, b)
            elif y < 0.85:
                b = varlen(bytes(r.randrange(256) for _ in range(r.randint(0, 14))))
            elif y < 0.88:
                b = bytes(r.randrange(256) for _ in range(r.randint(0, 10)))
            yield C('debin', [bincode_bytes(b).hex(), str(r.randint(0, 7))], j_debin(b), tag='image ' + valid_image(b))
        else:
            s = None
            if r.random() < 0.75:
                c = next(gen_C01(g, 1))
                s = bytes.fromhex(c.args[0]).decode()
                import json
                t = json.dumps(s, ensure_ascii=r.random() < 0.5)
            else:
                t = r.choice(('1', '1.5', 'null', '-3', '[]', '{}', 'true', '"', '""', '"1', '1e400', '["1"]', '[6,0,0,0,0,192]', '[24,0,0,0,0,192]', '{"a":1}', '\xff', '[300]', '[-1]', '[24,0,0,0,0,128]', '[]'))
                if r.random() < 0.4:
                    t = json_bytes(mutate_image(g, r, g.num().img) if r.random() < 0.5 else g.num(big=0).img)
            yield C('dejson', [hx(t)], j_dejson(s), tag='json')


def json_bytes(b):
    return '[' + ','.join(map(str, b)) + ']'


def j_dejson(s):
    def j(f):
        if len(f) != 2:
            return 'unexpected output %s' % [M.show_out(z) for z in f]
        o = f[0]
        if o[:1] == 'P' or f[1][:1] == 'P':
            return 'panicked: %s' % [M.show_out(z) for z in f]
        if s is None:
            # not a JSON string: a type error; numbers and byte arrays may be understood or refused
            for x in f:
                if x[:1] == 'B':
                    try:
                        decode(bytes.fromhex(x[1:]))
                    except Bad as e:
                        return 'produced a malformed image: %s' % e
            return None
        es = parse_model(s)
        if type(es[0]) is Num:
            return M.judge(es[0], o)
        return None if o == 'E' else 'JSON text %r gave %s' % (s[:100], M.show_out(o))
    return j


def j_serde(a):
    def j(f):
        if len(f) != 4:
            return 'unexpected output %s' % [M.show_out(z) for z in f]
        m = M.judge(T('"%s"' % M.text_of(a)), f[0])
        if m:
            return 'JSON: ' + m
        e = bincode_bytes(a.img).hex()
        if f[1] != e or f[2] != e:
            return 'bincode of %r: %s and %s, expected %s' % (a, f[1][:200], f[2][:200], e[:200])
        t = M.unhex_text(f[3][1:])
        return None if not t else 'round trip of %r: %s' % (a, t[:800])
    return j


SLOW = ('C16', 'C17', 'C18', 'C19', 'C20')


def lean(c):
    """false for a case of an inexact function that may take more than some ten milliseconds to run or to judge"""
    ns = []
    for a in c.args:
        if a[:1] not in '#@':
            continue
        b = bytes.fromhex(a[1:] if a[0] == '#' else a[2:])
        if len(b) > 700:
            return False
        x = decode(b)
        if not x.nan:
            if abs(x.weight) > 150 or x.dscale > 1100:
                return False
            ns.append(x)
    if c.op == 'fact':
        return len(c.args[0]) < 4 or int(c.args[0]) > 32177 or c.args[0][0] == '-'
    if c.op == 'exp' and ns:
        return not 250 < abs(ns[0].val) < 6100
    if c.op == 'pow' and len(ns) == 2:
        a, b = ns
        if abs(a.val) in (0, 1):
            return True
        m = abs(b.val) * (abs(Decimal(abs(a.val).adjusted())) + 1)
        if M.is_int(b.val) and abs(b.val) < 2 ** 31:
            return m * (1 + len(a.digits)) < 3000
        m = abs(float(M.ctx(20).multiply(b.val, M.ctx(20).ln(abs(a.val)))))
        return m < 300 or 7000 < m
    return True


# ---- mixes -------------------------------------------------------------------------------------

ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22']
GENS = {}


def mix(g, n, parts, batch=7):
    r = g.r
    while n > 0:
        p = r.choice(parts)
        k = min(n, batch)
        i = 0
        for c in GENS[p](g, k):
            if i >= k:
                break
            i += 1
            yield p, c
        n -= k


for _p in ALL + ['C15', 'C23', 'C24', 'C28', 'C31']:
    GENS[_p] = globals()['gen_' + _p]


def numbers_in(op, fields):
    """hex images of numerics the operation returned"""
    for f in fields:
        if f[:1] == 'B':
            yield f[1:]


def gen_C13(g, n):
    parts = [p for p in ALL if p not in ('C09', 'C10')] + ['C24', 'C03', 'C04', 'C05', 'C07']
    for p, c in mix(g, n, parts):
        if c.op in ('cmp', 'hash', 'sort'):
            continue
        yield wrap_C13(c)
    # the ends of the header fields
    r = g.r
    for i in range(n // 8):
        a = g.extreme()
        if len(a.digits) > 100:
            continue
        t = M.text_of(a)
        s = a.dscale - r.randint(0, 2)
        b = g.num(nan=0)
        yield wrap_C13(pcase(t))
        yield wrap_C13(C('text', [arg(a, r)], [T(t), 'B' + a.img.hex(), a]))
        yield wrap_C13(C('round', [arg(a, r), str(s)], two(M.round_, a, s), ok=(M.OVF,)))
        yield wrap_C13(bin_case('add', a, b, r))
        yield wrap_C13(bin_case('mul', a, b, r))


def wrap_C13(c):
    c.exp = j_canon(c, c.exp)
    c.tag = c.op
    return c


def j_canon(c, orig):
    stored = None
    if c.op == 'image':
        stored = c.args[0][2:]

    def j(f):
        if c.op == 'hist':
            imgs = [x.split('/')[1].split('!')[0] for x in f[1:] if '/' in x]
        else:
            imgs = list(numbers_in(c.op, f))
        for h in imgs:
            if h == stored:
                continue
            try:
                b = bytes.fromhex(h)
            except ValueError:
                return 'unreadable output'
            # in-place operations that keep the stored image, and copies of it, keep its form
            try:
                decode(b, strict=True)
            except Bad as e:
                if kept_form(c, b):
                    continue
                return '%s: %s' % (e, h[:400])
        # well formed; and the image of the right value
        return judge_case(C(c.op, c.args, orig), f)
    return j


def stored_images(c):
    return [a[1:] if a[0] == '#' else a[2:] for a in c.args if a[:1] in '#@']


def kept_form(c, b):
    """an operand stored in a non-canonical but valid form (long header, NaN low bits) may be copied as it is"""
    try:
        n = decode(b)
    except Bad:
        return False
    for h in stored_images(c):
        o = bytes.fromhex(h)
        try:
            decode(o, strict=True)
        except Bad:
            m = decode(o)
            if n.nan and m.nan:
                return True
            if not n.nan and not m.nan and len(o) == len(b) and (n.val == m.val or n.val == -m.val) and n.dscale == m.dscale:
                return True
    return False


def ok_panic(c, f):
    if c.ok is None:
        return True
    m = M.unhex_text(f[1:])
    ok = c.ok
    if c.op == 'pow':
        # the condition is judged as well
        ok = tuple(ok) + (M.POW0, M.POWNEG)
    return any(s in m for s in ok)


DOC_PANICS = (OVF, DIV0)


def gen_C27(g, n):
    parts = ALL + ['C24', 'C15', 'C28', 'C31']
    for p, c in mix(g, n, parts):
        yield wrap_C27(c)
    for v in (2147483647, 2147483648, 2 ** 32 + g.r.randint(0, 40), 2 ** 63 - 1, -2 ** 63, g.r.randint(2 ** 31, 2 ** 63 - 1), g.r.randint(32178, 2 ** 31)):
        yield wrap_C27(C('fact', [str(v)], lazy(M.factorial, v)))


def wrap_C27(c):
    if c.op == 'hist':
        c.exp = j_total_hist(c.exp)
    else:
        c.exp = j_total(c, c.exp)
    c.tag = c.op
    return c


def j_total(c, orig):
    def j(f):
        for x in f:
            if x[:1] == 'P' and not ok_panic(c, x):
                return 'undocumented %s' % M.show_out(x)
            if x[:1] == 'P':
                # documented message: the documented condition must hold too
                m = judge_case(C(c.op, c.args, orig), f)
                if m and 'anic' in m:
                    return m
        return None
    return j


def j_total_hist(orig):
    def j(f):
        for x in f:
            k = x.split('/')[0]
            if k[:1] == 'P' and not any(s in M.unhex_text(k[1:]) for s in DOC_PANICS):
                return 'undocumented %s' % M.show_out(k)
        return None
    return j


def gen_C25(g, n):
    if n >= 1000:
        # a batch of histories alone
        for c in gen_C24(g, n):
            yield wrap_C25(c)
        return
    for p, c in mix(g, n, ALL + ['C23', 'C24', 'C24', 'C14', 'C15', 'C15', 'C08', 'C31']):
        yield wrap_C25(c)
    r = g.r
    for i in range(n // 20):
        a = g.num(nan=0.1)
        yield C('debug', [arg(a, r)], lambda f: None, tag='debug')


def wrap_C25(c):
    c.exp = lambda f: None
    c.tag = c.op
    return c


def gen_C29(g, n):
    for p, c in mix(g, n, ALL + ['C15', 'C23', 'C24', 'C24', 'C31', 'related']):
        if c.op != 'debin':
            yield c


def family(g, r):
    """numerics a cache or a scratch value could take for one another"""
    x = r.random()
    if x < 0.4:
        v = Decimal(r.randint(2, 99)).scaleb(-r.randint(0, 2), EX)
    elif x < 0.6:
        v = Decimal(r.choice(('1.5', '0.5', '1.0001', '0.99', '7.5', '10', '2', '100.25', '0.001', '9999.9999', '10000', '10001', '0.00020001')))
    elif x < 0.8:
        v = Decimal(r.randint(1, 10 ** r.randint(1, 24))).scaleb(-r.randint(0, 12), EX)
    else:
        v = g.plain()
        v = v.val if not v.nan and v.val and abs(v.val) < Decimal(10) ** 40 else Decimal('12.5')
    v = abs(v)
    f = fit_dscale(v)
    out = [Num(v, f), Num(v, f + r.choice((1, 4, 5))), Num(v, f + r.choice((20, 40, 64))), Num(v, f + r.choice((90, 130)))]
    out.append(Num(-v, f))
    # same digits elsewhere, one digit off, a longer tail
    w = v.scaleb(r.choice((4, -4, 8, 1, -1)), EX)
    out.append(Num(w, fit_dscale(w)))
    w = EX.add(v, pow10(-f - r.choice((0, 1, 4, 8, 30))))
    out.append(Num(w, fit_dscale(w) + r.choice((0, 0, 60))))
    w = EX.add(v, Decimal(r.choice((1, 10000))))
    out.append(Num(w, fit_dscale(w)))
    return out


UNARY = (('sqrt', M.sqrt), ('ln', M.ln), ('log2', lambda a: M.log(a, M.TWO)), ('log10', lambda a: M.log(a, M.TEN)), ('exp', M.exp), ('ceil', M.ceil), ('floor', M.floor))


def op_case(a, b, r, k):
    """one operation of kind k on a (and b)"""
    pa = not a.nan and a.val > 0
    if k < 7:
        op, fn = UNARY[k]
        ok = ()
        if not pa and not a.nan:
            ok = LOGP if op[0] == 'l' else ('cannot take square root of a negative number',) if op == 'sqrt' else ()
        if op in ('ceil', 'floor'):
            ok = (OVF,)
        elif op == 'exp' and abs(a.val) > 300:
            return None
        return C(op, [arg(a, r)], lazy(fn, a), ok=ok, tag=op)
    if k < 9:
        ok = (DIV0,) if not b.nan and b.val == 1 else ()
        if not pa or not (not b.nan and b.val > 0):
            ok = ok + LOGP
        return C('log', args2(a, b, r), lazy(M.log, a, b), ok=ok, tag='log')
    if k < 11:
        if r.random() < 0.6:
            b = Num(Decimal(r.randint(-6, 9)), 0)
        if abs(b.val) > 20 or abs(a.val) > 10 ** 9 or (not a.val):
            return None
        return C('pow', args2(a, b, r), lazy(M.pow_, a, b), ok=POWP if a.val < 0 and not M.is_int(b.val) else (), tag='pow')
    if k < 17:
        op = ('add', 'sub', 'mul', 'div', 'dtrunc', 'rem')[k - 11]
        return bin_case(op, a, b, r, op)
    if k == 17:
        s = r.randint(-4, 40)
        op = r.choice(('round', 'trunc'))
        return C(op, [arg(a, r), str(s)], two(M.round_ if op == 'round' else M.trunc, a, s), ok=(OVF,), tag=op)
    if k == 18:
        p, s = r.choice(((10, 2), (38, 10), (5, 5), (1000, 0), (100, 80)))
        return C('typmod', [arg(a, r), '%d,%d' % (p, s)], j_typmod(a, p, s), tag='typmod')
    if k == 19:
        t = r.choice(list(M.INT))
        return C('toint', [arg(a, r), t], lazy(M.toint, a, t), tag='toint')
    if k == 20:
        return C('cmp', args2(a, b, r), j_cmp(a, b), tag='cmp')
    if k == 21:
        return pcase(M.text_of(a))
    if k == 22:
        return C('text', [arg(a, r)], [T(M.text_of(a)), 'B' + a.img.hex(), a], tag='text')
    x = r.randint(0, 60)
    return C('fact', [str(x)], lazy(M.factorial, x), tag='factorial')


def gen_related(g, n):
    """every operation on a small family of operands: the same and nearly the same calls come up again and again"""
    r = g.r
    fam = []
    i = 0
    while i < n:
        if i % 48 == 0:
            fam = family(g, r) + (family(g, r)[:4] if r.random() < 0.7 else [])
            few = [r.randrange(24) for _ in range(r.choice((2, 4, 24)))]
        i += 1
        a, b = r.choice(fam), r.choice(fam)
        c = op_case(a, b, r, r.choice(few))
        if c is None:
            c = bin_case('mul', a, b, r, 'mul')
        yield c


def gen_C30(g, n):
    yield from gen_related(g, n // 2)
    for p, c in mix(g, n - n // 2, ALL + ['C15', 'C23', 'C24', 'C31'], batch=3):
        yield c


WRAP = {'C13': wrap_C13, 'C25': wrap_C25, 'C27': wrap_C27}

GENS['related'] = gen_related
for _p in ('C13', 'C25', 'C27', 'C29', 'C30'):
    GENS[_p] = globals()['gen_' + _p]

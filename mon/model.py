"""The oracle: what every operation must give, computed with exact decimal arithmetic."""
import decimal, math
from decimal import Decimal
from .num import *

NONE = 'N'


class Panic:
    def __init__(self, *subs):
        self.subs = subs

    def __repr__(self):
        return 'panic(%s)' % '|'.join(self.subs)


OVF = 'value overflows numeric format'
DIV0 = 'attempt to divide by zero'
OVERFLOW_PANIC = Panic(OVF)


def fits(v, dscale):
    return dscale <= 16383 and abs(v) < LIMIT


def result(v, dscale):
    if not fits(v, dscale):
        return NONE
    return Num(v if v else ZERO, dscale)


def add(a, b):
    if a.nan or b.nan:
        return NAN
    return result(EX.add(a.val, b.val), max(a.dscale, b.dscale))


def sub(a, b):
    if a.nan or b.nan:
        return NAN
    return result(EX.subtract(a.val, b.val), max(a.dscale, b.dscale))


def mul(a, b):
    if a.nan or b.nan:
        return NAN
    return result(EX.multiply(a.val, b.val), a.dscale + b.dscale)


def cdiv(a, b):
    """C integer division (towards zero)"""
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def div_scale(a, b):
    w1, d1 = a.weight_digits()
    w2, d2 = b.weight_digits()
    f1 = d1[0] if d1 else 0
    f2 = d2[0] if d2 else 0
    if not d1:
        w1 = 0
    q = w1 - w2
    if f1 <= f2:
        q -= 1
    return min(max(16 - q * 4, a.dscale, b.dscale, 0), 1000)


def quot(a, b, rs):
    """(truncated |a/b| at rs digits as Decimal scaled by 10^rs, remainder nonzero-cmp info)"""
    x = abs(a).scaleb(rs, EX)
    y = abs(b)
    # integers
    q = RD.divide_int(x, y)
    r = EX.subtract(x, EX.multiply(q, y))
    return q, r, y


def div(a, b):
    if a.nan or b.nan:
        return NAN
    if not b.val:
        return NONE
    rs = div_scale(a, b)
    if not a.val:
        return result(ZERO, rs)
    q, r, y = quot(a.val, b.val, rs)
    if r + r >= y:
        q = EX.add(q, Decimal(1))
    v = q.scaleb(-rs, EX)
    if (a.val < 0) != (b.val < 0):
        v = -v
    return result(v, rs)


def dtrunc(a, b):
    if a.nan or b.nan:
        return NAN
    if not b.val:
        return NONE
    q, r, y = quot(a.val, b.val, 0)
    if (a.val < 0) != (b.val < 0):
        q = -q
    return result(q, 0)


def rem(a, b):
    if a.nan or b.nan:
        return NAN
    if not b.val:
        return NONE
    q, r, y = quot(a.val, b.val, 0)
    if a.val < 0:
        r = -r
    return result(r, max(a.dscale, b.dscale))


def quant(v, s, mode):
    """v rounded to s decimals (s may be negative)"""
    if not v:
        return ZERO
    e = v.as_tuple().exponent
    if e >= -s:
        return v
    return v.quantize(pow10(-s), rounding=mode, context=RD)


def round_(a, s):
    if a.nan:
        return NAN
    s = max(-1000, min(1000, s))
    v = quant(a.val, s, decimal.ROUND_HALF_UP)
    r = result(v, max(s, 0))
    return OVERFLOW_PANIC if r is NONE else r


def trunc(a, s):
    if a.nan:
        return NAN
    s = max(-1000, min(1000, s))
    return result(quant(a.val, s, decimal.ROUND_DOWN), max(s, 0))


def ceil(a):
    if a.nan:
        return NAN
    r = result(quant(a.val, 0, decimal.ROUND_CEILING), 0)
    return OVERFLOW_PANIC if r is NONE else r


def floor(a):
    if a.nan:
        return NAN
    r = result(quant(a.val, 0, decimal.ROUND_FLOOR), 0)
    return OVERFLOW_PANIC if r is NONE else r


def neg(a):
    return a if a.nan else Num(-a.val if a.val else ZERO, a.dscale)


def abs_(a):
    return a if a.nan else Num(abs(a.val), a.dscale)


def signum(a):
    if a.nan:
        return NAN
    return Num(Decimal((a.val > 0) - (a.val < 0)), 0)


ONE = Num(Decimal(1), 0)


def inc(a):
    r = add(a, ONE)
    return OVERFLOW_PANIC if r is NONE else r


def typmod(a, p, s):
    """(overflow flag, value afterwards)"""
    if p is None or a.nan:
        return False, a
    v = quant(a.val, s, decimal.ROUND_HALF_UP)
    r = result(v, s)
    if r is NONE:
        return True, a
    return abs(v) >= pow10(p - s), r


def cmp(a, b):
    if a.nan or b.nan:
        return (1 if a.nan else 0) - (1 if b.nan else 0)
    return (a.val > b.val) - (a.val < b.val)


def normalize(a):
    if a.nan:
        return 'NaN'
    if not a.val:
        return '0'
    return format(a.val.normalize(RD), 'f')


def sci(a, e='e'):
    if a.nan:
        return 'NaN'
    if not a.val:
        return '0%s+00' % e
    s, d, x = a.val.normalize(RD).as_tuple()
    dig = ''.join(map(str, d))
    adj = len(dig) - 1 + x
    t = ('-' if s else '') + dig[0] + ('.' + dig[1:] if len(dig) > 1 else '')
    return '%s%s%s%02d' % (t, e, '-' if adj < 0 else '+', abs(adj))


INT = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
       'i128': (-2**127, 2**127 - 1), 'isize': (-2**63, 2**63 - 1), 'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1),
       'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1), 'usize': (0, 2**64 - 1)}


def toint(a, t):
    if a.nan:
        return 'Einvalid'
    lo, hi = INT[t]
    v = quant(a.val, 0, decimal.ROUND_HALF_UP)
    if abs(v) > Decimal(1 << 130):
        return 'Eoverflow'
    v = int(v)
    return 'I%d' % v if lo <= v <= hi else 'Eoverflow'


# ---- inexact functions -------------------------------------------------------------------------

class Approx:
    """a true value known to many more digits than needed, with the allowed scales"""

    def __init__(self, true, scales, bound):
        self.true, self.scales, self.bound = true, scales, bound

    def __repr__(self):
        return 'about %s at scale %s' % (show(self.true), sorted(self.scales))


def adjusted(v):
    return v.adjusted() if v else 0


BOUND = Decimal('0.51')
LN_BOUND = Decimal('0.55')


def sqrt_scale(a):
    sweight = cdiv((a.weight + 1) * 4, 2) - 1
    return min(max(16 - sweight, a.dscale, 0), 1000)


def sqrt(a):
    if a.nan:
        return NAN
    if a.val < 0:
        return Panic('cannot take square root of a negative number')
    rs = sqrt_scale(a)
    if not a.val:
        return Num(ZERO, rs)
    prec = max(adjusted(a.val) // 2, -rs) + rs + 30
    return Approx(ctx(max(prec, 30)).sqrt(a.val), {rs}, BOUND)


P09, P11 = Decimal('0.9'), Decimal('1.1')


def near_int(x):
    """the possible truncations of a float computed by libm with a tiny error"""
    r = {math.trunc(x)}
    for e in (1e-9, -1e-9):
        r.add(math.trunc(x + e * max(1.0, abs(x))))
    return r


def ln_dweights(a):
    if P09 <= a.val <= P11:
        x = EX.subtract(a.val, Decimal(1))
        if x:
            w, d = split_digits(x)
            return {w * 4 + len(str(d[0])) - 1}
        return {0}
    w, d = a.weight_digits()
    digits, dw = d[0], w * 4
    if len(d) > 1:
        digits = digits * 10000 + d[1]
        dw -= 4
    l = abs(math.log(digits) + dw * math.log(10))
    return near_int(math.log10(l)) if l else {0}


# the logarithms and powers of the values that are tried at every scale, once and deep enough for all scales
LNS, EXPS, DEEP = {}, {}, []


def exp_true(v, prec):
    if not DEEP:
        return ctx(prec).exp(v)
    if v not in EXPS:
        EXPS[v] = ctx(DEEP[0] + 500).exp(v)
    return EXPS[v]


def ln_true(v, prec):
    """ln v with at least prec significant digits"""
    t = LNS.get(v)
    if t and t[0] >= prec:
        return t[1]
    t = ctx(prec + 10).ln(v)
    if DEEP:
        t = ctx(DEEP[0] + 10).ln(v)
        LNS[v] = (DEEP[0], t)
    return t


LN0 = 'cannot take logarithm of zero'
LNNEG = 'cannot take logarithm of a negative number'


def ln(a):
    if a.nan:
        return NAN
    if not a.val:
        return Panic(LN0)
    if a.val < 0:
        return Panic(LNNEG)
    scales = {min(max(16 - w, a.dscale, 0), 1000) for w in ln_dweights(a)}
    rs = max(scales)
    t = ln_true(a.val, rs + 30)
    return Approx(t, scales, LN_BOUND)


def log(a, b):
    if a.nan or b.nan:
        return NAN
    for x in (a, b):
        if not x.val:
            return Panic(LN0)
        if x.val < 0:
            return Panic(LNNEG)
    if b.val == 1:
        return Panic(DIV0)
    scales = set()
    for wb in ln_dweights(b):
        for wn in ln_dweights(a):
            scales.add(min(max(16 - (wn - wb), b.dscale, a.dscale, 0), 1000))
    # result magnitude can be up to about 10^(6+16384)
    lb = ln_true(b.val, 40)
    la = ln_true(a.val, 40)
    if not la:
        return Approx(ZERO, scales, LN_BOUND)
    mag = la.adjusted() - lb.adjusted() + 1
    prec = max(scales) + max(mag, 0) + 40
    c = ctx(prec)
    t = c.divide(ln_true(a.val, prec), ln_true(b.val, prec))
    return Approx(t, scales, LN_BOUND)


TWO, TEN = Num(Decimal(2), 0), Num(Decimal(10), 0)
LOG10_E = 0.43429448190325182765


NEAR6000 = (Decimal('5999.99999999999'), Decimal(6000))


def exp(a):
    if a.nan:
        return NAN
    if abs(a.val) >= 6001:
        return NONE
    f = float(a.val)
    v = max(-2000.0, min(2000.0, f * LOG10_E))
    scales = {min(max(16 - k, a.dscale, 0), 1000) for k in near_int(v)}
    prec = max(scales) + max(int(f * LOG10_E) + 2, 2) + 40
    r = Approx(exp_true(a.val, prec), scales, BOUND)
    # the limit is judged in double precision
    if abs(a.val) >= 6000:
        return NONE if abs(a.val) > NEAR6000[1] else ('either', NONE, r)
    return ('either', NONE, r) if abs(a.val) > NEAR6000[0] else r


def is_int(v):
    return v == v.to_integral_value(decimal.ROUND_DOWN) if v else True


POW0 = 'zero raised to a negative power is undefined'
POWNEG = 'a negative number raised to a non-integer power yields a complex result'


def pow_(a, b):
    if a.nan:
        return ONE if (not b.nan and not b.val) else NAN
    if b.nan:
        return ONE if a.val == 1 else NAN
    if not a.val and b.val < 0:
        return Panic(POW0)
    integer = is_int(b.val)
    if a.val < 0 and not integer:
        return Panic(POWNEG)
    if integer and abs(b.val) <= 2147483648 and -2147483648 <= b.val <= 2147483647:
        return pow_int(a, int(b.val))
    if not a.val:
        return Num(ZERO, 16)
    return pow_real(a, b, integer)


def pow_int(a, n):
    rs = min(max(16, a.dscale, 0), 1000)
    if n == 0:
        return Num(Decimal(1), rs)
    if not a.val:
        return Num(ZERO, rs)
    # log10 of the result
    l = ctx(60).multiply(ctx(60).log10(abs(a.val)), Decimal(n)) if abs(a.val) != 1 else ZERO
    if l > 131072 + 1:
        return NONE
    if l < -(rs + 2):
        return Approx(ZERO, {rs}, BOUND)
    prec = int(max(l, 0)) + rs + 40
    c = ctx(prec + 15)
    t = c.power(abs(a.val), n) if abs(n) < 10 ** 15 else None
    # Decimal.power with an integer exponent has error < 1 ulp of its precision
    if a.val < 0 and n % 2:
        t = -t
    r = Approx(t, {rs}, BOUND)
    if abs(t) >= LIMIT - pow10(-rs):
        # overflow decided by the rounded value
        if abs(quant(t, rs, decimal.ROUND_HALF_UP)) >= LIMIT:
            return NONE
    return r


def pow_real(a, b, integer):
    neg_ = a.val < 0 and integer and b.val % 2 != 0
    base = abs(a.val)
    if base == 1:
        scales = {min(max(16, a.dscale, b.dscale), 1000)}
        return Approx(Decimal(-1 if neg_ else 1), scales, BOUND)
    c = ctx(60)
    x = c.multiply(b.val, ln_true(base, 60))
    if abs(x) >= Decimal('6000.001'):
        return NONE
    f = float(x) * LOG10_E
    ks = set()
    for e in (0.0, 1e-6, -1e-6):
        ks.add(math.trunc(f + e * max(1.0, abs(f))))
    scales = {min(max(16 - k, a.dscale, b.dscale, 0), 1000) for k in ks}
    prec = max(scales) + max(int(f) + 2, 2) + 60
    c = ctx(prec)
    # the absolute error of b*ln(base) must be tiny
    y = (b.val, base)
    t = EXPS.get(y)
    if t is None:
        t = ctx(prec).exp(ctx(prec + 20).multiply(b.val, ln_true(base, prec + 20)))
    if DEEP and y not in EXPS:
        t = EXPS[y] = ctx(1700).exp(ctx(1720).multiply(b.val, ctx(1720).ln(base)))
    if neg_:
        t = -t
    r = Approx(t, scales, BOUND)
    if abs(x) > Decimal('5999.999'):
        return ('either', NONE, r)
    return r


def factorial(n):
    if n <= 1:
        return Num(Decimal(1), 0)
    if n > 32177:
        return NONE
    return Num(Decimal(math.factorial(n)), 0)


# ---- judging ------------------------------------------------------------------------------------

def unhex_text(s):
    return bytes.fromhex(s).decode('utf-8', 'replace')


def same(n, m):
    if n.nan or m.nan:
        return n.nan and m.nan
    return n.dscale == m.dscale and n.val == m.val


def negative_image(out):
    h = int(out[11:13], 16)
    return h >> 6 == 1 or h >> 5 == 5


def judge(exp, out):
    """None if the observed field `out` is what `exp` requires, else a description"""
    if type(exp) is Num:
        if out[:1] == 'B':
            if out[1:] == exp.img.hex():
                return None
            try:
                n = decode(bytes.fromhex(out[1:]))
            except Bad as e:
                return 'result is not a numeric: %s' % e
            if same(n, exp):
                return None if n.nan or n.val or not negative_image(out) else 'got a negative zero, expected %r' % exp
            return 'got %r, expected %r' % (n, exp)
        return 'got %s, expected %r' % (show_out(out), exp)
    if exp is NONE:
        return None if out == 'N' else 'got %s, expected None' % show_out(out)
    if type(exp) is Panic:
        if out[:1] == 'P':
            m = unhex_text(out[1:])
            if any(s in m for s in exp.subs):
                return None
            return 'panicked with %r, expected %r' % (m, exp)
        return 'got %s, expected %r' % (show_out(out), exp)
    if type(exp) is Approx:
        if out[:1] != 'B':
            return 'got %s, expected %r' % (show_out(out), exp)
        try:
            n = decode(bytes.fromhex(out[1:]))
        except Bad as e:
            return 'result is not a numeric: %s' % e
        if n.nan:
            return 'got NaN, expected %r' % exp
        if not n.val and negative_image(out):
            return 'got a negative zero, expected %r' % exp
        if n.dscale not in exp.scales:
            return 'got scale %d, expected %r' % (n.dscale, exp)
        err = abs(RD.subtract(n.val, exp.true)).scaleb(n.dscale, RD)
        ERR[0] = err
        if err <= exp.bound:
            return None
        return 'error of %s units in the last place: got %r, expected %r' % (show(ctx(6).plus(err)), n, exp)
    if type(exp) is tuple and exp[0] == 'either':
        rs = [judge(e, out) for e in exp[1:]]
        return None if None in rs else rs[-1]
    if type(exp) is str:
        return None if out == exp else 'got %s, expected %s' % (show_out(out), exp)
    raise TypeError(exp)


ERR = [ZERO]


def show_out(out):
    k = out[:1]
    try:
        if k == 'B':
            return repr(decode(bytes.fromhex(out[1:])))
        if k == 'P':
            return 'panic %r' % unhex_text(out[1:])
        if k == 'T':
            t = unhex_text(out[1:])
            return repr(t if len(t) < 200 else t[:150] + '...' + t[-40:])
    except Exception:
        pass
    if k == 'N':
        return 'None'
    return out[:300]

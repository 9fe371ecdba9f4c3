"""PostgreSQL numeric images and exact values, independent of the code under test."""
import decimal, struct, sys
from decimal import Decimal

try:
    sys.set_int_max_str_digits(0)
except AttributeError:
    pass

EMAX, EMIN = decimal.MAX_EMAX, decimal.MIN_EMIN
# exact arithmetic: any rounding raises
EX = decimal.Context(prec=450000, rounding=decimal.ROUND_HALF_UP, Emin=EMIN, Emax=EMAX, capitals=1, clamp=0,
                     traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow, decimal.Inexact])
# rounding arithmetic on demand (quantize, remainders)
RD = decimal.Context(prec=450000, rounding=decimal.ROUND_HALF_UP, Emin=EMIN, Emax=EMAX, capitals=1, clamp=0,
                     traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
decimal.setcontext(RD)

ZERO = Decimal(0)
LIMIT = Decimal((0, (1,), 131072))      # first magnitude whose weight exceeds 32767
BE = False                              # big-endian-varlen build


def set_be(v):
    global BE
    BE = v


def ctx(prec):
    return decimal.Context(prec=prec, rounding=decimal.ROUND_HALF_EVEN, Emin=EMIN, Emax=EMAX, capitals=1, clamp=0,
                           traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])


def pow10(e):
    return Decimal((0, (1,), e))


def split_digits(v):
    """canonical (weight, [base-10000 digits]) of |v|; zero gives (0, [])"""
    if not v:
        return 0, []
    sign, dig, exp = v.as_tuple()
    s = ''.join(map(str, dig)) if len(dig) < 50 else str(Decimal((0, dig, 0)))
    s = s.lstrip('0')
    # position of the last digit is 10^exp; align to multiples of 4
    pad = exp % 4
    s = s + '0' * pad
    e4 = (exp - pad) // 4
    lead = -len(s) % 4
    s = '0' * lead + s
    d = [int(s[i:i + 4]) for i in range(0, len(s), 4)]
    while d and d[-1] == 0:
        d.pop()
        e4 += 1
    i = 0
    while d[i] == 0:
        i += 1
    d = d[i:]
    return e4 + len(d) - 1, d


def image(neg, weight, digits, dscale, form=None):
    """form: None = canonical, 'long' or 'short' to force"""
    nd = len(digits)
    short = dscale <= 63 and -64 <= weight <= 63
    if form == 'long':
        short = False
    elif form == 'short':
        assert short
    if short:
        h = 0x8000 | (0x2000 if neg else 0) | (dscale << 7) | (0x40 if weight < 0 else 0) | (weight & 0x3f)
        body = struct.pack('<H', h)
    else:
        body = struct.pack('<Hh', (0x4000 if neg else 0) | dscale, weight)
    body += struct.pack('<%dh' % nd, *digits)
    return varlen(body)


def varlen(body):
    n = len(body) + 4
    if BE:
        return struct.pack('>I', n & 0x3fffffff) + body
    return struct.pack('<I', (n << 2) & 0xffffffff) + body


def nan_image(low=0):
    return varlen(struct.pack('<H', 0xC000 | low))


class Num:
    __slots__ = ('nan', 'val', 'dscale', '_img', 'wd', 'be')

    def __init__(self, val, dscale, nan=False, img=None, wd=None):
        self.nan = nan
        self.val = val
        self.dscale = dscale
        self._img = img
        self.wd = wd
        self.be = BE

    def weight_digits(self):
        if self.wd is None:
            self.wd = split_digits(self.val)
        return self.wd

    @property
    def weight(self):
        return self.weight_digits()[0]

    @property
    def digits(self):
        return self.weight_digits()[1]

    @property
    def img(self):
        if self._img is not None and self.be != BE:
            # made for the other build's length header
            self._img = varlen(self._img[4:])
            self.be = BE
        if self._img is None:
            self.be = BE
            if self.nan:
                self._img = nan_image()
            else:
                w, d = self.weight_digits()
                self._img = image(self.val < 0, w, d, self.dscale)
        return self._img

    def hex(self):
        return '#' + self.img.hex()

    def __repr__(self):
        if self.nan:
            return 'NaN'
        s = show(self.val)
        return '%s (scale %d)' % (s, self.dscale)


def show(v):
    s = str(v)
    return s if len(s) <= 120 else s[:80] + '...(%d chars)...' % len(s) + s[-30:]


NAN = Num(None, 0, nan=True)


def fit_dscale(val):
    """fewest fractional decimal digits that show val exactly"""
    if not val:
        return 0
    e = val.normalize(RD).as_tuple().exponent
    return max(0, -e)


def digits_val(neg, weight, digits):
    if not digits:
        return ZERO
    s = ''.join('%04d' % d for d in digits)
    v = Decimal(s).scaleb(4 * (weight - len(digits) + 1), EX)
    return -v if neg else v


class Bad(Exception):
    pass


def decode(b, strict=False):
    """Num encoded by image b; strict: raise Bad unless it is the canonical image"""
    if len(b) < 6:
        raise Bad('image of %d bytes' % len(b))
    if BE:
        n = struct.unpack('>I', b[:4])[0] & 0x3fffffff
        flags = b[0] >> 6
    else:
        n0 = struct.unpack('<I', b[:4])[0]
        n = n0 >> 2
        flags = n0 & 3
    h = struct.unpack('<H', b[4:6])[0]
    if n != len(b):
        raise Bad('length word %d, %d bytes' % (n, len(b)))
    if strict and flags:
        raise Bad('length word flag bits set')
    top = h & 0xC000
    if top == 0xC000:
        if strict and len(b) != 6:
            raise Bad('NaN with extra bytes')
        if strict and h != 0xC000:
            raise Bad('NaN header %04x' % h)
        return NAN
    if top == 0x8000:
        neg = bool(h & 0x2000)
        dscale = (h >> 7) & 63
        w = h & 63
        if h & 64:
            w -= 64
        body = b[6:]
        short = True
    else:
        if len(b) < 8:
            raise Bad('long header cut off')
        neg = top == 0x4000
        dscale = h & 0x3fff
        w = struct.unpack('<h', b[6:8])[0]
        body = b[8:]
        short = False
    if len(body) % 2:
        raise Bad('odd digit bytes')
    d = struct.unpack('<%dh' % (len(body) // 2), body)
    for x in d:
        if not 0 <= x <= 9999:
            raise Bad('digit %d' % x)
    if strict:
        if d and (d[0] == 0 or d[-1] == 0):
            raise Bad('leading or trailing zero digit')
        if not d and neg:
            raise Bad('negative zero')
        if not d and w != 0:
            raise Bad('zero with weight %d' % w)
        if short != (dscale <= 63 and -64 <= w <= 63):
            raise Bad('%s header for weight %d scale %d' % ('short' if short else 'long', w, dscale))
        if d:
            frac = 4 * (len(d) - 1 - w)
            if frac > 0:
                last = d[-1]
                while frac > 0 and last % 10 == 0:
                    last //= 10
                    frac -= 1
                if frac > dscale:
                    raise Bad('digits hidden beyond scale %d' % dscale)
    v = digits_val(neg, w, d)
    return Num(v, dscale, img=b)


def text_of(n):
    if n.nan:
        return 'NaN'
    v = n.val
    if not v:
        v = ZERO
    q = v.quantize(pow10(-n.dscale), rounding=decimal.ROUND_DOWN, context=RD) if n.dscale or v.as_tuple().exponent < 0 else v
    s = format(q, 'f')
    return s

"""Seeded generators of numerics and pairs, aimed at digit-group boundaries, carries, and header limits."""
import random
from decimal import Decimal
from .num import *

DIGIT_POOLS = [
    lambda r: r.randint(0, 9999),
    lambda r: 9999,
    lambda r: r.choice((0, 9999)),
    lambda r: r.choice((0, 0, 0, 1, 9999)),
    lambda r: r.choice((5000, 4999, 5001, 0, 9999)),
    lambda r: r.choice((9990, 9900, 9000, 10, 100, 1000, 1, 0)),
    lambda r: r.choice((0, 1, 2, 9, 10, 99, 100, 999, 1000, 9999, 5000)),
    lambda r: r.randint(9000, 9999),
    lambda r: r.randint(0, 9),
]


class Gen:
    # how often num() gives a numeric of any length, weight and scale the format has
    broad_p = 0.012

    def __init__(self, seed):
        self.r = random.Random(seed)

    def light(self, p=0):
        """the same stream with few or no very long numerics, for operations that are slow on them"""
        g = Gen.__new__(type(self))
        g.r = self.r
        g.broad_p = min(p, self.broad_p)
        return g

    def broad(self, neg=None, most=None):
        """length, weight and scale anywhere, evenly by magnitude"""
        r = self.r
        if neg is None:
            neg = r.random() < 0.5
        k = r.randrange(4)
        if k == 0:
            # few digits, far from the point
            n = r.randint(1, 6)
            w = int(2 ** r.uniform(5, 15)) - 1
            if r.random() < 0.5:
                w = -min(4090, w)
            ex = 0
        elif k == 1:
            # few digits, a large scale
            n = r.randint(1, 12)
            w = r.randint(-3, n + 2)
            ex = int(2 ** r.uniform(5, 14))
        else:
            n = int(2 ** r.uniform(5, 12 if r.random() < 0.97 else 15))
            if most:
                n = min(n, most)
            w = r.choice((n - 1, n - 1, r.randint(-2, n), r.randint(-2, n), -1, 0, int(2 ** r.uniform(4, 15)), -int(2 ** r.uniform(4, 12))))
            # the fraction has at most 4095 groups
            w = max(w, n - 4090, -4090)
            ex = r.choice((0, 0, 0, int(2 ** r.uniform(0, 14))))
        d = self.digit_list(n)
        d[0] = d[0] or 1
        if k > 1 and r.random() < 0.2:
            # a long run of one digit somewhere
            i, j = sorted((r.randint(0, n), r.randint(0, n)))
            d[i:j] = [r.choice((0, 9999))] * (j - i)
            d[0] = d[0] or 1
        return self.make(neg, min(32767, w), d, ex)

    def long(self, lo, hi, weights=(-3, 3), neg=None, extra=(0, 0, 0, 3, 40)):
        """lo to hi base digits (evenly by magnitude), the first one near the point (weights) or the last one (weights None)"""
        r = self.r
        n = int(lo * (hi / lo) ** r.random())
        d = self.digit_list(n)
        d[0] = d[0] or 1
        return self.make(r.random() < 0.5 if neg is None else neg, r.randint(*weights) if weights else n + r.randint(-2, 4), d, r.choice(extra))

    # -- digit strings
    def digit_list(self, n):
        r = self.r
        if r.random() < 0.25 and n > 2:
            # runs
            d = []
            while len(d) < n:
                x = r.choice((0, 9999, 5000, 4999, r.randint(0, 9999), 1))
                d += [x] * r.randint(1, max(1, n // 2))
            return d[:n]
        p = r.choice(DIGIT_POOLS)
        d = [p(r) for _ in range(n)]
        if r.random() < 0.4:
            d[r.randrange(n)] = r.randint(0, 9999)
        return d

    def length(self, big=1.0):
        r = self.r
        x = r.random()
        if x < 0.30:
            return r.randint(1, 2)
        if x < 0.65:
            return r.randint(2, 6)
        if x < 0.85:
            return r.randint(4, 16)
        if x < 0.97 or big < 1:
            return r.randint(16, 48)
        return r.randint(48, 160)

    def make(self, neg, weight, digits, extra=0, form=None):
        digits = list(digits)
        while digits and digits[0] == 0:
            digits.pop(0)
            weight -= 1
        while digits and digits[-1] == 0:
            digits.pop()
        if not digits:
            ds = min(16383, extra)
            return Num(ZERO, ds, wd=(0, []))
        frac = 4 * (len(digits) - 1 - weight)
        if frac > 0:
            last = digits[-1]
            while frac > 0 and last % 10 == 0:
                last //= 10
                frac -= 1
        frac = max(0, frac)
        ds = min(16383, frac + extra)
        if ds < frac or not -4096 <= weight <= 32767:
            return self.plain(neg)
        n = Num(digits_val(neg, weight, digits), ds, wd=(weight, digits))
        return n

    def extra(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return 0
        if x < 0.85:
            return r.randint(1, 8)
        if x < 0.95:
            return r.randint(1, 80)
        return r.choice((63, 64, 62, 65, 250, 999, 1000, 1001))

    def num(self, nan=0.01, wide=True, big=1.0, neg=None):
        r = self.r
        x = r.random()
        if x < nan:
            return NAN
        if x < nan + 0.02:
            return Num(ZERO, r.choice((0, 0, 1, 4, 16, 63, 64, 1000)) if wide else r.choice((0, 2, 16)), wd=(0, []))
        ng = (r.random() < 0.5) if neg is None else neg
        if wide and x > 1 - self.broad_p:
            return self.broad(ng)
        y = r.random()
        if y < 0.22:
            return self.plain(ng)
        n = self.length(big)
        d = self.digit_list(n)
        z = r.random()
        if z < 0.70 or not wide:
            w = r.randint(-3, n + 1)
        elif z < 0.9:
            w = r.choice((-66, -65, -64, -63, -62, 61, 62, 63, 64, 65, 66, n - 1, n, -1, 0)) + r.choice((0, 0, 0, 1, -1))
        else:
            w = r.randint(-80, 80)
        return self.make(ng, w, d, self.extra() if wide else r.choice((0, 0, 0, 1, 3)))

    def plain(self, neg=None):
        """decimal digits with a point anywhere, as a person would write them"""
        r = self.r
        if neg is None:
            neg = r.random() < 0.5
        k = r.choice((1, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 18, 20, 25, 30, 40))
        s = ''.join(r.choice('0123456789') for _ in range(k))
        if r.random() < 0.3:
            s = r.choice('123456789') + r.choice('09') * (k - 1)
        p = r.choice((0, 0, 1, 2, 3, 4, 5, 6, 8, 10, 16, 20))
        v = Decimal(s).scaleb(-p, EX)
        ds = min(16383, max(0, p))
        return Num(-v if neg and v else abs(v), ds)

    def extreme(self):
        """near the limits of the format"""
        r = self.r
        neg = r.random() < 0.5
        k = r.randrange(10)
        if k == 0:
            return self.make(neg, 32767, self.digit_list(r.randint(1, 4)), r.choice((0, 0, 5)))
        if k == 1:
            return self.make(neg, 32767, [9999] * r.randint(1, 40), 0)
        if k == 2:
            n = 32768 + r.choice((0, 0, 1))
            return self.make(neg, 32767, [9999] * n, r.choice((0, 0, 1)))
        if k == 3:
            return self.make(neg, r.randint(32700, 32767), self.digit_list(r.randint(1, 30)), 0)
        if k == 4:
            # smallest: scale 16383
            nd = r.randint(1, 3)
            w = -4096 + nd - 1
            d = self.digit_list(nd)
            d[-1] = d[-1] // 10 * 10 or 10
            return self.make(neg, w, d, 0)
        if k == 5:
            return self.make(neg, r.choice((0, -1, 1)), self.digit_list(3), 16383)
        if k == 8:
            # a small number at the far end of the scale, one or a few decimal digits anywhere in it
            ds = 16383 - r.choice((0, 0, 1, 2, 3, 7, 15, 31, 62, 63, 64, 65, r.randint(0, 400)))
            e = r.choice((ds, ds - 1, ds - r.randint(0, 80), r.randint(16000, ds) if ds > 16000 else ds))
            v = Decimal((int(neg), tuple(map(int, str(r.choice((1, 5, 9, 12, 9999, 10001, r.randint(1, 10 ** 8)))))), -e))
            return Num(v, ds)
        if k == 9:
            # a short number with a scale at the limit, the group count small
            return self.make(neg, r.choice((-1, -2, -63, -64, -65, -66, -4000, -4030, -4031, -4032, -4033)), self.digit_list(r.randint(1, 3)), r.choice((16383, 16320, 8192)))
        if k == 6:
            return Num(ZERO, r.choice((16383, 16382, 8192, 8191)), wd=(0, []))
        return self.make(neg, r.choice((16383, 16384, 8000)), self.digit_list(r.randint(1, 20)), r.choice((0, 7000, 8191, 8192)))

    # -- related operands
    def related(self, a):
        """an operand chosen for its relation to a"""
        r = self.r
        if a.nan:
            return self.num()
        k = r.randrange(9)
        if k == 0:      # same value, other scale
            return Num(a.val, min(16383, a.dscale + r.choice((0, 1, 3, 4, 60, 70))), wd=a.wd)
        if k == 1:
            return Num(-a.val if a.val else ZERO, a.dscale)
        w, d = a.weight_digits()
        if not d:
            return self.num()
        d = list(d)
        if k == 2:      # one digit apart
            i = r.randrange(len(d))
            d[i] = max(0, min(9999, d[i] + r.choice((-1, 1))))
            return self.make(a.val < 0, w, d, r.choice((0, 0, 2)))
        if k == 3:      # longer by some digits
            return self.make(r.random() < 0.5, w, d + self.digit_list(r.randint(1, 3)), 0)
        if k == 4:      # a prefix
            return self.make(r.random() < 0.5, w, d[:r.randint(1, len(d))], r.choice((0, 0, 1)))
        if k == 5:      # same digits, other weight
            return self.make(r.random() < 0.5, w + r.choice((-1, 1, -2, 2)), d, 0)
        if k == 6:      # complement: a + b is a power of the base
            e = 4 * (w + 1 + r.choice((0, 0, 1)))
            v = EX.subtract(pow10(e), abs(a.val))
            ds = max(a.dscale, fit_dscale(v))
            if ds > 16383 or abs(v) >= LIMIT:
                return self.num()
            return Num(v if (a.val > 0) == (r.random() < 0.8) else -v, ds)
        if k == 7:      # one unit in the last place apart
            v = EX.add(a.val, Decimal((r.randint(0, 1), (1,), -a.dscale)))
            if abs(v) >= LIMIT:
                return self.num()
            return Num(v if v else ZERO, a.dscale)
        return self.num()

    def pair(self, **kw):
        r = self.r
        if r.random() < self.broad_p / 2:
            a = self.broad()
            b = self.related(a) if r.random() < 0.4 else self.broad() if r.random() < 0.6 else self.num(nan=0)
            if r.random() < 0.5:
                a, b = b, a
            return a, b
        a = self.num(**kw)
        x = r.random()
        if x < 0.02:
            # both operands are one object
            return a, a
        if x < 0.45:
            b = self.num(**kw)
        else:
            b = self.related(a)
        if r.random() < 0.5:
            a, b = b, a
        return a, b

    def divpair(self):
        """(dividend, divisor) near exact multiples, with quotient digits that need correction"""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return self.pair()
        if r.random() < self.broad_p:
            # long operands: exact quotients and their neighbours, and any
            b = self.broad(most=2000) if r.random() < 0.6 else self.num(nan=0, wide=False)
            if r.random() < 0.5 and b.val:
                q = self.broad(most=2000) if r.random() < 0.6 else self.num(nan=0, wide=False)
                v = EX.multiply(b.val, q.val)
                v = EX.add(v, Decimal((r.randint(0, 1), (r.choice((0, 1, 1, 5)),), -r.choice((0, q.dscale + b.dscale, r.randint(0, 2000))))))
                ds = fit_dscale(v)
                if ds <= 16383 and abs(v) < LIMIT:
                    return Num(v if v else ZERO, min(16383, ds + r.choice((0, 0, 2)))), b
            a = self.broad(most=4000)
            return (b, a) if r.random() < 0.2 else (a, b)
        b = self.num(nan=0, wide=False)
        while not b.val:
            b = self.num(nan=0, wide=False)
        if k in (1, 2):
            q = self.num(nan=0, wide=False)
            v = EX.multiply(b.val, q.val)
            dl = Decimal((r.randint(0, 1), (r.choice((0, 1, 1, 5)),), -r.randint(0, 30)))
            v = EX.add(v, dl)
            ds = fit_dscale(v)
            if ds > 16383 or abs(v) >= LIMIT:
                return self.pair()
            return Num(v if v else ZERO, min(16383, ds + r.choice((0, 0, 2)))), b
        if k == 3:
            # Knuth's add-back: divisor digits d1 large, 0, 9999.., dividend just below
            n = r.randint(3, 8)
            dv = [r.choice((5000, 5001, 9999, 1, 2, 4999))] + [r.choice((0, 0, 9999, 1))] * (n - 2) + [r.choice((9999, 1, 9998))]
            dd = [max(1, dv[0] - r.choice((0, 1)))] + [r.choice((9999, 0, 9998))] * r.randint(1, 4) + self.digit_list(r.randint(1, 6))
            return self.make(r.random() < 0.5, r.randint(0, 6), dd), self.make(r.random() < 0.5, r.randint(0, 6), dv)
        if k == 4:
            # ties: a/b = k + 0.5 ulp at the selected scale is rare; powers of two divisors get there
            b = Num(Decimal(2 ** r.randint(1, 60)), 0)
            return self.plain(), b
        # equal leading digits
        n = r.randint(2, 12)
        d = self.digit_list(n)
        d[0] = max(1, d[0])
        a = self.make(r.random() < 0.5, r.randint(0, 8), d + self.digit_list(r.randint(1, 8)))
        return a, self.make(r.random() < 0.5, r.randint(0, 8), d)

    def dense(self, n, weight=None):
        """n large base digits: forces carry normalisation in long products"""
        r = self.r
        lo = r.choice((9000, 9990, 9999))
        d = [r.randint(lo, 9999) for _ in range(n)]
        if r.random() < 0.3:
            d[r.randrange(n)] = r.choice((0, 1))
        return self.make(r.random() < 0.5, weight if weight is not None else r.randint(-2, n), d, 0)

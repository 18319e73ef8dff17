"""C16: float1024 is a correctly rounded 1024-bit number."""

import math
import pickle
from decimal import Decimal
from fractions import Fraction

from vf.harness import Family

RULE = ('Random operands (few bits to 1024 bits, exponents up to 1e300, equal '
        'and nearly equal pairs, zeros, infinities, NaN) through every '
        'operator; results are compared with exact rationals rounded to 1024 '
        'bits. Non-trivial: operands not seen before.')
NEEDED = ('arithmetic', 'rounded', 'comparisons', 'special', 'pickles',
          'strings', 'formats', 'powers', 'refused')
P = 1024


def F():
    from tnco_core import float1024
    return float1024


def val(x):
    """Exact value from the pickled state (hexadecimal floating point)."""
    s = x.__getstate__() if hasattr(x, '__getstate__') else x.__reduce__()
    if not isinstance(s, str):
        s = pickle_state(x)
    return parse(s)


def pickle_state(x):
    r = x.__reduce_ex__(2)
    return r[2]


def parse(s):
    t = s.lstrip('-')
    if t in ('inf', 'nan', '@inf@', '@nan@'):
        return None
    m, e = t[2:].split('p')
    i, _, f = m.partition('.')
    v = Fraction(int(i + f, 16)) * Fraction(2)**(int(e) - 4 * len(f))
    return -v if s.startswith('-') else v


def round_(v, p=P):
    """Nearest number of p bits, ties to even."""
    if v == 0:
        return v
    a = abs(v)
    e = a.numerator.bit_length() - a.denominator.bit_length() - p
    while True:
        q = a / Fraction(2)**e
        n = q.numerator // q.denominator
        if n.bit_length() > p:
            e += 1
        elif n.bit_length() < p:
            e -= 1
        else:
            break
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    w = n * Fraction(2)**e
    return w if v > 0 else -w


def operand(rng):
    """(float1024, exact value) with up to 1024 bits."""
    k = rng.randrange(6)
    if k == 0:
        v = Fraction(rng.randint(-20, 20))
    elif k == 1:
        v = Fraction(rng.normalvariate(0, 1) * 10.**rng.randint(-250, 250))
    else:
        bits = rng.choice([30, 53, 64, 300, P, P])
        v = Fraction(rng.getrandbits(bits) | 1) * Fraction(2)**rng.choice(
            [0, -bits, rng.randint(-3000, 3000)])
        if rng.coin():
            v = -v
    e = v.denominator.bit_length() - 1
    # hexadecimal strings are exact
    x = F().__new__(F())
    x.__setstate__(f'{"-" if v < 0 else ""}0x{abs(v.numerator):x}p-{e}')
    return x, v


def arithmetic(rng, mon):
    f = F()
    x, a = operand(rng)
    if rng.coin(.15):
        y, b = f(x), a
    elif rng.coin(.2):
        # nearly equal: cancellation
        x, a = operand(rng)
        b = round_(a * (1 + Fraction(1, 2**rng.choice([10, 500, 1020]))))
        e = b.denominator.bit_length() - 1
        y = f.__new__(f)
        y.__setstate__(f'{"-" if b < 0 else ""}0x{abs(b.numerator):x}p-{e}')
    else:
        y, b = operand(rng)
    mon.note(a=str(a)[:200], b=str(b)[:200])
    mon.check(val(x) == a and val(y) == b, 'the number is not the given one',
              key='construct')
    other = y
    if b == Fraction(float(b)) if abs(b) < 10**300 else False:
        if rng.coin(.4):
            other = float(b)
            if other.is_integer() and abs(other) < 2**53 and rng.coin():
                other = int(other)
    ops = {
        'add': (lambda p, q: p + q, a + b),
        'sub': (lambda p, q: p - q, a - b),
        'mul': (lambda p, q: p * q, a * b)
    }
    if b:
        ops['div'] = (lambda p, q: p / q, a / b)
    for name, (op, w) in ops.items():
        want = round_(w)
        r = op(x, other)
        mon.check(val(r) == want, f'{name} is not correctly rounded', key=name,
                  got=str(r)[:50])
        if want != w:
            mon.event('rounded')
        mon.event('arithmetic')
        # in place
        z = f(x)
        keep = f(x)
        if name == 'add':
            z += other
        elif name == 'sub':
            z -= other
        elif name == 'mul':
            z *= other
        else:
            z /= other
        mon.check(val(z) == want, f'in-place {name} is wrong', key=f'i{name}')
        mon.check(val(keep) == a and val(x) == a and val(y) == b,
                  f'{name} changes its operands', key='mutated')
        if not isinstance(other, f):
            rev = {'add': b + a, 'sub': b - a, 'mul': b * a}.get(name)
            if name == 'div':
                if not a:
                    continue
                rev = b / a
            mon.check(val(op(other, x)) == round_(rev),
                      f'reflected {name} is wrong', key=f'r{name}')
    mon.check(val(-x) == -a and val(+x) == a and val(abs(x)) == abs(a),
              'sign operations', key='sign')
    mon.check(x.signbit() == (a < 0) and not x.isnan() and not x.isinf(),
              'signbit, isnan, isinf', key='class')
    for name, got, want in (
        ('==', x == other, a == b), ('!=', x != other, a != b),
        ('<', x < other, a < b), ('<=', x <= other, a <= b),
        ('>', x > other, a > b), ('>=', x >= other, a >= b),
        ('r==', other == x, a == b), ('r<', other < x, b < a),
        ('r<=', other <= x, b <= a), ('r>', other > x, b > a),
        ('r>=', other >= x, b >= a), ('r!=', other != x, a != b)):
        mon.check(got is want, f'comparison {name}', key='compare', got=got)
        mon.event('comparisons')
    if abs(a) < 10**300:
        fl = float(a)
        mon.check(abs(float(x) - fl) <= math.ulp(fl), 'conversion to float',
                  key='float', got=float(x), want=fl)
    y2 = pickle.loads(pickle.dumps(x))
    mon.check(val(y2) == a, 'pickling changes the number', key='pickle')
    mon.event('pickles')
    mon.distinct(a, b)
    mon.sample(a=str(a)[:60], b=str(b)[:60])


def powers(rng, mon):
    x, a = operand(rng)
    while abs(a) > 2**600 or (a and abs(a) < Fraction(1, 2**600)):
        x, a = operand(rng)
    n = rng.randint(-6, 12)
    if a == 0 and n <= 0:
        return
    mon.check(val(x**n) == round_(a**n), 'power is not correctly rounded',
              key='pow', a=str(a), n=n)
    if a > 0:
        r = x**.5
        s = val(r)
        mon.check(abs(s * s / a - 1) < Fraction(1, 2**1020), 'square root',
                  key='pow')
    mon.event('powers')
    mon.distinct('pow', a, n)


def special(rng, mon):
    f = F()
    inf, nan, z = math.inf, math.nan, 0.
    pool = [inf, -inf, nan, 0., -0., 1., -2.5]
    a, b = rng.choice(pool), rng.choice(pool)
    x = f(a) if rng.coin() else f(str(a))
    y = f(b) if rng.coin() else b
    mon.note(a=a, b=b)

    def like(got, want):
        if not isinstance(got, f):
            return False
        w = float(got)
        return (math.isnan(w) and math.isnan(want)) or (
            w == want and math.copysign(1, w) == math.copysign(1, want))

    mon.check(like(x + y, a + b) and like(x - y, a - b) and like(x * y, a * b),
              'arithmetic of special values', key='special')
    if b:
        mon.check(like(x / y, a / b), 'division of special values',
                  key='special')
    elif a and not math.isnan(a):
        mon.check(like(x / y, math.copysign(inf, math.copysign(1, a) *
                                            math.copysign(1, b))),
                  'division by zero', key='special')
    mon.check(((x == y), (x != y), (x < y), (x <= y), (x > y),
               (x >= y)) == ((a == b), (a != b), (a < b), (a <= b), (a > b),
                             (a >= b)), 'comparison of special values',
              key='special-compare', a=a, b=b)
    mon.check(bool(x.isinf()) == math.isinf(a) and
              bool(x.isnan()) == math.isnan(a), 'isinf, isnan', key='class')
    if not math.isnan(a):
        mon.check(bool(x.signbit()) == (math.copysign(1, a) < 0), 'signbit',
                  key='class')
        w = pickle.loads(pickle.dumps(x))
        mon.check(like(w, a), 'pickling changes the number', key='pickle')
        mon.check(like(f(str(x)), a), 'string changes the number',
                  key='string')
    else:
        mon.check(pickle.loads(pickle.dumps(x)).isnan(),
                  'pickling changes the number', key='pickle')
    mon.event('special')
    mon.distinct('special', a, b)


def strings(rng, mon):
    f = F()
    x, a = operand(rng)
    n = rng.randint(1, 400)
    # exact decimal integers and fractions
    i = rng.getrandbits(rng.choice([10, 60, 900, 1024]))
    if rng.coin():
        i = -i
    y = f(str(i))
    mon.check(val(y) == i, 'integer from a string', key='string', i=i)
    mon.check(Decimal(str(y)) == i and Fraction(Decimal(repr(y))) == i,
              'string of an integer', key='string', i=i, got=str(y)[:60])
    s = f'{rng.randint(-99, 99)}.{rng.randint(0, 10**n)}e{rng.randint(-300, 300)}'
    mon.check(val(f(s)) == round_(Fraction(Decimal(s))), 'number from a string',
              key='string', s=s)
    # as many decimals as documented
    if abs(a) < 2**700:
        d = x.digits10
        mon.check(d == 308 and x.prec == P, 'digits or precision', key='digits')
        mon.check(abs(Fraction(Decimal(str(x))) - a) <= Fraction(1, 2 * 10**d),
                  'string of a number', key='string', got=str(x)[:60])
    mon.event('strings')
    mon.distinct('str', i, s)
    if rng.coin(.2):
        bad = rng.choice(['', 'abc', '1.2.3', '1e', '--1', '0x', '1 2', 'one'])
        mon.raises((ValueError, TypeError), lambda: f(bad), f'string {bad!r}',
                   key='refuse')
        mon.event('refused')


def formats(rng, mon):
    """Python's format of the same decimal number."""
    f = F()
    v = rng.choice([rng.normalvariate(0, 1) * 10.**rng.randint(-6, 9),
                    float(rng.randint(-10**6, 10**6)), 0.5, 2.5, 1e22])
    x = f(v)
    t = rng.choice('fFeEgG%')
    prec = rng.randint(0, 25)
    if t in 'gG' and prec == 0:
        prec = 1
    sign = rng.choice(['', '', '+', ' ', '-'])
    w = rng.choice(['', '', str(rng.randint(1, 45))])
    align = rng.choice(['', '', '<', '>', '^', '*<', 'x>', '.^']) if w else ''
    zero = '0' if w and not align and rng.coin(.4) else ''
    spec = f'{align}{sign}{zero}{w}.{prec}{t}'
    # Python's rounding of exact binary values is to even as well
    want = format(v, spec)
    if t == '%' and Fraction(v * 100) != Fraction(v) * 100:
        # Python rounds the product
        return
    got = format(x, spec)
    mon.check(got == want, 'format', key='format', spec=spec, got=got,
              want=want, value=v)
    mon.event('formats')
    mon.distinct('fmt', spec, v)
    if rng.coin(.1):
        bad = rng.choice(['d', '.f3', 'q', '10x', '5.2h'])
        mon.raises((RuntimeError, ValueError), lambda: format(x, bad),
                   f'format {bad!r}', key='refuse')
        mon.event('refused')


FAMILIES = [
    Family(arithmetic, 2500),
    Family(powers, 500),
    Family(special, 600),
    Family(strings, 600),
    Family(formats, 1500),
]

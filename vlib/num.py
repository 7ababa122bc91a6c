"""Exact complex rationals on the specification's side, decimals on the implementation's."""
from fractions import Fraction as Fr
from decimal import Decimal, getcontext
getcontext().prec = 170


def cval(v):
    """<<re, im, den>> -> (Fraction, Fraction); [] -> None"""
    if not v:
        return None
    return Fr(v[0], v[2]), Fr(v[1], v[2])


def ctok(v):
    re, im = cval(v)
    return '%s,%s' % (re, im) if im else str(re)


def dec(q):
    return Decimal(q.numerator) / Decimal(q.denominator)


def parse(tok):
    a, b = tok.split(',')
    return Decimal(a), Decimal(b)


def parse_list(reply):
    """'ok z z z' -> list of complex decimals, or None"""
    if not (reply == 'ok' or reply.startswith('ok ')):
        return None
    try:
        return [parse(t) for t in reply.split()[1:]]
    except Exception:
        return None


def tol(ty, prec):
    return Decimal(10) ** -9 if ty == 'dbl' else Decimal(10) ** -(prec - 12)


def close(got, exp, ty, prec, scale=1):
    """got, exp complex decimals"""
    if not (got[0].is_finite() and got[1].is_finite()):
        return False
    m = max(abs(exp[0]), abs(exp[1]), Decimal(scale))
    t = tol(ty, prec) * m
    return abs(got[0] - exp[0]) <= t and abs(got[1] - exp[1]) <= t


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def cadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def csub(a, b):
    return a[0] - b[0], a[1] - b[1]


def cdecs(v):
    re, im = cval(v)
    return dec(re), dec(im)

"""IEEE 754 binary32 and binary64 over exact rationals."""
from fractions import Fraction as F

P = {32: (8, 23), 64: (11, 52)}


def finite(b, n):
    e, m = P[n]
    return 0 <= b < (1 << n) and (b >> m) & ((1 << e) - 1) != (1 << e) - 1


def value(b, n):
    e, m = P[n]
    s = -1 if b >> (n - 1) else 1
    ex = (b >> m) & ((1 << e) - 1)
    ma = b & ((1 << m) - 1)
    bias = (1 << (e - 1)) - 1
    if ex == 0:
        return F(s * ma) * F(2) ** (1 - bias - m)
    return F(s * (ma | (1 << m))) * F(2) ** (ex - bias - m)


def nearest(v, n):
    """Bits of the nearest value, ties to even; overflow gives infinity. Zero is positive."""
    e, m = P[n]
    bias = (1 << (e - 1)) - 1
    s = 1 if v < 0 else 0
    v = abs(F(v))
    if v == 0:
        return 0
    # exponent of v: 2^k <= v < 2^(k+1)
    k = v.numerator.bit_length() - v.denominator.bit_length()
    if F(2) ** k > v:
        k -= 1
    if F(2) ** (k + 1) <= v:
        k += 1
    q = max(k, 1 - bias) - m
    r = v / F(2) ** q
    f = r.numerator // r.denominator
    rem = r - f
    if rem > F(1, 2) or (rem == F(1, 2) and f & 1):
        f += 1
    # f counts units of 2^q; adding to the encoding carries into the exponent
    if k < 1 - bias:
        bits = f
    else:
        bits = ((k + bias) << m) + (f - (1 << m))
    inf = ((1 << e) - 1) << m
    bits = min(bits, inf)
    return bits | (s << (n - 1))


def exact_decimal(v):
    """The terminating decimal expansion of v, or None."""
    v = F(v)
    d = v.denominator
    k = 0
    while d % 10 == 0:
        d //= 10
        k += 1
    a = b = 0
    while d % 2 == 0:
        d //= 2
        a += 1
    while d % 5 == 0:
        d //= 5
        b += 1
    if d != 1:
        return None
    return decimal(v, k + max(a, b))


def decimal(v, digits):
    """v to so many decimals, truncated."""
    v = F(v)
    s = "-" if v < 0 else ""
    v = abs(v)
    n = v.numerator * 10 ** digits // v.denominator
    t = str(n).rjust(digits + 1, "0")
    return s + (t[:-digits] + "." + t[-digits:] if digits else t)


def nearest_of_float(x, n):
    return nearest(F(x), n)

#!/usr/bin/env python3
"""The inputs on which a decimal/binary conversion has the least room for error, found by a Euclid-like search that visits,
for every binary exponent and every number n of decimal digits, all significands whose scaled value falls into a small
window above or below an integer (the window is chosen so that about `want` significands do).

  hard.py OUT_BIN OUT_TXT WANT [STEP]

OUT_BIN: records double (8 bytes LE), n | kind << 6 with kind 0: the upper rounding boundary is next to an n-digit decimal,
3: the lower one, 1: the value is next to the half-way point of two n-digit decimals, 2: the value is next to one itself.
OUT_TXT: n-digit decimals next to a rounding boundary of double, float or long double, one per line. Deterministic."""
import struct, sys
from fractions import Fraction
from multiprocessing import Pool

def first(a, m, L, R):
    """smallest x >= 0 with L <= a x mod m <= R (0 <= L <= R < m), or None"""
    st = []
    while True:
        a %= m
        if L == 0: x = 0; break
        if a == 0: return None
        if 2 * a > m: a, L, R = m - a, m - R, m - L
        c = -(-L // a)
        if c * a <= R: x = c; break
        st.append((a, m, L)); a, m, L, R = m % a, a, (-R) % a, (-L) % a
        if L > R: x = 0; break            # the range wraps: 0 is in it
    while st:
        a, m, L = st.pop(); x = -(-(L + m * x) // a)
    return x

def hits(num, den, off, lo, cnt, want):
    """x in [lo, lo+cnt) with (x*num/den + off) mod 1 in [0, want/cnt]; at most 3*want of them"""
    M = den * off.denominator; a = num * off.denominator % M; b = (num * lo * off.denominator + off.numerator * den) % M
    E = M * want // cnt
    if E >= M: return []
    out, x0 = [], 0
    while x0 < cnt and len(out) < 3 * want:
        bb = (b + a * x0) % M
        L, R = (-bb) % M, (E - bb) % M
        x = 0 if L > R else first(a, M, L, R)
        if x is None: break
        x0 += x
        if x0 >= cnt: break
        out.append(lo + x0); x0 += 1
    return out

def job(arg):
    """one binary exponent: significands of p bits (hidden bit included) times 2^e"""
    typ, be, want = arg
    p, bias, ns, kinds = {"d": (53, 1075, range(5, 20), (0, 1, 2)), "f": (24, 150, range(3, 13), (0,)), "l": (64, 16446, range(12, 23), (0,))}[typ]
    e = max(be, 1) - bias; h = 2 ** (p - 1); lo, cnt = (h, h) if be else (1, h - 1); top = lo + cnt
    v = top * Fraction(2) ** e; d = int((top.bit_length() + e) * 0.30103) - 2
    while Fraction(10) ** d <= v: d += 1
    recs, texts = set(), set()
    for n in ns:
        k = d - n
        num = 2 ** max(e, 0) * 10 ** max(-k, 0); den = 2 ** max(-e, 0) * 10 ** max(k, 0)
        for kind in kinds:
            if kind and n < 15: continue
            off = (Fraction(num, 2 * den), Fraction(1, 2), Fraction(0))[kind]
            for s in (1, -1):
                for x in hits(num if s > 0 else -num % den, den, s * off, lo, cnt, want):
                    recs.add((x, n, kind))
                    if kind == 0:
                        if x + 1 < top: recs.add((x + 1, n, 3))
                        texts.add("%de%d" % (((2 * x + 1) * num + den) // (2 * den), k))
    r = b"".join(struct.pack("<QB", (be << 52) + (x - h if be else x), n | kind << 6) for x, n, kind in sorted(recs)) if typ == "d" else b""
    return r, sorted(texts)

if __name__ == "__main__":
    want = int(sys.argv[3]); step = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    jobs = [("d", b, want) for b in range(0, 2047, step)] + [("f", b, want) for b in range(0, 255, step)] + [("l", b, want) for b in range(15000, 17800, 16 * step)]
    with Pool() as p: rs = p.map(job, jobs, chunksize=4)
    open(sys.argv[1], "wb").write(b"".join(r[0] for r in rs))
    with open(sys.argv[2], "w") as f:
        for r in rs:
            for t in r[1]: f.write(t + "\n")

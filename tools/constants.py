#!/usr/bin/env python3-vt
"""Writes harness/constants.inc: the named constants, correctly rounded, from their definitions (mpmath, 300 bits)."""
import os
from mpmath import mp, mpf
import mpmath as mm
mp.prec = 600
fib_sum = mpf(0)
a, b = mpf(1), mpf(1)
for _ in range(1200):
    fib_sum += 1 / a
    a, b = b, a + b
def plastic():
    r = mm.sqrt(mpf(69)) / 18
    return mm.cbrt(mpf(1) / 2 + r) + mm.cbrt(mpf(1) / 2 - r)
C = {
    "e": mm.e, "e_sqr": mm.exp(2), "e_pow_pi": mm.exp(mm.pi), "pi": mm.pi, "two_pi": 2 * mm.pi, "two_over_pi": 2 / mm.pi,
    "pi_over_two": mm.pi / 2, "pi_sqr": mm.pi ** 2, "inv_pi": 1 / mm.pi, "tau": 2 * mm.pi,
    "log2_e": 1 / mm.log(2), "log10_e": 1 / mm.log(10), "ln_two": mm.log(2), "ln_ten": mm.log(10),
    "sqrt_two": mm.sqrt(2), "sqrt_three": mm.sqrt(3), "sqrt_five": mm.sqrt(5), "sqrt_e": mm.sqrt(mm.e),
    "sqrt_pi": mm.sqrt(mm.pi), "sqrt_two_pi": mm.sqrt(2 * mm.pi), "sqrt_two_pi_e": mm.sqrt(2 * mm.pi * mm.e),
    "inv_sqrt_pi": 1 / mm.sqrt(mm.pi), "cbrt_two": mm.cbrt(2), "inv_fibonacci": fib_sum,
    "phi": (1 + mm.sqrt(5)) / 2, "catalan": mm.catalan, "euler": mm.euler, "gauss": 1 / mm.agm(1, mm.sqrt(2)),
    "plastic": plastic(), "zeta_two": mm.zeta(2), "zeta_three": mm.zeta(3), "zeta_four": mm.zeta(4),
}
def rounded(x, bits):
    x = mpf(x)
    m, e = mm.frexp(x)
    n = int(mm.nint(mm.ldexp(m, bits)))
    return "0x%xp%d" % (n, int(e) - bits)
out = ["// Written by tools/constants.py: CONSTANT(name, float, double, long double)"]
for n, v in C.items():
    out.append("CONSTANT(%s, %sF, %s, %sL)" % (n, rounded(v, 24), rounded(v, 53), rounded(v, 64)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "constants.inc"), "w").write("\n".join(out) + "\n")

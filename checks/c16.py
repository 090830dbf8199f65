"""C16: index-level value-flow lowering of the fractional-delay kernel (tap position, window, direct and table evaluation, validity mask) compared with the exact sinc law, and symbolic interval bounds on every table read."""
from vf.simconf import *
from checks.c14 import law

ASPECTS = {"pos": "taps are written around the arrival, inside their own response", "kernel": "direct and table kernels sample the sinc centred on the arrival",
           "window": "symmetric Hann window", "mask": "samples outside the response are dropped", "reads": "table reads stay inside the table", "align": "axes line up"}


def check(c):
    for k in [dict(dyn=d, D=D) for d in (False, True) for D in (3, 2)]:
        with c.rule("C16.law", str(k)):
            law(c, sim(c, **k), "C16", ASPECTS)

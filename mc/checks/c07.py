"""Every bearing from -360 to 720 degrees in steps of 1/8 degree (thorough 1/64), and all sector borders and hour marks plus
and minus 1e-9, 1e-6 and 0.001 degrees, as float and, where whole, as int."""
import math
from fractions import Fraction
from mc.core import same, need
from coral import coord

LEVEL = "exploration"
RULE = "every bearing of the lattice; all are non-trivial"
NAMES = "N NNE NE ENE E ESE SE SSE S SSW SW WSW W WNW NW NNW".split()   # clockwise


def cases(tier):
    s = 8 if tier == "quick" else 64
    for i in range(-360 * s, 720 * s + 1):
        yield i / s
        if i % s == 0:
            yield i // s
    for i in range(-32, 65):
        for c in (i * 11.25, i * 7.5):
            for d in (1e-9, 1e-6, 1e-3):
                for b in (c - d, c + d):
                    if -360 <= b <= 720:
                        yield b


def check(b):
    name = coord.bearing2cardinal(b)
    need(name in NAMES, "bearing {}: name {!r}", b, name)
    centre = -NAMES.index(name) * Fraction(45, 2)
    off = (Fraction(b) - centre + 180) % 360 - 180
    need(abs(off) <= Fraction(45, 4) + Fraction(1, 10**10), "bearing {} is {} degrees from {}", b, float(off), name)
    h = coord.bearing2hours(b)
    need(0 < h <= 12, "bearing {}: hour {}", b, h)
    want = (-Fraction(b) / 30) % 12
    d = (Fraction(h) - want + 6) % 12 - 6
    need(abs(d) < Fraction(1, 10**9), "bearing {}: hour {}, expected {}", b, h, float(want))
    return (name, h)

"""Reference pixel operations for 24-bit colour adjustments.  Each returns, per channel, the set of
acceptable byte values around the exact real result (floating point may land on either side of a
rounding boundary, never further)."""
from math import floor

EPS = 1e-7


def around_round(v):
    """Values a correct rounding of the real v to an integer may give (ties: either way)."""
    return {floor(v + 0.5 - EPS), floor(v + 0.5 + EPS)}


def around_floor(v):
    return {floor(v - EPS), floor(v + EPS)}


def clampset(s, lo=0, hi=255):
    return {min(max(v, lo), hi) for v in s}


def split(c):
    return c >> 16, c >> 8 & 255, c & 255


def mono(c):
    s = sum(split(c)) // 3
    return [{s}] * 3


def filt(c, f):
    return [clampset(around_round(v * k)) for v, k in zip(split(c), f)]


def bright(c, pct):
    return [clampset(around_round(v * (1 + pct / 100))) for v in split(c)]


def thresh(c, rng):
    lo, hi = min(rng), max(rng)
    ch = split(c)
    lum = max(ch)
    if lum == 0 or lo <= lum <= hi:
        return [{v} for v in ch]
    k = lo if lum < lo else hi
    return [around_floor(v * k / lum) for v in ch]


def gamma(c, g):
    ch = split(c)
    lum = max(ch)
    if lum == 0:
        return [{0}] * 3
    ks = around_floor((lum / 255) ** g * 255)
    return [set().union(*(around_floor(v * k / lum) for k in ks)) for v in ch]


def ok(got, sets):
    return all(v in s for v, s in zip(split(got), sets))

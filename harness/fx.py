"""Fixed-point representation used by the specification (module Num)."""
import math

U = 1024
NAN, INEX, PINF = 2000000001, 2000000002, 2000000003
NINF, HIGHEST, LOWEST = -2000000003, 2000000000, -2000000000
DMAX = 1.7976931348623157e308


def num(v):
    """JSON value (number, or "nan"/"inf"/"-inf") -> float"""
    if isinstance(v, str):
        return float(v)
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    return float(v)


def fx(v):
    v = num(v)
    if math.isnan(v):
        return NAN
    if v == math.inf:
        return PINF
    if v == -math.inf:
        return NINF
    if v >= DMAX:
        return HIGHEST
    if v <= -DMAX:
        return LOWEST
    w = v * U
    if abs(w) < 1000000000 and w == int(w):
        return int(w)
    return INEX


def fxlog(s):
    """a value printed with six significant digits"""
    v = float(s)
    if math.isnan(v):
        return NAN
    if v == math.inf:
        return PINF
    if v == -math.inf:
        return NINF
    if v > 1.79e308:
        return HIGHEST
    if v < -1.79e308:
        return LOWEST
    w = v * U
    if abs(w) >= 1000000000:
        return INEX
    return int(round(w))

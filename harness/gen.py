"""Seeded input generators shared by the checks: hostile numbers, types, scales, shapes."""
import numpy as np

NAMED = ["int8", "uint8", "int16", "uint16", "int32", "uint32"]
ODD = ["int2", "int3", "int4", "uint4", "int5", "int6", "uint7", "int9", "uint10", "int12", "int17",
       "uint1", "int24", "uint24", "int31", "uint31"]


def limits(name):
    if name.startswith("u"):
        n = int(name[4:])
        return 0, 2 ** n - 1
    n = int(name[3:])
    return -2 ** (n - 1), 2 ** (n - 1) - 1


def dtype_name(rng, small=False):
    pool = [n for n in NAMED + ODD if not small or int(n.strip("uint")) <= 16]
    if rng.random() < 0.5:
        pool = ["int8", "uint8", "int16"]
    return str(rng.choice(pool))


def scale(rng, lo=-6, hi=3):
    k = rng.integers(0, 5)
    if k == 0:
        return float(2.0 ** rng.integers(-12, 6))
    if k == 1:
        return float(rng.choice([1.0, 0.1, 0.5, 1 / 255, 1 / 128, 0.0078125, 1 / 3]))
    if k == 2:
        return float(np.float32(10.0 ** rng.uniform(lo, hi)))
    return float(10.0 ** rng.uniform(lo, hi))


def zero_point(rng, lo, hi):
    k = rng.integers(0, 6)
    if k == 0:
        return 0 if lo <= 0 <= hi else lo
    if k == 1:
        return lo
    if k == 2:
        return hi
    if k == 3 and lo + 3 < hi:
        return int(rng.choice([lo + 1, hi - 1, (lo + hi) // 2]))
    return int(rng.integers(lo, hi + 1))


def shape(rng, maxdim=4, maxlen=7):
    return tuple(int(rng.integers(1, maxlen + 1)) for _ in range(rng.integers(1, maxdim)))


def big_shape(rng):
    """Shapes of many elements, of many ranks, or long in one direction only."""
    k = int(rng.integers(0, 5))
    if k == 0:
        return (int(rng.choice([257, 1000, 1025, 4097, 20000, 65537, 70001] + [140000, 300001] * (rng.random() < 0.3))),)
    if k == 1:
        return (1, int(rng.choice([300, 5000])))
    if k == 2:
        return (int(rng.choice([300, 3000])), int(rng.integers(1, 4)))
    if k == 3:
        return tuple(int(rng.integers(1, 5)) for _ in range(int(rng.integers(4, 7))))
    return (int(rng.integers(20, 150)), int(rng.integers(20, 150)))


def codes(rng, lo, hi, shp):
    a = rng.integers(lo, hi + 1, size=shp)
    k = rng.integers(0, 5)
    if k == 0:
        a = rng.choice(np.array([lo, hi]), size=shp)
    elif k == 1:
        m = rng.random(shp) < 0.3
        a = np.where(m, rng.choice(np.array([lo, hi, min(max(0, lo), hi)]), size=shp), a)
    return a.astype(np.int64)


def reals(rng, shp, lo=-1.0, hi=1.0):
    """Arrays of reals of many characters, mostly spanning lo..hi."""
    k = rng.integers(0, 7)
    a = rng.uniform(lo, hi, size=shp)
    if k == 0:
        a = rng.normal((lo + hi) / 2, (hi - lo) / 4, size=shp)
    elif k == 1:
        a = np.where(rng.random(shp) < 0.3, 0.0, a)
    elif k == 2:
        a = np.where(rng.random(shp) < 0.1, a * 50, a)
    elif k == 3:
        a = np.round(a, 1)
    elif k == 4:
        a = rng.laplace(0, (hi - lo) / 8, size=shp)
    return np.asarray(a, dtype=np.float64)

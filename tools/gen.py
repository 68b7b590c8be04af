"""Scenarios: the call sequences replayed on the library.

Some are handed over by TLC (every transition or input of a model), others are drawn here with a seed, in
regimes the models are too small for.  Nothing is decided here: what the calls must answer is the business of
Trace.tla.

Number regimes
  exact   times, lags and resolutions are small multiples of a power of two, so that every sum and difference
          the library forms in time is exact and a lag on a boundary (a tie between two neighbours, the end of
          the series, the end of the grid) is decided by the specification, not by rounding
  generic times and lags are arbitrary doubles, kept away from those boundaries
  decimal evenly spaced decimal times such as 0.1 i: boundaries are hit up to rounding, so that only what does
          not depend on rounding is judged ("judge": false)
"""
import itertools
import math
import os
import random
from bisect import bisect_left
from fractions import Fraction

FW = [(f, w) for f in ("natural", "fast") for w in ("fractional", "gaussian", "fractional_squared")]
NAMES = ("max_lag", "min_lag", "lag_resolution", "alpha")
NAN = float("nan")
INF = float("inf")


def base(**kw):
    b = dict(judge=True, calc=True, ctol="1E-9", ltol="1E-12", tag="", lagscale="1", row=0, probe=10,
             memo=False, witness=False, near=False, rel=False, classic="", step="1")
    b.update(kw)
    return b


def tol(x):
    return "%.3E" % x


def condition(rows):
    """how much rounding in the values is magnified by subtracting the mean"""
    worst = 1.0
    for r in rows:
        v = [x for x in r if not math.isnan(x)]
        if not v:
            continue
        mean = float(sum(map(Fraction, v)) / len(v))
        rms = math.sqrt(sum((x - mean) ** 2 for x in v) / len(v))
        if rms > 0:
            worst = max(worst, max(abs(x) for x in v) / rms)
    return worst


def spread(row):
    """do the values differ by enough that no product of two of them underflows?"""
    v = [x for x in row if not math.isnan(x)]
    return not v or max(v) - min(v) >= 1e-12 and max(map(abs, v)) < 1e100


def ctol(rows, least=1e-9):
    n = max([len(r) for r in rows] + [1])
    return tol(max(least, 60 * 2.3e-16 * n * condition(rows)))


# ---------------------------------------------------------------- samplings

def gaps(rnd, m, style=None):
    style = style or rnd.choice(["even", "free", "onegap", "smallest", "burst", "wide"])
    n = m - 1
    if style == "far":             # sums that need far more than single precision
        return [rnd.choice([1, 3, 7, 2 ** 13 + 1, 2 ** 24 + 1, 2 ** 27 + 5]) for _ in range(n)]
    if style in ("late", "early"):  # median time far from the middle
        g = [rnd.randint(1, 2) for _ in range(n)]
        if n:
            g[-1 if style == "late" else 0] = rnd.randint(30, 60)
        return g
    if style == "even":
        return [rnd.choice([1, 2, 4])] * n
    if style == "free":
        return [rnd.randint(1, 6) for _ in range(n)]
    if style == "onegap":
        g = [rnd.choice([1, 2])] * n
        if n:
            g[rnd.randrange(n)] += rnd.choice([1, 3, 10, 25])
        return g
    if style == "smallest":        # the smallest gap somewhere in particular
        g = [rnd.randint(3, 8) for _ in range(n)]
        if n:
            g[rnd.choice([0, n - 1, rnd.randrange(n)])] = rnd.choice([1, 2])
        return g
    if style == "burst":
        return [1 if rnd.random() < 0.7 else rnd.randint(5, 30) for _ in range(n)]
    return [rnd.choice([1, 2, 3, 50]) for _ in range(n)]


def exact_times(rnd, m, style=None, unit=None, offset=None):
    """(times, unit as a power of two)"""
    unit = unit or 2.0 ** rnd.choice([-6, -3, -1, 0, 0, 2] * 3 + [-70, -45, -37, -20, 16, 31])
    if offset is None:
        offset = rnd.choice([0, 0, 1, -3, 17, -1000, 2 ** 20 + 3, 58849 * 64])
    t = [0]
    for g in gaps(rnd, m, style):
        t.append(t[-1] + g)
    return [offset * unit + x * unit for x in t], unit


def generic_times(rnd, m, fine=True):
    """sample times off any grid (not fine: all multiples of 2^-24, moderately large)"""
    scale = 10.0 ** rnd.choice([-2, 0, 0, 1, 3])
    t0 = rnd.choice([0.0, rnd.random() * 10, -rnd.random() * 100, 2457000.5 + rnd.random(), rnd.random() * scale])
    t, x = [], 0.0
    for _ in range(m):
        x += (0.3 + rnd.random()) * scale * rnd.choice([1, 1, 1, 1, 4])
        t.append(t0 + x)
    if not fine:
        t = [round((x - t0) * 2.0 ** 24 + 1) / 2.0 ** 24 for x in t]
    return t


def values(rnd, m, style=None):
    style = style or rnd.choice(["small", "float", "sine", "offset", "tiny", "huge", "spike", "ramp", "ties"])
    if style == "small":
        v = [float(rnd.randint(-9, 9)) for _ in range(m)]
    elif style == "float":
        v = [rnd.gauss(0, 1) for _ in range(m)]
    elif style == "sine":
        v = [math.sin(0.7 * i + 0.3) * rnd.choice([1, 1, 1.1]) for i in range(m)]
    elif style == "offset":
        c = rnd.choice([1e3, 1e5, -1e6, 16777217.0, 1e8])
        v = [c + rnd.randint(-40, 40) / 8 for _ in range(m)]
    elif style == "tiny":
        v = [rnd.gauss(0, 1) * 1e-9 for _ in range(m)]
    elif style == "huge":
        v = [rnd.gauss(0, 1) * 1e12 for _ in range(m)]
    elif style == "spike":
        v = [0.0] * m
        v[rnd.randrange(m)] = rnd.choice([1.0, -7.0, 1e6])
    elif style == "ramp":
        v = [0.5 * i + 1 for i in range(m)]
    else:
        v = [float(rnd.choice([0, 1])) for _ in range(m)]
    if m > 1 and len(set(v)) == 1:
        v[rnd.randrange(m)] += 1.0
    return v


def holes(rnd, row, p=0.2):
    r = [NAN if rnd.random() < p else x for x in row]
    return r


def make(h, t, rows, errs=(), **kw):
    o = dict(op="data", h=h, t=list(t), rows=[list(r) for r in rows], errs=[list(r) for r in errs])
    if len(rows) == 1 and len(errs) <= 1 and "flat" not in kw:
        o["flat"] = True
    o.update(kw)
    return o


def given(**kw):
    return {n: ([float(kw[n])] if kw.get(n) is not None else []) for n in NAMES}


def auto(h, g=None, f="natural", w="fractional", c="", **kw):
    return dict(op="auto", h=h, given=g or given(), f=f, w=w, c=c, **base(**kw))


def read(c, f="natural", w="fractional", **kw):
    return dict(op="read", c=c, f=f, w=w, **base(**kw))


def params(c, ttol="1E-12"):
    return dict(op="params", c=c, ttol=ttol)


def times_of(ops):
    """every time, lag, limit and resolution of a scenario"""
    for o in ops:
        if o["op"] == "data":
            yield from o["t"]
        elif o["op"] == "set" and o["name"] != "alpha":
            yield o["v"]
        elif o["op"] == "auto":
            for n, v in o["given"].items():
                if n != "alpha":
                    yield from v
        elif o["op"] in ("iter", "setk") or o["op"] == "pairs" and "at" not in o:
            yield o["k"]


def is_exact(ops):
    """is every sum and difference of times, lags, limits and resolutions a double?"""
    if any(o["op"] == "file" or o.get("near") for o in ops):
        return False
    grain, most = None, 0.0
    for x in times_of(ops):
        if not abs(x) < 1e300:
            return False
        if x:
            den = x.as_integer_ratio()
            g = Fraction(den[0] & -den[0], den[1])
            grain = g if grain is None else min(grain, g)
            most = max(most, abs(x))
    return grain is not None and most * 32 / grain < 2 ** 53


def finish(scens):
    """in the exact regime, times and lags are held to equality and values to an error relative to the greatest weight;
    elsewhere tolerances in time are meant for spacings of order one: smaller for smaller ones"""
    kinds = random.Random(len(scens))
    for s in scens:
        for o in s["ops"]:
            if o["op"] in ("find", "peek"):
                o.setdefault("rel", False)
            if o["op"] in ("auto", "set"):      # the numbers asked for as other types
                o["types"] = kinds.choice(["float"] * 6 + ["int", "int", "numpy", "fraction"])
        if is_exact(s["ops"]):
            rows = [r for o in s["ops"] if o["op"] == "data" for r in o["rows"]]
            need = float(ctol(rows)) if all(spread(r) for r in rows) else INF
            for o in s["ops"]:
                for x in ("ttol", "ltol"):
                    if o.get(x) == "1E-12":
                        o[x] = "0"
                if o["op"] in ("auto", "read", "find", "peek") and "ctol" in o:
                    o["rel"] = float(o["ctol"]) >= 0.999 * need
            continue
        gap = 1.0
        for o in s["ops"]:
            if o["op"] == "data":
                gap = min([gap] + [b - a for a, b in zip(o["t"], o["t"][1:]) if b > a])
        if gap < 1e-3:
            for o in s["ops"]:
                for x in ("ttol", "ltol"):
                    if o.get(x) == "1E-12":
                        o[x] = tol(1e-9 * gap)
    return scens


def summary(h, t, rows, **kw):
    big = max([abs(x) for r in rows for x in r if not math.isnan(x)] + [1.0])
    tbig = max([abs(x) for x in t] + [1.0])
    return dict(op="summary", h=h, ttol=tol(4e-15 * tbig), vtol=tol(max(1e-300, 1e-15 * (len(t) + 8) * big)), **kw)


# ---------------------------------------------------------------- grids

def lag_list(lo, hi, res):
    """the lags of a grid, exactly; only to build calls that name each lag, and to size and place grids"""
    lo, hi, res = Fraction(lo), Fraction(hi), Fraction(res)
    out = []
    if res <= 0:
        return out
    n = (hi - lo) // res + 1 if hi >= lo else 0
    if n > 20000:
        return None
    for i in range(int(n)):
        x = lo + i * res
        if x > 0 and (not out or out[-1] < 0):
            out.append(Fraction(0))
        out.append(x)
    return out


def defaults(t):
    span = Fraction(t[-1]) - Fraction(t[0])
    res = min([Fraction(b) - Fraction(a) for a, b in zip(t, t[1:])] or [Fraction(10) ** 300])
    return -span, span, res


def effective(t, g):
    lo, hi, res = defaults(t)
    if g["min_lag"]:
        lo = Fraction(g["min_lag"][0])
    if g["max_lag"]:
        hi = Fraction(g["max_lag"][0])
    if g["lag_resolution"]:
        res = Fraction(g["lag_resolution"][0])
    return lo, hi, res


def grid_size(t, g):
    lo, hi, res = effective(t, g)
    if res <= 0 or hi < lo:
        return 0
    return (hi - lo) / res + 2


def exact_grid(rnd, t, unit, most=150, zero=False):
    """parameters on the time unit of an exact series"""
    span = int((t[-1] - t[0]) / unit)
    for _ in range(50):
        kw = {}
        kind = rnd.choice(["default", "max", "min", "res", "two", "three", "single", "fine", "far", "onesided"])
        pick = lambda: rnd.randint(-span - 2, span + 2) * unit
        if kind in ("max", "two", "three"):
            kw["max_lag"] = pick() if not zero else abs(pick())
        if kind in ("min", "two", "three"):
            kw["min_lag"] = pick() if not zero else -abs(pick())
        if kind in ("res", "three"):
            kw["lag_resolution"] = rnd.randint(1, max(1, span // 2 + 1)) * unit * rnd.choice([1, 1, 0.5, 0.25])
        if kind == "single":
            kw["min_lag"] = kw["max_lag"] = pick() if not zero else 0.0
        if kind == "fine":
            a = abs(pick()) if not zero else 0.0
            kw.update(min_lag=-a if zero else a, max_lag=a + 2 * unit, lag_resolution=unit / rnd.choice([4, 8, 16]))
        if kind == "far":
            kw.update(min_lag=-3 * span * unit - unit, max_lag=3 * span * unit + unit,
                      lag_resolution=rnd.randint(1, span + 2) * unit / 2)
        if kind == "onesided":
            a = rnd.randint(1, span + 1) * unit
            kw.update(min_lag=0.0 if zero else rnd.choice([a / 2, a, 0.0]), max_lag=a * 2)
        if not zero and rnd.random() < 0.25:       # next to a boundary, still exactly
            x = rnd.choice(sorted(kw) or ["max_lag"])
            if x in kw and x != "lag_resolution" and span < 2 ** 20:
                kw[x] += rnd.choice([-1, 1]) * unit * 2.0 ** -rnd.choice([6, 12, 24, 30] + [37, 42] * (span < 2 ** 9))
        g = given(**kw)
        n = grid_size(t, g)
        if n <= most:
            return g
    return given(min_lag=0.0, max_lag=0.0)


def decided(t, g, f, margin=1e-7):
    """does no decision of this calculation hang on rounding?"""
    if grid_size(t, g) > 400:
        return False
    lo, hi, res = effective(t, g)
    lags = lag_list(lo, hi, res)
    if lags is None:
        return False
    nt = [Fraction(x) - Fraction(t[0]) for x in t]
    last = nt[-1]
    scale = float(max(last, abs(lo), abs(hi), Fraction(1, 10 ** 6)))
    close = lambda x: 0 < abs(float(x)) < margin * scale
    if hi >= lo and res <= hi - lo + res:
        frac = (hi - lo) % res
        if hi != lo and (float(frac) < margin * scale or float(res - frac) < margin * scale):
            return False
    for k in lags:
        if k != 0 and abs(float(k)) < margin * scale:
            return False
        if k == 0:
            continue
        for i, x in enumerate(nt):
            s = x + k
            if abs(float(s - last)) < margin * scale:
                return False
            if s > last:
                break
            j = bisect_left(nt, s)
            if j > 0 and j < len(nt) and abs(float((nt[j] - s) - (s - nt[j - 1]))) < margin * scale:
                return False
            if f == "fast":
                pass
    return True


def generic_case(rnd, m, f="natural", most=120, fine=True):
    """a generic series with a grid on which nothing hangs on rounding"""
    for _ in range(200):
        t = generic_times(rnd, m, fine)
        span = t[-1] - t[0]
        kw = {}
        if rnd.random() < 0.6:
            kw["lag_resolution"] = span * (0.013 + 0.2 * rnd.random())
        if rnd.random() < 0.6:
            kw["max_lag"] = span * (rnd.random() * 1.2)
        if rnd.random() < 0.6:
            kw["min_lag"] = -span * (rnd.random() * 1.2) + 0.1 * rnd.random() * span
        if rnd.random() < 0.5:
            kw["alpha"] = span * (0.01 + rnd.random())
        g = given(**kw)
        if m > 1 and grid_size(t, g) <= most and decided(t, g, f):
            return t, g
    t, unit = exact_times(rnd, m)
    return t, exact_grid(rnd, t, unit, most)


def decimal_times(rnd, m):
    """samplings as they come: multiples of a decimal step, some missing or late, on an epoch; (times, step)"""
    step = rnd.choice([0.1, 0.3, 0.7, 1 / 3, 0.0208333, 1e-3, 0.01, 1 / 24, 30 / 86400, 86400.1, 13 / 86400])
    t0 = rnd.choice([0.0, 0.0, 5.1, -7.3, 2457000.25, 58849.1, 1e9 if step > 1e-2 else 0.4])
    n, t = 0, []
    while len(t) < m:
        if rnd.random() < 0.8 or not t:
            t.append(t0 + step * n if rnd.random() < 0.97 else t0 + step * (n + 0.25))
        n += 1 if rnd.random() < 0.95 else rnd.randint(2, 12)
    return t, step


def decimal_ops(rnd, m, fs=("natural", "fast"), ws=("fractional", "gaussian", "fractional_squared"), k=None, judged=14):
    """lags on boundaries up to rounding: the grid within rounding, each lag's pairs, and its value from those pairs"""
    t, step = decimal_times(rnd, m)
    rows = [values(rnd, m, rnd.choice(["float", "small", "sine", "offset"])) for _ in range(k or rnd.choice([1, 1, 2]))]
    scale = max(abs(t[0]), abs(t[-1]), 1e-3)
    ops = [make("d", t, rows)]
    for f in fs:
        span = t[-1] - t[0]
        for _ in range(20):
            res = rnd.choice([None, step, step / 2, step * 3, span / 7])
            g = given(lag_resolution=res, max_lag=rnd.choice([None, step * rnd.randint(0, 2 * m), span]),
                      min_lag=rnd.choice([None, -step * rnd.randint(0, m), step * rnd.randint(0, 3), -span]),
                      alpha=rnd.choice([None, step, span]) if span > 0 else 1.0)
            if grid_size(t, g) <= 300:
                break
        else:
            continue
        n = int(grid_size(t, g))
        tt = 1e-14 * (scale + float(effective(t, g)[1]))
        lt = float(ltol(t, g)) + n * tt
        w = rnd.choice(ws)
        # the weight of a mismatch known within tt, at length scale alpha
        a = g["alpha"][0] if g["alpha"] else max(t[len(t) // 2] - t[0], step)
        ct = tol(max(float(ctol(rows)), 40 * m * tt / a))
        ops.append(auto("d", g, f=f, w=w, c="c", judge=False, probe=0, near=True, ltol=tol(lt), ctol=ct))
        some = range(n + 2) if n + 2 <= judged else sorted(rnd.sample(range(max(1, n)), min(judged, max(1, n))))
        ops += [dict(op="pairs", c="c", at=i, k=0.0, f=f, ttol=tol(4 * tt), near=True) for i in some]
        ops.append(read("c", f, w, judge=False, near=True, ltol=tol(lt), ctol=ct, probe=400))
    return ops


def alpha_of(rnd, t):
    span = (t[-1] - t[0]) or 1.0
    return span * rnd.choice([0.001, 0.05, 0.3, 1.0, 7.5, 1000.0])


class Ids:
    def __init__(self, prefix):
        self.prefix, self.n = prefix, 0

    def __call__(self, what=""):
        self.n += 1
        return "%s-%s%d" % (self.prefix, what, self.n)


def large(rnd, tier_size):
    """series, numbers of datasets and of lags beyond what can be explored densely: (samples, datasets, lags)"""
    far = tier_size > 50
    out = [(rnd.choice([65, 100, 129, 200]), rnd.choice([1, 2, 3]), 3), (rnd.choice([257, 400, 513]), rnd.choice([1, 2]), 3),
           (rnd.choice([1001, 1025, 2100]), 1, 2), (rnd.choice([3, 7, 12]), rnd.choice([9, 17, 33, 70]), 4),
           (rnd.choice([4, 9, 30]), rnd.choice([1, 2]), rnd.choice([260, 600, 1100])),
           (rnd.choice([2, 3, 4]), rnd.choice([257, 300, 1025, 1100]), 2)]
    if far:
        out += [(4100, 1, 2), (10050, 1, 1), (5, 300, 5), (60, 2, 5000), (130, 20, 20)]
    return out


def large_case(rnd, m, n, lags, zero=False):
    """(times, unit, rows, parameters) with about so many lags"""
    t, unit = exact_times(rnd, m, style=rnd.choice(["free", "burst", "wide", "onegap"]))
    rows = [values(rnd, m, rnd.choice(["float", "small", "sine"])) for _ in range(n)]
    span = int((t[-1] - t[0]) / unit)
    res = unit * rnd.choice([0.5, 1, 3])
    if zero:
        lo = -(lags // 2) * res
    else:
        lo = rnd.choice([-(lags // 2) * res, rnd.randint(0, max(1, span // 2)) * unit, -rnd.randint(0, span) * unit])
    g = given(min_lag=lo, max_lag=lo + (lags - 1) * res, lag_resolution=res, alpha=alpha_of(rnd, t))
    return t, unit, rows, g


# ---------------------------------------------------------------- families, one per property

def c01(rnd, size, tl):
    ids = Ids("C01")
    out = []
    # every small grid of the model, on some series, both routes, in a unit of its own
    grids = tl.get("grid", [])
    for block in range(0, len(grids), 24):
        unit = 2.0 ** rnd.choice([-4, -1, 0, 3])
        m = rnd.randint(1, 6)
        t, _ = exact_times(rnd, m, unit=unit)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        ops = [make("d", t, rows)]
        for g in grids[block:block + 24]:
            q = given(max_lag=g["max"] * unit, min_lag=g["min"] * unit, lag_resolution=g["res"] * unit)
            f, w = rnd.choice(FW[1:])
            ops.append(auto("d", q, probe=1))
            ops.append(auto("d", q, f=f, w=w, probe=1))
        out.append(dict(id=ids("model"), ops=ops))
    for _ in range(size):
        m = rnd.choice([1, 2, 3, 5, 8, 13, 30])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 4]))]
        ops = [make("d", t, rows)]
        if grid_size(t, given()) < 700:
            ops += [auto("d", probe=1), auto("d", f="fast", probe=1)]
        for _ in range(6):
            g = exact_grid(rnd, t, unit, 700)
            f, w = rnd.choice(FW)
            ops += [auto("d", g, probe=1), auto("d", g, f=f, w=w, c="c", probe=1), read("c", f, w, probe=1)]
        out.append(dict(id=ids("exact"), ops=ops))
    for _ in range(size):
        t, g = generic_case(rnd, rnd.randint(2, 15), most=400)
        rows = [values(rnd, len(t))]
        f, w = rnd.choice(FW)
        out.append(dict(id=ids("generic"), ops=[make("d", t, rows), auto("d", g, probe=0, ltol=ltol(t, g)),
                                               auto("d", g, f=f, w=w, probe=0, ltol=ltol(t, g))]))
    for _ in range(size):
        m = rnd.randint(2, 30)
        step = rnd.choice([0.1, 0.3, 0.7, 1 / 3, 0.0208333, 1e-3])
        t0 = rnd.choice([0.0, 5.1, 2457000.25])
        t = [t0 + step * i for i in range(m)]
        g = given(lag_resolution=rnd.choice([None, step, step / 2, step * 3]),
                  max_lag=rnd.choice([None, step * rnd.randint(0, m)]),
                  min_lag=rnd.choice([None, -step * rnd.randint(0, m)]))
        f, w = rnd.choice(FW)
        if grid_size(t, g) < 900:
            out.append(dict(id=ids("decimal"), ops=[make("d", t, [values(rnd, m)]),
                                                   auto("d", g, judge=False, probe=0),
                                                   auto("d", g, f=f, w=w, judge=False, probe=0)]))
    for _ in range(size):
        out.append(dict(id=ids("near"), ops=decimal_ops(rnd, rnd.choice([2, 3, 5, 9, 20, 40]), judged=1)))
    # long grids: many more lags than samples, than the default grid, and one with very many
    for n in (260, 1030, 4100, 33000, 66000):
        m = rnd.randint(2, 5 if n < 10000 else 3)
        t, unit = exact_times(rnd, m, unit=1.0)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3]) if n < 10000 else 1)]
        res = 2.0 ** -rnd.randint(3, 7)
        lo = -rnd.randint(0, n) * res - rnd.choice([0, res / 2])
        g = given(min_lag=lo, max_lag=lo + n * res, lag_resolution=res)
        ops = [make("d", t, rows), auto("d", g, probe=3)]
        ops.append(auto("d", g, f="fast", w="gaussian", probe=3))
        out.append(dict(id=ids("long"), ops=ops))
    for m, n, k in large(rnd, size)[:4]:
        t, unit, rows, g = large_case(rnd, m, n, rnd.randint(k, 12))
        f, w = rnd.choice(FW[1:])
        out.append(dict(id=ids("wide"), ops=[make("d", t, rows), auto("d", g, probe=1, ctol=ctol(rows)),
                                             auto("d", g, f=f, w=w, probe=1, ctol=ctol(rows))]))
    for _ in range(size):
        out.append(dict(id=ids("again"), ops=recalc_chain(rnd)))
    for res in (0.0, -0.5, -0.0, NAN):
        t, unit = exact_times(rnd, 4)
        g = given(lag_resolution=res)
        e = given(lag_resolution=res, min_lag=3.0, max_lag=-3.0)
        out.append(dict(id=ids("refuse"), ops=[make("d", t, [values(rnd, 4)]), auto("d", g), auto("d", g, w="gaussian"),
                                              auto("d", e), auto("d", e, f="fast"), auto("d", given(), probe=1)]))
    return out


def ltol(t, g):
    lo, hi, res = effective(t, g)
    big = float(max(abs(lo), abs(hi), abs(Fraction(t[0])) + abs(Fraction(t[-1])), 1))
    n = float(min((hi - lo) / res + 2, 10 ** 5)) if res > 0 and hi >= lo else 1.0
    return tol(1e-15 * big * (n + 10))


def pair_ops(t, ks, fs, c="c"):
    return [dict(op="pairs", c=c, k=float(k), f=f, ttol="1E-12", near=False) for k in ks for f in fs]


def pairs_family(rnd, size, tl, fs, pid):
    ids = Ids(pid)
    out = []
    for s in tl.get("pairs", []):
        scale = 2.0 ** rnd.choice([-3, 0, 0, 2])
        off = rnd.choice([0, 5, -7])
        t = [scale * (x + off) for x in s["t"]]
        span = s["t"][-1]
        row = [values(rnd, len(t), "float")]
        ks = [scale * k for k in range(-span - 3, span + 4)]
        out.append(dict(id=ids("model"), ops=[make("d", t, row), dict(op="corr", c="c", h="d")] + pair_ops(t, ks, fs)))
    for _ in range(size):
        m = rnd.choice([2, 3, 5, 9, 17, 40])
        t, unit = exact_times(rnd, m, style="far" if rnd.random() < 0.25 else None)
        span = int((t[-1] - t[0]) / unit)
        ks = set()
        for _ in range(24):
            # lags that put a sample onto another, half way between two, or near the end; or just beside that
            a, b = rnd.randrange(m), rnd.randrange(m - 1)
            k = rnd.choice([t[b] - t[a], (t[b] + t[b + 1]) / 2 - t[a], t[-1] - t[a],
                            (t[b] * 3 + t[b + 1]) / 4 - t[a],
                            rnd.randint(-span - 2, span + 2) * unit / 2, 0.0])
            if rnd.random() < 0.4:
                k += rnd.choice([-1, 1]) * unit * 2.0 ** -rnd.choice([4, 10, 20] + [31] * (span < 2 ** 17) + [42] * 2 * (span < 2 ** 9))
            ks.add(k)
        ops = [make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d")] + pair_ops(t, sorted(ks), fs)
        out.append(dict(id=ids("exact"), ops=ops))
    for _ in range(size):
        m = rnd.randint(2, 30)
        t = generic_times(rnd, m)
        span = t[-1] - t[0]
        ks = []
        for _ in range(60):
            k = span * (2.4 * rnd.random() - 1.2)
            if decided(t, given(min_lag=k, max_lag=k), fs[0]):
                ks.append(k)
        scale = max(abs(t[0]), abs(t[-1]), 1.0)
        ops = pair_ops(t, ks[:16], fs)
        for o in ops:
            o["ttol"] = tol(1e-14 * scale)
        out.append(dict(id=ids("generic"), ops=[make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d")] + ops))
    # what is paired shows in the values, when weights do not matter
    for _ in range(size):
        m = rnd.choice([2, 3, 4, 6, 9, 14, 24])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m, rnd.choice(["float", "small", "spike"])) for _ in range(rnd.choice([1, 2]))]
        ops = [make("d", t, rows)]
        for f in fs:
            for w in ("fractional", "gaussian"):
                g = exact_grid(rnd, t, unit, 60, zero=True)
                g["alpha"] = [(t[-1] - t[0]) * 1e14]
                ops.append(auto("d", g, f=f, w=w, witness=True, probe=62, ctol="1E-9"))
        out.append(dict(id=ids("values"), ops=ops))
    for m, _n, n in large(rnd, size):
        t, unit = exact_times(rnd, m)
        n = min(n, 20) + 4
        ks = [rnd.choice([-1, 1]) * rnd.randint(0, int((t[-1] - t[0]) / unit)) * unit / 2 for _ in range(n)]
        out.append(dict(id=ids("big"), ops=[make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d")] +
                        pair_ops(t, ks, fs)))
    for _ in range(size):
        out.append(dict(id=ids("near"), ops=decimal_ops(rnd, rnd.choice([2, 3, 5, 9, 20, 40]), fs)))
    m = rnd.randint(12000, 13000)
    t, unit = exact_times(rnd, m, style="free")
    ks = [rnd.choice([-1, 1]) * rnd.randint(1, 300) * unit / 8 for _ in range(6)]
    span = int((t[-1] - t[0]) / unit)
    ks += [s * rnd.randint(span // 4, span) * unit / 2 for s in (-2, -1, 1, 1)]
    out.append(dict(id=ids("huge"), ops=[make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d")] + pair_ops(t, ks, fs)))
    m = rnd.randint(33000, 34000)                 # more samples than 15 bits count
    t, unit = exact_times(rnd, m, style="even", unit=1.0)
    ks = [rnd.randint(1, 20) * unit / 4, -rnd.randint(1, 20) * unit / 4]
    out.append(dict(id=ids("huge"), ops=[make("d", t, [values(rnd, m, "float")]), dict(op="corr", c="c", h="d")] + pair_ops(t, ks, fs)))
    return out


def c02(rnd, size, tl):
    return pairs_family(rnd, size, tl, ["natural"], "C02")


def c16(rnd, size, tl):
    return pairs_family(rnd, size, tl, ["fast"], "C16")


def c03(rnd, size, tl):
    ids = Ids("C03")
    out = []
    small = tl.get("value", [])
    take = rnd.sample(small, min(len(small), 12 * size))
    for s in take:
        if "nan" in s["row"]:
            continue
        f, w = rnd.choice(FW)
        t = [float(x) for x in s["t"]]
        row = [float(x) for x in s["row"]]
        if len(set(row)) == 1 and len(row) > 1 and rnd.random() < 0.7:
            continue
        g = given(alpha=rnd.choice([None, 1.0, 0.3, 20.0]) if len(t) > 1 else None,
                  lag_resolution=rnd.choice([None, 1.0]))
        out.append(dict(id=ids("model"), ops=[make("d", t, [row]), auto("d", g, f=f, w=w, probe=14)]))
    for _ in range(size):
        m = rnd.choice([2, 3, 4, 7, 12, 25])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        ops = [make("d", t, rows)]
        for f, w in rnd.sample(FW, 4):
            g = exact_grid(rnd, t, unit, 200)
            if rnd.random() < 0.7:
                g["alpha"] = [alpha_of(rnd, t)]
            ops.append(auto("d", g, f=f, w=w, ctol=ctol(rows), probe=12))
        out.append(dict(id=ids("exact"), ops=ops))
    for _ in range(size):
        f, w = rnd.choice(FW)
        t, g = generic_case(rnd, rnd.randint(2, 20), f)
        rows = [values(rnd, len(t)) for _ in range(rnd.choice([1, 2]))]
        c = tol(max(float(ctol(rows)), 1e-6 if abs(t[0]) > 1e5 else 1e-9))
        out.append(dict(id=ids("generic"), ops=[make("d", t, rows), auto("d", g, f=f, w=w, ctol=c, ltol=ltol(t, g))]))
    # stage by stage, weights and values of single lags
    for _ in range(size):
        m = rnd.choice([2, 3, 5, 9])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3]))]
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d"),
               dict(op="set", c="c", name="alpha", v=alpha_of(rnd, t))]
        for n in range(5):
            f, w = rnd.choice(FW)
            k = rnd.randint(-8, 8) * unit / 2
            ops += staged("c", "i%d" % n, k, f, w, None, ctol(rows))
        out.append(dict(id=ids("stages"), ops=ops))
    for _ in range(3):
        m = rnd.randint(2, 6)
        t, unit = exact_times(rnd, m)
        x = float(rnd.randint(-4, 4))
        rows = [[x] * m, values(rnd, m)]
        out.append(dict(id=ids("constant"), ops=[make("d", t, rows)] + [auto("d", f=f, w=w) for f, w in FW if
                                                                       grid_size(t, given()) < 300]))
    for _ in range(size):
        out.append(dict(id=ids("near"), ops=decimal_ops(rnd, rnd.choice([2, 3, 5, 9, 20]), k=rnd.choice([1, 2, 3]))))
    for m, n, k in large(rnd, size) + [(66000, 1, 1)]:
        t, unit, rows, g = large_case(rnd, m, n, k)
        if m > 60000:
            g["min_lag"] = g["max_lag"] = [rnd.randint(1, 30) * unit]
        out.append(dict(id=ids("big"), ops=[make("d", t, rows)] + [
            auto("d", g, f=f, w=w, probe=4, ctol=ctol(rows)) for f, w in (("natural", "fractional"),) + (rnd.choice(FW[1:]),)]))
    return out


def peek(i, ct="1E-9"):
    return dict(op="peek", i=i, wtol="1E-11", ctol=ct)


def staged(c, i, k, f, w, pos, ct="1E-9"):
    ops = [dict(op="iter", i=i, k=float(k), c=c), dict(op="select", i=i, c=c, f=f),
           dict(op="delta", i=i, c=c, ttol="1E-12"), dict(op="weigh", i=i, c=c, w=w, wtol="1E-11"),
           dict(op="find", i=i, c=c, ctol=ct)]
    if pos is not None:
        ops.append(dict(op="store", i=i, c=c, pos=pos))
    return ops


def c04(rnd, size, tl):
    ids = Ids("C04")
    out = []
    for _ in range(size):
        m = rnd.randint(2, 7)
        t, unit = exact_times(rnd, m)
        ops = [make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="d")]
        span = t[-1] - t[0]
        for _ in range(3):
            a = rnd.choice([1.0, 0.25, 3.7, 1e-4, 1e5, rnd.random() * span + 1e-3, 10.0 ** rnd.randint(-8, 8), 10.0 ** rnd.randint(-15, -5),
                            10.0 ** rnd.randint(5, 15), rnd.random() * 10.0 ** rnd.randint(-290, -12), rnd.random() * 10.0 ** rnd.randint(12, 290)])
            if rnd.random() < 0.8:
                ops.append(dict(op="set", c="c", name="alpha", v=a, via=rnd.choice(["attr", "setup"])))
            else:
                a = None
            scale = a or span / 2 or 1.0
            for w in ("fractional", "fractional_squared", "gaussian"):
                d = sorted({0.0} | {scale * r for r in (1e-12, 1e-6, 0.01, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.5, 6.0, 8.0, 10.0, 13.0, 20.0)}
                           | {scale * rnd.random() * rnd.choice([0.01, 1, 3, 10]) for _ in range(6)})
                ops.append(dict(op="wfun", c="c", w=w, d=d, wtol="1E-11"))
            # the other correlator keeps its own length scale
            ops.append(dict(op="wfun", c="e", w=rnd.choice(["fractional", "fractional_squared", "gaussian"]),
                            d=[0.0, unit / 3, unit, 2 * unit], wtol="1E-11"))
            f, w = rnd.choice(FW)
            k = rnd.randint(-9, 9) * unit / 4
            ops += staged("c", "i", k, f, w, None)[:4]
        out.append(dict(id=ids("law"), ops=ops))
    for m in (rnd.randint(700, 1100), rnd.randint(2000, 3000)):
        # the weights of all pairs of a long series, two correlators with length scales of their own
        t, unit = exact_times(rnd, m, style=rnd.choice(["free", "burst", "wide"]))
        ops = [make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="d"),
               dict(op="set", c="c", name="alpha", v=rnd.choice([0.3, 1.5, 7.0]) * unit),
               dict(op="set", c="e", name="alpha", v=rnd.choice([0.1, 2.5, 40.0]) * unit)]
        for n, w in enumerate(("fractional", "fractional_squared", "gaussian")):
            k = (2 * rnd.randint(1, 20) + 1) * unit / 4
            ops += staged("ce"[n % 2], "i", k, rnd.choice(["natural", "fast"]), w, None)[:4]
        out.append(dict(id=ids("many"), ops=ops))
    return out


def c05(rnd, size, tl):
    ids = Ids("C05")
    out = []
    for n in range(3 * size):
        m = rnd.choice([2, 3, 4, 6, 11, 23, 60])
        kind = n % 3
        w = rnd.choice(["fractional", "gaussian", "fractional_squared"])
        if kind == 0:
            t, unit = exact_times(rnd, m)
            g = exact_grid(rnd, t, unit, 150, zero=True)
        elif kind == 1:
            t, g = generic_case(rnd, m)
            g["min_lag"], g["max_lag"] = [-(t[-1] - t[0]) * rnd.random()], [(t[-1] - t[0]) * rnd.random()]
        else:
            step = rnd.choice([0.1, 1 / 3, 0.0208333, 1e-3, 86400.1])
            t0 = rnd.choice([0.0, -7.3, 2457000.25, 1e9])
            t = [t0 + step * i * (1 if rnd.random() < 0.9 else 1.0001) for i in range(m)]
            t = sorted(set(t))
            m = len(t)
            g = given(min_lag=-step * rnd.randint(0, 4), max_lag=step * rnd.randint(0, 5))
        if rnd.random() < 0.5:
            g["alpha"] = [alpha_of(rnd, t)]
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 5]))]
        if grid_size(t, g) > 400:
            g["lag_resolution"] = [(t[-1] - t[0]) / 7.3]
        out.append(dict(id=ids("zero"), ops=[
            make("d", t, rows),
            auto("d", g, w=w, judge=False, probe=500, ctol=ctol(rows)),
            dict(op="corr", c="c", h="d")] + ([dict(op="set", c="c", name="alpha", v=g["alpha"][0])] if g["alpha"] else [])
            + staged("c", "i", 0.0, "natural", w, 0, ctol(rows)) + [read("c", "natural", w, judge=True, calc=True, ctol=ctol(rows))
                                                                 if False else dict(op="noise", noise=n)]))
    for m, n, k in large(rnd, size):
        t, unit, rows, g = large_case(rnd, m, n, k, zero=True)
        rows[0] = values(rnd, m, "offset")
        out.append(dict(id=ids("big"), ops=[make("d", t, rows), auto("d", g, judge=False, ctol=ctol(rows), probe=5000),
                                           auto("d", g, w="gaussian", judge=False, ctol=ctol(rows), probe=5000)]))
    # lag zero put in after many negative lags that do not hit it
    for before in (rnd.randint(1001, 1300), rnd.randint(2500, 5000)):
        m = rnd.choice([3, 4, 6])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2]))]
        res = unit * rnd.choice([0.25, 1, 3])
        g = given(min_lag=-before * res + res / rnd.choice([2, 4]), max_lag=20 * res, lag_resolution=res, alpha=alpha_of(rnd, t))
        out.append(dict(id=ids("after"), ops=[make("d", t, rows), auto("d", g, judge=False, ctol=ctol(rows), probe=40),
                                             auto("d", g, w=rnd.choice(["gaussian", "fractional_squared"]), judge=False,
                                                  ctol=ctol(rows), probe=40)]))
    return out


def scaled_given(g, c):
    return {n: [x * c for x in v] for n, v in g.items()}


def c06(rnd, size, tl):
    ids = Ids("C06")
    out = []
    big = large(rnd, size)
    for n in range(2 * size + len(big)):
        m = rnd.choice([2, 3, 5, 8, 14, 24])
        f, w = rnd.choice(FW)
        loose, rows = None, None
        if n >= 2 * size:
            t, unit, rows, g = large_case(rnd, *big[n - 2 * size])
            offs, cs = [unit, -64.0 * unit, 2.0 ** 20 * unit], [2.0, 0.125, 3.0, 1000.0]
        elif n % 2 == 0:
            t, unit = exact_times(rnd, m, offset=rnd.choice([0, 3]), style={0: "late", 4: "far"}.get(n % 8),
                                  unit=0.125 if n % 8 == 4 else None)
            g = exact_grid(rnd, t, unit, 120)
            if n % 4 == 0 and grid_size(t, given()) < 120:
                g = given()
            offs = [x * unit for x in (1.0, -64.0, 2.0 ** 20, 2457000.0, -58849.0)]
            cs = [2.0, 0.125, 3.0, 1000.0, 86400.0, 24.0, 2.0 ** -30, 2.0 ** 40]
        else:
            t, g = generic_case(rnd, m, f, fine=False)
            loose = 2e-6
            offs = [12345.5, -0.25, 2457000.125, 58849.75]        # t has few enough digits that these are exact
            cs = [1 / 7, 86400.0, 0.04167, 3.3, 1e-12, 3e11]
        if rnd.random() < 0.35:
            g["alpha"] = [alpha_of(rnd, t)]
        rows = rows or [values(rnd, m, rnd.choice(["small", "float", "sine", "ramp", "spike"]))
                        for _ in range(rnd.choice([1, 1, 2]))]
        toff = rnd.sample(offs, 3)
        if loose is None and 2.0 ** -6 <= unit <= 4 and rnd.random() < 0.6:
            toff[1] = 2.0 ** 31 + unit * rnd.choice([0.5, 1, 3])
        if loose is None:                # the origin of time inside the series
            toff[0] = -rnd.choice([t[len(t) // 2], t[-1] - (t[-1] - t[-2]) / 2, t[0] + (t[1] - t[0]) / 2, t[-1], t[-2]])
        by = rnd.sample(cs, 3 if n < 2 * size else 1) + ([2.0 ** rnd.randint(-36, -18)] if n < 2 * size else [])
        voff, vc = rnd.choice([5.0, -1e3, 1e6, 0.1]), rnd.choice([-1.0, 2.0, 1e-6, -3e7, 0.1, 1e-12, 1e9, -1e15, 1e-40, 1e-100, 1e100])
        variants = [(t, rows, g, 1.0)] + [([x + o for x in t], rows, g, 1.0) for o in toff] + [
                    (t, [[x + voff for x in r] for r in rows], g, 1.0), (t, [[x * vc for x in r] for r in rows], g, 1.0)
                    ] + [([x * c for x in t], rows, scaled_given(g, c), c) for c in by]
        ops = []
        for i, (tt, rr, gg, s) in enumerate(variants):
            off = loose if i >= 6 else None
            if off and not decided(tt, gg, f, 1e-8):
                continue
            ct = tol(max(float(ctol(rr)), off or 1e-9))
            lt = tol(max(1e-9 * s if off else 0.0, float(ltol(t, g)) * s))
            o = auto("h%d" % i, gg, f=f, w=w, tag="T", ctol=ct, ltol=lt, lagscale=exactdec(s))
            ops += [make("h%d" % i, tt, rr), o]
        out.append(dict(id=ids("exact" if n % 2 == 0 else "generic"), ops=ops))
    return out


def exactdec(x):
    from decimal import Decimal
    return str(Decimal(x))


def c07(rnd, size, tl):
    ids = Ids("C07")
    out = []
    big = [(m, max(2, n)) for m, n, _k in large(rnd, size)]
    for n in range(2 * size + len(big)):
        m = rnd.choice([2, 3, 4, 7, 12, 20])
        k = rnd.choice([2, 2, 3, 4, 6])
        if n >= 2 * size:
            m, k = big[n - 2 * size]
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(k)]
        if rnd.random() < 0.5:
            j = rnd.randrange(k)
            rows[j] = holes(rnd, rows[j])
        if rnd.random() < 0.2:
            rows[rnd.randrange(k)] = [3.0] * m
        if rnd.random() < 0.2:
            rows[rnd.randrange(k)] = list(rows[rnd.randrange(k)])
        f, w = rnd.choice(FW)
        g = exact_grid(rnd, t, unit, 100)
        if rnd.random() < 0.5:
            g["alpha"] = [alpha_of(rnd, t)]
        errs = [[0.5 + j] * m for j in range(k)] if rnd.random() < 0.3 else []
        ops = [make("d", t, rows, errs), auto("d", g, f=f, w=w, tag="T", judge=False, ctol=ctol(rows))]
        for j in range(k):
            if k > 8 and j % (7 if k < 100 else 97) and j != k - 1:
                continue
            ops += [make("s%d" % j, t, [rows[j]], errs[j:j + 1], **({} if rnd.random() < 0.7 else {"flat": False})),
                    auto("s%d" % j, g, f=f, w=w, tag="T", row=j + 1, judge=False, ctol=ctol([rows[j]]))]
        out.append(dict(id=ids("rows"), ops=ops))
    return out


def c08(rnd, size, tl):
    ids = Ids("C08")
    out = []
    for n in range(2 * size):
        m = rnd.choice([1, 2, 3, 5, 8, 15])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        if rnd.random() < 0.2:
            rows[0] = holes(rnd, rows[0])
        g = exact_grid(rnd, t, unit, 60)
        if m == 1:
            g["lag_resolution"] = g["lag_resolution"] or [unit]
        if rnd.random() < 0.5:
            g["alpha"] = [alpha_of(rnd, t)]
        if rnd.random() < 0.05:
            g["lag_resolution"] = [rnd.choice([0.0, -1.0])]
        out.append(dict(id=ids("routes"), ops=route_ops(rnd, t, rows, g)))
    for m, n, k in large(rnd, size):
        t, unit, rows, g = large_case(rnd, m, n, k)
        ops = [make("d", t, rows), dict(op="corr", c="a", h="d"), dict(op="corr", c="b", h="d")]
        for c in "ab":
            ops += [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES if g[x]]
        kw = dict(judge=False, ctol="1E-10", probe=6)
        ops += [dict(op="std", c="a"), read("a", tag="T", **kw), dict(op="cfg", c="b", f="natural", w="fractional"),
                read("b", tag="T", **kw), auto("d", g, tag="T", **kw)]
        f, w = rnd.choice(FW[1:])
        ops += [dict(op="cfg", c="b", f=f, w=w), read("b", f, w, tag="U", **kw), auto("d", g, f=f, w=w, tag="U", **kw)]
        out.append(dict(id=ids("big"), ops=ops))
    for n in range(size):                                    # on correlators that hold a result already
        m = rnd.choice([2, 3, 5, 8])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        ops = [make("d", t, rows), dict(op="corr", c="a", h="d"), dict(op="corr", c="b", h="d")]
        for i in range(3):
            g = exact_grid(rnd, t, unit, 40)
            lo, hi, res = effective(t, g)
            if i == rnd.randint(1, 2):
                lo, hi = rnd.choice([(5 * unit, unit), (unit, -unit), (lo, lo), (-unit, -5 * unit)])
            g = given(min_lag=float(lo), max_lag=float(hi), lag_resolution=float(res), alpha=alpha_of(rnd, t))
            if grid_size(t, g) > 60:
                continue
            for c in "ab":
                ops += [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES]
            kw = dict(judge=False, tag="T%d" % i, ctol="1E-11", probe=20)
            ops += [dict(op="std", c="a"), read("a", **kw), dict(op="cfg", c="b", f="natural", w="fractional"), read("b", **kw),
                    auto("d", g, **kw)]
        out.append(dict(id=ids("again"), ops=ops))
    for _ in range(2 * size):                                # lags that rounding puts on or beside boundaries
        t, step = decimal_times(rnd, rnd.choice([2, 3, 5, 9, 20]))
        rows = [values(rnd, len(t), rnd.choice(["float", "small", "sine"])) for _ in range(rnd.choice([1, 2]))]
        g = given(min_lag=rnd.choice([None, 0.0, -step * rnd.randint(0, 9)]), max_lag=rnd.choice([None, step * rnd.randint(0, 30)]),
                  lag_resolution=rnd.choice([None, step, step / 3, step / 10]), alpha=rnd.choice([None, step]))
        if grid_size(t, g) > 300 or len(t) < 2:
            continue
        ops = [make("d", t, rows), dict(op="corr", c="a", h="d"), dict(op="corr", c="b", h="d")]
        for c in "ab":
            ops += [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES if g[x]]
        kw = dict(judge=False, tag="T", ctol="1E-10", probe=20, ltol=tol(1e-13 * max(abs(t[0]), abs(t[-1]), 1)))
        ops += [dict(op="std", c="a"), read("a", **kw), dict(op="cfg", c="b", f="natural", w="fractional"), read("b", **kw),
                auto("d", g, **kw)]
        out.append(dict(id=ids("decimal"), ops=ops))
    for _ in range(4):                                       # a single sample, everything default
        rows = [[float(rnd.randint(-3, 3))] for _ in range(rnd.choice([1, 2]))]
        out.append(dict(id=ids("single"), ops=route_ops(rnd, [rnd.choice([0.0, 4.5])], rows, given())))
    for _ in range(size):
        f, w = rnd.choice(FW)
        t, g = generic_case(rnd, rnd.randint(2, 15))
        rows = [values(rnd, len(t))]
        ops = [make("d", t, rows), dict(op="corr", c="a", h="d"), dict(op="corr", c="b", h="d")]
        for c in "ab":
            ops += [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES if g[x]]
        lt = ltol(t, g)
        ops += [dict(op="std", c="a"), read("a", judge=False, tag="T", ltol=lt), auto("d", g, judge=False, tag="T", ltol=lt),
                dict(op="cfg", c="b", f="natural", w="fractional"), read("b", judge=False, tag="T", ltol=lt)]
        out.append(dict(id=ids("generic"), ops=ops))
    return out


def route_ops(rnd, t, rows, g):
    ops = [make("d", t, rows)]
    for c in "abse":
        ops.append(dict(op="corr", c=c, h="d"))
        ops += [dict(op="set", c=c, name=x, v=g[x][0], via=rnd.choice(["attr", "setup"])) for x in NAMES if g[x]]
    kw = dict(judge=False, ctol="1E-11", probe=20)
    ops += [dict(op="std", c="a"), read("a", tag="T", **kw), dict(op="cfg", c="b", f="natural", w="fractional"),
            read("b", tag="T", **kw), auto("d", g, tag="T", **kw)]
    lags = lag_list(*effective(t, g))
    if effective(t, g)[2] <= 0:
        return ops
    for f, w, c, tag in (("natural", "fractional", "s", "T"),) + ((rnd.choice(FW[1:]) + ("e", "U")),):
        if tag == "U":
            ops += [dict(op="cfg", c="b", f=f, w=w), read("b", f, w, tag="U", **kw), auto("d", g, f=f, w=w, tag="U", **kw)]
        for pos, k in enumerate(lags):
            ops += [dict(o, ctol="1E-6") if o["op"] == "find" else o for o in staged(c, "i", float(k), f, w, pos)]
        ops.append(read(c, f, w, tag=tag, calc=False, judge=False, ctol="1E-11", probe=20))
    return ops


def c09(rnd, size, tl):
    ids = Ids("C09")
    out = []
    for s in tl.get("pairs", []):
        scale = 2.0 ** rnd.choice([-3, 0, 0, 2])
        t = [scale * (x + rnd.choice([0, 9])) if False else scale * (x + 9) for x in s["t"]]
        out.append(dict(id=ids("model"), ops=[make("d", t, [values(rnd, len(t))]), dict(op="corr", c="c", h="d"),
                                             params("c")]))
    subsets = [c for r in range(5) for c in itertools.combinations(NAMES, r)]
    for _ in range(max(1, size // 4)):
        for sub in subsets:
            m = rnd.choice([2, 3, 4, 5, 8, 11])
            t, unit = exact_times(rnd, m)
            rows = [values(rnd, m)]
            span = t[-1] - t[0]
            pool = dict(max_lag=[0.0, unit, span, 2 * span, -unit, span / 2],
                        min_lag=[0.0, -unit, -span, unit, -2 * span, -span / 2],
                        lag_resolution=[unit, 2 * unit, unit / 2, span], alpha=[0.125, 1.0, span, 50.0, unit / 3])
            g = given(**{x: rnd.choice(pool[x]) for x in sub})
            if grid_size(t, g) > 200:
                g["lag_resolution"] = [span / 4]
            f, w = rnd.choice(FW)
            kw = dict(omit=True) if rnd.random() < 0.5 else {}
            if rnd.random() < 0.4:
                kw["pos_args"] = True
            names = list(sub)
            rnd.shuffle(names)
            ops = [make("d", t, rows), auto("d", g, c="c", ctol=ctol(rows), **kw), params("c"),
                   auto("d", g, f=f, w=w, c="e", ctol=ctol(rows), **kw), params("e"), dict(op="corr", c="x", h="d")]
            for x in names:
                ops += [dict(op="set", c="x", name=x, v=(g[x] or [1.0])[0], via=rnd.choice(["attr", "setup"])), params("x")]
            ops += [dict(op="std", c="x"), params("x"), read("x", ctol=ctol(rows))] if grid_size(t, g) <= 200 else []
            out.append(dict(id=ids("subset"), ops=ops))
    for _ in range(size):
        # the same data asked again and again with other parameters given
        m = rnd.choice([2, 3, 5, 8])
        t, unit = exact_times(rnd, m, style=rnd.choice(["free", "even", "onegap"]))
        if grid_size(t, given()) > 200:
            continue
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2]))]
        ops = [make("d", t, rows, via="sacf")]
        for i in range(6):
            g = exact_grid(rnd, t, unit, 100)
            if rnd.random() < 0.5:
                g["alpha"] = [alpha_of(rnd, t)]
            for x in NAMES:
                if rnd.random() < 0.4 and grid_size(t, dict(g, **{x: []})) <= 200:
                    g[x] = []
            f, w = rnd.choice(FW) if rnd.random() < 0.5 else FW[0]
            c = rnd.choice(["", "c"])
            ops.append(auto("d", g, f=f, w=w, c=c, ctol=ctol(rows), omit=rnd.random() < 0.5, pos_args=rnd.random() < 0.3))
            if c:
                ops.append(params(c))
        ops += [auto("d", c="z", ctol=ctol(rows)), params("z"), dict(op="corr", c="y", h="d"), params("y")]
        out.append(dict(id=ids("reuse"), ops=ops))
    # one parameter at a time, any value: the others stay
    for x in NAMES:
        m = rnd.choice([2, 3, 4, 7])
        t, unit = exact_times(rnd, m)
        span = t[-1] - t[0]
        pool = [0.0, unit, -unit, span, -span, 2 * span, -2 * span, span / 2, -span / 2, unit / 4, 64 * span, 1e-9 * unit, 1e6 * span]
        if x == "lag_resolution":
            pool = [v for v in pool if v > 0]
        ops = [make("d", t, [values(rnd, m)]), dict(op="corr", c="c", h="d"), params("c")]
        for v in pool:
            via = rnd.choice(["attr", "setup"])
            ops += [dict(op="corr", c="c", h="d"), dict(op="set", c="c", name=x, v=v, via=via), params("c")]
        for v in rnd.sample(pool, len(pool)):
            y = rnd.choice(NAMES)
            ops += [dict(op="set", c="c", name=x, v=v, via="attr"), params("c"),
                    dict(op="set", c="c", name=y, v=abs(v) or 1.0, via="setup"), params("c")]
        out.append(dict(id=ids("single"), ops=ops))
    # limits in the wrong order, equal, both of one sign: each is kept as given
    for lo, hi in ((2, 1), (1, -1), (0, -1), (-1, -3), (1, 1), (0, 0), (-2, -2), (2, 9), (-9, -2), (30, 2), (3, 0)):
        m = rnd.choice([2, 3, 5, 8])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2]))]
        g = given(min_lag=lo * unit, max_lag=hi * unit, lag_resolution=rnd.choice([unit, unit / 2]),
                  alpha=rnd.choice([None, unit]))
        f, w = rnd.choice(FW)
        ops = [make("d", t, rows), auto("d", g, c="c", ctol=ctol(rows)), params("c"),
               auto("d", g, f=f, w=w, c="e", ctol=ctol(rows), pos_args=True), params("e"), dict(op="corr", c="x", h="d")]
        for x in rnd.sample(NAMES, 4):
            if g[x]:
                ops += [dict(op="set", c="x", name=x, v=g[x][0], via=rnd.choice(["attr", "setup"])), params("x")]
        ops += [dict(op="std", c="x"), params("x"), read("x", ctol=ctol(rows)), dict(op="cfg", c="x", f=f, w=w),
                params("x"), read("x", f, w, ctol=ctol(rows))]
        out.append(dict(id=ids("crossed"), ops=ops))
    # length scales that are no lengths are kept too
    for a in (0.0, -0.0, -1.0, -2.0 ** -30, 1e300):
        m = rnd.choice([2, 3, 6])
        t, unit = exact_times(rnd, m)
        g = given(alpha=a, max_lag=rnd.choice([unit, 0.0]), min_lag=rnd.choice([0.0, -unit]), lag_resolution=unit)
        f, w = rnd.choice(FW)
        kw = dict(calc=False, probe=0)
        out.append(dict(id=ids("alpha"), ops=[
            make("d", t, [values(rnd, m)]), auto("d", g, c="c", **kw), params("c"),
            auto("d", g, f=f, w=w, c="e", pos_args=rnd.random() < 0.5, **kw), params("e"), dict(op="corr", c="x", h="d"),
            dict(op="set", c="x", name="alpha", v=a, via="attr"), params("x"), dict(op="corr", c="x", h="d"),
            dict(op="set", c="x", name="alpha", v=a, via="setup"), params("x")]))
    for m in (rnd.randint(250, 270), rnd.randint(1000, 1100), rnd.randint(4000, 9000), rnd.randint(65530, 70000)):
        # series of many samples, the smallest step anywhere
        steps = [rnd.randint(3, 9) for _ in range(m - 1)]
        steps[rnd.choice([0, -1, m // 2, rnd.randrange(m - 1), rnd.randrange(m - 1)])] = rnd.choice([1, 2])
        t = [0.25 * x for x in itertools.accumulate([rnd.randint(-50, 50)] + steps)]
        out.append(dict(id=ids("long"), ops=[make("d", t, [[1.0 + (i % 7) for i in range(m)]]), dict(op="corr", c="c", h="d"),
                                             params("c")]))
    for _ in range(2 * size):
        m = rnd.choice([1, 2, 3, 4, 5, 6, 9, 16, 33, 120])
        t, unit = exact_times(rnd, m, style=rnd.choice(["smallest", "free", "onegap", "burst", None]))
        if rnd.random() < 0.4 and m > 1:
            t = generic_times(rnd, m)
        scale = max(abs(t[0]), abs(t[-1]))
        k = rnd.choice([1, 1, 3])
        out.append(dict(id=ids("default"), ops=[make("d", t, [values(rnd, m) for _ in range(k)]), dict(op="corr", c="c", h="d"),
                                               params("c", tol(4e-15 * scale))]))
    return out


def c10(rnd, size, tl):
    ids = Ids("C10")
    out = []
    for n in range(4 * size + 5):
        m = rnd.choice([1, 2, 3, 4, 5, 8, 9, 17, 50])
        k = rnd.choice([1, 1, 2, 3, 5])
        huge = n >= 4 * size + 3
        if n >= 4 * size:
            m, k = [(900, 2), (3, 60), (257, 9), (rnd.randint(3000, 3500), 1), (rnd.randint(5000, 9000), 1)][n - 4 * size]
        t, unit = exact_times(rnd, m)
        if rnd.random() < 0.3:
            t = generic_times(rnd, m)
        rows = [values(rnd, m, "float" if huge else None) for _ in range(k)]
        if rnd.random() < 0.25:
            rows = [holes(rnd, r) for r in rows]
        errs = [[rnd.random() * 3 if rnd.random() < 0.75 else rnd.choice([NAN, 0.0, -0.5, -rnd.random()]) for _ in range(m)] for _ in range(k)] \
            if rnd.random() < 0.5 else []
        kind = rnd.choice(["list", "list", "tuple", "numpy", "numpyrows", "int", "same"]) if not huge else "list"
        if rnd.random() < 0.15 and not huge:
            rows = [[rnd.choice([0.0, 1.0, -2.5])] * m for _ in range(k)]
        if errs and rnd.random() < 0.35:
            errs = [[rnd.choice([0.0, 0.5, 1.0])] * m for _ in range(k)]
        if kind == "same":               # one and the same list for every dataset
            rows, errs = [rows[0]] * k, [errs[0]] * k if errs else []
        if kind == "int":
            t = [float(round(x)) for x in t] if len({round(x) for x in t}) == m else t
            rows = [[x if math.isnan(x) else float(round(x)) for x in r] for r in rows]
            if any(math.isnan(x) for r in rows + errs for x in r):
                kind = "list"
            errs = [[float(round(x)) for x in r] for r in errs] if kind == "int" else errs
        flat = k == 1 and rnd.random() < 0.6 or huge
        if huge:
            errs = []
        ops = [make("d", t, rows, errs, flat=flat, via=rnd.choice(["ds"] * (not huge) + ["sacf", "kw"]), mutate=True, **{"as": kind}),
               summary("d", t, rows, mutate=True)]
        if m <= 17 and rnd.random() < 0.7:
            g = exact_grid(rnd, t, unit, 60) if False else given(min_lag=0.0, max_lag=(t[-1] - t[0]), lag_resolution=(t[-1] - t[0]) / 3.7 or 1.0)
            ops += [auto("d", g, judge=False, probe=0), auto("d", g, f="fast", w="gaussian", judge=False, probe=0),
                    dict(op="corr", c="c", h="d"), dict(op="std", c="c") if grid_size(t, given()) < 500 else dict(op="noise", noise=n),
                    dict(op="views", c="c", ttol=tol(4e-15 * max(1.0, abs(t[0]), abs(t[-1]))), mutate=True),
                    summary("d", t, rows)]
        out.append(dict(id=ids("data"), ops=ops))
    return out


def c11(rnd, size, tl):
    ids = Ids("C11")
    out = []
    small = [s for s in tl.get("value", []) if "nan" in s["row"]]
    for s in rnd.sample(small, min(len(small), 8 * size)):
        f, w = rnd.choice(FW)
        t = [float(x) for x in s["t"]]
        row = [float(x) for x in s["row"]]
        out.append(dict(id=ids("model"), ops=[make("d", t, [row]), summary("d", t, [row]),
                                             auto("d", given(lag_resolution=rnd.choice([None, 1.0]),
                                                             alpha=1.5), f=f, w=w, probe=30)]))
    big = large(rnd, size)
    for n in range(2 * size + len(big)):
        m = rnd.choice([2, 3, 5, 8, 15, 30])
        k = rnd.choice([1, 2, 3])
        if n >= 2 * size:
            m, k, _k = big[n - 2 * size]
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(k)]
        for j in range(k):
            how = rnd.choice(["none", "first", "last", "some", "some", "most", "all", "one", "inner"])
            r = rows[j]
            if how == "first":
                r[0] = NAN
            elif how == "last":
                r[-1] = NAN
            elif how == "some":
                rows[j] = holes(rnd, r)
            elif how == "most":
                rows[j] = holes(rnd, r, 0.8)
            elif how == "all":
                rows[j] = [NAN] * m
            elif how == "one":
                r[rnd.randrange(m)] = NAN
            elif how == "inner" and m > 2:
                r[m // 2] = NAN
        f, w = rnd.choice(FW)
        g = exact_grid(rnd, t, unit, 60)
        look = 24 if m * k < 200 else 5
        full = lambda: auto("d", g, f=f, w=w, probe=look, ctol=ctol(rows))
        out.append(dict(id=ids("holes"), ops=[make("d", t, rows), summary("d", t, rows), full(),
                                             auto("d", g, probe=look, ctol=ctol(rows))]))
    return out


def c12(rnd, size, tl):
    ids = Ids("C12")
    out = []
    shapes = list(tl.get("shape", []))
    rnd.shuffle(shapes)
    # every shape the model knows, several objects per scenario
    for block in range(0, len(shapes), 16):
        ops = []
        for i, s in enumerate(shapes[block:block + 16]):
            fl = lambda x: [[float(v) for v in r] for r in x]
            t, r, e = [float(v) for v in s["t"]], fl(s["rows"]), fl(s["errs"])
            o = make("d%d" % i, t, r, e, via=rnd.choice(["ds", "sacf", "kw"]))
            if o.get("flat") and (rnd.random() < 0.4 or not r):
                o["flat"] = False
            if not e:
                o["omit"] = rnd.choice([True, False])
            ops += [o, summary("d%d" % i, t, r)]
        out.append(dict(id=ids("model"), ops=ops))
    for _ in range(3 * size):
        m = rnd.choice([1, 2, 3, 4, 6, 12, 40])
        k = rnd.choice([1, 1, 2, 3, 5, 8])
        t, _u = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(k)]
        errs = [values(rnd, m) for _ in range(k)] if rnd.random() < 0.6 else []
        how = rnd.choice(["ok", "onelong", "oneshort", "allshort", "alllong", "transpose", "moverow", "errshort", "errlong",
                          "errragged", "errtranspose", "errmissing", "errextra", "emptyrow", "timeshort", "timelong",
                          "joined", "split", "notime", "norows", "emptyrows", "swap"])
        if how == "onelong":
            rows[rnd.randrange(k)].append(1.0)
        elif how == "oneshort":
            rows[rnd.randrange(k)].pop()
        elif how == "allshort":
            [r.pop() for r in rows]
        elif how == "alllong":
            [r.append(2.0) for r in rows]
        elif how == "transpose":
            rows = [list(x) for x in zip(*rows)]
        elif how == "moverow" and k > 1:
            rows[0].append(rows[1].pop())
        elif how == "errshort" and errs:
            errs[-1].pop()
        elif how == "errlong" and errs:
            errs[rnd.randrange(k)].append(1.0)
        elif how == "errragged" and errs and k > 1:
            errs[0].append(errs[1].pop())
        elif how == "errtranspose" and errs:
            errs = [list(x) for x in zip(*errs)]
        elif how == "errmissing" and errs:
            errs.pop()
        elif how == "errextra" and errs:
            errs.append(list(errs[0]))
        elif how == "emptyrow":
            rows[rnd.randrange(k)] = []
        elif how == "timeshort":
            t = t[:-1]
        elif how == "timelong":
            t = t + [t[-1] + 1.0]
        elif how == "joined":
            rows = [sum(rows, [])]
        elif how == "split" and m % 2 == 0:
            rows = [r[:m // 2] for r in rows] + [r[m // 2:] for r in rows]
        elif how == "notime":
            t = []
        elif how == "norows":
            rows, errs = [], []
        elif how == "emptyrows":
            rows = [[] for _ in rows]
        elif how == "swap" and errs:
            errs = [errs[0]] if k > 1 else errs
        flat = len(rows) == 1 and len(errs) <= 1 and rnd.random() < 0.5
        o = make("d", t, rows, errs, flat=flat, via=rnd.choice(["ds", "sacf", "kw"]))
        if not errs and not flat and rnd.random() < 0.3:
            o["omit"] = False
        kind = rnd.choice(["list", "tuple"])
        o["as"] = kind
        out.append(dict(id=ids(how), ops=[o, summary("d", t, rows)]))
    # lengths that differ by a power of two, or agree only in the last bits
    for n in (16, 32, 64, 128, 256, 512, 1024, 4096, 65536):
        for a, b, c in ((2, n + 2, 2), (n + 2, 2, n + 2), (2, 2, n + 2), (n + 1, n + 1, 1), (n, n, n), (n, n + 1, n), (n, n, n - 1)):
            if n > 60000 and rnd.random() < 0.6:
                continue
            t = [float(i) for i in range(a)]
            rows, errs = [[float(i % 5) for i in range(b)]], [[0.5] * c]
            if rnd.random() < 0.5:
                errs = []
            k = rnd.choice([1, 1, 2]) if n < 2000 else 1
            rows, errs = rows * k, errs * k
            o = make("d", t, rows, errs, flat=k == 1 and rnd.random() < 0.5, via=rnd.choice(["ds", "sacf", "kw"]))
            out.append(dict(id=ids("bits"), ops=[o, summary("d", t, rows)] if n < 2000 else [o]))
    return out


# -------- files

WORDS = ["time", "flux", "abc", "n/a", "-", "err", "x1", "--", "#", "#good", "\"1.5\"", "%", "%12", "\x27"]
DATES = ["2021-01-05", "12:30:01", "2021-01-05T00:00:00", "5/6", "1.2.3", "3d", "0x1p", "1e", "-", "+-3", "4_000"]
UNITS = ["d", "s", "mag", "*", "%", "-", ".5.", "e", "(3)", ";"]
NANWORDS = ["nan", "NaN", "NAN"]


def number_text(rnd, x):
    """a notation of x that reads back as x"""
    c = [repr(x)]
    if x == int(x) and abs(x) < 1e15:
        c += ["%d" % x, "%d.0" % x, "%d." % x, "%de0" % x, "%.3f" % x]
    c += ["%.17e" % x, "%.17E" % x]
    if x >= 0:
        c.append("+" + repr(x))
    if 0 < abs(x) < 1 and "e" not in repr(x):
        c.append(repr(x).replace("0.", ".", 1))
    s = rnd.choice(c)
    return s if float(s) == x else repr(x)


class Files:
    """files of a run, written under a scratch folder"""

    def __init__(self, folder):
        self.folder, self.n = folder, 0
        os.makedirs(folder, exist_ok=True)

    def write(self, text):
        self.n += 1
        p = os.path.join(self.folder, "f%d.%s" % (self.n, ("txt", "csv", "dat")[self.n % 3]))
        with open(p, "wb") as f:
            f.write(text.encode())
        return p


def render(rnd, lines, seps=None, eol=None, final=None):
    """lines: list of (comment?, [field]) with a field a float, "" or a word; returns (text, trace lines)"""
    seps = seps or rnd.choice([[","], [","], ["\t"], [" "], [", "], [" ,"], [",", ", "], ["  ", "\t"], ["\t", " "], [",", "\t"]])
    eol = eol or rnd.choice(["\n", "\n", "\r\n"])
    final = rnd.random() < 0.7 if final is None else final
    comma = all("," in s for s in seps)
    text, rec = [], []
    for comment, fields in lines:
        fs = fields
        if not comma:
            fs = [x for x in fields if x != ""]       # between blanks there is no empty field
        parts = [x if isinstance(x, str) else number_text(rnd, x) for x in fs]
        s = ""
        for i, x in enumerate(parts):
            s += (rnd.choice(seps) if i else "") + x
        if not comment and parts and parts[0] != "" and rnd.random() < 0.15:
            s = rnd.choice([" ", "\t", "  "]) + s
        if not comment and parts and rnd.random() < 0.15:
            s += rnd.choice([" ", "\t"])
        if comment:
            s = rnd.choice(["#", "# ", "##"]) + s
        text.append(s)
        from decimal import Decimal
        rec.append(dict(comment=comment, fields=[("word:" + x if x else "") if isinstance(x, str) else str(Decimal(x)) for x in fs]))
    body = eol.join(text) + (eol if final else "")
    return body, rec


def kind_line(rnd, kind, t, x, e):
    w = lambda: rnd.choice(WORDS)
    n = lambda: rnd.choice(NANWORDS)
    return {
        "two": (False, [t, x]), "three": (False, [t, x, e]), "more": (False, [t, x, e, rnd.choice([900.0, w(), "#"])] + [7.0] * rnd.randint(0, 2)),
        "errword": (False, [t, x, w()]), "errnan": (False, [t, x, n()]), "errempty": (False, [t, x, "", e]),
        "valword": (False, [t, w(), e]), "valnan": (False, [t, n(), e]), "timeword": (False, [w(), x, e]),
        "date": (False, [rnd.choice(DATES), x, e]), "semi": (False, ["%g;%g;%g" % (t, x, e)]),
        "unit": (False, [t, "%g%s" % (x, rnd.choice(UNITS)), e]), "errunit": (False, [t, x, "%g%s" % (e, rnd.choice(UNITS))]),
        "one": (False, [t]), "blank": (False, []), "head": (False, [w(), w()]), "comment": (True, [w()]),
        "commentdata": (True, [t, x, e]), "emptyfirst": (False, ["", x, e]), "emptysecond": (False, [t, "", e]),
    }[kind]


def file_ops(rnd, files, h, lines, **kw):
    body, rec = render(rnd, lines, **kw)
    p = files.write(body)
    nums = [f for _c, fs in lines for f in fs if not isinstance(f, str)]
    big = max([abs(v) for v in nums] + [1.0])
    return [dict(op="file", h=h, exists=True, lines=rec, path=p, text=body, via=rnd.choice(["ds", "sacf"])),
            dict(op="summary", h=h, ttol=tol(4e-15 * big), vtol=tol(1e-15 * (len(lines) + 8) * big))]


def c13(rnd, size, tl, files):
    ids = Ids("C13")
    out = []
    kinds = tl.get("file", [])
    for block in range(0, len(kinds), 12):
        ops = []
        for i, s in enumerate(kinds[block:block + 12]):
            lines = []
            for n, k in enumerate(s["kinds"], 1):
                lines.append(kind_line(rnd, k, 100.0 + n, 200.0 + n, 300.0 + n))
            # an empty field only exists between commas
            seps = [","] if any(k.startswith("empty") or k == "errempty" for k in s["kinds"]) else None
            ops += file_ops(rnd, files, "f%d" % i, lines, seps=seps)
        out.append(dict(id=ids("model"), ops=ops))
    all_kinds = ["two", "three", "more", "errword", "errnan", "errempty", "valword", "valnan", "timeword", "one", "blank",
                 "head", "comment", "commentdata", "emptyfirst", "emptysecond", "date", "semi", "unit", "errunit"]
    for _ in range(3 * size):
        n = rnd.choice([1, 2, 4, 8, 15, 40, 120, 700])
        t, _u = exact_times(rnd, n)
        if rnd.random() < 0.4:
            t = generic_times(rnd, n)
        x, e = values(rnd, n), [abs(v) * 0.01 + 0.001 for v in values(rnd, n)]
        if rnd.random() < 0.2:
            e = [rnd.choice([0.0, 0.0, 1.0, -1.0])] * n
        if rnd.random() < 0.1:
            x = [rnd.choice([0.0, 1.0, -99.0])] * n
        main = rnd.choice(["two", "three", "mixed", "three", "wild"])
        lines = []
        if rnd.random() < 0.5:
            lines += [kind_line(rnd, rnd.choice(["head", "comment", "commentdata", "blank"]), 1.0, 2.0, 3.0)
                      for _ in range(rnd.randint(1, 3))]
        for i in range(n):
            k = main
            if main == "mixed":
                k = rnd.choice(["two", "three", "errnan", "errword", "more", "errempty", "errunit"])
            if main == "wild":
                k = rnd.choice(all_kinds)
            if main in ("two", "three") and rnd.random() < 0.05:
                k = rnd.choice(["comment", "blank", "valnan", "valword", "commentdata", "date", "semi", "unit"])
            lines.append(kind_line(rnd, k, t[i], x[i], e[i]))
        out.append(dict(id=ids("file"), ops=file_ops(rnd, files, "d", lines)))
    # the object is the same as the one made directly, also for what is calculated from it
    for _ in range(size):
        n = rnd.choice([2, 3, 6, 12])
        t, unit = exact_times(rnd, n)
        x, e = values(rnd, n), [0.25 * (i + 1) for i in range(n)]
        kind = rnd.choice(["two", "three"])
        lines = [kind_line(rnd, kind, a, b, c) for a, b, c in zip(t, x, e)]
        f, w = rnd.choice(FW)
        g = exact_grid(rnd, t, unit, 60)
        ops = file_ops(rnd, files, "d", lines)
        ops += [auto("d", g, f=f, w=w, tag="T", judge=False, ctol=ctol([x])),
                make("e", t, [x], [e] if kind == "three" else []), summary("e", t, [x]),
                auto("e", g, f=f, w=w, tag="T", judge=False, ctol=ctol([x]))]
        out.append(dict(id=ids("direct"), ops=ops))
    gone = os.path.join(files.folder, "no-such-file.csv")
    out.append(dict(id=ids("gone"), ops=[dict(op="file", h="a", exists=False, lines=[], path=gone, via="ds"),
                                        dict(op="file", h="b", exists=False, lines=[], path=gone, via="sacf")]))
    empty = files.write("")
    out.append(dict(id=ids("empty"), ops=[dict(op="file", h="a", exists=True, lines=[], path=empty, via=v) for v in ("ds", "sacf")]))
    return out


# -------- histories

def as_ops(calls, watch, mutate):
    """a call sequence of MCSession, with observations after each call (watch "all") or at the end ("last")"""
    ops, made, seen = [], [], []
    fns = {}

    def look():
        ops.extend(peek(i) for i in seen)
        for c in made:
            f, w = fns.get(c, ("natural", "fractional"))
            ops.append(params(c))
            ops.append(read(c, f, w, calc=False, memo=True, mutate=mutate))
    for i, a in enumerate(calls):
        o = dict(a)
        if o["op"] == "data":
            o["t"] = [float(x) for x in o["t"]]
            o["rows"] = [[float(x) for x in r] for r in o["rows"]]
            o["mutate"] = mutate
            o["flat"] = len(o["rows"]) == 1
        elif o["op"] == "set":
            o["v"] = float(o["v"])
        elif o["op"] in ("iter", "setk"):
            o["k"] = float(o["k"])
        elif o["op"] == "dropc" and o["c"] in made:
            made.remove(o["c"])
        elif o["op"] == "delta":
            o["ttol"] = "1E-12"
        elif o["op"] == "weigh":
            o["wtol"] = "1E-11"
        elif o["op"] == "find":
            o["ctol"] = "1E-9"
        elif o["op"] == "auto":
            o.update(base(memo=True, mutate=mutate, calc=False))
            o["given"] = {n: [float(x) for x in o["given"][n]] for n in NAMES}
        ops.append(o)
        if o["op"] == "iter" and o["i"] not in seen:
            seen.append(o["i"])
        if o["op"] in ("corr", "auto") and o["c"] and o["c"] not in made:
            made.append(o["c"])
        if watch == "all" or i == len(calls) - 1:
            look()
    return ops


def prefix_free(seqs):
    """only sequences that are not a beginning of another"""
    import json
    keys = sorted(([json.dumps(c, sort_keys=True) for c in s] for s in seqs))
    out = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and keys[i + 1][:len(k)] == k:
            continue
        out.append([json.loads(x) for x in k])
    return out


def session_scenarios(rnd, ids, traces, what, most):
    seqs = prefix_free([t["calls"] for t in traces])
    if len(seqs) > most:
        seqs = rnd.sample(seqs, most)
    out = []
    for i, s in enumerate(seqs):
        out.append(dict(id=ids(what), ops=as_ops(s, "all" if i % 2 == 0 else "last", i % 3 == 0)))
    return out


def random_session(rnd, steps, drops=False, noise=False, mutate=False, stores=False):
    """a long history on several objects"""
    ops, ds, co, its = [], {}, {}, {}
    n = [0]

    def new_data(h):
        m = rnd.choice([1, 2, 3, 4, 6, 9])
        k = rnd.choice([1, 1, 2, 3])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m, rnd.choice(["small", "float", "sine", "spike"])) for _ in range(k)]
        ds[h] = (t, unit, rows)
        ops.append(make(h, t, rows, via=rnd.choice(["ds", "sacf"]), mutate=mutate,
                        **({"slot": rnd.choice("pq")} if rnd.random() < 0.6 else {})))
    fns = {}

    def see(c):
        f, w = fns.get(c, ("natural", "fractional"))
        ops.append(read(c, f, w, calc=False, memo=True, mutate=mutate, probe=8))
    new_data("h0")
    for _ in range(steps):
        r = rnd.random()
        n[0] += 1
        if r < 0.06 or not ds:
            new_data("h%d" % rnd.randrange(3))
        elif r < 0.16 or not co:
            h = rnd.choice(sorted(ds))
            c = "c%d" % rnd.randrange(4)
            ops.append(dict(op="corr", c=c, h=h))
            co[c] = dict(d=ds[h], g=given())
            fns.pop(c, None)
        elif r < 0.24 and drops:
            h = rnd.choice(sorted(ds))
            ops.append(dict(op="drop", h=h))
            del ds[h]
            if noise:
                ops.append(dict(op="noise", noise=n[0]))
        elif r < 0.27 and drops and len(co) > 1:
            c = rnd.choice(sorted(co))
            ops.append(dict(op="dropc", c=c))
            del co[c]
            fns.pop(c, None)
        elif r < 0.30 and noise:
            ops.append(dict(op="noise", noise=n[0]))
        elif r < 0.44:
            c = rnd.choice(sorted(co))
            t, unit, rows = co[c]["d"]
            g = exact_grid(rnd, t, unit, 40)
            new = dict(co[c]["g"])
            for x in NAMES:
                if g[x] and rnd.random() < 0.8:
                    new[x] = g[x]
            if rnd.random() < 0.3:
                new["alpha"] = [alpha_of(rnd, t)]
            if rnd.random() < 0.06:
                new["lag_resolution"] = [0.0]
            if grid_size(t, new) <= 80:
                for x in NAMES:
                    if new[x] != co[c]["g"][x]:
                        ops.append(dict(op="set", c=c, name=x, v=new[x][0]))
                co[c]["g"] = new
        elif r < 0.68:
            c = rnd.choice(sorted(co))
            t, unit, rows = co[c]["d"]
            if grid_size(t, co[c]["g"]) > 80:
                continue
            if rnd.random() < 0.5:
                ops.append(dict(op="std", c=c))
                if effective(t, co[c]["g"])[2] > 0:
                    fns[c] = ("natural", "fractional")
            else:
                f, w = rnd.choice(FW)
                if rnd.random() < 0.05:
                    ops.append(dict(op="cfg", c=c, f="nonesuch", w=w))
                else:
                    ops.append(dict(op="cfg", c=c, f=f, w=w))
                    if effective(t, co[c]["g"])[2] > 0:
                        fns[c] = (f, w)
        elif r < 0.74:
            c = rnd.choice(sorted(co))
            ops.append(rnd.choice([dict(op="clear", c=c), dict(op="trim", c=c, n=rnd.randint(0, 6))]))
        elif r < 0.80:
            h = rnd.choice(sorted(ds))
            t, unit, rows = ds[h]
            g = exact_grid(rnd, t, unit, 40)
            f, w = rnd.choice(FW)
            c = rnd.choice(["", "c%d" % rnd.randrange(4)])
            ops.append(dict(op="auto", h=h, given=g, f=f, w=w, c=c, **base(calc=True, memo=True, probe=8, ctol=ctol(rows),
                                                                       mutate=mutate)))
            if c:
                co[c] = dict(d=ds[h], g=g)
                fns[c] = (f, w)
        elif stores or r < 0.84:
            c = rnd.choice(sorted(co))
            t, unit, rows = co[c]["d"]
            span = int((t[-1] - t[0]) / unit)
            f, w = rnd.choice(FW)
            i = "i%d" % rnd.randrange(3)
            its[i] = ctol(rows), co[c]["d"]
            st = staged(c, i, rnd.randint(-span - 1, span + 1) * unit / 2, f, w, rnd.randint(0, 9),
                        ctol(rows))
            if len(t) == 1:      # the default length scale of one sample is 0
                st = [st[0], st[-1]]
            twins = [x for x in sorted(co) if co[x]["d"] is co[c]["d"]]
            if rnd.random() < 0.5:      # each stage by whichever correlator of the same data
                st = [dict(o, c=rnd.choice(twins)) for o in st]
            if rnd.random() < 0.3:      # called otherwise before it is stored: it keeps what was found
                st.insert(-1, dict(op="setk", i=i, k=rnd.randint(-9, 9) * unit / 2))
            ops += st
        elif r < 0.87 and its and co:      # an iterator stored again, perhaps under another name
            i = rnd.choice(sorted(its))
            for c in [c for c in sorted(co) if co[c]["d"] is its[i][1]][:1]:
                if rnd.random() < 0.5:
                    ops.append(dict(op="setk", i=i, k=rnd.randint(-9, 9) * co[c]["d"][1] / 2))
                ops.append(dict(op="store", i=i, c=c, pos=rnd.randint(0, 12)))
        if its and rnd.random() < 0.25:
            i = rnd.choice(sorted(its))
            ops.append(peek(i, its[i][0]))
        if co and rnd.random() < 0.5:
            see(rnd.choice(sorted(co)))
        if co and rnd.random() < 0.2:
            c = rnd.choice(sorted(co))
            ops.append(params(c))
            ops.append(dict(op="views", c=c, ttol="1E-9", mutate=mutate))
        if ds and rnd.random() < 0.1:
            h = rnd.choice(sorted(ds))
            ops.append(summary(h, ds[h][0], ds[h][2], mutate=mutate))
    for c in sorted(co):
        see(c)
    return ops


def recalc_chain(rnd):
    """one correlator, grids of changing size"""
    m = rnd.choice([2, 3, 5, 8])
    t, unit = exact_times(rnd, m)
    rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3]))]
    ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
    for _ in range(rnd.randint(3, 6)):
        g = exact_grid(rnd, t, unit, rnd.choice([5, 30, 120]))
        lo, hi, res = effective(t, g)
        if grid_size(t, g) > 200:
            continue
        for x, v in zip(("min_lag", "max_lag", "lag_resolution"), (lo, hi, res)):
            ops.append(dict(op="set", c="c", name=x, v=float(v)))
        f, w = rnd.choice(FW)
        ops += [rnd.choice([dict(op="std", c="c"), dict(op="cfg", c="c", f=f, w=w)])]
        o = ops[-1]
        fw = (f, w) if o["op"] == "cfg" else ("natural", "fractional")
        ops += [read("c", *fw, memo=True, probe=16, ctol=ctol(rows)),
                auto("d", given(min_lag=float(lo), max_lag=float(hi), lag_resolution=float(res)), f=fw[0], w=fw[1],
                     memo=True, probe=16, ctol=ctol(rows))]
    return ops


def c14(rnd, size, tl):
    ids = Ids("C14")
    out = session_scenarios(rnd, ids, tl.get("param", []), "param", 14 * size)
    out += session_scenarios(rnd, ids, tl.get("life", []), "life", 6 * size)
    for _ in range(size):
        out.append(dict(id=ids("random"), ops=random_session(rnd, rnd.choice([10, 25, 50]))))
        out.append(dict(id=ids("recalc"), ops=recalc_chain(rnd)))
    out.append(dict(id=ids("shrink"), ops=long_chain(rnd)))
    for m, n, k in large(rnd, size)[:4]:        # the same on larger series
        t, unit, rows, g = large_case(rnd, m, n, k)
        f, w = rnd.choice(FW[1:])
        h = dict(g, min_lag=[g["min_lag"][0] + unit], alpha=[alpha_of(rnd, t)])
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
        for q, std in ((g, True), (h, False), (g, False), (g, True)):
            ops += [dict(op="set", c="c", name=x, v=q[x][0]) for x in NAMES]
            fw = FW[0] if std else (f, w)
            ops += [dict(op="std", c="c") if std else dict(op="cfg", c="c", f=f, w=w),
                    read("c", *fw, memo=True, probe=3, ctol=ctol(rows))]
        ops.append(auto("d", g, memo=True, probe=3, ctol=ctol(rows)))
        out.append(dict(id=ids("larger"), ops=ops))
    return out


def long_chain(rnd):
    """recalculation over grids of many lags, each time fewer or more"""
    m = rnd.choice([2, 3, 4])
    t, unit = exact_times(rnd, m, unit=1.0)
    rows = [values(rnd, m) for _ in range(rnd.choice([1, 2]))]
    ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
    for n in rnd.choice([(1200, 700, 520, 90), (2100, 1030, 600, 1500), (1010, 990, 510, 500, 3), (4200, 800, 2000, 7)]):
        res = rnd.choice([0.125, 0.25, 1.0])
        lo = -rnd.randint(0, n) * res
        g = given(min_lag=lo, max_lag=lo + n * res, lag_resolution=res)
        ops += [dict(op="set", c="c", name=x, v=g[x][0]) for x in NAMES[:3]]
        f, w = rnd.choice(FW)
        std = rnd.random() < 0.4
        if std:
            f, w = FW[0]
        ops += [dict(op="std", c="c") if std else dict(op="cfg", c="c", f=f, w=w), read("c", f, w, probe=12, ctol=ctol(rows)), params("c")]
    return ops


def c15(rnd, size, tl):
    ids = Ids("C15")
    out = []
    for _ in range(size):
        # the same lists filled again, of the same or another length, the objects made before still in use
        k, n = rnd.choice([1, 1, 2, 3]), rnd.choice([2, 3, 5, 9])
        via, flat, errs = rnd.choice(["ds", "sacf", "kw"]), k == 1 and rnd.random() < 0.6, rnd.random() < 0.4
        ops = []
        for i in range(3):
            m = n if rnd.random() < 0.7 else rnd.choice([2, 3, 5, 9])
            t, unit = exact_times(rnd, m, unit=1.0, offset=rnd.choice([0, 1]))
            rows = [values(rnd, m, "small") for _ in range(k)]
            ops += [make("d%d" % i, t, rows, [[0.5 * i] * m for _ in range(k)] if errs else [], via=via, flat=flat, slot="p"),
                    dict(op="corr", c="c%d" % i, h="d%d" % i), dict(op="set", c="c%d" % i, name="lag_resolution", v=1.0)]
            for j in range(i + 1):
                ops += [summary("d%d" % j, t, rows), auto("d%d" % j, given(lag_resolution=1.0, max_lag=3.0, min_lag=-2.0), memo=True),
                        dict(op="set", c="c%d" % j, name="max_lag", v=3.0), dict(op="set", c="c%d" % j, name="min_lag", v=-2.0),
                        dict(op="std", c="c%d" % j), read("c%d" % j, memo=True), params("c%d" % j)]
        out.append(dict(id=ids("refill"), ops=ops))
    for i, s in enumerate(session_scenarios(rnd, ids, tl.get("life", []), "life", 12 * size)):
        ops = []
        for o in s["ops"]:
            if o["op"] in ("data", "read", "auto", "views", "summary"):
                o["mutate"] = True
            ops.append(o)
            if o["op"] == "drop":
                ops.append(dict(op="noise", noise=i))
        s["ops"] = ops
        out.append(s)
    for _ in range(2 * size):
        out.append(dict(id=ids("random"), ops=random_session(rnd, rnd.choice([10, 25, 40]), drops=True, noise=True, mutate=True)))
    for n in range(size):
        # everything let go at once, through each way of getting a correlator
        m = rnd.choice([3, 5, 40, 400])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3]))]
        errs = [[1.0] * m for _ in rows] if rnd.random() < 0.4 else []
        g = given(min_lag=-2 * unit, max_lag=3 * unit, lag_resolution=unit, alpha=3 * unit)
        f, w = rnd.choice(FW)
        ct = ctol(rows)
        ops = [make("d", t, rows, errs, via=rnd.choice(["ds", "sacf"]), mutate=True),
               auto("d", g, f=f, w=w, c="c", memo=True, mutate=True, ctol=ct), dict(op="corr", c="e", h="d"),
               dict(op="drop", h="d"), dict(op="noise", noise=n)]
        for c in "ce":
            ops += [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES]
            ops += [params(c), dict(op="views", c=c, ttol="1E-9", mutate=True), dict(op="std", c=c),
                    read(c, memo=True, mutate=True, ctol=ct), dict(op="noise", noise=n + 7),
                    dict(op="cfg", c=c, f=f, w=w), read(c, f, w, memo=True, mutate=True, ctol=ct),
                    dict(op="pairs", c=c, k=unit, f="natural", ttol="1E-12", near=False)]
        out.append(dict(id=ids("letgo"), ops=ops))
    return out


def c17(rnd, size, tl):
    ids = Ids("C17")
    out = session_scenarios(rnd, ids, tl.get("store", []), "store", 25 * size)
    for _ in range(2 * size):
        m = rnd.choice([2, 3, 5, 9, 2, 3, 5, 9, 40, 130])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3, 7]))]
        span = int((t[-1] - t[0]) / unit)
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
        if rnd.random() < 0.3 and grid_size(t, given()) < 60:
            ops.append(dict(op="std", c="c"))
        before = None
        held = set()
        for _ in range(rnd.randint(3, 20)):
            r = rnd.random()
            if r < 0.65:
                f, w = rnd.choice(FW)
                k = rnd.randint(-span - 1, span + 1) * unit / 2 if rnd.random() < 0.8 else 0.0
                pos = rnd.choice([0, 1, 2, 3, rnd.randint(0, 30), rnd.randint(0, 700) if rnd.random() < 0.2 else 5])
                if before and rnd.random() < 0.35:       # the same lag again, or the same place, computed otherwise
                    k, pos = rnd.choice([before, (before[0], pos), (k, before[1])])
                before = (k, pos)
                i = rnd.choice("ijk")
                held.add(i)
                st = staged("c", i, k, f, w, pos, ctol(rows))
                if rnd.random() < 0.25:
                    st.insert(rnd.choice([1, 5, 5]), dict(op="setk", i=i, k=rnd.randint(-9, 9) * unit / 2))
                ops += st if rnd.random() < 0.8 else [st[0], st[-1]]
            elif r < 0.75 and held:
                i = rnd.choice(sorted(held))
                if rnd.random() < 0.6:
                    ops.append(dict(op="setk", i=i, k=rnd.randint(-9, 9) * unit / 2))
                ops.append(dict(op="store", i=i, c="c", pos=rnd.randint(0, 12)))
                ops.append(peek(i, ctol(rows)))
            elif r < 0.85:
                ops.append(dict(op="trim", c="c", n=rnd.choice([0, 1, 2, 3, 8, rnd.randint(0, 40)] +
                                                               ([before[1], before[1] + 1] * 2 if before else []))))
            else:
                ops.append(dict(op="clear", c="c"))
            if rnd.random() < 0.6:
                ops.append(read("c", calc=False, probe=40, ctol=ctol(rows)))
        ops.append(read("c", calc=False, probe=40, ctol=ctol(rows)))
        out.append(dict(id=ids("random"), ops=ops))
    for _ in range(size):
        # storing a calculation's lags backwards or shuffled
        m = rnd.choice([2, 4, 6])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3]))]
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
        ks = [unit * i / 2 for i in range(-4, 5)]
        order = list(enumerate(ks))
        rnd.choice([lambda: order.reverse(), lambda: rnd.shuffle(order)])()
        f, w = rnd.choice(FW)
        for pos, k in order:
            ops += staged("c", "i", k, f, w, pos, ctol(rows))
        ops.append(read("c", f, w, calc=False, probe=20, ctol=ctol(rows)))
        out.append(dict(id=ids("shuffled"), ops=ops))
    return out


def c18(rnd, size, tl):
    ids = Ids("C18")
    out = []
    for _ in range(size):
        m = rnd.choice([2, 3, 5, 8])
        t, unit = exact_times(rnd, m, style=rnd.choice(["free", "onegap", "burst", "even"]))
        k = rnd.choice([1, 1, 2, 3, 5])
        rows = [values(rnd, m) for _ in range(k)]
        ops = [make("d", t, rows, flat=(k == 1 and rnd.random() < 0.6), via="sacf")]
        for f, w in FW:
            g = exact_grid(rnd, t, unit, 80)
            if rnd.random() < 0.8:
                g["alpha"] = [alpha_of(rnd, t)]
            kw = dict(omit=rnd.random() < 0.5, pos_args=rnd.random() < 0.3, probe=12, ctol=ctol(rows))
            ops += [auto("d", g, f=f, w=w, tag="T" + f + w, **kw), auto("d", g, f=f, w=w, c="c", tag="T" + f + w, **kw),
                    read("c", f, w, probe=12, tag="T" + f + w, ctol=ctol(rows)), params("c")]
        # used further
        ops += [dict(op="set", c="c", name="max_lag", v=unit), dict(op="set", c="c", name="min_lag", v=-unit),
                dict(op="set", c="c", name="lag_resolution", v=unit), dict(op="std", c="c"), read("c", ctol=ctol(rows))]
        out.append(dict(id=ids("combo"), ops=ops))
    for k in (1, 2):                     # one sample
        t, rows = [rnd.choice([0.0, 5.5, -3.25])], [[float(rnd.randint(-3, 3))] for _ in range(k)]
        ops = [make("d", t, rows, flat=(k == 1 and rnd.random() < 0.5), via="sacf")]
        for f, w in FW:
            for lo, hi in ((-3.0, 0.0), (-2.0, -1.0), (-1.0, 2.0), (0.0, 0.0)):
                g = given(min_lag=lo, max_lag=hi, lag_resolution=1.0, alpha=rnd.choice([0.5, 1.0, 3.0]))
                ops.append(auto("d", g, f=f, w=w, c=rnd.choice(["", "c"])))
        for f, w in (("nonesuch", "fractional"), ("natural", "nonesuch"), ("fast", "nonesuch")):
            ops.append(auto("d", given(min_lag=-1.0, max_lag=0.0, lag_resolution=1.0), f=f, w=w))
        out.append(dict(id=ids("lone"), ops=ops))
    for m, n, k in large(rnd, size):
        t, unit, rows, g = large_case(rnd, m, n, k)
        f, w = rnd.choice(FW)
        out.append(dict(id=ids("big"), ops=[make("d", t, rows, via="sacf"), auto("d", g, f=f, w=w, probe=3, tag="T", ctol=ctol(rows)),
                                           auto("d", g, f=f, w=w, c="c", probe=3, tag="T", ctol=ctol(rows)),
                                           read("c", f, w, probe=3, tag="T", ctol=ctol(rows)), params("c")]))
    for k in (1, 2, 3):
        for lo, hi in ((3.0, 1.0), (0.0, 0.0), (2.0, 2.0), (-1.0, 1.0)):
            t, unit = exact_times(rnd, 4, unit=1.0)
            rows = [values(rnd, 4) for _ in range(k)]
            g = given(min_lag=lo, max_lag=hi, lag_resolution=1.0)
            ops = [make("d", t, rows, flat=(k == 1))]
            for f, w in FW:
                for c in ("", "c"):
                    ops.append(auto("d", g, f=f, w=w, c=c, ctol=ctol(rows)))
                ops.append(read("c", f, w, ctol=ctol(rows)))
            out.append(dict(id=ids("edge"), ops=ops))
    for f, w in (("natural", "linear"), ("slow", "fractional"), ("fast", "fast"), ("natural", "Gaussian"), ("", "fractional"),
                 ("natural", ""), ("Natural", "fractional"), ("natural", "fraction"), ("fast ", "gaussian"),
                 ("gaussian", "natural"), ("fastest", "gaussian"), ("natural", "fractional_cubed"), ("natural", "fast"),
                 ("natural", "exponential"), ("natural", "squared"), ("nearest", "gaussian"), ("natural", "fractional-squared"),
                 ("natural", "FRACTIONAL"), ("FAST", "gaussian"), ("natural", "fractional "), (" natural", "fractional"),
                 ("natural", "gauss"), ("default", "default"), ("none", "none"), ("index", "gaussian"), ("natural", "lorentzian"),
                 ("natural", "fractional_square"), ("nat", "frac"), ("n", "f"), ("natural", "uniform"), ("natural", "unit")):
        m = rnd.choice([1, 2, 4, 4, 9])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2]))]
        g = exact_grid(rnd, t, unit, 50, zero=True)
        if m == 1:
            g["lag_resolution"] = g["lag_resolution"] or [unit]
        ops = [make("d", t, rows), auto("d", g, f=f, w=w), auto("d", g, f=f, w=w, c="c")]
        # an unknown name with every known one
        ops += [auto("d", g, f=f, w=x) for x in ("fractional", "gaussian", "fractional_squared") if f not in ("natural", "fast")]
        ops += [auto("d", g, f=x, w=w) for x in ("natural", "fast") if w not in ("fractional", "gaussian", "fractional_squared")]
        ops += [dict(op="corr", c="e", h="d")]
        if grid_size(t, given()) < 200:
            ops += [dict(op="std", c="e"), dict(op="cfg", c="e", f=f, w=w), read("e", ctol=ctol(rows))]
        out.append(dict(id=ids("unknown"), ops=ops))
    return out


def c19(rnd, size, tl):
    ids = Ids("C19")
    out = []
    for n in range(2 * size):
        m = rnd.choice([1, 2, 3, 4, 6, 9, 15])
        t, unit = exact_times(rnd, m, style=rnd.choice([None, "burst", "onegap", "wide"]))
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        if rnd.random() < 0.2:
            rows[0] = holes(rnd, rows[0])
        f, w = FW[n % 6]
        a = alpha_of(rnd, t)
        res = unit * rnd.choice([0.5, 1.0, 1.0, 2.0])
        lo, hi = -rnd.randint(0, 20) * res + rnd.choice([0, 0, res / 4]), rnd.randint(0, 25) * res
        kw = dict(memo=True, probe=60, ctol=ctol(rows))
        whole = dict(min_lag=lo, max_lag=hi, lag_resolution=res, alpha=a)
        grids = [whole]
        lags = lag_list(lo, hi, res)
        for _ in range(6):
            x, y = sorted((rnd.choice(lags), rnd.choice(lags)))
            grids.append(rnd.choice([
                dict(whole, min_lag=float(x)), dict(whole, max_lag=float(y)), dict(whole, min_lag=float(x), max_lag=float(y)),
                dict(whole, min_lag=float(y), max_lag=float(y)), dict(whole, min_lag=float(x), max_lag=float(x)),
                dict(whole, lag_resolution=res * rnd.randint(2, 5)), dict(whole, lag_resolution=res / 2),
                dict(whole, min_lag=lo - 10 * res, max_lag=hi + 10 * res), dict(whole, min_lag=hi, max_lag=hi + 4 * res)]))
        order = [grids[0]] + grids if rnd.random() < 0.5 else grids[::-1] + [grids[-1]]
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
        for g in order:
            ops.append(auto("d", given(**g), f=f, w=w, **kw))
            if rnd.random() < 0.4:         # the same correlator, range after range
                ops += [dict(op="set", c="c", name=x, v=g[x]) for x in NAMES]
                ops += [dict(op="std", c="c") if (f, w) == FW[0] and rnd.random() < 0.5 else dict(op="cfg", c="c", f=f, w=w),
                        read("c", f, w, **kw)]
        some = rnd.sample(list(enumerate(lags)), min(len(lags), 6))     # lags one by one, in any order
        ops += [dict(op="clear", c="c"), dict(op="set", c="c", name="alpha", v=a)]
        for pos, k in some:
            ops += staged("c", "i", float(k), f, w, pos, ctol(rows))
        ops.append(read("c", f, w, calc=False, **kw))
        out.append(dict(id=ids("part"), ops=ops))
    for m, n, k in large(rnd, size):
        t, unit, rows, g = large_case(rnd, m, n, k)
        f, w = rnd.choice(FW)
        ops = [make("d", t, rows), auto("d", g, f=f, w=w, memo=True, probe=5, ctol=ctol(rows))]
        lags = lag_list(*effective(t, g))
        for i in (0, len(lags) - 1, len(lags) // 2, (len(lags) - 1) // 2):
            ops.append(auto("d", dict(g, min_lag=[float(lags[i])], max_lag=[float(lags[i])]), f=f, w=w, memo=True, probe=5, ctol=ctol(rows)))
        ops.append(auto("d", dict(g, min_lag=[float(lags[len(lags) // 2])]), f=f, w=w, memo=True, probe=5, ctol=ctol(rows)))
        out.append(dict(id=ids("big"), ops=ops))
    return out


# ---------------------------------------------------------------- C20, C21

STAGES = ("naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "getFractionWeights",
          "getFractionSquaredWeights", "getGaussianWeights", "findCorrelation")
SENSELESS = ["%s %s" % (s, h) for s in STAGES for h in ("none", "word", "number", "data")] + \
    ["%s %s" % (s, h) for s in ("corr", "store", "data", "errors", "sacf", "file") for h in ("none", "word", "number", "list")] + \
    ["width " + h for h in ("negative", "nan", "part", "inf", "zero")] + ["weight " + h for h in ("nan", "inf", "negative")]
EXTREME = [NAN, INF, -INF, 0.0, -0.0, 2.0 ** -1074, 2.0 ** -1000, 2.0 ** -60, -2.0 ** -60, 2.0 ** 60, -2.0 ** 60, 2.0 ** 1000,
           -2.0 ** 1000, 2.0 ** 1023, -2.0 ** 1023]


def fate(t, lo, hi, res):
    """of a calculation: None if it would take long or depends on rounding, else (number of lags, is it exact?)"""
    if not res > 0 or not lo <= hi:
        return 0, True
    if INF in (abs(lo), abs(hi)):
        return 0, True
    ratio = 0 if res == INF else Fraction(max(abs(lo), abs(hi))) / Fraction(res)
    if ratio > 2 ** 56:
        return 0, True
    n = 1 if res == INF else (Fraction(hi) - Fraction(lo)) / Fraction(res)
    if ratio > 2 ** 50 or n > 250 or res < 2.0 ** -1073:
        return None
    lags, k, i = [], lo, 0
    exact = True
    while k <= hi:
        if res != INF or i == 0:
            exact = exact and Fraction(k) == Fraction(lo) + (0 if i == 0 else i * Fraction(res))
        lags.append(k)
        k, i = k + res, i + 1
    exact = exact and (res == INF or i == int(n) + 1)
    exact = exact and all(abs(k) > 2.0 ** 900 or all(Fraction(x - t[0] + k) == Fraction(x - t[0]) + Fraction(k) for x in t)
                          for k in lags)
    return i, exact


def c20(rnd, size, tl):
    ids = Ids("C20")
    out = session_scenarios(rnd, ids, tl.get("misuse", []), "misuse", 25 * size)
    for n in range(5 * size):
        m = rnd.choice([1, 2, 3, 5, 8])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        some = lambda p: rnd.choice(EXTREME) if rnd.random() < p else rnd.randint(-8, 8) * unit
        odd = rnd.choice(["limits", "limits", "limits", "alpha", "values", "times"])
        judge = True
        if odd == "values":
            rows[0][rnd.randrange(m)] = rnd.choice([INF, -INF, 1e308, NAN])
            judge = False
        if odd == "times" and m > 1:
            t = list(t)
            i = rnd.randrange(m)
            t[i] = rnd.choice([INF, -INF, NAN, t[i - 1], t[0] - unit, 1e308])
            if rnd.random() < 0.3:
                rnd.shuffle(t)
            judge = False
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="d")]
        if odd == "times":      # the defaults are nothing to rely on
            ops += [dict(op="set", c=c, name=x, v=v * unit) for c in "ce" for x, v in
                    (("min_lag", -2.0), ("max_lag", 2.0), ("lag_resolution", 1.0), ("alpha", 1.0))]
        now = None
        for _ in range(rnd.randint(2, 5)):
            for _ in range(20):
                p = dict(min_lag=some(0.4), max_lag=some(0.4), lag_resolution=rnd.choice([abs(some(0.4)), some(0.2), unit]))
                f = fate([x if abs(x) < INF else 0.0 for x in t] if odd == "times" else t, p["min_lag"], p["max_lag"],
                         p["lag_resolution"])
                if f is not None:
                    break
            else:
                continue
            plain = odd in ("limits",)
            a = rnd.choice(EXTREME + [-unit]) if odd == "alpha" else alpha_of(rnd, sorted(x for x in t if abs(x) < 1e300) or [0.0, 1.0])
            fn, w = rnd.choice(FW)
            kw = dict(judge=judge and plain and f[1], calc=judge and plain, probe=12, ctol=ctol(rows) if plain else "1E-9")
            if p["lag_resolution"] > 0 and not (p["lag_resolution"] < INF and max(abs(p["min_lag"]), abs(p["max_lag"])) < 1e300):
                kw["ctol"] = "1E-6"
            g = given(alpha=a, **p)
            if odd != "times" and rnd.random() < 0.5:
                ops.append(auto("d", g, f=fn, w=w, **kw))
            else:
                ops += [dict(op="set", c="c", name=x, v=float(v)) for x, v in list(p.items()) + [("alpha", a)]]
                std = (fn, w) == FW[0]
                ops.append(dict(op="std", c="c") if std else dict(op="cfg", c="c", f=fn, w=w))
                ended = p["lag_resolution"] > 0 and not (p["min_lag"] <= p["max_lag"] and f[0] == 0)
                if ended:
                    now = (fn, w, kw)
                if now:         # a refusal leaves the earlier result, whose own terms it is read on
                    ops.append(read("c", now[0], now[1], **dict(now[2], calc=False)))
            if rnd.random() < 0.4:
                ops.append(dict(op="misuse", c="c", what=rnd.choice(SENSELESS)))
        ops.append(read("e", probe=6, judge=judge, calc=False))
        if odd not in ("times", "values"):
            ops += [params("e"), auto("d", given(min_lag=0.0, max_lag=2 * unit, lag_resolution=unit), ctol=ctol(rows),
                                      judge=judge, calc=judge, probe=6),
                    summary("d", t, rows)]
        out.append(dict(id=ids(odd), ops=ops))
    # every combination of the kinds of number there are, for the limits and the resolution, by both routes
    t, rows = [0.0, 1.0, 1.5, 3.0, 7.0], [values(rnd, 5), values(rnd, 5)]
    kinds = [NAN, INF, -INF, 0.0, 2.5, -2.5, 2.0 ** -1074, 2.0 ** 1023, -2.0 ** 1023]
    every = [(lo, hi, res, r) for lo in kinds for hi in kinds for res in kinds for r in (0, 1)]
    rnd.shuffle(every)
    while every:
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d")]
        for lo, hi, res, route in every[:45]:
            f = fate(t, lo, hi, res)
            if f is None:
                continue
            fn, w = rnd.choice(FW[1:]) if route else FW[0]
            kw = dict(judge=f[1], calc=False, probe=3, ctol="1E-6")
            if rnd.random() < 0.7:
                ops.append(auto("d", given(min_lag=lo, max_lag=hi, lag_resolution=res), f=fn, w=w, **kw))
            else:
                ops += [dict(op="set", c="c", name=x, v=v) for x, v in (("min_lag", lo), ("max_lag", hi), ("lag_resolution", res))]
                ops.append(dict(op="cfg", c="c", f=fn, w=w) if route else dict(op="std", c="c"))
        every = every[45:]
        out.append(dict(id=ids("kinds"), ops=ops))
    for n in range(2 * size):       # an iterator whose stages are those of correlators of a longer and of a shorter series
        m = rnd.choice([2, 4, 9, 30, 300])
        big, unit = exact_times(rnd, m, style="free")
        few = rnd.randint(1, m - 1)
        k = rnd.choice([1, 2])
        span = big[-1] - big[0]
        rows = [values(rnd, m) for _ in range(k)]
        cut = rnd.randint(0, m - few)
        small = [x - big[cut] + big[0] for x in big[cut:cut + few]]
        ops = [make("d", big, rows), make("e", small, [r[cut:cut + few] for r in rows]),
               dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="e")]
        for r in range(6):
            # lags at which everything is paired with the first observation, with the last, with few, with none
            lag = rnd.choice([-2 * span - unit, -2 * span - unit, -span, -unit, 0.0, unit, span, span - unit, 3 * span])
            f, w = rnd.choice(FW)
            cs = rnd.choice(["ccce", "ccce", "ccec", "eeec", "cecc", "ecce", "ccee"])
            ops += [dict(o, c=cs[min(n, 3)], ctol="1E-6") if o["op"] == "find" else dict(o, c=cs[n]) if n >= 0 else o
                    for n, o in enumerate(staged("c", "i%d" % r, lag, f, w, None), -1)]
            ops.append(dict(op="store", i="i%d" % r, c=rnd.choice("ce"), pos=rnd.randint(0, 3)))
            if rnd.random() < 0.5:
                ops.append(dict(op="find", i="i%d" % r, c=rnd.choice("ce"), ctol="1E-6"))
        kw = dict(ctol=ctol(rows), probe=6)
        g = given(min_lag=0.0, max_lag=2 * unit, lag_resolution=unit)
        ops += [params("c"), params("e"), summary("d", big, rows), auto("d", g, **kw), auto("e", g, **kw)]
        out.append(dict(id=ids("foreign"), ops=ops))
    for n in range(2 * size):       # senseless calls in the middle of ordinary ones
        ops = []
        for o in random_session(rnd, rnd.randint(12, 30), drops=True, noise=n % 3 == 0, stores=True):
            ops.append(o)
            cs = [x["c"] for x in ops if x["op"] == "corr"]
            if cs and rnd.random() < 0.25:
                ops.append(dict(op="misuse", c=cs[-1], what=rnd.choice(SENSELESS)))
            its = [x["i"] for x in ops if x["op"] == "iter"]
            if its and cs and rnd.random() < 0.08:      # and stages out of order
                i, c = its[-1], rnd.choice(cs)
                ops.append(rnd.choice([dict(op="select", i=i, c=c, f=rnd.choice(["natural", "fast"])),
                                       dict(op="delta", i=i, c=c, ttol="1E-9"), dict(op="weigh", i=i, c=c, w="gaussian", wtol="1E-9"),
                                       dict(op="find", i=i, c=c, ctol="1E-6"), dict(op="store", i=i, c=c, pos=rnd.randint(-2, 9)),
                                       dict(op="trim", c=c, n=-rnd.randint(1, 3))]))
        out.append(dict(id=ids("session"), ops=ops))
    for n in range(3):              # iterators of the wrong width, over and over: memory beyond them is someone's
        m = 40
        t = [float(i) for i in range(m)]
        ops = [make("d", t, [values(rnd, m) for _ in range(12)]), make("e", t, [values(rnd, m)]),
               dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="e")]
        for i in range(12):
            a, b = ("e", "c") if i % 3 else ("c", "e")
            ops += [dict(op="iter", i="i", k=1.0, c=a)] + staged(b, "i", 1.0, *rnd.choice(FW), i)[1:]
            ops += staged("e", "k", float(i), *rnd.choice(FW), i)
        ops += [read("e", calc=False, probe=20), read("c", calc=False, probe=5)]
        out.append(dict(id=ids("width"), ops=ops))
    return out


def c21(rnd, size, tl):
    ids = Ids("C21")
    out = session_scenarios(rnd, ids, tl.get("store", []), "store", 12 * size)
    out += session_scenarios(rnd, ids, tl.get("misuse", []), "misuse", 8 * size)
    for n in range(4 * size):
        m = rnd.choice([1, 2, 3, 5, 9, 20, 60]) if n else rnd.choice([300, 1100])
        t, unit = exact_times(rnd, m)
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 2, 3, 6]))]
        if n == 1:
            rows = [values(rnd, m) for _ in range(40)]
        if rnd.random() < 0.3:
            rows[-1] = holes(rnd, rows[-1])
        span = int((t[-1] - t[0]) / unit)
        ops = [make("d", t, rows), dict(op="corr", c="c", h="d"), dict(op="corr", c="e", h="d")]
        for c in "ce":
            ops.append(dict(op="set", c=c, name="alpha", v=alpha_of(rnd, t)))
        # the stages of several iterators interleaved, with what may not matter in between
        todo = []
        alike = [rnd.randint(-span - 1, span + 2) * unit / 2 for _ in range(2)] if rnd.random() < 0.5 else None
        workers = rnd.choice(["c", "ce", "ce"])
        steps = rnd.random() < 0.5      # in step, or in any order
        for i in ["i%d" % x for x in range(rnd.randint(2, 5))]:
            k = rnd.choice(alike) if alike else rnd.randint(-span - 1, span + 2) * unit / 2
            st = [dict(o, c=rnd.choice(workers)) for o in staged("c", i, k, *rnd.choice(FW), rnd.randint(0, 12), ctol(rows))]
            if rnd.random() < 0.4:
                st.insert(rnd.randint(1, len(st)), dict(op="setk", i=i, k=rnd.randint(-9, 9) * unit / 2))
            todo.append(st)
        live = set()
        small = grid_size(t, given()) < 60
        while any(todo):
            most = max(len(x) for x in todo)
            st = rnd.choice([x for x in todo if x and (len(x) == most or not steps)])
            ops.append(st.pop(0))
            live.add(ops[-1]["i"])
            r = rnd.random()
            c = rnd.choice("ce")
            if r < 0.15:
                ops.append(dict(op="set", c=c, name="alpha", v=alpha_of(rnd, t)))
            elif r < 0.25 and small:
                ops.append(dict(op="std", c=c))
            elif r < 0.32:
                ops.append(rnd.choice([dict(op="clear", c=c), dict(op="trim", c=c, n=rnd.randint(0, 9))]))
            elif r < 0.40:
                ops.append(dict(op="noise", noise=n))
            if rnd.random() < 0.4:
                ops.append(peek(rnd.choice(sorted(live)), ctol(rows)))
        ops += [read(c, calc=False, probe=20, ctol=ctol(rows)) for c in "ce"]
        gone = rnd.choice([["c"], ["e"], ["c", "e"]])
        if rnd.random() < 0.5:
            ops.append(dict(op="drop", h="d"))
        ops += [dict(op="dropc", c=c) for c in gone] + [dict(op="noise", noise=n)]
        ops += [peek(i, ctol(rows)) for i in sorted(live)]
        for c in sorted(set("ce") - set(gone)):
            for i in sorted(live):
                ops.append(dict(op="store", i=i, c=c, pos=rnd.randint(0, 6)))
            ops.append(read(c, calc=False, probe=20, ctol=ctol(rows)))
        out.append(dict(id=ids("held"), ops=ops))
    return out


def c22(rnd, size, tl):
    ids = Ids("C22")
    out = []

    def steps_given(m, step, a):
        lo = rnd.choice([None, None, 0, rnd.randint(0, m), -rnd.randint(0, m)])
        hi = rnd.choice([None, None, m - 1, rnd.randint(0, m + 2), rnd.randint(m, 2 * m)])
        res = rnd.choice([None, None, 1, 2, 3, 0.5, 0.25])
        return given(min_lag=None if lo is None else lo * step, max_lag=None if hi is None else hi * step,
                     lag_resolution=(1 if m == 1 else None) if res is None else res * step, alpha=a)
    for n in range(4 * size):
        m = rnd.choice([1, 2, 2, 3, 4, 6, 9, 17, 40])
        unit = 2.0 ** rnd.choice([-60, -33, -20, -9, -4, -1, 0, 0, 1, 5, 17, 40])
        step = unit * rnd.choice([1, 1, 2, 3, 5, 7, 11, 255, 2 ** 15 + 1])
        t0 = unit * rnd.choice([0, 0, 1, -3, 17, -1000, 2 ** 20 + 3, 58849 * 64, -(2 ** 30) - 1])
        t = [t0 + step * i for i in range(m)]
        rows = [values(rnd, m) for _ in range(rnd.choice([1, 1, 2, 3]))]
        if rnd.random() < 0.2:
            rows[-1] = holes(rnd, rows[-1])
        ops = [make("d", t, rows)]
        kw = dict(classic="exact", step=exactdec(step), ctol=ctol(rows), judge=False, probe=60)
        for f, w in rnd.sample(FW, 3):
            a = rnd.choice([None, step, step / 2, step * 1e-3, step * 1e3, step * 1e-8, -step, -3.7 * step, step * 1e12])
            if m == 1 and a is None:
                a = step
            g = steps_given(m, step, a)
            ops += [auto("d", g, f=f, w=w, c="c", **kw)]
            if rnd.random() < 0.5:
                f, w = rnd.choice(FW)
                if g["lag_resolution"] or m > 1:
                    ops += [dict(op="cfg", c="c", f=f, w=w), read("c", f, w, **kw)]
            if rnd.random() < 0.3:
                ops += [dict(op="std", c="c"), read("c", **kw)]
        out.append(dict(id=ids("even"), ops=ops))
    for m in (300, 1025, 2100):                    # long series, a few lags all over
        step = rnd.choice([1.0, 0.5, 3.0])
        t = [step * (i + 7) for i in range(m)]
        rows = [values(rnd, m, rnd.choice(["float", "sine", "small"]))]
        lo = rnd.choice([0, 1, 5, m // 3])
        f, w = rnd.choice(FW)
        ops = [make("d", t, rows)]
        for f, w in (("natural", w), ("fast", "fractional")):
            g = given(min_lag=lo * step, max_lag=(m - 1) * step, lag_resolution=(m // 5) * step)
            ops.append(auto("d", g, f=f, w=w, classic="exact", step=exactdec(step), ctol=ctol(rows), judge=False))
        out.append(dict(id=ids("long"), ops=ops))
    for n in range(2 * size):                      # decimal steps: lags are numbers of steps up to rounding
        m = rnd.choice([2, 3, 5, 9, 20, 60])
        step = rnd.choice([0.1, 0.3, 0.7, 1 / 3, 0.0208333, 1e-3, 0.01, 1 / 24, 30 / 86400, 86400.1, 13 / 86400])
        t0 = rnd.choice([0.0, 0.0, 5.1, -7.3, 2457000.25, 58849.1])
        t = [t0 + step * i for i in range(m)]
        rows = [values(rnd, m, rnd.choice(["float", "small", "sine", "offset"])) for _ in range(rnd.choice([1, 2]))]
        a = rnd.choice([None, step, step * 5])
        tt = 1e-14 * (max(abs(t[0]), abs(t[-1])) + 2 * m * step)
        ops = [make("d", t, rows)]
        for f, w in rnd.sample(FW, 2):
            g = steps_given(m, step, a)
            g["lag_resolution"] = rnd.choice([[step], [2 * step], [step / 2]])
            g["min_lag"] = g["min_lag"] or [-step * m]
            many = int(grid_size(t, g)) + 1
            least = a or max((t[m // 2] - t[0]) / 1.0, step)
            kw = dict(classic="near", step=exactdec(step), judge=False, probe=60, ltol=tol(tt * (many + 4)),
                      ctol=tol(max(float(ctol(rows)), 40 * m * tt * (many + 4) / min(least, step))))
            if float(kw["ctol"]) < 1e-3:
                ops.append(auto("d", g, f=f, w=w, **kw))
        out.append(dict(id=ids("decimal"), ops=ops))
    return out


def c23(rnd, size, tl, files):
    ids = Ids("C23")
    out = []

    def rep(calls, rounds, warm=40):
        return dict(op="repeat", calls=calls, rounds=rounds, warm=warm)

    def sets(c, g):
        return [dict(op="set", c=c, name=x, v=g[x][0]) for x in NAMES if g[x]]

    def bed(m, k=1, lags=3, errs=False):
        t, unit = exact_times(rnd, m, style="free", unit=1.0)
        rows = [values(rnd, m, "float") for _ in range(k)]
        g = given(min_lag=0.0, max_lag=lags - 1.0, lag_resolution=1.0, alpha=2.0)
        made = make("d", t, rows, [[1.0] * m for _ in rows] if errs else [], flat=False)
        return t, rows, g, made, [made, dict(op="corr", c="c", h="d")] + sets("c", g)
    for m, rounds in ((2000, 60), (4, 9000)):
        for f, w in FW:
            t, rows, g, made, ops = bed(m, rnd.choice([1, 1, 3]))
            out.append(dict(id=ids("configured"), ops=ops + [rep([dict(op="cfg", c="c", f=f, w=w)], rounds),
                                                            read("c", f, w, probe=3, ctol=ctol(rows))]))
        t, rows, g, made, ops = bed(m, 2)
        out.append(dict(id=ids("standard"), ops=ops + [rep([dict(op="std", c="c")], rounds), read("c", probe=3, ctol=ctol(rows))]))
        t, rows, g, made, ops = bed(m)
        out.append(dict(id=ids("made"), ops=ops + [rep([made], min(rounds, 1000))]))
        out.append(dict(id=ids("correlators"), ops=ops + [rep([dict(op="corr", c="e", h="d")] * 5, rounds)]))
        out.append(dict(id=ids("call"), ops=ops + [rep([auto("d", g, c="c", f=rnd.choice(["natural", "fast"]))], min(rounds, 600))]))
        for f, w in rnd.sample(FW, 2):
            chain = staged("c", "i", 1.0, f, w, 1)
            out.append(dict(id=ids("stages"), ops=ops + [chain[0]] + [rep(chain, rounds), dict(op="clear", c="c")]))
    # refusals keep nothing either
    for m, rounds in ((3000, 60), (3, 5000)):
        t, rows, g, made, ops = bed(m)
        bad = [make("b", t, [rows[0], rows[0][1:]], flat=False), make("b", t[::-1], rows, flat=False), make("b", [], [], flat=False),
               make("b", t, rows, [rows[0][1:]], flat=False), make("b", t[:-1], rows, flat=False)]
        for x in bad:
            out.append(dict(id=ids("refused"), ops=ops + [rep([x], rounds)]))
        for x in (auto("d", given(lag_resolution=-1.0), w="gaussian"), auto("d", g, w="none", f="fast"),
                  auto("d", given(lag_resolution=-1.0)), auto("d", given(max_lag=INF))):
            out.append(dict(id=ids("refused"), ops=ops + [rep([made, x], min(rounds, 1000))]))
        out.append(dict(id=ids("refused"), ops=ops + [
            rep([dict(op="cfg", c="c", f="natural", w="none"), dict(op="cfg", c="c", f="none", w="gaussian")], rounds)]))
        for z in (0.0, -1.0, NAN):
            out.append(dict(id=ids("refused"), ops=ops + [dict(op="set", c="c", name="lag_resolution", v=z), rep(
                [dict(op="std", c="c"), dict(op="cfg", c="c", f="fast", w="gaussian")], rounds)]))
        h = auto("d", given(lag_resolution=-1.0))
        out.append(dict(id=ids("refused"), ops=ops + [rep([h, auto("d", g, w="none", f="fast")], min(rounds, 600))]))
        out.append(dict(id=ids("refused"), ops=ops + [dict(op="iter", i="i", k=1.0, c="c")] + [
            rep([dict(op="find", i="i", c="c", ctol="1")], rounds)]))
    # storage that was grown and cut, many times
    for far in (20000, 300):
        t, rows, g, made, ops = bed(4)
        chain = staged("c", "i", 1.0, "natural", "fractional", 1)
        out.append(dict(id=ids("storage"), ops=ops + chain + [
            rep([dict(op="store", i="i", c="c", pos=far), dict(op="trim", c="c", n=3)], 300),
            rep([dict(op="store", i="i", c="c", pos=far), dict(op="clear", c="c")], 300),
            dict(op="clear", c="c")]))
    # many lags, then few
    t, rows, g, made, ops = bed(3, 2)
    many = sets("c", given(min_lag=-1500.0, max_lag=1500.0))
    few = sets("c", given(min_lag=0.0, max_lag=0.0))
    out.append(dict(id=ids("sizes"), ops=ops + [rep(many + [dict(op="std", c="c")] + few + [dict(op="cfg", c="c", f="fast", w="gaussian")], 60)]))
    # parameters, functions, files
    t, rows, g, made, ops = bed(50)
    out.append(dict(id=ids("parameters"), ops=ops + [rep([dict(op="params", c="c"), dict(op="wfun", c="c", d=[0.5])] + sets("c", g), 2000)]))
    lines = [(False, [x, y, 1.0]) for x, y in zip(t, rows[0])]
    good = file_ops(rnd, files, "f", lines)[0]
    gone = dict(good, path=files.folder + "/none", exists=False, text="", lines=[])
    gone.pop("text")
    empty = file_ops(rnd, files, "f", [(True, ["x"])])[0]
    for x in (good, gone, empty):
        out.append(dict(id=ids("files"), ops=ops + [rep([x], 300)]))
    # one of everything, drawn
    for _ in range(size):
        t, rows, g, made, ops = bed(rnd.choice([2, 5, 30, 400]), rnd.choice([1, 1, 2]))
        calls = []
        for _ in range(rnd.randint(2, 6)):
            f, w = rnd.choice(FW)
            calls += rnd.choice([[dict(op="std", c="c")], [dict(op="cfg", c="c", f=f, w=w)], [made], [dict(op="corr", c="e", h="d")],
                                 staged("c", "i", float(rnd.randint(-2, 4)), f, w, rnd.randint(0, 4)), [dict(op="clear", c="c")],
                                 [dict(op="trim", c="c", n=rnd.randint(0, 3))], [auto("d", g, f=f, w=w)],
                                 [dict(op="cfg", c="c", f="none", w=w)]])
        ops += [dict(op="iter", i="i", k=1.0, c="c"), dict(op="corr", c="e", h="d")]
        out.append(dict(id=ids("mixed"), ops=ops + [rep(calls, 250)]))
    return out

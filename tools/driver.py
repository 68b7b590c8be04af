"""Replays scenarios on the real library and records what it did (runs under the library's interpreter).

usage: driver.py PACKAGE_DIR SCENARIOS START OUT
Scenarios: one JSON object per line; those from line START on are run.  OUT gets one line per event:
  ["begin", scenario index], ["op", n], ["ev", {...}], ["end"]
flushed as it happens, so that the supervisor knows which call was in progress if the process dies.
Every number is recorded as the exact decimal of the double.
"""
import gc
import json
import math
import os
import sys
from decimal import Decimal


def dec(x):
    if isinstance(x, bool) or x is None or isinstance(x, (str, list, tuple, dict)):
        return "bad:%s" % (type(x).__name__,)
    try:
        x = float(x) if not isinstance(x, int) else x
    except Exception:
        return "bad:" + type(x).__name__
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        if x == 0.0:
            return "0"
    return str(Decimal(x))


def seq(x):
    try:
        return [dec(v) for v in x]
    except TypeError:
        return ["bad:" + type(x).__name__]


def rows(x):
    try:
        return [seq(r) for r in x]
    except TypeError:
        return [["bad:" + type(x).__name__]]


def enc(x):
    """an argument as recorded: numbers to decimals, structure kept"""
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return dec(x)


def spoil(x):
    """what a caller may do with a list it owns"""
    try:
        for r in x:
            if isinstance(r, list):
                spoil(r)
        for i in range(len(x)):
            if isinstance(x[i], (int, float)):
                x[i] = -12345.678
        x.append(9.75)
        if len(x) > 2:
            del x[0]
    except Exception:
        pass


NUMERIC = ("t", "rows", "errs", "k", "v", "d")
PRIVATE = ("types", "via", "as", "mutate", "path", "flat", "noise", "pos_args", "omit", "reads", "text", "slot", "at")


class Machine:
    def __init__(self):
        import sacf
        import sacf.correlator
        import sacf.datastructure
        self.sacf, self.C, self.D = sacf, sacf.correlator, sacf.datastructure
        self.ds, self.co, self.it = {}, {}, {}
        self.junk = []
        self.slots = {}

    def data_of(self, h):
        d = self.ds[h]
        if not isinstance(d, self.sacf.SACF):
            return d
        held = [v for v in vars(d).values() if isinstance(v, self.D.DataStructure)]
        return getattr(d, "data", None) or held[0]

    def shaped(self, x, kind, deep):
        if kind == "tuple":
            return tuple(tuple(r) for r in x) if deep else tuple(x)
        if kind == "numpy":
            import numpy
            return numpy.array(x, dtype=float)
        if kind == "numpyrows":
            import numpy
            return [numpy.array(r, dtype=float) for r in x] if deep else numpy.array(x, dtype=float)
        if kind == "int":
            whole = lambda v: int(v) if v == int(v) else v
            return [[whole(v) for v in r] for r in x] if deep else [whole(v) for v in x]
        if kind == "same" and deep:
            return [list(x[0])] * len(x) if x else []
        return [list(r) for r in x] if deep else list(x)

    def refill(self, name, new):
        old = self.slots.setdefault(name, [])
        if old and new and isinstance(old[0], list) and isinstance(new[0], list):
            rows = [r for r in old if isinstance(r, list)]
            for i, r in enumerate(new):
                if i < len(rows):
                    rows[i][:] = r
                    new[i] = rows[i]
        old[:] = new
        return old

    def number(self, v, o):
        """the same number as another type"""
        kind = o.get("types")
        if kind == "int" and v == v and abs(v) < 2.0 ** 53 and v == int(v):
            return int(v)
        if kind == "numpy":
            import numpy
            return numpy.float64(v)
        if kind == "fraction" and v == v and abs(v) != math.inf:
            import fractions
            return fractions.Fraction(v)
        return v

    # each call returns the observation
    def op_data(self, o):
        kind = o.get("as", "list")
        t = self.shaped(o["t"], kind, False)
        if o.get("flat"):
            x = self.shaped(o["rows"][0] if o["rows"] else [], kind, False)
            e = self.shaped(o["errs"][0] if o["errs"] else [], kind, False)
        else:
            x = self.shaped(o["rows"], kind, True)
            e = self.shaped(o["errs"], kind, True)
        if o.get("slot") and kind == "list":        # the caller's own lists, used again with other content
            t, x, e = (self.refill(o["slot"] + n, v) for n, v in (("t", t), ("x", x), ("e", e)))
        give = bool(o["errs"]) or o.get("omit") is False
        if o.get("via") == "ds":
            made = self.D.DataStructure(t, x, e) if give else self.D.DataStructure(t, x)
        elif o.get("via") == "kw":
            made = self.sacf.SACF(errors=e, values=x, timeseries=t) if give else \
                self.sacf.SACF(values=x, timeseries=t)
        else:
            made = self.sacf.SACF(t, x, e) if give else self.sacf.SACF(t, x)
        self.ds[o["h"]] = made
        if o.get("mutate"):
            for a in (t, x, e):
                if isinstance(a, list):
                    spoil(a)
                elif hasattr(a, "fill"):
                    a.fill(-777.0)
        return {}

    def op_file(self, o):
        self.ds[o["h"]] = (self.D.DataStructure(o["path"]) if o.get("via") == "ds"
                           else self.sacf.SACF(filename=o["path"]))
        return {}

    def op_summary(self, o):
        d = self.data_of(o["h"])

        def look():
            raw = dict(time=d.timeseries(), values=d.data(), errors=d.errors(),
                       reltime=d.normalised_timeseries(), mean=d.mean_data, centred=d.normalised_data())
            obs = dict(time=seq(raw["time"]), values=rows(raw["values"]), errors=rows(raw["errors"]),
                       reltime=seq(raw["reltime"]), mean=seq(raw["mean"]), centred=rows(raw["centred"]),
                       median=dec(d.median_time), last=dec(d.max_time),
                       n=dec(d.N_datasets), m=dec(d.M_datapoints))
            return raw, obs
        raw, obs = look()
        if o.get("mutate"):
            for v in raw.values():
                spoil(v)
            return look()[1]
        return obs

    def op_drop(self, o):
        del self.ds[o["h"]]
        gc.collect()
        gc.collect()
        return {}

    def op_corr(self, o):
        self.co[o["c"]] = self.C.Correlator(self.data_of(o["h"]))
        return {}

    def op_params(self, o):
        c = self.co[o["c"]]
        return dict(max=dec(c.max_lag), min=dec(c.min_lag), res=dec(c.lag_resolution), alpha=dec(c.alpha),
                    n=dec(c.N_datasets), m=dec(c.M_datapoints))

    def op_set(self, o):
        c = self.co[o["c"]]
        if o.get("via") == "setup":
            self.sacf.SACF.set_up_correlation(c, **{o["name"]: self.number(o["v"], o)})
        else:
            setattr(c, o["name"], self.number(o["v"], o))
        return {}

    def op_std(self, o):
        self.co[o["c"]].calculateStandardCorrelation()
        return {}

    def op_cfg(self, o):
        c = self.co[o["c"]]
        find = getattr(self.sacf.SACF, "find_correlation", None)
        if find is None:
            raise NotImplementedError("find_correlation")
        find(c, o["f"], o["w"])
        return {}

    def result(self, lags, values, probe, mutate, again):
        obs = dict(lags=seq(lags), counts=[len(r) for r in values], probe=[], values=[])
        n = len(obs["lags"])
        obs["probe"] = positions(probe, n)
        if probe > 0:
            zeros = [i for i, x in enumerate(obs["lags"]) if x == "0"]
            obs["probe"] = sorted(set(obs["probe"] + zeros[:3]))
        obs["values"] = [[dec(r[i]) if i < len(r) else "bad:short" for i in obs["probe"]] for r in values]
        if mutate:
            spoil(lags)
            spoil(values)
            if again is not None:
                return self.result(again.lag_timeseries(), again.correlations(), probe, False, None)
        return obs

    def op_read(self, o):
        c = self.co[o["c"]]
        return self.result(c.lag_timeseries(), c.correlations(), o["probe"], o.get("mutate"), c)

    def op_auto(self, o):
        s = self.ds[o["h"]]
        if not isinstance(s, self.sacf.SACF):
            inner = s
            s = self.sacf.SACF.__new__(self.sacf.SACF)
            s.data = inner
        g = {k: self.number(v[0], o) for k, v in o["given"].items() if v}
        kw = dict(g)
        if not (o["f"] == "natural" and o.get("omit")):
            kw["selection_function"] = o["f"]
        if not (o["w"] == "fractional" and o.get("omit")):
            kw["weight_function"] = o["w"]
        if o["c"]:
            kw["return_correlator"] = True
        if o.get("pos_args"):
            args = [kw.pop(n, None) for n in ("min_lag", "max_lag", "lag_resolution", "alpha")]
            res = s.autocorrelation(*args, **kw)
        else:
            res = s.autocorrelation(**kw)
        if not isinstance(res, tuple) or len(res) != (3 if o["c"] else 2):
            return dict(lags=[], counts=[], probe=[], values=[], shape="bad:%s" % type(res).__name__)
        if o["c"]:
            self.co[o["c"]] = res[2]
        lags, values = res[0], res[1]
        nested = len(values) > 0 and all(isinstance(v, (list, tuple)) for v in values)
        obs = self.result(lags, values if nested else [values], o["probe"], o.get("mutate"), None)
        obs["shape"] = "nested" if nested else "flat"
        return obs

    def op_clear(self, o):
        self.co[o["c"]].clearCorrelation()
        return {}

    def op_trim(self, o):
        self.co[o["c"]].cleanCorrelationData(o["n"])
        return {}

    def op_iter(self, o):
        self.it[o["i"]] = self.C.CorrelationIterator(o["k"], self.co[o["c"]].N_datasets)
        return {}

    def op_pairs(self, o):
        c = self.co[o["c"]]
        it = self.C.CorrelationIterator(o["k"], c.N_datasets)
        (c.naturalSelectionFunctionIdx if o["f"] == "natural" else c.fastSelectionFunctionIdx)(it)
        sel = [int(v) if abs(v) < 10 ** 8 else -99 for v in it.selection_indices]
        c.deltaT(it)
        return dict(sel=sel, delta=seq(it.delta_t))

    def op_select(self, o):
        it = self.it[o["i"]]
        c = self.co[o["c"]]
        (c.naturalSelectionFunctionIdx if o["f"] == "natural" else c.fastSelectionFunctionIdx)(it)
        return dict(sel=[int(v) if abs(v) < 10 ** 8 else -99 for v in it.selection_indices], k=dec(it.k))

    def op_delta(self, o):
        it = self.it[o["i"]]
        self.co[o["c"]].deltaT(it)
        return dict(delta=seq(it.delta_t))

    def op_weigh(self, o):
        it = self.it[o["i"]]
        c = self.co[o["c"]]
        {"fractional": c.getFractionWeights, "fractional_squared": c.getFractionSquaredWeights,
         "gaussian": c.getGaussianWeights}[o["w"]](it)
        return dict(weights=seq(it.weights))

    def op_find(self, o):
        it = self.it[o["i"]]
        self.co[o["c"]].findCorrelation(it)
        return dict(corr=seq(it.correlation))

    def op_setk(self, o):
        self.it[o["i"]].k = o["k"]
        return {}

    def op_peek(self, o):
        it = self.it[o["i"]]
        return dict(k=dec(it.k), corr=seq(it.correlation), weights=seq(it.weights),
                    sel=[int(v) if abs(v) < 10 ** 8 else -99 for v in it.selection_indices])

    def op_dropc(self, o):
        del self.co[o["c"]]
        gc.collect()
        gc.collect()
        return {}

    def op_store(self, o):
        self.co[o["c"]].addCorrelationData(self.it[o["i"]], o["pos"])
        return {}

    def op_misuse(self, o):
        """calls that make no sense: they may be refused in any way, and must not do anything"""
        c = self.co.get(o.get("c"))
        what, _, how = o["what"].partition(" ")
        none = {"none": None, "word": "lag", "number": 3.5, "list": [1.0], "data": self.sacf.SACF([0.0, 1.0], [1.0, 2.0]).data}
        if what == "corr":
            self.C.Correlator(none[how])
        elif what == "store":
            c.addCorrelationData(none[how], 0)
        elif what == "data":
            self.D.DataStructure(none[how], none[how])
        elif what == "errors":
            self.D.DataStructure([0.0, 1.0], [1.0, 2.0], none[how])
        elif what == "sacf":
            self.sacf.SACF(none[how], none[how], none[how])
        elif what == "file":
            self.D.DataStructure(none[how])
        elif what == "width":
            self.C.CorrelationIterator(1.0, {"negative": -1, "nan": math.nan, "part": 2.5, "inf": math.inf, "zero": 0}[how])
        elif what == "weight":
            c.gaussianWeightFunction({"nan": math.nan, "inf": math.inf, "negative": -1.0}[how])
        else:
            getattr(c, what)(none[how])
        return {}

    def op_wfun(self, o):
        c = self.co[o["c"]]
        fn = {"fractional": c.fractionWeightFunction, "fractional_squared": c.fractionSquaredWeightFunction,
              "gaussian": c.gaussianWeightFunction}[o["w"]]
        return dict(w=[dec(fn(x)) for x in o["d"]])

    def op_views(self, o):
        c = self.co[o["c"]]
        a, b = c.normalised_timeseries(), c.values()
        obs = dict(reltime=seq(a), values=rows(b))
        if o.get("mutate"):
            spoil(a)
            spoil(b)
            return dict(reltime=seq(c.normalised_timeseries()), values=rows(c.values()))
        return obs

    def plainly(self, e):
        """a call without looking at what it left"""
        op = e["op"]
        if op == "data":
            self.ds[e["h"]] = self.D.DataStructure(e["t"], e["rows"], e["errs"]) if e["errs"] else \
                self.D.DataStructure(e["t"], e["rows"])
        elif op == "auto":
            s = self.sacf.SACF.__new__(self.sacf.SACF)
            s.data = self.data_of(e["h"])
            r = s.autocorrelation(selection_function=e["f"], weight_function=e["w"], return_correlator=bool(e["c"]),
                                  **{k: v[0] for k, v in e["given"].items() if v})
            if e["c"]:
                self.co[e["c"]] = r[2]
        elif op == "select":
            c = self.co[e["c"]]
            (c.naturalSelectionFunctionIdx if e["f"] == "natural" else c.fastSelectionFunctionIdx)(self.it[e["i"]])
        elif op == "delta":
            self.co[e["c"]].deltaT(self.it[e["i"]])
        elif op == "weigh":
            c = self.co[e["c"]]
            {"fractional": c.getFractionWeights, "fractional_squared": c.getFractionSquaredWeights,
             "gaussian": c.getGaussianWeights}[e["w"]](self.it[e["i"]])
        elif op == "find":
            self.co[e["c"]].findCorrelation(self.it[e["i"]])
        elif op == "params":
            c = self.co[e["c"]]
            c.max_lag, c.alpha, c.N_datasets
        elif op == "wfun":
            self.co[e["c"]].gaussianWeightFunction(e["d"][0])
        else:
            getattr(self, "op_" + op)(e)

    def op_repeat(self, o):
        """the same calls again and again: how many bytes more are in use afterwards"""
        def once():
            for e in o["calls"]:
                try:
                    self.plainly(e)
                except Exception:
                    pass
        if in_use() is None:
            for _ in range(3):
                once()
            return dict(growth="0")
        for _ in range(o["warm"]):
            once()
        least = None
        for _ in range(5):          # what the interpreter itself needs, it needs only at first
            before = in_use()
            for _ in range(o["rounds"]):
                once()
            grown = in_use() - before
            least = grown if least is None else min(least, grown)
            if least < 32768:
                break
        return dict(growth=str(least))

    def op_noise(self, o):
        """other objects come and go: freed memory is reused"""
        import random
        r = random.Random(o["noise"])
        for _ in range(40):
            n = r.randint(1, 40)
            t = [float(i) for i in range(n)]
            d = self.D.DataStructure(t, [[r.random() * 1e3 for _ in t] for _ in range(r.randint(1, 3))])
            c = self.C.Correlator(d)
            if r.random() < 0.3:
                c.calculateStandardCorrelation()
            if r.random() < 0.5:
                self.junk.append((d, c))
        if len(self.junk) > 60:
            del self.junk[:40]
        gc.collect()
        return {}


def in_use():
    """bytes held by the allocator, once what is unreachable has been collected"""
    import ctypes
    if "asan" in os.environ.get("LD_PRELOAD", ""):      # which has an allocator of its own
        return None
    names = "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()

    class Info(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in names]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Info
    for _ in range(3):
        gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def positions(probe, n):
    """which results are looked at: all of a short list, else the ends, the middle and a seeded choice"""
    if probe <= 0 or n == 0:
        return []
    if n <= probe:
        return list(range(n))
    pick = {0, n - 1, n // 2, (n - 1) // 2}
    x = n * 7919 + 13
    while len(pick) < probe:
        x = (x * 1103515245 + 12345) % (1 << 31)
        pick.add(x % n)
    return sorted(pick)


def named(m, x):
    """an exception's name, if it is the class a client can catch under that name"""
    n = type(x).__name__
    ours = getattr(m.D, n, None)
    return n if ours is None or type(x) is ours else "other " + n


def event(o):
    e = {}
    for k, v in o.items():
        if k in PRIVATE:
            continue
        if k == "given":
            e[k] = {n: [dec(x) for x in v.get(n, [])] for n in ("max_lag", "min_lag", "lag_resolution", "alpha")}
        elif k == "calls":
            e[k] = [event(x) for x in v]
        elif k in NUMERIC:
            e[k] = enc(v)
        elif k == "probe":
            continue
        else:
            e[k] = v
    return e


def main():
    pkg, scen, start, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    sys.path.insert(0, pkg)
    f = open(out, "a")

    def put(x):
        f.write(json.dumps(x) + "\n")
        f.flush()
    import sacf
    if not sacf.__file__.startswith(pkg):
        raise SystemExit("wrong package: " + sacf.__file__)
    for n, line in enumerate(open(scen)):
        if n < start:
            continue
        s = json.loads(line)
        put(["begin", n])
        m = Machine()
        for o in s["ops"]:
            if "at" in o:           # a lag of the correlator's result
                try:
                    o["k"] = m.co[o["c"]].lag_timeseries()[o["at"]]
                except Exception:
                    o["k"] = 0.0
            e = event(o)
            put(["op", e])
            try:
                need = []
                if o["op"] in ("summary", "drop", "corr", "auto") and o["h"] not in m.ds:
                    need.append("h")
                if o["op"] not in ("wfun",) and "c" in o and o["op"] not in ("corr", "auto") and o["c"] not in m.co:
                    need.append("c")
                if o["op"] == "wfun" and o["c"] not in m.co:
                    need.append("c")
                if o["op"] in ("select", "delta", "weigh", "find", "store", "setk", "peek") and o["i"] not in m.it:
                    need.append("i")
                if need:
                    put(["ret", "skipped", {}])
                    continue
                obs = getattr(m, "op_" + o["op"])(o)
                put(["ret", "ok", obs])
            except Exception as x:
                put(["ret", named(m, x), {}])
        put(["end"])
    put(["done"])


if __name__ == "__main__":
    main()

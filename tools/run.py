#!/usr/bin/env python3
"""The check of one property:  run.py ID            (VERIF_SEED, VERIF_TIER from the environment)
                               run.py ID --replay FILE

1. builds the library from /repo's working tree (release and with memory checking);
2. model-checks the parts of the specification the property rests on; their behaviours become call sequences;
3. replays those, and seeded ones in regimes beyond the models' bounds, on the library;
4. has TLC decide, for every recorded call, whether the answer is the one the specification allows;
5. reports what was rejected under the clauses that state this property.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import sys
import time

import gen
import lib
import models

EVID = os.path.join(lib.VERIF, "evidence")
KNOWN = os.path.join(lib.VERIF, "known_findings.txt")

# property: (clauses that state it, models it rests on, size of the seeded part: quick, thorough)
# crash, hang and a wrong outcome of a call count for every property: no answer is no right answer.
ANY = ("crash", "hang", "*.outcome")
PROPS = {
    "C01": (("lags.*",), ("grid", "machine"), 14, 60),
    "C02": (("pairs.*", "value.pairing"), ("pairs",), 16, 70),
    "C03": (("value*", "pairs.delta", "weights", "lags.count"), ("value", "pairs"), 18, 80),
    "C04": (("weight*", ), ("weights",), 25, 150),
    "C05": (("value.zerolag", "lags.zero"), ("value",), 25, 150),
    "C06": (("value.agree",), ("pairs", "value"), 14, 70),
    "C07": (("value.agree", "lags.count"), ("value",), 18, 80),
    "C08": (("value*", "lags.*"), ("machine", "grid"), 12, 60),
    "C09": (("param.*", "lags.grid", "value"), ("grid", "pairs"), 14, 60),
    "C10": (("data.*", "views.*"), ("shape",), 25, 120),
    "C11": (("data.mean", "data.centred", "value*"), ("value",), 20, 90),
    "C12": (("data.*",), ("shape",), 25, 150),
    "C13": (("data.*", "value.agree"), ("file",), 25, 120),
    "C14": (("value*", "lags.*", "param.*", "data.*", "views.*", "iter.*"), ("param", "life", "machine"), 10, 40),
    "C15": (("value*", "lags.*", "param.*", "data.*", "views.*", "pairs.*", "iter.*"), ("life",), 12, 50),
    "C16": (("pairs.*", "value.pairing"), ("pairs",), 16, 70),
    "C17": (("lags.grid", "lags.count", "value*", "iter.*"), ("store",), 12, 50),
    "C19": (("value*", "lags.count"), ("value", "machine"), 14, 60),
    "C20": (("param.*", "data.*", "lags.count", "value.consistent", "lags.grid", "value"), ("misuse", "steps"), 12, 60),
    "C21": (("iter.*", "value", "lags.grid"), ("store", "misuse"), 12, 60),
    "C22": (("value*", "lags.count"), ("value",), 14, 60),
    "C23": (("memory.*",), ("machine", "life", "store"), 14, 60),
    "C18": (("auto.*", "value*", "param.*", "lags.*"), ("grid",), 12, 60),
}


def relevant(pid, clauses):
    def hit(c):
        for p in PROPS[pid][0] + ANY:
            if p == c or (p.endswith("*") and c.startswith(p[:-1])) or (p.startswith("*") and c.endswith(p[1:])):
                return True
        return False
    return [c for c in clauses if hit(c)]


def scenarios(pid, seed, tier, tl):
    rnd = random.Random("%s/%s/%s" % (pid, seed, tier))
    size = PROPS[pid][2 if tier == "quick" else 3]
    fam = getattr(gen, pid.lower())
    if pid in ("C13", "C23"):
        return gen.finish(fam(rnd, size, tl, gen.Files(os.path.join(lib.SCRATCH, "files"))))
    return gen.finish(fam(rnd, size, tl))


# ---------------------------------------------------------------- does the judge still judge?

FAR = "-12345678912345678912345678912345678912345.5"      # no time in any scenario, whatever its unit


def corruptions(traces, most=40):
    """recorded traces with one answer altered, each of which the specification must reject"""
    out = []
    seen = {}
    for t in traces:
        loose = t["id"].startswith(("C20", "C21")) or any(e["op"] == "setk" for e in t["ops"])
        for n, e in enumerate(t["ops"]):
            if e.get("ret") != "ok":
                continue
            o, op = e.get("obs", {}), e["op"]
            if loose and op in ("select", "weigh"):      # possibly out of order: any answer is allowed
                continue
            alt = None
            if op in ("read", "auto") and e.get("judge") and o.get("lags"):
                alt = dict(o, lags=[FAR] + o["lags"][1:])
            elif op in ("read", "auto") and o.get("lags"):
                alt = dict(o, counts=[x + 1 for x in o["counts"]])
            elif op == "summary":
                alt = dict(o, reltime=[FAR] + o["reltime"][1:])
            elif op == "params":
                alt = dict(o, max=FAR)
            elif op in ("pairs", "select"):
                alt = dict(o, sel=o["sel"] + [0] * (len(o["sel"]) + 1))
            elif op == "repeat":
                alt = dict(o, growth="1E+9")
            elif op in ("weigh", "wfun"):
                k = "weights" if op == "weigh" else "w"
                alt = dict(o, **{k: o[k] + ["0.5"]})
            elif op == "data":
                c = dict(t, ops=t["ops"][:n] + [dict(e, ret="ValueError", obs={})])
                if seen.setdefault(op, 0) < 4:
                    seen[op] += 1
                    out.append((c, n + 1))
                continue
            if alt is None or seen.setdefault(op, 0) >= 4 or len(out) >= most:
                continue
            seen[op] += 1
            out.append((dict(t, ops=t["ops"][:n] + [dict(e, obs=alt)]), n + 1))
            break
    return [(dict(c, id="altered-%d" % i), n) for i, (c, n) in enumerate(out)]


def same(a, b):
    strip = lambda t: [{k: v for k, v in e.items() if k != "_note"} for e in t["ops"]]
    return strip(a) == strip(b)


def clip(x, n=700):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + " ..."


def known_entries(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "open":
                    out.append(k)
    return out


def is_known(known, scen, event, clauses):
    """a listed finding names a call (its operation and the arguments that matter) and the clauses it breaks"""
    for k in known:
        if k["op"] == event["op"] and set(clauses) <= set(k["clauses"]) and \
                all(event.get(a) == v for a, v in k.get("args", {}).items()):
            return k
    return None


def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--replay" in sys.argv:
        return replay_file(pid, sys.argv[sys.argv.index("--replay") + 1])
    os.makedirs(EVID, exist_ok=True)
    budget = 800 if tier == "quick" else 6 * 3600
    with cf.ThreadPoolExecutor(12) as ex:
        fb = {v: ex.submit(lib.build, v) for v in lib.VARIANTS}
        lib.java_classes()
        fm = {m: ex.submit(models.run_model, m, tier == "thorough", budget) for m in PROPS[pid][1]}
        if pid == "C11" and "pairs" not in fm:
            pass
        tl, mstats = {}, []
        for m, f in fm.items():
            lst, st = f.result()
            mstats.append(st)
            if lst is not None:
                tl[models.MODELS[m][2]] = lst
        pkg = {v: f.result() for v, f in fb.items()}
    t1 = time.time()
    scen = scenarios(pid, seed, tier, tl)
    by_id = {s["id"]: s for s in scen}
    if len(by_id) != len(scen):
        raise lib.Broken("scenario names repeat")
    rel = lib.replay(pkg["release"], "release", scen)
    t2 = time.time()
    hard = lib.replay(pkg["hardened"], "hardened", scen)
    t3 = time.time()
    missing = [s for s in by_id if s not in rel or s not in hard]
    early = any(e.get("ret") in ("crash", "hang") for r in (rel, hard) for t in r.values() for e in t["ops"])
    if missing and not early:
        raise lib.Broken("%d scenarios were not run" % len(missing))
    # what the checked build did differently (or died of) is judged as well
    extra = [dict(t, id=i + "@hardened") for i, t in hard.items() if i not in rel or not same(t, rel[i])]
    alter = corruptions([rel[i] for i in sorted(rel)][:: max(1, len(rel) // 60)])
    todo = list(rel.values()) + extra
    fails, gen_n, dist_n = lib.validate(todo + [c for c, _ in alter], timeout=budget)
    t4 = time.time()
    caught = {(f[0], f[1]) for f in fails if f[0].startswith("altered-")}
    fails = [f for f in fails if not f[0].startswith("altered-")]
    dull = [c["id"] for c, n in alter if (c["id"], n) not in caught]
    if dull and not fails:
        raise lib.Broken("altered answers were accepted: %s" % json.dumps([c for c, n in alter if c["id"] in dull])[:3000])

    recorded = {t["id"]: t for t in todo}
    known = known_entries(pid)
    mine, others, noted = [], {}, []
    for tid, n, op, clauses in sorted(fails):
        hit = relevant(pid, clauses)
        e = recorded[tid]["ops"][n - 1]
        if not hit:
            for c in clauses:
                others[c] = others.get(c, 0) + 1
            continue
        k = is_known(known, by_id[tid.split("@")[0]], e, hit)
        if k:
            noted.append(k)
        else:
            mine.append((tid, n, op, hit, e))
    for k in {json.dumps(k, sort_keys=True) for k in noted}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    reports = []
    if mine:
        folder = os.path.join(EVID, "replay")
        os.makedirs(folder, exist_ok=True)
        for f in os.listdir(folder):
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(folder, f))
        kinds = {}
        for x in mine:
            kinds.setdefault((x[2], tuple(x[3])), []).append(x)
        for (op, hit), xs in sorted(kinds.items(), key=lambda a: -len(a[1]))[:5]:
            tid, n, op, hit, e = min(xs, key=lambda x: (x[1], len(json.dumps(recorded[x[0]]))))
            s = by_id[tid.split("@")[0]]
            path = os.path.join(folder, "%s-%d.json" % (pid, len(reports) + 1))
            with open(path, "w") as f:
                json.dump({"property": pid, "clauses": hit, "call": n, "times": len(xs),
                           "variant": "hardened" if "@" in tid else "release",
                           "recorded": e, "scenario": dict(s, ops=s["ops"][:n])}, f, indent=1)
            reports.append(path)
            print("%s: call %d (%s) of %s breaks %s; %d such calls%s" % (
                pid, n, op, tid, ", ".join(hit), len(xs), "; " + e["_note"] if e.get("_note") else ""))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    # ------------------------------------------------------------ evidence
    per_op, rets, judged = {}, {}, 0
    distinct = set()
    for t in rel.values():
        for e in t["ops"]:
            per_op[e["op"]] = per_op.get(e["op"], 0) + 1
            rets[e["ret"]] = rets.get(e["ret"], 0) + 1
            judged += e["ret"] != "skipped"
        distinct.add(hashlib.sha1(json.dumps([[x for x in sorted(e.items()) if x[0] not in ("obs", "ret", "_note")]
                                              for e in t["ops"]]).encode()).hexdigest())
    kinds = {}
    for s in scen:
        k = re.sub(r"^[^-]*-|\d+$", "", s["id"])
        kinds[k] = kinds.get(k, 0) + 1
    pick = [scen[i] for i in sorted({0, len(scen) // 2, len(scen) - 1})]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=sum(m["distinct"] for m in mstats) + dist_n, transitions=sum(m["generated"] for m in mstats) + gen_n,
        traces_validated_against_impl=len(rel),
        distinct_traces=len(distinct), calls_judged=judged, calls=per_op, outcomes=rets, scenario_kinds=kinds,
        from_models=sum(v for k, v in kinds.items() if k in ("model", "param", "life", "store")),
        models=mstats, validation=dict(states=dist_n, generated=gen_n),
        checked_build=dict(traces=len(hard), different_from_release=len(extra)),
        altered_answers=dict(tried=len(alter), rejected=len(alter) - len(dull)),
        other_clauses_failed=others,
        samples=[dict(id=s["id"], calls=[clip(o) for o in s["ops"][:6]],
                      recorded=[clip({k: e.get(k) for k in ("op", "ret", "obs")}) for e in rel.get(s["id"], {"ops": []})["ops"][:6]])
                 for s in pick],
        seconds=dict(build_and_models=round(t1 - t0, 1), release=round(t2 - t1, 1), checked=round(t3 - t2, 1),
                     validation=round(t4 - t3, 1))),
        assumptions=["sample times strictly increase; finite values apart from not-a-number for missing ones",
                     "lags on a boundary are judged only where double arithmetic in time is exact",
                     "numerical agreement within the tolerance recorded with each call"],
        wall_s=round(time.time() - t0, 1), violations=len(mine))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d traces, %d calls judged, %d states, %.0f s%s" % (
        pid, len(rel), judged, ev["coverage"]["states"], ev["wall_s"],
        "; clauses of other properties failed: %s" % others if others else ""))
    return 1 if mine else 0


def replay_file(pid, path):
    x = json.load(open(path))
    s = x["scenario"]
    folder = os.path.join(lib.SCRATCH, "files")
    os.makedirs(folder, exist_ok=True)
    for i, o in enumerate(s["ops"]):
        if o.get("text") is not None:
            o["path"] = os.path.join(folder, "r%d" % i)
            open(o["path"], "wb").write(o["text"].encode())
    pkg = lib.build(x["variant"])
    traces = lib.replay(pkg, x["variant"], [s])
    fails, _, _ = lib.validate(traces.values())
    bad = False
    for tid, n, op, clauses in sorted(fails):
        e = traces[tid]["ops"][n - 1]
        print("call %d (%s): %s" % (n, op, ", ".join(clauses)))
        print(json.dumps(e)[:3000])
        bad = bad or bool(relevant(pid, clauses))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        code = main()
    except lib.Broken as e:
        print("BROKEN: %s" % e)
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)

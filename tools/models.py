"""The model-checking side: every model of the specification, what it shows and what it hands to the replay."""
import json
import os
import re
import shutil
import tempfile

import lib

# name: (module, cfg, key of what it generates, workers, {constant: thorough value}, what it establishes)
MODELS = {
    "grid": ("MCGrid.tla", "MCGrid.cfg", "grid", 4, {"R": "9", "MaxRes": "7"},
             "the lag grid: exactly the requested lags and zero, once each, in order; parameters independent"),
    "pairs": ("MCPairs.tla", "MCPairs.cfg", "pairs", 4, {"MaxT": "9"},
              "natural and fast selection on every strictly increasing integer sampling, at every lag; defaults"),
    "value": ("MCValue.tla", "MCValue.cfg", "value", 4, {"MaxT": "6"},
              "the correlation sum: zero lag, offset/scale freedom, missing values, bounds"),
    "weights": ("MCWeights.tla", "MCWeights.cfg", None, 2, {"MaxR": "400"},
                "the weight laws on exact rationals and certified exponentials"),
    "machine": ("Machine.tla", "Machine.cfg", None, 4, {"MaxT": "4", "R": "4"},
                "the calculation loop step by step: stays in bounds, keeps the store aligned, terminates, refines Session"),
    "store": ("MCSession.tla", "MCSession_store.cfg", "store", 1, {"Depth": "6"},
              "every history of storing, trimming, clearing on a correlator"),
    "param": ("MCSession.tla", "MCSession_param.cfg", "param", 1, {"Depth": "4"},
              "every history of setting parameters and calculating on correlators sharing data"),
    "life": ("MCSession.tla", "MCSession_life.cfg", "life", 1, {"Depth": "5"},
             "every history of making, dropping and using data objects and correlators"),
    "misuse": ("MCSession.tla", "MCSession_misuse.cfg", "misuse", 1, {"Depth": "7"},
               "every history of stages in any order, on correlators of different data: only the iterator suffers"),
    "steps": ("MCSteps.tla", "MCSteps.cfg", None, 4, {"P": "4"},
              "stepping in a small floating-point format: with the guard every step gets on, so every calculation ends"),
    "shape": ("MCShape.tla", "MCShape.cfg", "shape", 4, {"MaxLen": "5"},
              "acceptance of every combination of lengths of times, values and errors"),
    "file": ("MCFile.tla", "MCFile.cfg", "file", 4, {"MaxLines": "4"},
             "every sequence of line kinds: samples, errors and refusals"),
}

GEN = re.compile(r'^"GEN (.*)"$')


def run_model(name, thorough=False, timeout=600):
    """(generated list or None, statistics)"""
    module, cfg, key, workers, deeper, what = MODELS[name]
    consts = deeper if thorough else {}
    rc, text = lib.tlc(module, cfg, env={"GEN": "1" if key else "0"}, workers=workers, timeout=timeout,
                       consts=consts, heap="6g" if thorough else "3g")
    if rc != 0 or "No error has been found" not in text:
        cut = "\n".join(x for x in text.splitlines() if not x.startswith('"GEN'))
        raise lib.Broken("model %s ended with %s:\n%s" % (name, rc, cut[-3000:]))
    gen, distinct = lib.counts(text)
    out = None
    if key:
        out, seen = [], set()
        lines = []
        for line in text.splitlines():
            m = GEN.match(line)
            if m and m.group(1) not in seen:
                seen.add(m.group(1))
                lines.append(m.group(1))
        if workers > 1:
            lines.sort()
        for s in lines:
            out.append(json.loads(json.loads('"%s"' % s)))
        if not out:
            raise lib.Broken("model %s handed over nothing" % name)
    return out, dict(model=module, config=cfg, constants=consts, generated=gen, distinct=distinct, shows=what,
                     handed_over=len(out) if out is not None else 0)

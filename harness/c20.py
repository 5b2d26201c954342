"""C20: repeatability and independence of history."""
from harness import sig, catalog, heap
from harness.heap import execute, base, weight  # NOQA
from harness.c19 import history, LAY

TRACE = "TraceHeap"
WHAT = ("histories of runs, plots and calls on several objects enumerated by TLC, replayed on every representation and "
        "function: each result is compared with that of the same call elsewhere in the history, and every result already "
        "returned is re-read after every call")
ASSUMES = ["results are compared bit for bit through SHA-1"]
DESIGN = [("LifeDesign", "LifeDesign.cfg")]
SHARDS = 7


def SCENARIOS(tier, seed):
    return [("LifeDesign", "LifeGen.cfg", ())]


def cases(tier, rng, scen):
    det = catalog.names()
    for j, s in enumerate(scen):
        if tier == "quick" and j % 4:
            continue
        ops = history(s, j, rng, det, "plain")
        # the same arguments on fresh objects, before and after the history
        runs = [o for o in ops if o["do"] == "run"]
        fresh = []
        for o in runs[:1]:
            fresh = [dict(o, o=9)]
        tail = [dict(o, o=8) for o in runs[-1:]] + runs[:1]
        tail += [dict(o, share=True) for o in ops if o["do"] == "call"][:1]
        ops = fresh + ops + tail
        if tier == "quick":
            seen = 0
            keep = []
            for o in ops:
                if o["do"] == "plot":
                    seen += 1
                    if seen > 2:
                        continue
                keep.append(o)
            ops = keep
        yield {"label": "history", "ops": ops}
    # every call twice, with others in between, on different layouts of the same values
    for v in range(2 if tier == "quick" else 10):
        for j, name in enumerate(det):
            mid = [det[int(t)] for t in rng.integers(0, len(det), 2)]
            yield {"label": "call-again", "ops": [{"do": "call", "name": name, "v": v, "lay": "plain"}]
                   + [{"do": "call", "name": m, "v": v + 1, "lay": "plain"} for m in mid]
                   + [{"do": "call", "name": name, "v": v + 2, "lay": "plain"},
                      {"do": "call", "name": name, "v": v, "lay": "readonly"},
                      {"do": "call", "name": name, "v": v + 2, "lay": "plain", "share": True}]}
            yield {"label": "overwritten", "ops": [{"do": "call", "name": name, "v": v, "lay": "plain"},
                                                   {"do": "scribble", "o": None},
                                                   {"do": "call", "name": name, "v": v, "lay": "plain"},
                                                   {"do": "call", "name": name, "v": v + 1, "lay": "plain"}]}
    # the same object run again and again, with another object of its class between
    for kind in list(catalog.OBJ) + list(catalog.AFF):
        for v in range(4 if tier == "quick" else 8):
            r1 = {"do": "run", "o": 1, "kind": kind, "v": v, "lay": "plain", "p": 0}
            r2 = {"do": "run", "o": 2, "kind": kind, "v": v + 1, "lay": "plain", "p": 0}
            p1 = dict(r1, do="plot")
            yield {"label": "rerun", "ops": [r1, r1, r2, dict(r1, o=3), r1, r2, p1, r1]}
            # a caller who overwrites everything it got from one object, then builds another
            yield {"label": "overwritten", "ops": [r1, r1, r2, dict(r1, do="scribble"), dict(r1, o=4), r2]}

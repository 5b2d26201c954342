"""C19: nothing the caller passes in is modified."""
from harness import sig, catalog, heap
from harness.heap import execute, base, weight  # NOQA

TRACE = "TraceHeap"
WHAT = ("every catalogued library call, and histories of object runs and plots enumerated by TLC, with every array handed in "
        "(whole backing buffer, read-only, strided and shared ones included) and every array returned re-read after each call "
        "and compared with the specification's heap")
ASSUMES = ["array contents are compared through SHA-1"]
DESIGN = [("LifeDesign", "LifeDesign.cfg")]
SHARDS = 7
LAY = ["readonly", "plain", "strided", "view"]


def SCENARIOS(tier, seed):
    return [("LifeDesign", "LifeGen.cfg", ())]


def history(s, j, rng, det, lay):
    kinds = list(catalog.OBJ) * 2 + list(catalog.AFF)
    k1 = kinds[j % len(kinds)]
    k2 = kinds[(j * 7 + 3) % len(kinds)]
    v1, v2 = int(rng.integers(0, 8)), int(rng.integers(0, 8))
    ops = []
    for t, (what, o) in enumerate(s["ops"]):
        if what == "call":
            ops.append({"do": "call", "name": det[(5 * j + 11 * t) % len(det)], "v": int(rng.integers(0, 4)), "lay": lay})
            if rng.random() < 0.3:
                ops += [{"do": "scribble", "o": None}, dict(ops[-1])]
        else:
            ops.append({"do": what, "o": o, "kind": k1 if o == 1 else k2, "v": v1 if o == 1 else v2, "lay": lay,
                        "p": int(rng.integers(0, 40))})
    return ops


def cases(tier, rng, scen):
    det = catalog.names()
    for v in range(4 if tier == "quick" else 16):
        for j, name in enumerate(det):
            lay = LAY[(j + v) % 4] if v else "readonly"
            other = det[int(rng.integers(0, len(det)))]
            yield {"label": "call", "ops": [{"do": "call", "name": name, "v": v, "lay": lay},
                                            {"do": "call", "name": other, "v": v, "lay": "plain"},
                                            {"do": "call", "name": name, "v": v, "lay": lay, "share": True}]}
    for j, s in enumerate(scen):
        if tier == "quick" and j % 4:
            continue
        if not any(w in ("plot", "scribble") for w, _ in s["ops"]):
            continue
        yield {"label": "history", "ops": history(s, j, rng, det, LAY[(j // 4) % 4])}
    j = 0
    for kind in list(catalog.OBJ) + list(catalog.AFF):
        for p in range(len(heap.PLOTS)):
            j += 1
            yield {"label": "plot", "ops": [{"do": "run", "o": 1, "kind": kind, "v": j % 6, "lay": LAY[j % 4], "p": 0},
                                            {"do": "plot", "o": 1, "kind": kind, "v": j % 6, "lay": LAY[j % 4], "p": p},
                                            {"do": "run", "o": 1, "kind": kind, "v": j % 6, "lay": LAY[j % 4], "p": 0}]}

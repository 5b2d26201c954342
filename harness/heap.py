"""Histories of calls recorded as a heap of arrays (C19, C20)."""
import hashlib
import numpy as np
from harness import catalog

PLOTS = [{}, {"kind": "contour"}, {"kind": "surf"}, {"show_tf": True}, {"kind": "wireframe"}, {"threshold": 0.2},
         {"kind": "contour", "show_tf": True}, {"ax": True}]


class Ids(dict):
    def of(self, a):
        a = np.asarray(a)
        h = hashlib.sha1(str((a.dtype.kind, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
        return self.setdefault(h.hexdigest(), len(self) + 1)


def leaves(r):
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in leaves(y)]
    return [r]


def layout(a, how):
    """same values, another memory layout; the whole backing buffer is watched"""
    a = np.asarray(a)
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b, b
    if how == "strided" and a.ndim == 1:
        b = np.zeros(2 * a.size + 1, dtype=a.dtype)
        b[1::2][:a.size] = a
        return b[1::2][:a.size], b
    if how == "view" and a.ndim == 1:
        b = np.zeros(a.size + 4, dtype=a.dtype)
        b[2:2 + a.size] = a
        return b[2:2 + a.size], b
    b = a.copy()
    return b, b


def base(case):
    return {"name": [], "ins": [], "outs": [], "live": [], "res": [], "err": [], "wrote": []}


def execute(case):
    import matplotlib.pyplot as plt
    ids = Ids()
    tracked = []
    rec = base(case)
    objs = {}
    shared = {}
    inputs = []                   # arrays of the caller
    owner = {}                    # heap position -> step or object that returned it
    for op in case["ops"]:
        ins, err, out = [], "", None
        what = op["do"]
        if what == "scribble":
            rec_scribble(op, rec, ids, tracked, inputs, owner, objs)
            continue
        if what == "call":
            arrs, call = catalog.build(op["name"], op["v"])
            d = {}
            for key in sorted(arrs):
                if op.get("share") and (op["name"], op["v"], key) in shared:
                    d[key] = shared[(op["name"], op["v"], key)]
                    continue
                d[key], buf = layout(arrs[key], op["lay"])
                shared[(op["name"], op["v"], key)] = d[key]
                ins.append(buf)
            name = "%s/%d" % (op["name"], op["v"])
            run = lambda: call(d)
        else:
            kind, v = op["kind"], op["v"]
            name = "run:%s/%d" % (kind, v) if what == "run" else ""
            key = (op["o"], kind, v)
            if key not in objs:
                x, arrs, sc = catalog.object_args(kind, v)
                if op.get("sig") is not None:
                    pass
                d = {}
                for nm, a in sorted(dict(arrs, signal=x).items()):
                    d[nm], buf = layout(a, op["lay"])
                    ins.append(buf)
                s = d.pop("signal")
                objs[key] = catalog.obj_class(kind)(s, **dict(d, **sc))
            ob = objs[key]
            if what == "run":
                run = ob.run
            else:
                kw = dict(PLOTS[op["p"] % len(PLOTS)])
                if kw.pop("ax", False):
                    kw["ax"] = plt.subplots()[1]
                run = lambda: (ob.plot(show=False, **kw), None)[1]
        pre = [ids.of(b) for b in ins]
        tracked += ins
        inputs += ins
        try:
            out = run()
        except Exception as e:                      # not accepted
            err = "%s: %s" % (type(e).__name__, e)
        if what == "plot":
            plt.close("all")
        outs = [np.asarray(x) for x in leaves(out) if x is not None]
        outs = [o for o in outs if o.dtype.kind in "biufc"]
        post = [ids.of(o) for o in outs]
        rec["ins"].append(pre)
        rec["outs"].append(post)
        who = ("object",) + key if what != "call" else ("step", len(rec["name"]))
        owner.update({len(tracked) + j: who for j in range(len(outs))})
        tracked += outs
        rec["live"].append([ids.of(b) for b in tracked])
        rec["name"].append(name)
        rec["res"].append(0 if what == "plot" or err else ids.setdefault(str(post), len(ids) + 1))
        rec["err"].append(err[:120])
        rec["wrote"].append([])
    return rec


def overwrite(a):
    """put other values in every cell the caller may write"""
    if isinstance(a, np.ndarray) and a.flags.writeable and a.size and a.dtype.kind in "iufc":
        a[...] = 3
        return True
    return False


def rec_scribble(op, rec, ids, tracked, inputs, owner, objs):
    """the caller overwrites the arrays it reaches through an object, or through the last function call's result"""
    mine = lambda a: isinstance(a, np.ndarray) and not any(np.shares_memory(a, b) for b in inputs)
    if op.get("o") is not None:
        key = (op["o"], op["kind"], op["v"])
        who = ("object",) + key
        ob = objs.pop(key, None)
        own = [] if ob is None else [getattr(ob, n, None) for n in ("tfr", "fwindow", "ts", "timestamps", "freqs")]
    else:
        steps = [w for w in owner.values() if w[0] == "step"]
        who = steps[-1] if steps else None
        own = []
    at = [p for p, w in owner.items() if w == who]
    own = [a for a in own + [tracked[p] for p in at] if mine(a)]
    for a in own:
        overwrite(a)
    rec["wrote"].append([[p + 1, ids.of(tracked[p])] for p in at])
    rec["ins"].append([])
    rec["outs"].append([])
    rec["live"].append([ids.of(b) for b in tracked])
    rec["name"].append("")
    rec["res"].append(0)
    rec["err"].append("")


def weight(case):
    w = 2
    for op in case["ops"]:
        w += 40 if op["do"] == "plot" else 10
        if op.get("kind") in catalog.AFF or op.get("name", "").startswith("run:") and op["name"][4:] in catalog.AFF:
            w += 40
    return w

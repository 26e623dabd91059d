"""helpers shared by the checks"""
import numpy as np


def frames(h, lens, dim, dt, obs=("x", "v", "a"), pre="", box=None, shifted=True):
    """one trajectory per length, all entries symbolic"""
    out, raw = [], []
    for i, n in enumerate(lens):
        d = {k: h.real("%s%s%d" % (pre, k, i), (n, dim), **({"box": box} if box else {})) for k in obs}
        raw.append(d)
        out.append(h.vb.xframe(d["x"], h.time(n, dt, h.real("%st0_%d" % (pre, i)) if shifted else 0.0), **{k: d[k] for k in obs if k != "x"}))
    return out, raw


def tr(a, *dims):
    """values of a DataArray in the given axis order"""
    return a.transpose(*dims).to_numpy() if hasattr(a, "transpose") and hasattr(a, "dims") else a


def estimator(h, data, model, basis, trunc, **kw):
    return h.vb.Estimator_gle(data, getattr(h.vb, model), basis, trunc=trunc, saveall=False, verbose=False, **kw)

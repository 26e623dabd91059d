"""C07 correlation functions"""
import numpy as np
from vsym.runner import case


def corr(a, b, n):
    """<a(t) b(t+n)> over the T-n available pairs"""
    T = len(a)
    return sum(a[t] * b[t + n] for t in range(T - n)) / (T - n)


def _auto(T, d, trunc):
    def f(h):
        a = h.real("a", (d, T))
        keep = a.copy()
        L = T if trunc is None else min(T, trunc)
        kw = {} if trunc is None else {"trunc": trunc}
        want = np.array([[[corr(a[j], a[i], n) for n in range(L)] for j in range(d)] for i in range(d)])
        for lab, fn in (("fft", h.vb.correlation_fft), ("direct", h.vb.correlation_direct)):
            r = fn(a, **kw)
            h.shape("%s autocorrelation length" % lab, r, (d, d, L))
            h.eq("%s autocorrelation" % lab, r, want)
        h.eq("data untouched", a, keep)
    return f


for T, d, tr in ((4, 1, None), (3, 2, None), (5, 2, 3), (4, 2, 9), (6, 1, 1), (2, 3, 2), (7, 1, None), (5, 1, 5), (5, 2, 4), (3, 2, 3), (9, 1, 9), (9, 1, 7), (6, 1, 5)):
    case("C07", "autocorrelation T=%d d=%d trunc=%s" % (T, d, tr), bounds="%d time points, %d components, truncation %s" % (T, d, tr))(_auto(T, d, tr))
case("C07", "autocorrelation T=12 d=3", tier="thorough", bounds="12 time points, 3 components")(_auto(12, 3, None))
case("C07", "autocorrelation T=17 d=2", tier="thorough", bounds="17 time points, 2 components")(_auto(17, 2, 9))


def _cross(T, d, e, trunc):
    def f(h):
        a, b = h.real("a", (d, T)), h.real("b", (e, T))
        ka, kb = a.copy(), b.copy()
        L = T if trunc is None else min(T, trunc)
        kw = {} if trunc is None else {"trunc": trunc}
        want = np.array([[[corr(a[i], b[j], n) for n in range(L)] for j in range(e)] for i in range(d)])
        for lab, fn in (("fft", h.vb.correlation_fft), ("direct", h.vb.correlation_direct)):
            r = fn(a[:, None, :], b if lab == "direct" else b[None, :, :], **kw)
            h.shape("%s cross correlation length" % lab, r, (d, e, L))
            h.eq("%s cross correlation" % lab, r, want)
        h.eq("first data untouched", a, ka)
        h.eq("second data untouched", b, kb)
    return f


for T, d, e, tr in ((4, 2, 1, None), (5, 1, 2, 3), (3, 2, 2, 7), (8, 1, 1, 5), (5, 1, 1, 5), (9, 1, 1, 8), (3, 1, 2, 2)):
    case("C07", "cross correlation T=%d %dx%d trunc=%s" % (T, d, e, tr), bounds="%d time points, %d x %d components, truncation %s" % (T, d, e, tr))(_cross(T, d, e, tr))
case("C07", "cross correlation T=13 2x3", tier="thorough", bounds="13 time points, 2 x 3 components")(_cross(13, 2, 3, None))


def _one(T, trunc):
    def f(h):
        C = h.mod("correlation")
        a, b = h.real("a", T), h.real("b", T)
        ka, kb = a.copy(), b.copy()
        L = T if trunc is None else min(T, trunc)
        kw = {} if trunc is None else {"trunc": trunc}
        for lab, fn in (("fft", C.correlation_1D), ("direct", C.correlation_direct_1D)):
            r = fn(a, **kw)
            h.shape("%s 1D autocorrelation length" % lab, r, (L,))
            h.eq("%s 1D autocorrelation" % lab, r, np.array([corr(a, a, n) for n in range(L)]))
            r = fn(a, b, **kw)
            h.shape("%s 1D cross correlation length" % lab, r, (L,))
            h.eq("%s 1D cross correlation" % lab, r, np.array([corr(a, b, n) for n in range(L)]))
        h.eq("first data untouched", a, ka)
        h.eq("second data untouched", b, kb)
    return f


for T, tr in ((2, None), (3, None), (4, 2), (5, None), (6, 10), (8, 3), (5, 5), (9, 8), (3, 2)):
    case("C07", "one component T=%d trunc=%s" % (T, tr), bounds="%d time points, truncation %s" % (T, tr))(_one(T, tr))
case("C07", "one component T=16", tier="thorough", bounds="16 time points")(_one(16, None))


def _laws(h):
    """consequences a user relies on: lag zero is the second moment, shifting one argument, linearity"""
    T = 5
    a, b = h.real("a", (1, T)), h.real("b", (1, T))
    s = h.real("s")
    for lab, fn in (("fft", h.vb.correlation_fft), ("direct", h.vb.correlation_direct)):
        c = fn(a)
        h.eq("%s lag zero is the mean square" % lab, c[0, 0, 0], (a[0] ** 2).sum() / T)
        h.eq("%s bilinear" % lab, fn(a + s * b)[0, 0], c[0, 0] + s * fn(a[:, None], b[None])[0, 0] + s * fn(b[:, None], a[None])[0, 0] + s**2 * fn(b)[0, 0])


case("C07", "bilinearity", bounds="5 time points, scalar factor symbolic")(_laws)

"""Abstract numeric values: interval x symbolic term x NaN status, for scalars and arrays.

``A`` abstracts a numpy array or number.  ``lo``/``hi`` bound every element over all
concrete executions, ``nan`` is 0 (never NaN), 1 (maybe) or 2 (always), ``t`` holds one
term per element (absent for large arrays).  Views share the underlying buffers so that
in-place updates alias exactly as numpy views do.
"""
import math
import numpy as np
from . import terms as tm
from .terms import T

np.seterr(all="ignore")
TERM_LIMIT = 400
INF = math.inf


class Undecided(Exception):
    """The abstraction is too coarse here; no verdict for this cell."""


class Unsupported(Exception):
    """A construct outside the analysed fragment; no verdict."""


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, msg="", site=None, value=None):
        super().__init__(msg)
        self.exc = exc          # native class or ClassV
        self.msg = msg
        self.site = site
        self.value = value

    @property
    def name(self):
        return self.exc.__name__ if isinstance(self.exc, type) else self.exc.name

    def __str__(self):
        return "%s: %s" % (self.name, self.msg)


def _tarr(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if fill is not None:
        a[...] = fill
    return a


class A:
    __slots__ = ("lo", "hi", "nan", "t", "dtype", "scalar", "py", "rnd", "__weakref__")

    def __init__(self, lo, hi, nan=None, t=None, dtype="f8", scalar=None, py=False, rnd=None):
        self.lo = lo
        self.hi = hi
        self.nan = np.zeros(lo.shape, np.int8) if nan is None else nan
        self.t = t
        self.dtype = dtype
        self.scalar = (lo.shape == ()) if scalar is None else scalar
        self.py = py
        self.rnd = bool(rnd)

    @property
    def shape(self):
        return self.lo.shape

    @property
    def ndim(self):
        return self.lo.ndim

    @property
    def size(self):
        return self.lo.size

    def __len__(self):
        return self.lo.shape[0]

    def view(self):
        return A(self.lo, self.hi, self.nan, self.t, self.dtype, self.scalar, self.py, self.rnd)

    def copy(self):
        return A(self.lo.copy(), self.hi.copy(), self.nan.copy(),
                 None if self.t is None else self.t.copy(), self.dtype, self.scalar, self.py, self.rnd)

    def as_array(self):
        """0-d mutable array semantics (a Quantity's payload)."""
        a = self.copy()
        a.scalar = False
        a.py = False
        return a

    def as_scalar(self):
        a = self.copy()
        a.scalar = True
        return a

    def __repr__(self):
        if self.shape == ():
            s = "[%.9g, %.9g]" % (float(self.lo), float(self.hi))
            if float(self.lo) == float(self.hi):
                s = "%.9g" % float(self.lo)
            if int(self.nan):
                s += " nan" if int(self.nan) == 2 else " nan?"
            return "<%s%s>" % (s, "" if self.dtype == "f8" else " " + self.dtype)
        return "<A%s %s %s..%s>" % (self.shape, self.dtype, np.array2string(self.lo, threshold=8, precision=6),
                                  np.array2string(self.hi, threshold=8, precision=6))

    def is_point(self):
        return bool(np.all(self.lo == self.hi) and not self.nan.any())

    def term(self):
        return None if self.t is None else self.t[()]


NAN_T = None


def from_np(arr, dtype=None, scalar=None, py=False):
    arr = np.asarray(arr)
    if arr.dtype == object:
        raise Unsupported("object array")
    if dtype is None:
        dtype = {"b": "b1", "i": "i8", "u": "i8", "f": "f8"}.get(arr.dtype.kind, "f8")
        if arr.dtype == np.float32:
            dtype = "f4"
    f = arr.astype(float)
    nan = np.where(np.isnan(f), 2, 0).astype(np.int8)
    lo = np.where(np.isnan(f), -INF, f)
    hi = np.where(np.isnan(f), INF, f)
    t = None
    if f.size <= TERM_LIMIT:
        t = _tarr(f.shape)
        flat = t.reshape(-1)
        for i, v in enumerate(f.reshape(-1)):
            flat[i] = tm.const(v)
    return A(np.array(lo), np.array(hi), nan, t, dtype, scalar, py)


def num(v):
    """Concrete python number -> A."""
    if isinstance(v, A):
        return v
    if isinstance(v, bool):
        return from_np(np.array(v), "b1", True, True)
    if isinstance(v, int):
        return from_np(np.array(float(v)), "i8", True, True)
    if isinstance(v, float):
        return from_np(np.array(v), "f8", True, True)
    if isinstance(v, (np.generic, np.ndarray)):
        return from_np(v)
    raise Unsupported("number expected, got %s" % type(v).__name__)


def var(name, lo, hi, py=False, dtype="f8"):
    t = _tarr(())
    t[()] = tm.var(name)
    return A(np.array(float(lo)), np.array(float(hi)), None, t, dtype, True, py)


def bool_const(b):
    return from_np(np.array(bool(b)), "b1", True)


def result_dtype(a, b, div=False):
    ka, kb = a.dtype, b.dtype
    if div:
        ka = "f8" if ka in ("i8", "b1") else ka
        kb = "f8" if kb in ("i8", "b1") else kb
    if ka == kb:
        return "i8" if ka == "b1" else ka
    # numpy-1.x value based promotion: 0-d float does not upcast float array
    fa, fb = ka[0] == "f", kb[0] == "f"
    if fa and fb:
        if a.shape != () and b.shape == ():
            return ka
        if b.shape != () and a.shape == ():
            return kb
        return "f4" if "f8" not in (ka, kb) else "f8"
    if fa or fb:
        x = ka if fa else kb
        if x in ("f4", "f2"):
            other = b if fa else a
            return x if other.shape == () else "f8"
        return x
    return "i8"


def _bshape(a, b):
    try:
        return np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise PyRaise(ValueError, "operands could not be broadcast together with shapes %s %s" % (a.shape, b.shape))


def _bt(x, shape):
    return np.broadcast_to(x, shape)


def _terms2(a, b, shape, f):
    n = int(np.prod(shape)) if shape else 1
    if a.t is None or b.t is None or n > TERM_LIMIT:
        return None
    out = _tarr(shape)
    if shape == ():
        out[()] = f(a.t[()], b.t[()])
        return out
    ta = np.broadcast_to(a.t, shape).reshape(-1)
    tb = np.broadcast_to(b.t, shape).reshape(-1)
    o = out.reshape(-1)
    for i in range(n):
        o[i] = f(ta[i], tb[i])
    return out


def _terms1(a, f):
    if a.t is None:
        return None
    out = _tarr(a.shape)
    if a.shape == ():
        out[()] = f(a.t[()])
        return out
    o = out.reshape(-1)
    for i, x in enumerate(a.t.reshape(-1)):
        o[i] = f(x)
    return out


def _finish(lo, hi, nan, t, dtype, scalar, py, rnd=True):
    """Sharpen bounds by what is known about the terms; clean NaN bounds."""
    lo = np.asarray(lo, float)
    hi = np.asarray(hi, float)
    bad = np.isnan(lo)
    if bad.any():
        lo = np.where(bad, -INF, lo)
    bad = np.isnan(hi)
    if bad.any():
        hi = np.where(bad, INF, hi)
    if dtype == "f4":
        w = 6.0e-8
        l2 = lo - np.abs(lo) * w
        h2 = hi + np.abs(hi) * w
        lo = np.where(np.isfinite(lo), l2, lo)
        hi = np.where(np.isfinite(hi), h2, hi)
    elif dtype == "f2":
        # half precision: rounding is monotone, so rounding both ends encloses; the exact terms no longer hold
        with np.errstate(over="ignore"):
            lo, hi, t = lo.astype(np.float16).astype(float), hi.astype(np.float16).astype(float), None
    if t is not None:
        if lo.shape == ():
            x = t[()]
            if x.op == "c":
                c = x.args[0]
                if math.isfinite(c):
                    lo = np.array(c)
                    hi = np.array(c)
            else:
                iv = x.iv
                l, h = float(lo), float(hi)
                if iv is not None:
                    l2, h2 = max(l, iv[0]), min(h, iv[1])
                    if l2 <= h2:
                        lo, hi = np.array(l2), np.array(h2)
                        l, h = l2, h2
                x.iv = (l, h)
        else:
            lof = lo.reshape(-1).copy()
            hif = hi.reshape(-1).copy()
            for i, x in enumerate(t.reshape(-1)):
                if x.op == "c":
                    c = x.args[0]
                    if math.isfinite(c):
                        lof[i] = hif[i] = c
                else:
                    iv = x.iv
                    l, h = lof[i], hif[i]
                    if iv is not None:
                        l2, h2 = max(l, iv[0]), min(h, iv[1])
                        if l2 <= h2:
                            lof[i], hif[i] = l2, h2
                            l, h = l2, h2
                    x.iv = (float(l), float(h))
            lo = lof.reshape(lo.shape)
            hi = hif.reshape(hi.shape)
    return A(np.array(lo), np.array(hi), np.array(nan, np.int8), t, dtype, scalar, py, rnd)


def clear_iv():
    for t in tm._table.values():
        t.iv = None


def _nanc(a, b, shape):
    na, nb = _bt(a.nan, shape), _bt(b.nan, shape)
    return np.maximum(na, nb)


def _sc(a, b, shape):
    return shape == ()


def _py(a, b):
    return a.py and b.py


def add(a, b):
    s = _bshape(a, b)
    lo = a.lo + b.lo
    hi = a.hi + b.hi
    nan = _nanc(a, b, s)
    bad = np.isnan(lo) | np.isnan(hi)
    if bad.any():
        nan = np.where(bad, np.maximum(nan, np.where((a.lo == a.hi) & (b.lo == b.hi), 2, 1)), nan)
    t = _terms2(a, b, s, tm.add)
    return _finish(lo, hi, nan, t, result_dtype(a, b), s == (), _py(a, b))


def sub(a, b):
    s = _bshape(a, b)
    lo = a.lo - b.hi
    hi = a.hi - b.lo
    nan = _nanc(a, b, s)
    bad = np.isnan(lo) | np.isnan(hi)
    if bad.any():
        nan = np.where(bad, np.maximum(nan, np.where((a.lo == a.hi) & (b.lo == b.hi), 2, 1)), nan)
    t = _terms2(a, b, s, tm.sub)
    if t is not None and bad.any():
        t = None
    return _finish(lo, hi, nan, t, result_dtype(a, b), s == (), _py(a, b))


def _mul_bounds(al, ah, bl, bh):
    def m(x, y):
        r = x * y
        return np.where((x == 0) | (y == 0), 0.0, r)
    p = [m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)]
    return np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3])), \
        np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))


def _same_terms(a, b):
    if a.t is None or b.t is None or a.shape != b.shape:
        return False
    if a.shape == ():
        return a.t[()] is b.t[()]
    return all(x is y for x, y in zip(a.t.reshape(-1), b.t.reshape(-1)))


def mul(a, b):
    s = _bshape(a, b)
    if _same_terms(a, b):
        return int_pow(a, 2)
    lo, hi = _mul_bounds(a.lo, a.hi, b.lo, b.hi)
    nan = _nanc(a, b, s)
    az = (a.lo <= 0) & (a.hi >= 0)
    bz = (b.lo <= 0) & (b.hi >= 0)
    ai = np.isinf(a.lo) | np.isinf(a.hi)
    bi = np.isinf(b.lo) | np.isinf(b.hi)
    bad = (az & bi) | (bz & ai)
    if np.any(bad):
        defi = ((a.lo == 0) & (a.hi == 0) & np.isinf(b.lo) & (b.lo == b.hi)) | \
               ((b.lo == 0) & (b.hi == 0) & np.isinf(a.lo) & (a.lo == a.hi))
        nan = np.maximum(nan, np.where(defi, 2, np.where(bad, 1, 0)))
    if a.dtype == "b1" and b.dtype == "b1":
        dt = "b1"
    else:
        dt = result_dtype(a, b)
    t = _terms2(a, b, s, tm.mul)
    return _finish(lo, hi, nan, t, dt, s == (), _py(a, b))


def div(a, b):
    s = _bshape(a, b)
    al, ah, bl, bh = (_bt(x, s) for x in (a.lo, a.hi, b.lo, b.hi))
    nan = _nanc(a, b, s)
    pos = bl > 0
    negv = bh < 0
    ok = pos | negv
    q = [al / bl, al / bh, ah / bl, ah / bh]
    q = [np.where(np.isnan(x), 0.0, x) for x in q]   # inf/inf handled below
    lo = np.minimum(np.minimum(q[0], q[1]), np.minimum(q[2], q[3]))
    hi = np.maximum(np.maximum(q[0], q[1]), np.maximum(q[2], q[3]))
    infinf = (np.isinf(al) | np.isinf(ah)) & (np.isinf(bl) | np.isinf(bh))
    if infinf.any():
        defi = infinf & (al == ah) & (bl == bh)
        nan = np.where(infinf, np.maximum(nan, np.where(defi, 2, 1)), nan)
        lo = np.where(infinf, np.where(al >= 0, np.where(bl >= 0, 0, -INF), -INF), lo)
        hi = np.where(infinf, np.where((al >= 0) & (bl >= 0), INF, INF), hi)
    if not ok.all():
        # divisor may be zero
        bz = (bl == 0) & (bh == 0)
        az = (al == 0) & (ah == 0)
        maybez = ~ok
        # one-sided zero divisor [0, bh]
        onep = maybez & (bl == 0) & (bh > 0)
        onen = maybez & (bh == 0) & (bl < 0)
        lo2 = np.full(s, -INF)
        hi2 = np.full(s, INF)
        lo2 = np.where(onep, np.where(al > 0, al / np.where(bh == 0, 1, bh), np.where(ah < 0, -INF, -INF)), lo2)
        lo2 = np.where(onep & (al == 0), 0.0, lo2)
        hi2 = np.where(onep & (ah < 0), ah / np.where(bh == 0, 1, bh), hi2)
        hi2 = np.where(onep & (ah == 0), 0.0, hi2)
        # exact zero divisor
        lo2 = np.where(bz & (al > 0), INF, lo2)
        hi2 = np.where(bz & (ah < 0), -INF, hi2)
        lo = np.where(maybez, lo2, lo)
        hi = np.where(maybez, hi2, hi)
        azm = (al <= 0) & (ah >= 0)
        nan = np.where(maybez & azm, np.maximum(nan, np.where(bz & az, 2, 1)), nan)
    t = _terms2(a, b, s, tm.div)
    if t is not None and not ok.all():
        o = t.reshape(-1)
        okf = ok.reshape(-1)
        ta = _bt(a.t, s).reshape(-1)
        tb = _bt(b.t, s).reshape(-1)
        for i in range(o.size):
            if not okf[i]:
                o[i] = tm.opaque("/0", ta[i], tb[i])
    return _finish(lo, hi, nan, t, result_dtype(a, b, True), s == (), _py(a, b), a.rnd or b.rnd)


def neg(a):
    t = _terms1(a, tm.neg)
    return _finish(-a.hi, -a.lo, a.nan, t, "i8" if a.dtype == "b1" else a.dtype, a.shape == (), a.py, a.rnd)


def int_pow(a, n):
    if n == 0:
        return from_np(np.ones(a.shape), a.dtype, a.shape == (), a.py)
    l, h = a.lo, a.hi
    if n < 0:
        return div(num(1.0 if a.dtype != "f4" else 1.0), int_pow(a, -n))
    pl, ph = l ** n, h ** n
    if n % 2 == 0:
        lo = np.where((l <= 0) & (h >= 0), 0.0, np.minimum(pl, ph))
        hi = np.maximum(pl, ph)
    else:
        lo, hi = pl, ph
    t = _terms1(a, lambda x: tm.power(x, tm.const(n)))
    return _finish(lo, hi, a.nan, t, "i8" if a.dtype == "b1" else a.dtype, a.shape == (), a.py)


def power(a, b):
    s = _bshape(a, b)
    if b.is_point() and b.shape == ():
        e = float(b.lo)
        if abs(e) < 64 and e == int(e):
            r = int_pow(a, int(e))
            if b.dtype[0] == "f" and r.dtype == "i8":
                r.dtype = "f8"
            return r
        if e == 0.5:
            r = sqrt(a)
            r.py = _py(a, b)
            return r
    al, ah, bl, bh = (_bt(x, s) for x in (a.lo, a.hi, b.lo, b.hi))
    nan = _nanc(a, b, s)
    pts = (al == ah) & (bl == bh)
    q = [np.power(np.maximum(al, 0), bl), np.power(np.maximum(al, 0), bh),
         np.power(np.maximum(ah, 0), bl), np.power(np.maximum(ah, 0), bh)]
    lo = np.minimum(np.minimum(q[0], q[1]), np.minimum(q[2], q[3]))
    hi = np.maximum(np.maximum(q[0], q[1]), np.maximum(q[2], q[3]))
    # exponents on both sides of zero or base crossing one are covered by corners (monotone)
    neg_ = al < 0
    if neg_.any():
        pv = np.power(al, bl)
        exact = pts & ~np.isnan(pv)
        lo = np.where(neg_, np.where(exact, pv, -INF), lo)
        hi = np.where(neg_, np.where(exact, pv, INF), hi)
        nan = np.where(neg_ & ~exact, np.maximum(nan, np.where(pts | (ah < 0) & (bl == bh) & (bl != np.floor(bl)), 2, 1)), nan)
    t = _terms2(a, b, s, tm.power)
    return _finish(lo, hi, nan, t, result_dtype(a, b), s == (), _py(a, b))


def _mono(a, f, name, dom=None, dec=False):
    l, h = a.lo, a.hi
    nan = a.nan
    rnd = True
    if dom is not None:
        dl, dh = dom
        out = (l < dl) | (h > dh)
        if out.any():
            definite = (h < dl - 1e-12) | (l > dh + 1e-12)
            # tolerate pure rounding excess of the analyser's own arithmetic
            tiny = (l >= dl - 1e-13) & (h <= dh + 1e-13)
            nan = np.maximum(nan, np.where(definite, 2, np.where(out & ~tiny, 1, 0))).astype(np.int8)
        l = np.clip(l, dl, dh)
        h = np.clip(h, dl, dh)
    x, y = f(l), f(h)
    if dec:
        x, y = y, x
    t = _terms1(a, lambda z: tm.fn(name, z))
    dt = a.dtype if a.dtype[0] == "f" else "f8"
    return _finish(x, y, nan, t, dt, a.shape == (), False, rnd)


def sqrt(a):
    r = _mono(a, np.sqrt, "sqrt", (0.0, INF))
    r.rnd = False      # halves the relative rounding error: sqrt(1 + ulp) rounds to 1
    return r


def exp(a):
    return _mono(a, np.exp, "exp")


def expm1(a):
    return _mono(a, np.expm1, "expm1")


def log(a):
    return _mono(a, np.log, "log", (0.0, INF))


def log10(a):
    return mul(log(a), num(1 / math.log(10)))


def log1p(a):
    r = _mono(a, np.log1p, "log1p", (-1.0, INF))
    if a.t is not None:
        r.t = _terms1(a, lambda z: tm.fn("log", tm.add(tm.const(1.0), z)))
    return r


def log2(a):
    return mul(log(a), num(1 / math.log(2)))


# sites where an inverse function is applied to a value that reaches the border of its
# domain in exact arithmetic but is itself a rounded result (see C04/C05)
edge_log = []
guarded = set()


def _edge(a, name, dl, dh):
    if a.rnd:
        near = ((a.hi >= dh - 1e-11) & (a.lo <= dh + 1e-11) & (a.hi - a.lo < 1e-6)) | \
               ((a.lo <= dl + 1e-11) & (a.hi >= dl - 1e-11) & (a.hi - a.lo < 1e-6))
        if a.t is not None and near.any() and guarded:
            near = near & ~np.array([x in guarded for x in a.t.reshape(-1)], bool).reshape(a.shape)
        if near.any():
            edge_log.append((name, near))
            return near
    return None


def arccos(a):
    e = _edge(a, "arccos", -1.0, 1.0)
    r = _mono(a, np.arccos, "arccos", (-1.0, 1.0), dec=True)
    if e is not None:
        r.nan = np.where(e, np.maximum(r.nan, 3), r.nan).astype(np.int8)
    return r


def arcsin(a):
    e = _edge(a, "arcsin", -1.0, 1.0)
    r = _mono(a, np.arcsin, "arcsin", (-1.0, 1.0))
    if e is not None:
        r.nan = np.where(e, np.maximum(r.nan, 3), r.nan).astype(np.int8)
    return r


def arctan(a):
    return _mono(a, np.arctan, "arctan")


def sinh(a):
    return _mono(a, np.sinh, "sinh")


def tanh(a):
    return _mono(a, np.tanh, "tanh")


def cosh(a):
    b = absv(a)
    r = _mono(b, np.cosh, "cosh")
    return r


def sin(a):
    return _trig(a, -np.pi / 2, np.sin, "sin")


def cos(a):
    return _trig(a, 0.0, np.cos, "cos")


def _trig(a, shift, f, name):
    # f has maximum 1 at (0 + 2k pi) after shifting argument by `shift`
    l, h = a.lo, a.hi
    twopi = 2 * np.pi
    ls, hs = l + shift, h + shift
    kmax = np.ceil(ls / twopi)
    has_max = kmax * twopi <= hs
    kmin = np.ceil((ls - np.pi) / twopi)
    has_min = kmin * twopi + np.pi <= hs
    fl, fh = f(l), f(h)
    lo = np.where(has_min, -1.0, np.minimum(fl, fh))
    hi = np.where(has_max, 1.0, np.maximum(fl, fh))
    infs = np.isinf(l) | np.isinf(h)
    nan = a.nan
    if infs.any():
        lo = np.where(infs, -1.0, lo)
        hi = np.where(infs, 1.0, hi)
        nan = np.where(infs, np.maximum(nan, np.where(np.isinf(l) & (l == h), 2, 1)), nan)

    def tf(z):
        if name == "sin" and z.op == "neg":
            return tm.neg(tm.fn("sin", z.args[0]))
        if name == "cos" and z.op == "neg":
            return tm.fn("cos", z.args[0])
        return tm.fn(name, z)
    t = _terms1(a, tf)
    return _finish(lo, hi, nan, t, a.dtype if a.dtype[0] == "f" else "f8", a.shape == (), False)


def tan(a):
    l, h = a.lo, a.hi
    k = np.floor(l / np.pi + 0.5)
    k2 = np.floor(h / np.pi + 0.5)
    same = (k == k2) & np.isfinite(l) & np.isfinite(h)
    lo = np.where(same, np.tan(l), -INF)
    hi = np.where(same, np.tan(h), INF)
    # a rounding of the analyser at the pole
    sw = same & (lo > hi)
    lo = np.where(sw, -INF, lo)
    hi = np.where(sw, INF, hi)
    t = _terms1(a, lambda z: tm.fn("tan", z))
    return _finish(lo, hi, a.nan, t, "f8", a.shape == (), False)


def arctan2(a, b):
    s = _bshape(a, b)
    yl, yh, xl, xh = (_bt(x, s) for x in (a.lo, a.hi, b.lo, b.hi))
    c = [np.arctan2(yl, xl), np.arctan2(yl, xh), np.arctan2(yh, xl), np.arctan2(yh, xh)]
    lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
    hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
    cut = (xl < 0) & (yl <= 0) & (yh >= 0) & ~((yl == yh))
    org = (xl <= 0) & (xh >= 0) & (yl <= 0) & (yh >= 0) & ~((yl == yh) & (xl == xh))
    lo = np.where(cut | org, -np.pi, lo)
    hi = np.where(cut | org, np.pi, hi)
    t = _terms2(a, b, s, lambda x, y: tm.opaque("arctan2", x, y))
    return _finish(lo, hi, _nanc(a, b, s), t, "f8", s == (), False)


def absv(a):
    l, h = a.lo, a.hi
    lo = np.where((l <= 0) & (h >= 0), 0.0, np.minimum(np.abs(l), np.abs(h)))
    hi = np.maximum(np.abs(l), np.abs(h))

    def tf_at(i, z):
        return z
    t = None
    if a.t is not None:
        t = _tarr(a.shape)
        o = t.reshape(-1)
        lf, hf = l.reshape(-1), h.reshape(-1)
        for i, z in enumerate(a.t.reshape(-1)):
            o[i] = z if lf[i] >= 0 else (tm.neg(z) if hf[i] <= 0 else tm.fn("abs", z))
    return _finish(lo, hi, a.nan, t, a.dtype, a.shape == (), a.py, a.rnd)


def sign(a):
    lo = np.sign(a.lo)
    hi = np.sign(a.hi)
    t = _terms1(a, lambda z: tm.opaque("sign", z))
    if t is not None:
        o = t.reshape(-1)
        lf, hf = lo.reshape(-1), hi.reshape(-1)
        for i in range(o.size):
            if lf[i] == hf[i]:
                o[i] = tm.const(lf[i])
    return _finish(lo, hi, a.nan, t, a.dtype, a.shape == (), a.py)


def _step(a, f, name):
    lo, hi = f(a.lo), f(a.hi)
    t = None
    if a.t is not None:
        t = _tarr(a.shape)
        o = t.reshape(-1)
        lf, hf = lo.reshape(-1), hi.reshape(-1)
        for i, z in enumerate(a.t.reshape(-1)):
            o[i] = tm.const(lf[i]) if lf[i] == hf[i] and math.isfinite(lf[i]) else tm.opaque(name, z)
    return _finish(lo, hi, a.nan, t, a.dtype if a.dtype[0] == "f" else "f8", a.shape == (), False, False)


def floor(a):
    return _step(a, np.floor, "floor")


def ceil(a):
    return _step(a, np.ceil, "ceil")


def trunc(a):
    return _step(a, np.trunc, "trunc")


def rnd(a, nd=0):
    r = _step(a, lambda x: np.round(x, nd), "round%d" % nd)
    return r


def mod(a, b):
    s = _bshape(a, b)
    q = div(a, b)
    f = floor(q)
    decided = (f.lo == f.hi)
    al, ah, bl, bh = (_bt(x, s) for x in (a.lo, a.hi, b.lo, b.hi))
    prod = mul(f, b)
    r = sub(a, prod)
    lo = np.where(decided, r.lo, np.where(bl > 0, 0.0, np.where(bh < 0, bl, -INF)))
    hi = np.where(decided, r.hi, np.where(bl > 0, bh, np.where(bh < 0, 0.0, INF)))
    nan = np.maximum(_nanc(a, b, s), np.where(decided, 0, np.where((bl > 0) | (bh < 0), 0, 1)))
    t = None
    if a.t is not None and b.t is not None and r.t is not None:
        t = _tarr(s)
        o = t.reshape(-1)
        ta, tb = _bt(a.t, s).reshape(-1), _bt(b.t, s).reshape(-1)
        rt = r.t.reshape(-1)
        d = np.asarray(decided).reshape(-1)
        for i in range(o.size):
            o[i] = rt[i] if d[i] else tm.opaque("mod", ta[i], tb[i])
    dt = result_dtype(a, b)
    return _finish(lo, hi, nan, t, dt, s == (), _py(a, b))


def floordiv(a, b):
    r = floor(div(a, b))
    r.dtype = result_dtype(a, b)
    r.py = _py(a, b)
    return r


def minimum(a, b, which="min"):
    s = _bshape(a, b)
    f = np.minimum if which == "min" else np.maximum
    lo, hi = f(a.lo, b.lo), f(a.hi, b.hi)
    t = None
    if a.t is not None and b.t is not None and int(np.prod(s)) <= TERM_LIMIT:
        t = _tarr(s)
        o = t.reshape(-1)
        al, ah, bl, bh = (_bt(x, s).reshape(-1) for x in (a.lo, a.hi, b.lo, b.hi))
        ta, tb = _bt(a.t, s).reshape(-1), _bt(b.t, s).reshape(-1)
        for i in range(o.size):
            if ah[i] <= bl[i]:
                o[i] = ta[i] if which == "min" else tb[i]
            elif bh[i] <= al[i]:
                o[i] = tb[i] if which == "min" else ta[i]
            else:
                o[i] = tm.fn(which, ta[i], tb[i])
    return _finish(lo, hi, _nanc(a, b, s), t, result_dtype(a, b), s == (), False, False)


def maximum(a, b):
    return minimum(a, b, "max")


# ---------------------------------------------------------------- booleans
def mkbool(must, may, t=None, scalar=None, py=False):
    """must/may: boolean arrays (definitely true / possibly true)."""
    must = np.asarray(must)
    may = np.asarray(may)
    if t is not None:
        o = t.reshape(-1)
        mu, ma = must.reshape(-1), may.reshape(-1)
        for i in range(o.size):
            if mu[i]:
                o[i] = tm.const(1.0)
            elif not ma[i]:
                o[i] = tm.const(0.0)
    elif must.size <= TERM_LIMIT and np.array_equal(must, may):
        t = _tarr(must.shape)
        o = t.reshape(-1)
        for i, v in enumerate(must.reshape(-1)):
            o[i] = tm.const(1.0 if v else 0.0)
    return A(must.astype(float), may.astype(float), np.zeros(must.shape, np.int8), t, "b1",
             must.shape == () if scalar is None else scalar, py)


guard_hook = [None]


def compare(op, a, b):
    s = _bshape(a, b)
    al, ah, bl, bh = (_bt(x, s) for x in (a.lo, a.hi, b.lo, b.hi))
    na = _nanc(a, b, s)
    if op == "<":
        must, may = ah < bl, al < bh
    elif op == "<=":
        must, may = ah <= bl, al <= bh
    elif op == ">":
        must, may = al > bh, ah > bl
    elif op == ">=":
        must, may = al >= bh, ah >= bl
    elif op in ("==", "!="):
        must = (al == ah) & (bl == bh) & (al == bl)
        may = (al <= bh) & (bl <= ah)
    else:
        raise Unsupported(op)
    must = np.array(must)
    may = np.array(may)
    t = None
    if a.t is not None and b.t is not None and int(np.prod(s)) <= TERM_LIMIT:
        t = _tarr(s)
        o = t.reshape(-1)
        ta, tb = _bt(a.t, s).reshape(-1), _bt(b.t, s).reshape(-1)
        mu, ma = must.reshape(-1), may.reshape(-1)
        for i in range(o.size):
            x, y = ta[i], tb[i]
            if x is y and x.op != "nan":
                v = op in ("<=", ">=", "==", "!=")
                mu[i] = v
                ma[i] = v
            if mu[i]:
                o[i] = tm.const(1.0)
            elif not ma[i]:
                o[i] = tm.const(0.0)
            else:
                oo = op
                if oo in (">", ">="):
                    x, y = y, x
                    oo = "<" if oo == ">" else "<="
                if oo == "!=":
                    oo = "=="
                if oo == "==" and x.id > y.id:
                    x, y = y, x
                o[i] = tm.opaque(oo, x, y)
        must = mu.reshape(s)
        may = ma.reshape(s)
    # NaN: comparisons are False (== too)
    if na.any():
        nn = na & 3
        must = must & (nn == 0)
        may = may & (nn != 2)
        if t is not None:
            t = None if not np.array_equal(must, may) else t
    if op == "!=":
        must, may = ~may, ~must
        if t is not None:
            o = t.reshape(-1)
            for i in range(o.size):
                if not tm.is_c(o[i]):
                    o[i] = tm.opaque("not", o[i])
    r = mkbool(must, may, t, s == (), _py(a, b))
    for v, w in ((a, b), (b, a)):
        if v.rnd and v.t is not None and w.is_point() and w.size and np.all(np.abs(w.lo) == 1.0):
            # the code tests the value against the border of the inverse functions' domain itself
            guarded.update(v.t.reshape(-1))
    if guard_hook[0] is not None:
        guard_hook[0](op, must, may, a, b)
    return r


def band(a, b):
    s = _bshape(a, b)
    if a.dtype != "b1" or b.dtype != "b1":
        if a.is_point() and b.is_point():
            return from_np(np.asarray(a.lo, int) & np.asarray(b.lo, int))
        raise Unsupported("bitwise and on non bool")
    t = _terms2(a, b, s, lambda x, y: x if x is y else (y if tm.is_c(x) and tm.cval(x) == 1 else x if tm.is_c(y) and tm.cval(y) == 1 else tm.opaque("and", *sorted((x, y), key=lambda z: z.id))))
    return mkbool((a.lo > 0) & (b.lo > 0), (a.hi > 0) & (b.hi > 0), t)


def bor(a, b):
    s = _bshape(a, b)
    if a.dtype != "b1" or b.dtype != "b1":
        if a.is_point() and b.is_point():
            return from_np(np.asarray(a.lo, int) | np.asarray(b.lo, int))
        raise Unsupported("bitwise or on non bool")
    t = _terms2(a, b, s, lambda x, y: x if x is y else (y if tm.is_c(x) and tm.cval(x) == 0 else x if tm.is_c(y) and tm.cval(y) == 0 else tm.opaque("or", *sorted((x, y), key=lambda z: z.id))))
    return mkbool((a.lo > 0) | (b.lo > 0), (a.hi > 0) | (b.hi > 0), t)


def bxor(a, b):
    if a.dtype != "b1" or b.dtype != "b1":
        raise Unsupported("xor on non bool")
    s = _bshape(a, b)
    da = (a.lo == a.hi)
    db = (b.lo == b.hi)
    v = (a.lo > 0) ^ (b.lo > 0)
    d = da & db
    return mkbool(np.where(d, v, False), np.where(d, v, True))


def bnot(a):
    if a.dtype != "b1":
        if a.is_point() and a.dtype == "i8":
            return from_np(~np.asarray(a.lo, int))
        raise Unsupported("invert on non bool")
    t = _terms1(a, lambda x: tm.const(1 - tm.cval(x)) if tm.is_c(x) else (x.args[0] if x.op == "not" else tm.opaque("not", x)))
    return mkbool(~(a.hi > 0), ~(a.lo > 0), t)


def to_bool(a):
    """Elementwise truth value."""
    if a.dtype == "b1":
        return a
    return compare("!=", a, num(0.0))


def isnan(a):
    t = _terms1(a, lambda z: tm.opaque("isnan", z))
    return mkbool(a.nan == 2, a.nan != 0, t)


def where(c, x, y):
    c = to_bool(c)
    s = np.broadcast_shapes(c.shape, x.shape, y.shape) if True else None
    must = _bt(c.lo > 0, s)
    mustnot = _bt(c.hi <= 0, s)
    xl, xh, yl, yh = (_bt(z, s) for z in (x.lo, x.hi, y.lo, y.hi))
    xn, yn = _bt(x.nan, s), _bt(y.nan, s)
    rndf = x.rnd or y.rnd
    if c.t is not None and x.t is not None and y.t is not None and int(np.prod(s)) <= TERM_LIMIT \
            and not (must | mustnot).all():
        xl, xh, yl, yh, xn, yn, clipped = _refine_where(s, c, x, y, must, mustnot, xl, xh, yl, yh, xn, yn)
        if clipped:
            rndf = False
    lo = np.where(must, xl, np.where(mustnot, yl, np.minimum(xl, yl)))
    hi = np.where(must, xh, np.where(mustnot, yh, np.maximum(xh, yh)))
    both = np.where((xn == 2) & (yn == 2), 2, np.where((xn > 0) | (yn > 0), np.maximum(np.minimum(xn, 1), np.minimum(yn, 1)), 0))
    both = np.where((xn == 3) | (yn == 3), 3, both)
    nan = np.where(must, xn, np.where(mustnot, yn, both))
    t = None
    if x.t is not None and y.t is not None and int(np.prod(s)) <= TERM_LIMIT:
        t = _tarr(s)
        o = t.reshape(-1)
        tx, ty = _bt(x.t, s).reshape(-1), _bt(y.t, s).reshape(-1)
        tc = _bt(c.t, s).reshape(-1) if c.t is not None else None
        m, mn = must.reshape(-1), mustnot.reshape(-1)
        for i in range(o.size):
            if m[i]:
                o[i] = tx[i]
            elif mn[i]:
                o[i] = ty[i]
            elif tx[i] is ty[i]:
                o[i] = tx[i]
            elif tc is not None:
                o[i] = tm.opaque("where", tc[i], tx[i], ty[i])
            else:
                o[i] = fresh("where")
    dt = "b1" if x.dtype == "b1" and y.dtype == "b1" else result_dtype(x, y)
    return _finish(lo, hi, nan, t, dt, s == (), False, rndf)


def _iv(t):
    if t.op == "c":
        return t.args[0], t.args[0]
    return t.iv if t.iv is not None else (-INF, INF)


def _refine_where(s, c, x, y, must, mustnot, xl, xh, yl, yh, xn, yn):
    """Where the choice is undecided, use the condition to narrow each arm (clip idioms)."""
    xl, xh, yl, yh = (np.array(v, float) for v in (xl, xh, yl, yh))
    xn, yn = np.array(xn), np.array(yn)
    tc, tx, ty = (_bt(v.t, s).reshape(-1) for v in (c, x, y))
    m, mn = must.reshape(-1), mustnot.reshape(-1)
    XL, XH, YL, YH, XN, YN = (v.reshape(-1) for v in (xl, xh, yl, yh, xn, yn))
    clipped = False
    for i in range(m.size):
        if m[i] or mn[i]:
            continue
        cond, flip = tc[i], False
        while cond.op == "not":
            cond, flip = cond.args[0], not flip
        if cond.op == "isnan":
            if flip:
                if tx[i] is cond.args[0]:
                    XN[i] = 0
            elif ty[i] is cond.args[0]:
                YN[i] = 0
            continue
        if cond.op in ("<", "<="):
            p, q = cond.args
            pl, ph = _iv(p)
            ql, qh = _iv(q)
            # true arm: p <= q ; false arm: p >= q (ignoring NaN)
            tl, th, fl, fh = (XL, XH, YL, YH) if not flip else (YL, YH, XL, XH)
            tt, ft = (tx[i], ty[i]) if not flip else (ty[i], tx[i])
            if tt is p:
                th[i] = min(th[i], qh)
                clipped = True
            if tt is q:
                tl[i] = max(tl[i], pl)
            if ft is p:
                fl[i] = max(fl[i], ql)
                clipped = True
            if ft is q:
                fh[i] = min(fh[i], ph)
    return xl, xh, yl, yh, xn, yn, clipped


_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return tm.opaque("fresh", prefix, _fresh[0])


def astype(a, dt):
    if dt == "b1":
        r = to_bool(a).copy()
        r.scalar = a.scalar
        return r
    if dt == "i8" and a.dtype[0] == "f":
        r = trunc(a)
        r.dtype = "i8"
        r.scalar = a.scalar
        return r
    if dt in ("f4", "f2") and a.dtype != dt:
        r = _finish(a.lo, a.hi, a.nan, None if a.t is None else a.t.copy(), dt, a.scalar, False)
        return r
    r = a.copy()
    r.dtype = dt
    r.py = False
    return r


# ---------------------------------------------------------------- reductions
def _red_terms(a, axis, f):
    if a.t is None:
        return None
    if axis is None:
        o = _tarr(())
        o[()] = f(list(a.t.reshape(-1)))
        return o
    m = np.moveaxis(a.t, axis, -1)
    o = _tarr(m.shape[:-1])
    of = o.reshape(-1)
    for i, row in enumerate(m.reshape(-1, m.shape[-1])):
        of[i] = f(list(row))
    return o


def _sumt(ts):
    r = tm.const(0.0)
    for x in ts:
        r = tm.add(r, x)
    return r


def _axis(a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return None
        raise Unsupported("axis tuple")
    if axis < -a.ndim or axis >= a.ndim:
        raise PyRaise(ValueError, "axis %d is out of bounds" % axis)
    return axis % a.ndim


def rsum(a, axis=None, keepdims=False):
    axis = _axis(a, axis)
    lo, hi = a.lo.sum(axis=axis), a.hi.sum(axis=axis)
    nan = a.nan.max(axis=axis) if a.size else np.zeros(np.shape(lo), np.int8)
    t = _red_terms(a, axis, _sumt)
    dt = "i8" if a.dtype in ("b1", "i8") else a.dtype
    r = _finish(lo, hi, nan, t, dt, None, False)
    return _keep(r, a, axis, keepdims)


def _keep(r, a, axis, keepdims):
    if keepdims:
        sh = tuple(1 if axis is None or i == axis else n for i, n in enumerate(a.shape))
        r = reshape(r, sh)
        r.scalar = False
    else:
        r.scalar = r.shape == ()
    return r


def rmean(a, axis=None, keepdims=False):
    ax = _axis(a, axis)
    n = a.size if ax is None else a.shape[ax]
    s = rsum(a, axis, keepdims)
    if n == 0:
        return from_np(np.full(s.shape, np.nan))
    return div(s, num(float(n)))


def rprod(a, axis=None):
    if axis is not None or a.ndim > 1:
        raise Unsupported("prod axis")
    r = num(1.0)
    for i in range(a.size):
        r = mul(r, getitem(a, i))
    return r


def rminmax(a, which, axis=None, keepdims=False):
    ax = _axis(a, axis)
    if a.size == 0:
        raise PyRaise(ValueError, "zero-size array to reduction operation %s which has no identity" % which)
    f = np.min if which == "min" else np.max
    lo, hi = f(a.lo, axis=ax), f(a.hi, axis=ax)
    nan = a.nan.max(axis=ax)
    t = None
    if a.t is not None:
        def red(ts_idx):
            return None
        if ax is None:
            t = _tarr(())
            t[()] = _pick(a.lo.reshape(-1), a.hi.reshape(-1), a.t.reshape(-1), which)
        else:
            ml, mh, mt = (np.moveaxis(z, ax, -1) for z in (a.lo, a.hi, a.t))
            t = _tarr(ml.shape[:-1])
            o = t.reshape(-1)
            n = ml.shape[-1]
            mlr, mhr, mtr = ml.reshape(-1, n), mh.reshape(-1, n), mt.reshape(-1, n)
            for i in range(o.size):
                o[i] = _pick(mlr[i], mhr[i], mtr[i], which)
    r = _finish(lo, hi, nan, t, a.dtype, None, False, a.rnd)
    return _keep(r, a, ax, keepdims)


def _pick(l, h, ts, which):
    first = ts[0]
    if all(x is first for x in ts):
        return first
    if which == "min":
        k = int(np.argmin(h))
        if all(h[k] <= l[i] or ts[i] is ts[k] for i in range(len(ts))):
            return ts[k]
    else:
        k = int(np.argmax(l))
        if all(l[k] >= h[i] or ts[i] is ts[k] for i in range(len(ts))):
            return ts[k]
    return tm.opaque("r" + which, *sorted(set(ts), key=lambda z: z.id))


def rany(a, axis=None):
    a = to_bool(a)
    ax = _axis(a, axis)
    return mkbool((a.lo > 0).any(axis=ax), (a.hi > 0).any(axis=ax))


def rall(a, axis=None):
    a = to_bool(a)
    ax = _axis(a, axis)
    return mkbool((a.lo > 0).all(axis=ax), (a.hi > 0).all(axis=ax))


def cumsum(a):
    a = reshape(a, (-1,))
    lo, hi = np.cumsum(a.lo), np.cumsum(a.hi)
    t = None
    if a.t is not None:
        t = _tarr(a.shape)
        acc = tm.const(0.0)
        for i in range(a.size):
            acc = tm.add(acc, a.t[i])
            t[i] = acc
    nan = np.maximum.accumulate(a.nan) if a.size else a.nan
    return _finish(lo, hi, nan, t, "i8" if a.dtype == "b1" else a.dtype, False, False)


# ---------------------------------------------------------------- structure
def reshape(a, shape):
    try:
        lo = a.lo.reshape(shape)
    except ValueError as e:
        raise PyRaise(ValueError, str(e))
    return A(lo, a.hi.reshape(shape), a.nan.reshape(shape), None if a.t is None else a.t.reshape(shape),
             a.dtype, False, False, a.rnd)


def apply_struct(a, f):
    """Apply a pure rearrangement f to all component buffers."""
    r = A(f(a.lo), f(a.hi), f(a.nan), None if a.t is None else f(a.t), a.dtype, None, False, a.rnd)
    r.scalar = False
    return r


def stack_struct(arrs, f):
    """Rearrangement of several arrays (concatenate, stack)."""
    ts = None if any(a.t is None for a in arrs) else [a.t for a in arrs]
    try:
        lo = f([a.lo for a in arrs])
        hi = f([a.hi for a in arrs])
        nan = f([a.nan for a in arrs])
    except ValueError as e:
        raise PyRaise(ValueError, str(e))
    t = f(ts) if ts is not None and lo.size <= TERM_LIMIT else None
    if t is not None and t.dtype != object:
        t = t.astype(object)
    dt = arrs[0].dtype if arrs else "f8"
    for a in arrs[1:]:
        if a.dtype != dt:
            dt = "f8" if "f8" in (a.dtype, dt) else ("f4" if "f4" in (a.dtype, dt) else "i8")
    return A(np.array(lo, float), np.array(hi, float), np.array(nan, np.int8), t, dt, False, False,
             any(a.rnd for a in arrs))


def bool_index(a):
    """Concrete boolean numpy mask, or Undecided."""
    if np.any((a.lo > 0) != (a.hi > 0)):
        raise Undecided("boolean mask not decided on this cell")
    return a.lo > 0


def concrete_index(ix):
    """Abstract index -> numpy index (or Undecided)."""
    if isinstance(ix, tuple):
        return tuple(concrete_index(i) for i in ix)
    if isinstance(ix, list):
        if any(isinstance(i, A) for i in ix):
            ix = [concrete_index(i) for i in ix]
        return ix
    if isinstance(ix, A):
        if ix.dtype == "b1":
            return bool_index(ix)
        if not ix.is_point():
            raise Undecided("index not decided")
        if ix.dtype[0] == "f":
            raise PyRaise(IndexError, "arrays used as indices must be of integer (or boolean) type")
        v = ix.lo.astype(int)
        return int(v) if v.shape == () else v
    if isinstance(ix, slice):
        def c(v):
            if isinstance(v, A):
                if not v.is_point():
                    raise Undecided("slice bound")
                return int(v.lo)
            return v
        return slice(c(ix.start), c(ix.stop), c(ix.step))
    return ix


def getitem(a, ix):
    i = concrete_index(ix)
    try:
        lo = a.lo[i]
        hi = a.hi[i]
        nan = a.nan[i]
    except IndexError as e:
        raise PyRaise(IndexError, str(e))
    if isinstance(lo, np.ndarray) and not (lo.shape == () and not _has_ell(i)):
        t = a.t[i] if a.t is not None else None
        return A(lo, hi, nan, t, a.dtype, False, False, a.rnd)
    t = None
    if a.t is not None:
        t = _tarr(())
        x = a.t[i]
        t[()] = x[()] if isinstance(x, np.ndarray) else x
    return A(np.array(float(lo)), np.array(float(hi)), np.array(int(nan), np.int8), t, a.dtype, True, False, a.rnd)


def _has_ell(i):
    return i is Ellipsis or (isinstance(i, tuple) and any(x is Ellipsis for x in i))


def setitem(a, ix, v):
    """In-place store; a weak update where a boolean mask is undecided."""
    if a.dtype == "f4":
        v = _finish(v.lo, v.hi, v.nan, v.t, "f4", v.scalar, False)
    elif a.dtype == "i8" and v.dtype[0] == "f":
        v = astype(v, "i8")
    elif a.dtype == "b1" and v.dtype != "b1":
        v = to_bool(v)
    try:
        if isinstance(ix, A) and ix.dtype == "b1" and np.any((ix.lo > 0) != (ix.hi > 0)):
            if v.shape != () and v.shape != a.shape:
                raise Undecided("store through undecided mask")
            if ix.shape != a.shape:
                raise Undecided("store through undecided mask")
            w = where(ix, v, a)
            a.lo[...] = w.lo
            a.hi[...] = w.hi
            # clip idiom  x[x < c] = c  : refine the untouched part
            a.nan[...] = w.nan
            if a.t is not None:
                if w.t is None:
                    for j in np.ndindex(a.shape):
                        a.t[j] = fresh("st")
                else:
                    a.t[...] = w.t
            return
        i = concrete_index(ix)
        if v.shape == ():
            a.lo[i] = float(v.lo)
            a.hi[i] = float(v.hi)
            a.nan[i] = int(v.nan)
            if a.t is not None:
                a.t[i] = v.t[()] if v.t is not None else fresh("st")
        else:
            a.lo[i] = v.lo
            a.hi[i] = v.hi
            a.nan[i] = v.nan
            if a.t is not None:
                if v.t is not None:
                    a.t[i] = v.t
                else:
                    sub_ = a.t[i]
                    if isinstance(sub_, np.ndarray):
                        new = _tarr(sub_.shape)
                        for j in np.ndindex(sub_.shape):
                            new[j] = fresh("st")
                        a.t[i] = new
                    else:
                        a.t[i] = fresh("st")
    except (IndexError, ValueError) as e:
        raise PyRaise(type(e) if type(e) in (IndexError, ValueError) else ValueError, str(e))


def clip_store(a, cond_op, cval_):
    pass


def definitely_equal(a, b, tol=0.0):
    """True / False / None for scalar equality."""
    if a.t is not None and b.t is not None and a.t[()] is b.t[()] and not (int(a.nan) or int(b.nan)):
        return True
    if float(a.lo) == float(a.hi) == float(b.lo) == float(b.hi):
        return True
    if float(a.hi) < float(b.lo) or float(b.hi) < float(a.lo):
        return False
    return None

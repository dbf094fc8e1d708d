"""numpy / astropy / jax / tinygp / stdlib models."""
import math
import numpy as np
from . import dom, terms as tm, units as U
from .dom import A, PyRaise, Unsupported, Undecided, num, from_np
from .values import *  # noqa
from . import lib as L

INF = math.inf


# ====================================================================== random
from collections import ChainMap as _CM, Counter as _Counter, OrderedDict as _OD, deque as _deque  # noqa: E402


class Rng:
    """numpy Generator; draws are fresh inputs tagged with the generator's identity."""
    def __init__(self, ident, site=None):
        self.ident = ident
        self.site = site
        self.n = 0

    def __repr__(self):
        return "<Rng %s>" % self.ident


class KeyV:
    def __init__(self, seed):
        self.seed = seed


class GPV:
    def __init__(self, kernel, X, diag, mean):
        self.kernel, self.X, self.diag, self.mean = kernel, X, diag, mean


def _shape_of(it, size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(L.as_int(it, s) for s in size)
    n = L.as_int(it, size)
    if n < 0:
        raise PyRaise(ValueError, "negative dimensions are not allowed", it.site)
    return (n,)


def _draw(it, r, kind, lo, hi, shape):
    """Array of fresh draws; each a named input of the scenario."""
    n = 1 if shape is None else int(np.prod(shape))
    vals = []
    for _ in range(n):
        r.n += 1
        q = it.ctx.tails.get(kind)
        if q:
            vals.append(num(float(q.pop(0))))
            continue
        vals.append(it.ctx.draw("%s.%s%d" % (r.ident, kind, r.n), lo, hi))
    if shape is None:
        return vals[0]
    if n == 0:
        return from_np(np.zeros(shape))
    a = dom.stack_struct([dom.reshape(v, ()) for v in vals], lambda ps: np.stack(ps).reshape(shape))
    return a


def _kw(a, k, names, defaults):
    out = []
    for i, (n, d) in enumerate(zip(names, defaults)):
        out.append(a[i] if i < len(a) else k.get(n, d))
    return out


def _pl(it, v):
    """plain number for rng parameters; Quantities must be dimensionless."""
    v = L.arr(it, v)
    if isinstance(v, Q):
        if not v.unit.is_dimless():
            raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
        v = L.to_unit(it, v, U.ONE).v
    if isinstance(v, Top):
        raise Undecided("rng parameter")
    return v


def _log(it, r, kind, params, res, size):
    r.n += 1
    it.draws.append({"rng": r.ident, "kind": kind, "params": params, "res": res, "size": size, "site": it.site,
                     "in_query": it.in_query})


def rng_method(it, r, name):
    def norm_shape(size, *ps):
        if size is None:
            s = np.broadcast_shapes(*[p.shape for p in ps]) if ps else ()
            return s if s else None
        return size

    def random(it, a, k):
        (size,) = _kw(a, k, ["size"], [None])
        s = _shape_of(it, size)
        v = _draw(it, r, "u", 0.0, 1.0, s)
        _log(it, r, "random", (), v, s)
        return v

    def uniform(it, a, k):
        lo, hi, size = _kw(a, k, ["low", "high", "size"], [0.0, 1.0, None])
        s = _shape_of(it, size)
        z = _draw(it, r, "u", 0.0, 1.0, s)
        lo, hi = _pl(it, lo), _pl(it, hi)
        v = dom.add(lo, dom.mul(dom.sub(hi, lo), z))
        _log(it, r, "uniform", (lo, hi), v, s)
        return v

    def normal(it, a, k):
        loc, sc, size = _kw(a, k, ["loc", "scale", "size"], [0.0, 1.0, None])
        loc, sc = _pl(it, loc), _pl(it, sc)
        s = norm_shape(_shape_of(it, size), loc, sc)
        if sc.shape == () and float(sc.hi) < 0:
            raise PyRaise(ValueError, "scale < 0", it.site)
        z = _draw(it, r, "z", -3.0, 3.0, s)
        v = dom.add(loc, dom.mul(sc, z))
        _log(it, r, "normal", (loc, sc), v, s)
        return v

    def standard_normal(it, a, k):
        (size,) = _kw(a, k, ["size"], [None])
        return normal(it, [0.0, 1.0, size], {})

    def lognormal(it, a, k):
        m, sg, size = _kw(a, k, ["mean", "sigma", "size"], [0.0, 1.0, None])
        m, sg = _pl(it, m), _pl(it, sg)
        s = norm_shape(_shape_of(it, size), m, sg)
        if sg.shape == () and float(sg.hi) < 0:
            raise PyRaise(ValueError, "sigma < 0", it.site)
        z = _draw(it, r, "z", -3.0, 3.0, s)
        v = dom.exp(dom.add(m, dom.mul(sg, z)))
        _log(it, r, "lognormal", (m, sg), v, s)
        return v

    def exponential(it, a, k):
        sc, size = _kw(a, k, ["scale", "size"], [1.0, None])
        sc = _pl(it, sc)
        s = norm_shape(_shape_of(it, size), sc)
        if sc.shape == () and float(sc.hi) < 0:
            raise PyRaise(ValueError, "scale < 0", it.site)
        z = _draw(it, r, "e", 0.01, 4.0, s)
        v = dom.mul(sc, z)
        _log(it, r, "exponential", (sc,), v, s)
        return v

    def poisson(it, a, k):
        lam, size = _kw(a, k, ["lam", "size"], [1.0, None])
        lam = _pl(it, lam)
        s = norm_shape(_shape_of(it, size), lam)
        if np.any(lam.hi < 0) or np.any(lam.nan == 2):
            raise PyRaise(ValueError, "lam < 0 or lam is NaN", it.site)
        n = 1 if s is None else int(np.prod(s))
        zero = lam.shape == () and float(lam.lo) == 0 == float(lam.hi)
        vals = [0 if zero else it.ctx.count(r.ident, lam) for _ in range(n)]
        v = from_np(np.array(vals[0] if s is None else np.array(vals).reshape(s)), "i8", s is None)
        if s is None:
            v = vals[0]
        _log(it, r, "poisson", (lam,), v, s)
        return v

    def choice(it, a, k):
        opts, size, repl, p = _kw(a, k, ["a", "size", "replace", "p"], [None, None, True, None])
        s = _shape_of(it, size)
        if isinstance(opts, (list, tuple)):
            xs = list(opts)
        elif isinstance(opts, (int,)) or isinstance(opts, A) and opts.shape == ():
            xs = list(range(L.as_int(it, opts)))
        else:
            xs = it.iterate(opts)
        n = 1 if s is None else int(np.prod(s))
        picks = [it.ctx.pick((r.ident, r.n, j), len(xs)) for j in range(n)]
        if s is None:
            v = xs[picks[0]]
        elif n == 0:
            v = from_np(np.zeros(s), "i8")
        else:
            v = dom.reshape(L.arr(it, [xs[i] for i in picks]), s)
        _log(it, r, "choice", (opts, p), v, s)
        return v

    def integers(it, a, k):
        lo, hi, size = _kw(a, k, ["low", "high", "size"], [0, None, None])
        if hi is None:
            lo, hi = 0, lo
        lo, hi = L.as_int(it, lo), L.as_int(it, hi)
        s = _shape_of(it, size)
        n = 1 if s is None else int(np.prod(s))
        picks = [lo + it.ctx.pick((r.ident, r.n, j), max(hi - lo, 1)) for j in range(n)]
        v = from_np(np.array(picks[0]), "i8", True) if s is None else from_np(np.array(picks).reshape(s), "i8")
        _log(it, r, "integers", (lo, hi), v, s)
        return v

    def spawn(it, a, k):
        n = L.as_int(it, a[0])
        r.n += 1
        return [Rng("%s.spawn%d" % (r.ident, r.n + i), it.site) for i in range(n)]

    tab = dict(random=random, uniform=uniform, normal=normal, standard_normal=standard_normal, lognormal=lognormal,
               exponential=exponential, poisson=poisson, choice=choice, integers=integers, spawn=spawn,
               rand=random, randint=integers, randn=standard_normal, random_sample=random)
    f = tab.get(name)
    if f is None:
        def g(it, a, k):
            _log(it, r, name, (), None, None)
            return Top("rng." + name)
        f = g
    return Builtin("rng." + name, f)


# ====================================================================== numpy
NP = {}


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def dtcode(it, d):
    if d is None:
        return None
    if isinstance(d, Builtin):
        return {"float": "f8", "int": "i8", "bool": "b1"}.get(d.name)
    if isinstance(d, NType):
        return d.ns.get("code")
    if isinstance(d, str):
        if d.startswith("float32") or d in ("f4", "<f4", "single"):
            return "f4"
        if d.startswith("float16") or d in ("f2", "<f2", "half", "e"):
            return "f2"
        if d.startswith("float") or d in ("f8", "d", "double"):
            return "f8"
        if d.startswith("int") or d.startswith("uint") or d in ("i4", "i8", "i"):
            return "i8"
        if d.startswith("bool") or d == "?":
            return "b1"
    if isinstance(d, Top):
        return None
    raise Unsupported("dtype %r" % (d,))


def _out(it, k, r):
    """handle out=/where= of ufuncs."""
    out, wh = k.get("out"), k.get("where", True)
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        if wh is not True:
            raise Unsupported("where= without out")
        return r
    ra, ru = L.split(it, r)
    if isinstance(out, Q):
        oa, ou = out.v, out.unit
        if ru is not None:
            ra = L.to_unit(it, Q(ra, ru), ou).v
    else:
        oa = out
        if ru is not None and not ru.is_dimless():
            raise PyRaise(U.UnitTypeError, "cannot store quantity in ndarray", it.site)
        if ru is not None:
            ra = L.to_unit(it, Q(ra, ru), U.ONE).v
    if wh is not True:
        ra = dom.where(L.arr(it, wh), ra, oa)
    it._store_into(oa, A(np.broadcast_to(ra.lo, oa.shape), np.broadcast_to(ra.hi, oa.shape),
                         np.broadcast_to(ra.nan, oa.shape), None if ra.t is None else np.broadcast_to(ra.t, oa.shape), ra.dtype))
    return out


def _trig(fn):
    def f(it, a, k):
        v = L.arr(it, a[0])
        if isinstance(v, Top):
            return v
        if isinstance(v, Q):
            if v.unit.dims != U.TABLE["rad"].dims:
                raise PyRaise(U.UnitTypeError, "Can only apply trigonometric function to quantities with angle units", it.site)
            return _out(it, k, Q(fn(L.to_unit(it, v, U.TABLE["rad"]).v), U.ONE))
        return _out(it, k, fn(v))
    return f


def _arc(fn):
    def f(it, a, k):
        v = L.arr(it, a[0])
        if isinstance(v, Top):
            return v
        if isinstance(v, Q):
            if not v.unit.is_dimless():
                raise PyRaise(U.UnitTypeError, "Can only apply inverse trigonometric function to dimensionless quantities", it.site)
            return _out(it, k, Q(fn(L.to_unit(it, v, U.ONE).v), U.TABLE["rad"]))
        return _out(it, k, fn(v))
    return f


def _dimless(fn):
    def f(it, a, k):
        v = L.arr(it, a[0])
        if isinstance(v, Top):
            return v
        if isinstance(v, Q):
            if not v.unit.is_dimless():
                raise PyRaise(U.UnitTypeError, "Can only apply function to dimensionless quantities", it.site)
            return _out(it, k, Q(fn(L.to_unit(it, v, U.ONE).v), U.ONE))
        return _out(it, k, fn(v))
    return f


def _keep(fn):
    def f(it, a, k):
        v = L.arr(it, a[0])
        if isinstance(v, Top):
            return v
        if isinstance(v, Q):
            return _out(it, k, Q(fn(v.v), v.unit))
        return _out(it, k, fn(v))
    return f


for _n, _f in dict(sin=dom.sin, cos=dom.cos, tan=dom.tan).items():
    NP[_n] = _trig(_f)
for _n, _f in dict(arcsin=dom.arcsin, arccos=dom.arccos, arctan=dom.arctan).items():
    NP[_n] = _arc(_f)
NP["asin"], NP["acos"], NP["atan"] = NP["arcsin"], NP["arccos"], NP["arctan"]
for _n, _f in dict(exp=dom.exp, expm1=dom.expm1, log=dom.log, log10=dom.log10, log1p=dom.log1p, log2=dom.log2,
                   sinh=dom.sinh, cosh=dom.cosh, tanh=dom.tanh).items():
    NP[_n] = _dimless(_f)
NP["exp2"] = _dimless(lambda a: dom.power(num(2.0), a))
for _n, _f in dict(floor=dom.floor, ceil=dom.ceil, trunc=dom.trunc, rint=dom.rnd, abs=dom.absv, absolute=dom.absv, fabs=dom.absv, positive=lambda a: a, negative=dom.neg,
                   conj=lambda a: a, real=lambda a: a).items():
    NP[_n] = _keep(_f)


@reg("sqrt")
def np_sqrt(it, a, k):
    v = L.arr(it, a[0])
    if isinstance(v, Q):
        return _out(it, k, Q(dom.sqrt(v.v), U.ONE if v.unit.key() == U.ONE.key() else U.power(v.unit, 0.5)))
    return v if isinstance(v, Top) else _out(it, k, dom.sqrt(v))


@reg("cbrt")
def np_cbrt(it, a, k):
    return L.binop(it, "Pow", L.arr(it, a[0]), 1 / 3)


@reg("square")
def np_square(it, a, k):
    return _out(it, k, L.binop(it, "Pow", L.arr(it, a[0]), 2))


@reg("reciprocal")
def np_recip(it, a, k):
    return L.binop(it, "Div", 1.0, L.arr(it, a[0]))


@reg("sign")
def np_sign(it, a, k):
    v, _ = L.split(it, a[0])
    return dom.sign(v)


@reg("deg2rad", "radians")
def np_rad(it, a, k):
    v = L.arr(it, a[0])
    if isinstance(v, Q):
        return L.to_unit(it, v, U.TABLE["rad"])
    return dom.mul(v, num(math.pi / 180))


@reg("rad2deg", "degrees")
def np_deg(it, a, k):
    v = L.arr(it, a[0])
    if isinstance(v, Q):
        return L.to_unit(it, v, U.TABLE["deg"])
    return dom.mul(v, num(180 / math.pi))


for _n, _o in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", true_divide="Div", power="Pow",
                   float_power="Pow", mod="Mod", remainder="Mod", floor_divide="FloorDiv", bitwise_and="BitAnd",
                   bitwise_or="BitOr", pow="Pow").items():
    def _bin(it, a, k, _o=_o):
        return _out(it, k, L.binop(it, _o, L.arr(it, a[0]), L.arr(it, a[1])))
    NP[_n] = _bin
for _n, _o in dict(less="Lt", less_equal="LtE", greater="Gt", greater_equal="GtE", equal="Eq", not_equal="NotEq").items():
    def _cmp(it, a, k, _o=_o):
        return _out(it, k, L.compare(it, _o, L.arr(it, a[0]), L.arr(it, a[1])))
    NP[_n] = _cmp


def _b(it, v):
    if isinstance(v, bool):
        return num(v)
    v = L.arr(it, v)
    if isinstance(v, Q):
        v = v.v
    if isinstance(v, Top):
        raise Undecided("unknown boolean")
    return dom.to_bool(v)


@reg("logical_and")
def np_land(it, a, k):
    return _out(it, k, dom.band(_b(it, a[0]), _b(it, a[1])))


@reg("logical_or")
def np_lor(it, a, k):
    return _out(it, k, dom.bor(_b(it, a[0]), _b(it, a[1])))


@reg("logical_not", "invert", "bitwise_not")
def np_lnot(it, a, k):
    return _out(it, k, dom.bnot(_b(it, a[0])))


@reg("logical_xor")
def np_lxor(it, a, k):
    return dom.bxor(_b(it, a[0]), _b(it, a[1]))


def pair(it, x, y):
    """two args to a common unit."""
    xa, xu = L.split(it, x)
    ya, yu = L.split(it, y)
    if xu is None and yu is None:
        return xa, ya, None
    if xu is not None and yu is not None:
        return xa, L.to_unit(it, Q(ya, yu), xu).v, xu
    if xu is None:
        if yu.is_dimless():
            return xa, L.to_unit(it, y, U.ONE).v, U.ONE
        if L.arbitrary(xa):
            return xa, ya, yu
    else:
        if xu.is_dimless():
            return L.to_unit(it, x, U.ONE).v, ya, U.ONE
        if L.arbitrary(ya):
            return xa, ya, xu
    raise PyRaise(U.UnitConversionError, "incompatible units", it.site)


def wrap(v, u):
    return v if u is None else Q(v, u)


@reg("maximum", "fmax")
def np_maximum(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    return _out(it, k, wrap(dom.maximum(x, y), u))


@reg("minimum", "fmin")
def np_minimum(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    return _out(it, k, wrap(dom.minimum(x, y), u))


@reg("hypot")
def np_hypot(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    return wrap(dom.sqrt(dom.add(dom.int_pow(x, 2), dom.int_pow(y, 2))), u)


@reg("arctan2", "atan2")
def np_arctan2(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    r = dom.arctan2(x, y)
    return r if u is None else Q(r, U.TABLE["rad"])


@reg("clip")
def np_clip(it, a, k):
    v = L.arr(it, a[0])
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    r = v
    if lo is not None:
        r = np_maximum(it, [r, lo], {})
    if hi is not None:
        r = np_minimum(it, [r, hi], {})
    if isinstance(v, Q) and isinstance(r, Q):
        r = L.to_unit(it, r, v.unit)
    return _out(it, {kk: vv for kk, vv in k.items() if kk == "out"}, r)


@reg("isnan")
def np_isnan(it, a, k):
    v, _ = L.split(it, a[0])
    return dom.isnan(v)


@reg("isinf")
def np_isinf(it, a, k):
    v, _ = L.split(it, a[0])
    return dom.mkbool(np.isinf(v.lo) & (v.lo == v.hi) & (v.nan == 0), np.isinf(v.lo) | np.isinf(v.hi))


@reg("isfinite")
def np_isfinite(it, a, k):
    v, _ = L.split(it, a[0])
    inf = np.isinf(v.lo) | np.isinf(v.hi)
    return dom.mkbool(~inf & (v.nan == 0), ~((np.isinf(v.lo) & (v.lo == v.hi)) | (v.nan == 2)))


@reg("nan_to_num")
def np_n2n(it, a, k):
    v, u = L.split(it, a[0])
    fill = a[2] if len(a) > 2 else k.get("nan", 0.0)
    copy = a[1] if len(a) > 1 else k.get("copy", True)
    fill = fill.v if isinstance(fill, Q) else num(fill)
    r = dom.where(dom.isnan(v), fill, v)
    r.nan = np.where(v.nan == 0, 0, np.minimum(v.nan, fill.nan)).astype(np.int8)
    if copy is False and isinstance(a[0], (A, Q)):
        it._store_into(v, r)
        return a[0]
    return wrap(r, u)


@reg("where")
def np_where(it, a, k):
    c = a[0]
    if isinstance(c, bool):
        c = num(c)
    c = _b(it, c)
    if len(a) == 1:
        m = dom.bool_index(c)
        return tuple(from_np(x, "i8", False) for x in np.nonzero(m))
    x, y, u = pair_where(it, a[1], a[2])
    try:
        np.broadcast_shapes(c.shape, x.shape, y.shape)
    except ValueError as e:
        raise PyRaise(ValueError, str(e), it.site)
    r = dom.where(c, x, y)
    if r.shape == ():
        r.scalar = False if u is None else r.scalar
    return wrap(r, u)


def pair_where(it, x, y):
    xa, xu = L.split(it, x)
    ya, yu = L.split(it, y)
    if xu is None and yu is None:
        return xa, ya, None
    # astropy function helper: all converted to the unit of the first Quantity argument
    if xu is None:
        if yu.is_dimless():
            return xa, ya if yu.scale == 1 else ya, yu
        if L.arbitrary(xa):
            return xa, ya, yu
        raise PyRaise(U.UnitConversionError, "np.where units", it.site)
    if yu is None:
        if xu.is_dimless() or L.arbitrary(ya):
            return xa, ya, xu
        raise PyRaise(U.UnitConversionError, "np.where units", it.site)
    return xa, L.to_unit(it, Q(ya, yu), xu).v, xu


@reg("select")
def np_select(it, a, k):
    conds, ch = it.iterate(a[0]), it.iterate(a[1])
    default = a[2] if len(a) > 2 else k.get("default", 0)
    r = default
    for c, x in reversed(list(zip(conds, ch))):
        r = np_where(it, [c, x, r], {})
    return r


def _red(fn, keepunit=True, plain=False):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        axis = a[1] if len(a) > 1 else k.get("axis")
        if isinstance(axis, list):
            axis = tuple(axis)
        kk = {}
        if k.get("keepdims"):
            kk["keepdims"] = True
        wh = k.get("where")
        if wh is not None:
            raise Unsupported("reduction where=")
        r = fn(v, axis, **kk) if not plain else fn(v, axis)
        if plain:
            return r
        return wrap(r, u if keepunit else None)
    return f


NP["sum"] = _red(dom.rsum)
NP["mean"] = _red(dom.rmean)
NP["min"] = NP["amin"] = _red(lambda v, ax, **k: dom.rminmax(v, "min", ax, **k))
NP["max"] = NP["amax"] = _red(lambda v, ax, **k: dom.rminmax(v, "max", ax, **k))
NP["any"] = _red(lambda v, ax: dom.rany(v, ax), plain=True)
NP["all"] = _red(lambda v, ax: dom.rall(v, ax), plain=True)


def _nanfree(fn, summing=False):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        if v.nan.any():
            if (v.nan == 1).any() or len(a) > 1 or k.get("axis") is not None:
                raise Undecided("nan-reduction over possible NaN")
            keep = np.flatnonzero(v.nan.ravel() == 0)
            if not keep.size and not summing:
                return wrap(from_np(np.nan), u)
            return fn(it, [wrap(dom.apply_struct(v, lambda x: x.reshape(-1)[keep]), u)], k)
        return fn(it, a, k)
    return f


for _n in ("sum", "mean", "min", "max"):
    NP["nan" + _n] = _nanfree(NP[_n], _n == "sum")


@reg("prod")
def np_prod(it, a, k):
    v, u = L.split(it, a[0])
    if u is not None and not u.is_dimless():
        raise Unsupported("prod units")
    return wrap(dom.rprod(v, a[1] if len(a) > 1 else k.get("axis")), u)


@reg("ptp")
def np_ptp(it, a, k):
    return L.binop(it, "Sub", NP["max"](it, a, k), NP["min"](it, a, k))


@reg("var")
def np_var(it, a, k):
    v, u = L.split(it, a[0])
    m = dom.rmean(v)
    r = dom.rmean(dom.int_pow(dom.sub(v, m), 2))
    return wrap(r, None if u is None else U.power(u, 2))


@reg("std")
def np_std(it, a, k):
    return np_sqrt(it, [np_var(it, a, k)], {})


@reg("average")
def np_average(it, a, k):
    w = a[2] if len(a) > 2 else k.get("weights")
    if w is None:
        return NP["mean"](it, a, k)
    ax = a[1] if len(a) > 1 else k.get("axis")
    v, w = L.arr(it, a[0]), L.arr(it, w)
    if ax is not None and not isinstance(ax, tuple) and v.shape != w.shape:
        if len(w.shape) != 1 or v.shape[ax] != w.shape[0]:
            raise PyRaise(ValueError if len(w.shape) == 1 else TypeError, "weights do not match", it.site)
        sh = [1] * len(v.shape)
        sh[ax] = w.shape[0]
        s = NP["sum"](it, [L.binop(it, "Mult", v, NP["reshape"](it, [w, tuple(sh)], {})), ax], {})
        return L.binop(it, "Div", s, NP["sum"](it, [w], {}))
    if ax is None and v.shape != w.shape:
        raise PyRaise(TypeError, "Axis must be specified when shapes of a and weights differ.", it.site)
    s = NP["sum"](it, [L.binop(it, "Mult", v, w), ax], {})
    return L.binop(it, "Div", s, NP["sum"](it, [w, ax], {}))


@reg("count_nonzero")
def np_cnz(it, a, k):
    return dom.rsum(_b(it, a[0]))


@reg("cumsum")
def np_cumsum(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim > 1:
        raise Unsupported("cumsum nd")
    return wrap(dom.cumsum(v), u)


@reg("cumprod")
def np_cumprod(it, a, k):
    raise Unsupported("cumprod")


@reg("diff")
def np_diff(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1:
        raise Unsupported("diff nd")
    return wrap(dom.sub(dom.getitem(v, slice(1, None)), dom.getitem(v, slice(None, -1))), u)


@reg("trapz", "trapezoid")
def np_trapz(it, a, k):
    y = L.arr(it, a[0])
    x = a[1] if len(a) > 1 else k.get("x")
    dx = a[2] if len(a) > 2 else k.get("dx", 1.0)
    axis = a[3] if len(a) > 3 else k.get("axis", -1)
    yv, yu = L.split(it, y)
    if x is None:
        d, du = L.split(it, dx)
    else:
        xv, du = L.split(it, x)
        if xv.ndim != 1:
            raise Unsupported("trapz nd x")
        d = dom.sub(dom.getitem(xv, slice(1, None)), dom.getitem(xv, slice(None, -1)))
    if yv.ndim == 0:
        raise PyRaise(IndexError, "trapz of scalar", it.site)
    axis = axis % yv.ndim
    if d.ndim == 1:
        sh = [1] * yv.ndim
        sh[axis] = d.shape[0]
        d = dom.reshape(d, tuple(sh))
    s1 = [slice(None)] * yv.ndim
    s2 = [slice(None)] * yv.ndim
    s1[axis], s2[axis] = slice(1, None), slice(None, -1)
    m = dom.mul(dom.mul(d, dom.add(dom.getitem(yv, tuple(s1)), dom.getitem(yv, tuple(s2)))), num(0.5))
    r = dom.rsum(m, axis)
    u = None
    if yu is not None or du is not None:
        u = U.mul(yu or U.ONE, du or U.ONE)
    return wrap(r, u)


@reg("linspace")
def np_linspace(it, a, k):
    start, stop, n, endpoint, retstep = _kw(a, k, ["start", "stop", "num", "endpoint", "retstep"], [None, None, 50, True, False])
    y, x, u = pair(it, stop, start)
    if x.shape != () or y.shape != ():
        raise Unsupported("linspace arrays")
    n = L.as_int(it, n)
    if n < 0:
        raise PyRaise(ValueError, "Number of samples, %d, must be non-negative." % n, it.site)
    div = n - 1 if endpoint else n
    if n == 0:
        r = from_np(np.zeros(0))
    elif div <= 0:
        r = dom.reshape(x.as_array(), (1,))
    elif x.is_point() and y.is_point():
        r = from_np(np.linspace(float(x.lo), float(y.lo), n, endpoint=endpoint))
    else:
        w = from_np(np.arange(n) / div)
        # start*(1-w) + stop*w keeps the bounds tight and every sample between the ends
        r = dom.add(dom.mul(x, from_np(1 - np.arange(n) / div)), dom.mul(y, w))
        if r.t is not None:
            r.t = r.t.copy()
            r.t[0] = x.t[()] if x.t is not None else r.t[0]
            if endpoint and y.t is not None:
                r.t[-1] = y.t[()]
    r.scalar = False
    dt = k.get("dtype")
    if dt is not None:
        r = dom.astype(r, dtcode(it, dt))
    r = wrap(r, u)
    if retstep:
        step = L.binop(it, "Div", L.binop(it, "Sub", stop, start), div) if div > 0 else float("nan")
        return (r, step)
    return r


@reg("logspace")
def np_logspace(it, a, k):
    r = np_linspace(it, a, k)
    return dom.power(num(10.0), r)


@reg("arange")
def np_arange(it, a, k):
    vs = [L.arr(it, x) for x in a]
    us = [v.unit for v in vs if isinstance(v, Q)]
    u = us[0] if us else None
    vals = []
    for v in vs:
        if isinstance(v, Q):
            v = L.to_unit(it, v, u).v
        if not v.is_point():
            raise Undecided("arange bounds")
        vals.append(int(v.lo) if v.dtype == "i8" else float(v.lo))
    r = from_np(np.arange(*vals))
    r.scalar = False
    dt = dtcode(it, k.get("dtype"))
    if dt:
        r = dom.astype(r, dt)
    return wrap(r, u)


def _shape(it, s):
    if isinstance(s, (tuple, list)):
        return tuple(L.as_int(it, x) for x in s)
    if isinstance(s, A) and s.shape != ():
        return tuple(int(x) for x in dom.concrete_index(s))
    return (L.as_int(it, s),)


def _filled(it, shape, val, dt):
    n = from_np(np.full(shape, float(val)))
    n.dtype = dt or "f8"
    n.scalar = False
    return n


@reg("zeros", "empty")
def np_zeros(it, a, k):
    s, d = _kw(a, k, ["shape", "dtype"], [None, None])
    return _filled(it, _shape(it, s), 0.0, dtcode(it, d))


@reg("ones")
def np_ones(it, a, k):
    s, d = _kw(a, k, ["shape", "dtype"], [None, None])
    return _filled(it, _shape(it, s), 1.0, dtcode(it, d))


@reg("full")
def np_full(it, a, k):
    s, f, d = _kw(a, k, ["shape", "fill_value", "dtype"], [None, None, None])
    v, u = L.split(it, f)
    r = dom.apply_struct(v, lambda x: np.array(np.broadcast_to(x, _shape(it, s))))
    dt = dtcode(it, d)
    if dt:
        r = dom.astype(r, dt)
    return r            # numpy drops the unit of the fill value


def _like(val):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        d = dtcode(it, a[1] if len(a) > 1 else k.get("dtype"))
        r = _filled(it, v.shape, val, d or v.dtype)
        # numpy *_like on a Quantity keeps its unit
        return wrap(r, u)
    return f


NP["zeros_like"] = NP["empty_like"] = _like(0.0)
NP["ones_like"] = _like(1.0)


@reg("full_like")
def np_full_like(it, a, k):
    v, u = L.split(it, a[0])
    f = a[1] if len(a) > 1 else k["fill_value"]
    fv, fu = L.split(it, f)
    if u is not None:
        fv = L.to_unit(it, Q(fv, fu), u).v if fu is not None else L.plain_to(it, fv, u)
    r = dom.apply_struct(fv, lambda x: np.array(np.broadcast_to(x, v.shape)))
    d = dtcode(it, k.get("dtype"))
    r = dom.astype(r, d or v.dtype)
    return wrap(r, u)


def _np_array(copy):
    def f(it, a, k):
        v = a[0]
        d = dtcode(it, a[1] if len(a) > 1 else k.get("dtype"))
        subok = k.get("subok", False)
        shared = isinstance(v, (A, Q))
        r = L.arr(it, v)
        if isinstance(r, Top):
            return r
        u = None
        if isinstance(r, Q):
            if subok:
                u = r.unit
            r = r.v
        if d and d != r.dtype:
            r = dom.astype(r, d)
        elif copy and shared and k.get("copy", True) is not False:
            r = r.copy()
        else:
            r = r.view()
        r.scalar = False
        r.py = False
        return wrap(r, u)
    return f


NP["array"] = _np_array(True)
NP["asarray"] = _np_array(False)
NP["ascontiguousarray"] = NP["asarray"]


@reg("asanyarray")
def np_asany(it, a, k):
    if isinstance(a[0], Q):
        return a[0]
    return NP["asarray"](it, a, k)


@reg("copy")
def np_copy(it, a, k):
    v = L.arr(it, a[0])
    r = L.split(it, v)[0].copy()
    r.scalar = False
    return r if not (isinstance(v, Q) and k.get("subok")) else Q(r, v.unit)


@reg("atleast_1d")
def np_al1(it, a, k):
    v = L.arr(it, a[0])
    if isinstance(v, Top):
        return v
    if v.shape != ():
        return v
    if isinstance(v, Q):
        return Q(dom.reshape(v.v, (1,)), v.unit)
    r = dom.reshape(v.copy(), (1,))
    return r


@reg("meshgrid")
def np_meshgrid(it, a, k):
    ix = k.get("indexing", "xy")
    vs = [L.split(it, x) for x in a]
    if len(vs) != 2:
        raise Unsupported("meshgrid arity")
    (x, xu), (y, yu) = vs
    x, y = dom.reshape(x, (-1,)), dom.reshape(y, (-1,))
    gx = dom.apply_struct(x, lambda p: np.meshgrid(p, np.zeros(y.size), indexing=ix)[0].copy())
    gy = dom.apply_struct(y, lambda p: np.meshgrid(np.zeros(x.size), p, indexing=ix)[1].copy())
    for g in (gx, gy):
        if g.size > dom.TERM_LIMIT:
            g.t = None
    return [wrap(gx, xu), wrap(gy, yu)]


@reg("outer")
def np_outer(it, a, k):
    x, xu = L.split(it, a[0])
    y, yu = L.split(it, a[1])
    return L.binop(it, "Mult", wrap(dom.reshape(x, (-1, 1)), xu), wrap(dom.reshape(y, (1, -1)), yu))


def _bcast(it, v, s):
    a, u = L.split(it, v)
    try:
        r = dom.apply_struct(a, lambda x: np.array(np.broadcast_to(x, s)))
    except ValueError as e:
        raise PyRaise(ValueError, str(e), it.site)
    if r.size > dom.TERM_LIMIT:
        r.t = None
    return wrap(r, u)


@reg("broadcast_to")
def np_bto(it, a, k):
    r = _bcast(it, a[0], _shape(it, a[1] if len(a) > 1 else k["shape"]))
    return r.v if isinstance(r, Q) and not k.get("subok") else r


@reg("broadcast_arrays")
def np_barr(it, a, k):
    s = np.broadcast_shapes(*[L.split(it, x)[0].shape for x in a])
    return [_bcast(it, x, s) for x in a]


def _struct(fn):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        try:
            r = dom.apply_struct(v, lambda x: fn(x, *a[1:], **k))
        except (ValueError, np.AxisError) as e:
            raise PyRaise(ValueError, str(e), it.site)
        return wrap(r, u)
    return f


def _cargs(it, xs):
    return [dom.concrete_index(x) if isinstance(x, A) else x for x in xs]


NP["squeeze"] = _struct(np.squeeze)
NP["transpose"] = _struct(np.transpose)
NP["swapaxes"] = _struct(np.swapaxes)
NP["moveaxis"] = _struct(np.moveaxis)
NP["expand_dims"] = _struct(np.expand_dims)
NP["flip"] = _struct(np.flip)
NP["flipud"] = _struct(np.flipud)
NP["fliplr"] = _struct(np.fliplr)


@reg("roll")
def np_roll(it, a, k):
    sh = a[1] if len(a) > 1 else k["shift"]
    return _struct(np.roll)(it, [a[0], L.as_int(it, sh)] + list(a[2:]), {x: y for x, y in k.items() if x != "shift"})


NP["ravel"] = _struct(lambda x: x.reshape(-1))


@reg("reshape")
def np_reshape(it, a, k):
    v, u = L.split(it, a[0])
    s = a[1] if len(a) > 1 else k.get("newshape", k.get("shape"))
    return wrap(dom.reshape(v, _shape(it, s)), u)


@reg("tile")
def np_tile(it, a, k):
    v, u = L.split(it, a[0])
    reps = _shape(it, a[1])
    return wrap(dom.apply_struct(v, lambda x: np.tile(x, reps)), u)


@reg("repeat")
def np_repeat(it, a, k):
    v, u = L.split(it, a[0])
    n = dom.concrete_index(L.arr(it, a[1]))
    ax = a[2] if len(a) > 2 else k.get("axis")
    return wrap(dom.apply_struct(v, lambda x: np.repeat(x, n, axis=ax)), u)


def _many(it, xs):
    vs = [L.split(it, x) for x in it.iterate(xs)]
    us = [u for _, u in vs if u is not None]
    if not vs:
        raise PyRaise(ValueError, "need at least one array to concatenate", it.site)
    if not us:
        return [v for v, _ in vs], None
    u0 = us[0]
    out = []
    for v, u in vs:
        if u is None:
            if v.size:
                v = L.plain_to(it, v, u0)
        else:
            v = L.to_unit(it, Q(v, u), u0).v
        out.append(v)
    return out, u0


@reg("concatenate")
def np_concat(it, a, k):
    vs, u = _many(it, a[0])
    ax = a[1] if len(a) > 1 else k.get("axis", 0)
    return wrap(dom.stack_struct(vs, lambda ps: np.concatenate(ps, axis=ax)), u)


@reg("stack")
def np_stack(it, a, k):
    vs, u = _many(it, a[0])
    ax = a[1] if len(a) > 1 else k.get("axis", 0)
    return wrap(dom.stack_struct(vs, lambda ps: np.stack(ps, axis=ax)), u)


@reg("vstack", "hstack", "column_stack")
def np_vstack(it, a, k):
    raise Unsupported("vstack")


def _stacker(f):
    def g(it, a, k):
        vs, u = _many(it, a[0])
        return wrap(dom.stack_struct(vs, f), u)
    return g


NP["dstack"] = _stacker(np.dstack)
NP["hstack"] = _stacker(np.hstack)
NP["vstack"] = _stacker(np.vstack)
NP["column_stack"] = _stacker(np.column_stack)


@reg("append")
def np_append(it, a, k):
    if k.get("axis") is not None or len(a) > 2:
        raise Unsupported("append axis")
    vs, u = _many(it, [a[0], a[1]])
    return wrap(dom.stack_struct([dom.reshape(v, (-1,)) for v in vs], np.concatenate), u)


@reg("insert", "delete")
def np_insert(it, a, k):
    raise Unsupported("insert/delete")


@reg("argwhere")
def np_argwhere(it, a, k):
    return from_np(np.argwhere(dom.bool_index(_b(it, a[0]))), "i8", False)


@reg("nonzero")
def np_nonzero(it, a, k):
    return tuple(from_np(x, "i8", False) for x in np.nonzero(dom.bool_index(_b(it, a[0]))))


@reg("flatnonzero")
def np_fnz(it, a, k):
    return from_np(np.flatnonzero(dom.bool_index(_b(it, a[0]))), "i8", False)


def _order(it, v):
    """Definite ascending order of a 1-d array (indices), or Undecided."""
    n = v.size
    key = (v.lo + v.hi) / 2
    key = np.where(np.isnan(key), v.lo, key)
    o = np.argsort(key, kind="stable")
    for i in range(n - 1):
        x, y = o[i], o[i + 1]
        if v.hi[x] <= v.lo[y]:
            continue
        if v.t is not None and v.t[x] is v.t[y]:
            continue
        raise Undecided("sort order")
    if v.nan.any():
        raise Undecided("sort with NaN")
    return o


@reg("sort")
def np_sort(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1:
        raise Unsupported("sort nd")
    try:
        return wrap(dom.getitem(v, from_np(_order(it, v), "i8", False)).copy(), u)
    except Undecided:
        r = from_np(np.zeros(v.shape))
        r.lo, r.hi = np.sort(v.lo), np.sort(v.hi)
        if r.t is not None:
            for i in range(r.size):
                r.t[i] = dom.fresh("sort")
        return wrap(r, u)


@reg("argsort")
def np_argsort(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1:
        raise Unsupported("argsort nd")
    return from_np(_order(it, v), "i8", False)


@reg("argmax", "argmin")
def np_argmax(it, a, k):
    raise Unsupported("argmax")


def _arg(which):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        if k.get("axis") is not None or len(a) > 1:
            raise Unsupported("argmax axis")
        v = dom.reshape(v, (-1,))
        if v.size == 0:
            raise PyRaise(ValueError, "attempt to get arg%s of an empty sequence" % which, it.site)
        i = int(np.argmin(v.hi)) if which == "min" else int(np.argmax(v.lo))
        for j in range(v.size):
            if j == i:
                continue
            if v.t is not None and v.t[i] is v.t[j]:
                if j < i:
                    raise Undecided("arg tie")
                continue
            if which == "min" and not v.hi[i] <= v.lo[j] or which == "max" and not v.lo[i] >= v.hi[j]:
                raise Undecided("argmin/argmax")
        return from_np(np.array(i), "i8", True)
    return f


NP["argmin"], NP["argmax"] = _arg("min"), _arg("max")


@reg("searchsorted", "digitize")
def np_searchsorted(it, a, k):
    v, u = L.split(it, a[0])
    x, xu = L.split(it, a[1])
    if u is not None and xu is not None:
        x = L.to_unit(it, Q(x, xu), u).v
    side = k.get("side", "left")
    lo = np.searchsorted(v.lo, x.lo, side=side), np.searchsorted(v.hi, x.hi, side=side)
    c1 = np.searchsorted(v.hi, x.lo, side=side)
    c2 = np.searchsorted(v.lo, x.hi, side=side)
    if not np.array_equal(c1, c2):
        raise Undecided("searchsorted")
    return from_np(c1, "i8")


@reg("interp")
def np_interp(it, a, k):
    raise Unsupported("interp")


@reg("percentile", "quantile", "nanpercentile")
def np_percentile(it, a, k):
    raise Unsupported("percentile")


def _pct(scale):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        q = _pl(it, a[1] if len(a) > 1 else k["q"])
        if k.get("axis") is not None or len(a) > 2:
            raise Unsupported("percentile axis")
        meth = k.get("method", k.get("interpolation", "linear"))
        if meth != "linear":
            raise Unsupported("percentile method")
        v = dom.reshape(v, (-1,))
        if v.size == 0:
            raise PyRaise(IndexError, "percentile of empty array", it.site)
        if q.shape != ():
            raise Unsupported("percentile array q")
        if float(q.hi) < -1e-9 or float(q.lo) > scale * (1 + 1e-9):
            raise PyRaise(ValueError, "Percentiles must be in the range [0, 100]", it.site)
        ql, qh = max(0.0, float(q.lo)), min(float(scale), float(q.hi))
        lo = np.percentile(v.lo, ql * 100 / scale)
        hi = np.percentile(v.hi, qh * 100 / scale)
        t = None
        if v.t is not None:
            t = np.empty((), object)
            t[()] = None
            try:
                o = _order(it, v)
                pos = float(q.lo) * (v.size - 1) / scale
                if q.is_point() and abs(pos - round(pos)) < 1e-12:
                    t[()] = v.t[o[int(round(pos))]]
                elif int(math.floor(ql * (v.size - 1) / scale)) == int(math.floor(qh * (v.size - 1) / scale)):
                    i = int(math.floor(ql * (v.size - 1) / scale))
                    x, y = v.t[o[i]], v.t[o[min(i + 1, v.size - 1)]]
                    if q.t is not None:
                        fr = tm.sub(tm.mul(tm.const((v.size - 1) / scale), q.t[()]), tm.const(i))
                        t[()] = tm.add(x, tm.mul(fr, tm.sub(y, x)))
            except Undecided:
                pass
            if t[()] is None:
                t[()] = dom.fresh("pct")
        nan = np.array(v.nan.max(), np.int8)
        r = dom._finish(np.array(lo), np.array(hi), nan, t, "f8", True, False)
        return wrap(r, u)
    return f


NP["percentile"] = NP["nanpercentile"] = _pct(100)
NP["quantile"] = _pct(1)
NP["median"] = lambda it, a, k: _pct(100)(it, [a[0], 50.0], {})


@reg("unique")
def np_unique(it, a, k):
    v, u = L.split(it, a[0])
    if k.get("axis") is not None:
        raise Unsupported("unique options")
    shape0 = v.shape
    v = dom.reshape(v, (-1,))
    if v.nan.any():
        raise Undecided("unique with NaN")
    groups = []   # representative index, members
    for i in range(v.size):
        placed = False
        for g in groups:
            j = g[0]
            same = (v.t is not None and v.t[i] is v.t[j]) or (v.lo[i] == v.hi[i] == v.lo[j] == v.hi[j])
            if same:
                g.append(i)
                placed = True
                break
            if not (v.hi[i] < v.lo[j] or v.hi[j] < v.lo[i]):
                raise Undecided("unique: equality not decided %r %r" % (v.t is not None and v.t[i], v.t is not None and v.t[j]))
        if not placed:
            groups.append([i])
    reps = sorted((g[0] for g in groups), key=lambda i: v.lo[i])
    r = dom.getitem(v, from_np(np.array(reps, int), "i8", False)).copy() if reps else from_np(np.zeros(0))
    r.scalar = False
    out = [wrap(r, u)]
    of = {g[0]: g for g in groups}
    if k.get("return_index"):
        out.append(from_np(np.array([min(of[i]) for i in reps], int), "i8", False))
    if k.get("return_inverse"):
        inv = np.zeros(v.size, int)
        for n_, i in enumerate(reps):
            inv[of[i]] = n_
        out.append(from_np(inv, "i8", False))
    if k.get("return_counts"):
        out.append(from_np(np.array([len(of[i]) for i in reps], int), "i8", False))
    return out[0] if len(out) == 1 else tuple(out)


@reg("bincount")
def np_bincount(it, a, k):
    x, _ = L.split(it, a[0])
    w = a[1] if len(a) > 1 else k.get("weights")
    mn = a[2] if len(a) > 2 else k.get("minlength", 0)
    mn = int(mn.lo) if isinstance(mn, A) else int(mn)
    if not x.is_point():
        raise Undecided("bincount of abstract integers")
    idx = x.lo.reshape(-1).astype(int)
    n = max(int(idx.max()) + 1 if idx.size else 0, mn)
    if w is None:
        return from_np(np.bincount(idx, minlength=n), "i8", False)
    wv, wu = L.split(it, w)
    if wu is not None and any(wu.dims):
        raise Unsupported("bincount with units")
    wv = dom.reshape(wv, (-1,))
    parts = []
    for j in range(n):
        sel = np.nonzero(idx == j)[0]
        parts.append(dom.reshape(dom.rsum(dom.getitem(wv, from_np(sel, "i8", False))), (1,)) if sel.size
                     else from_np(np.zeros(1)))
    r = NP["concatenate"](it, [list(parts)], {})
    return r


@reg("isclose")
def np_isclose(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    rtol = a[2] if len(a) > 2 else k.get("rtol", 1e-5)
    atol = a[3] if len(a) > 3 else k.get("atol", 1e-8)
    if isinstance(atol, Q):
        atol = L.to_unit(it, atol, u).v
    d = dom.absv(dom.sub(x, y))
    return dom.compare("<=", d, dom.add(L.arr(it, atol), dom.mul(L.arr(it, rtol), dom.absv(y))))


@reg("allclose")
def np_allclose(it, a, k):
    return dom.rall(np_isclose(it, a, k))


@reg("array_equal")
def np_aeq(it, a, k):
    x, xu = L.split(it, a[0])
    y, yu = L.split(it, a[1])
    if x.shape != y.shape:
        return False
    return dom.rall(L.compare(it, "Eq", wrap(x, xu), wrap(y, yu)))


@reg("isin", "in1d")
def np_isin(it, a, k):
    x = L.arr(it, a[0])
    r = None
    for y in it.iterate(L.arr(it, a[1])):
        c = L.compare(it, "Eq", x, y)
        r = c if r is None else dom.bor(r, c)
    if r is None:
        return dom.mkbool(np.zeros(x.shape, bool), np.zeros(x.shape, bool))
    return r


@reg("shape")
def np_shape(it, a, k):
    return tuple(L.split(it, a[0])[0].shape)


@reg("ndim")
def np_ndim(it, a, k):
    return L.split(it, a[0])[0].ndim


@reg("size")
def np_size(it, a, k):
    return L.split(it, a[0])[0].size


@reg("isscalar")
def np_isscalar(it, a, k):
    return isinstance(a[0], (int, float, str)) or isinstance(a[0], A) and a[0].scalar


@reg("round", "around", "round_")
def np_round(it, a, k):
    v = L.arr(it, a[0])
    nd = a[1] if len(a) > 1 else k.get("decimals", 0)
    nd = L.as_int(it, nd)
    if isinstance(v, Q):
        return Q(dom.rnd(v.v, nd), v.unit)
    return v if isinstance(v, Top) else dom.rnd(v, nd)


@reg("dot", "matmul", "inner", "vdot")
def np_dot(it, a, k):
    x, xu = L.split(it, a[0])
    y, yu = L.split(it, a[1])
    r = L.matmul(it, x, y) if x.ndim and y.ndim else dom.mul(x, y)
    return wrap(r, None if xu is None and yu is None else U.mul(xu or U.ONE, yu or U.ONE))


@reg("errstate", "printoptions")
def np_errstate(it, a, k):
    return Builtin("ctx", lambda it, a, k: None)


@reg("seterr")
def np_seterr(it, a, k):
    return None


@reg("result_type", "can_cast", "promote_types")
def np_rt(it, a, k):
    return Top("dtype")


@reg("may_share_memory", "shares_memory")
def np_share(it, a, k):
    return Top("shares")


@reg("full_range", "fromiter")
def np_fromiter(it, a, k):
    return NP["array"](it, [it.iterate(a[0])] + list(a[1:]), k)


@reg("vectorize")
def np_vectorize(it, a, k):
    f = a[0]

    def g(it, aa, kk):
        vs = [L.split(it, x) for x in aa]
        s = np.broadcast_shapes(*[v.shape for v, _ in vs])
        bs = [L.split(it, _bcast(it, wrap(v, u), s)) for v, u in vs]
        out = []
        for idx in np.ndindex(s):
            out.append(it.call(f, [wrap(dom.getitem(v, idx), u) for v, u in bs], {}))
        if s == ():
            return out[0]
        return dom.reshape(L.split(it, L.arr(it, out))[0], s)
    return Builtin("vectorized", g)


@reg("einsum", "tensordot", "convolve", "histogram", "gradient", "polyval", "polyfit", "fft", "apply_along_axis",
     "put", "place", "copyto", "piecewise", "triu", "tril", "eye", "identity", "kron", "cross", "ogrid", "mgrid", "indices")
def np_unsup(it, a, k):
    raise Unsupported("numpy function")


@reg("copyto")
def np_copyto(it, a, k):
    dst, src = a[0], a[1]
    wh = a[3] if len(a) > 3 else k.get("where", True)
    if wh is True:
        it.setitem(dst, Ellipsis, src)
    else:
        d, du = L.split(it, dst)
        s, su = L.split(it, src)
        if du is not None and su is not None:
            s = L.to_unit(it, Q(s, su), du).v
        it._store_into(d, dom.where(_b(it, wh), s, d))
    return None


@reg("putmask")
def np_putmask(it, a, k):
    return np_copyto(it, [a[0], a[2], None, a[1]], {})


@reg("polyval")
def np_polyval(it, a, k):
    r = 0
    for c in it.iterate(a[0]):
        r = L.binop(it, "Add", L.binop(it, "Mult", r, a[1]), c)
    return r


@reg("eye", "identity")
def np_eye(it, a, k):
    return from_np(np.eye(L.as_int(it, a[0])))


@reg("ndindex")
def np_ndindex(it, a, k):
    s = _shape(it, a[0]) if len(a) == 1 else tuple(L.as_int(it, x) for x in a)
    return list(np.ndindex(s))


@reg("ndenumerate")
def np_ndenum(it, a, k):
    v, u = L.split(it, a[0])
    return [(i, wrap(dom.getitem(v, i), u)) for i in np.ndindex(v.shape)]


@reg("unravel_index")
def np_unravel(it, a, k):
    i = dom.concrete_index(L.arr(it, a[0]))
    r = np.unravel_index(i, _shape(it, a[1]))
    return tuple(from_np(np.array(x), "i8") for x in r)


def _npt(name, code, test):
    def ctor(it, a, k):
        v = L.arr(it, a[0] if a else 0)
        if isinstance(v, Q):
            if not v.unit.is_dimless():
                raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
            v = L.to_unit(it, v, U.ONE).v
        r = dom.astype(v, code)
        r.py = False
        r.scalar = r.shape == ()
        return r
    return NType(name, test, ctor, {"code": code})


def _sc(*codes):
    return lambda v: isinstance(v, A) and v.scalar and not v.py and v.dtype in codes


def numpy_module(it, name="numpy", jaxlike=False):
    ns = {}
    for n, f in NP.items():
        ns[n] = Builtin("np." + n, f)
    for n, op in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", logical_or=None, logical_and=None,
                      maximum=None, minimum=None).items():
        f = NP[n]

        def red(it, a, k, n=n):
            k = dict(k)
            rest = list(a[1:])
            axis = rest[0] if rest else k.get("axis", 0)
            kw = {"axis": axis}
            if k.get("keepdims"):
                kw["keepdims"] = True
            for o in ("initial", "where", "out", "dtype"):
                if k.get(o) is not None:
                    raise Unsupported("reduce with %s" % o)
            g = {"logical_or": "any", "logical_and": "all", "maximum": "max", "minimum": "min", "add": "sum",
                 "multiply": "prod"}.get(n)
            if g is None:
                raise Unsupported("reduce")
            return NP[g](it, [a[0]], kw)

        def acc(it, a, k, f=f, n=n):
            if n == "add":
                return NP["cumsum"](it, a[:1], {})
            v, u = L.split(it, a[0])
            if v.ndim != 1:
                raise Unsupported("accumulate nd")
            xs = []
            for x in it.iterate(a[0]):
                xs.append(f(it, [xs[-1], x], {}) if xs else x)
            return NP["array"](it, [xs], {}) if u is None else NP["stack"](it, [xs], {})

        def outer(it, a, k, f=f):
            x, xu = L.split(it, a[0])
            y, yu = L.split(it, a[1])
            sx, sy = x.shape, y.shape
            return f(it, [wrap(dom.reshape(x, sx + (1,)*len(sy)), xu), wrap(dom.reshape(y, (1,)*len(sx) + sy), yu)], {})
        b = Builtin("np." + n, f)
        b.ufunc = {"reduce": Builtin("np.%s.reduce" % n, red), "accumulate": Builtin("np.%s.accumulate" % n, acc),
                   "outer": Builtin("np.%s.outer" % n, outer)}
        ns[n] = b
    ns["true_divide"] = ns["divide"]
    from .npmore import Grid
    for n in ("mgrid", "ogrid", "r_", "c_", "s_"):
        ns[n] = Grid(n)

    def add_at(it, a, k):
        if not isinstance(a[0], A):
            raise Unsupported("add.at")
        v = a[0]
        ix = dom.concrete_index(L.arr(it, a[1]))
        ix = np.broadcast_to(np.asarray(ix), np.asarray(ix).shape)
        if v.ndim != 1 or ix.ndim != 1 or ix.dtype == bool:
            raise Unsupported("add.at")
        w = dom.apply_struct(L.split(it, a[2])[0], lambda x: np.array(np.broadcast_to(x, ix.shape)))
        for j, i in enumerate(ix):
            dom.setitem(v, int(i), dom.add(dom.getitem(v, int(i)), dom.getitem(w, j)))
    ns["add"].ufunc["at"] = Builtin("np.add.at", add_at)
    ns.update(pi=math.pi, e=math.e, inf=math.inf, Inf=math.inf, nan=math.nan, NaN=math.nan, newaxis=None, Infinity=math.inf)
    ns["ndarray"] = it.NDARRAY
    ns["float64"] = _npt("float64", "f8", _sc("f8"))
    ns["double"] = ns["float64"]
    ns["float_"] = ns["float64"]
    ns["float32"] = _npt("float32", "f4", _sc("f4"))
    ns["float16"] = _npt("float16", "f2", _sc("f2"))
    for n in ("int64", "int32", "int16", "int8", "int_", "intp", "uint8"):
        ns[n] = _npt(n, "i8", _sc("i8"))
    ns["bool_"] = _npt("bool_", "b1", _sc("b1"))
    ns["integer"] = NType("integer", _sc("i8"))
    ns["floating"] = NType("floating", _sc("f8", "f4"))
    ns["number"] = NType("number", _sc("f8", "f4", "i8"))
    ns["generic"] = NType("generic", _sc("f8", "f4", "i8", "b1"))
    ns["dtype"] = Builtin("dtype", lambda it, a, k: a[0])
    if not jaxlike:
        rnd = ModV("numpy.random")

        def default_rng(it, a, k):
            seed = a[0] if a else k.get("seed")
            if isinstance(seed, Rng):
                return seed
            if seed is None:
                it.ambient("unseeded default_rng")
                it.nrng += 1
                return Rng("unseeded#%d" % it.nrng, it.site)
            it.nrng += 1
            return Rng("seeded(%s)#%d" % (seed, it.nrng), it.site)
        rnd.ns["default_rng"] = Builtin("default_rng", default_rng)
        rnd.ns["Generator"] = NType("Generator", lambda v: isinstance(v, Rng))
        rnd.ns["RandomState"] = Builtin("RandomState", default_rng)
        rnd.ns["SeedSequence"] = Builtin("SeedSequence", lambda it, a, k: Top("SeedSequence"))
        g = it.global_rng
        rnd.ns["seed"] = Builtin("seed", lambda it, a, k: _log(it, g, "seed", (), None, None))

        def getter(n):
            if n[0].isupper() or n.startswith("_"):
                return None
            return rng_method(it, g, n)

        def randint(it, a, k):
            _log(it, g, "randint", (), None, None)
            v = it.ctx.draw("global.randint%d" % len(it.draws), 1, 1000)
            v.dtype = "i8"
            v.py = True
            return v
        rnd.ns["randint"] = Builtin("randint", randint)
        rnd.getter = getter
        ns["random"] = rnd
    la = ModV(name + ".linalg")

    def norm(it, a, k):
        if len(a) > 1 and a[1] not in (None, 2) or k.get("ord") not in (None, 2):
            raise Unsupported("norm options")
        v, u = L.split(it, a[0])
        ax = a[2] if len(a) > 2 else k.get("axis")
        return wrap(dom.sqrt(dom.rsum(dom.int_pow(v, 2), ax, keepdims=bool(k.get("keepdims")))), u)
    la.ns["norm"] = Builtin("norm", norm)
    ns["linalg"] = la
    return ModV(name, ns)


# ====================================================================== attributes of native values
def attr(it, o, name):
    if isinstance(o, A):
        return a_attr(it, o, name)
    if isinstance(o, Q):
        return q_attr(it, o, name)
    if isinstance(o, U.Unit):
        return unit_attr(it, o, name)
    if isinstance(o, Rng):
        if name == "bit_generator":
            return Top("bit_generator")
        return rng_method(it, o, name)
    if isinstance(o, list):
        return list_attr(it, o, name)
    if isinstance(o, ADict):
        return dict_attr(it, o, name)
    if isinstance(o, (str, AStr)):
        return str_attr(it, o, name)
    if isinstance(o, tuple):
        if name == "index":
            return list_attr(it, list(o), "index")
        if name == "count":
            return list_attr(it, list(o), "count")
        return _noattr(it, "tuple", name, tuple)
    if isinstance(o, ExitStackV):
        return exitstack_attr(it, o, name)
    if isinstance(o, ASet):
        return set_attr(it, o, name)
    if isinstance(o, bool) or o is None:
        return _noattr(it, type(o).__name__, name, type(o))
    if isinstance(o, (int, float)):
        if name == "real":
            return o
        if name == "is_integer":
            return Builtin("is_integer", lambda it, a, k: float(o).is_integer())
        return _noattr(it, type(o).__name__, name, type(o))
    if isinstance(o, GPV):
        return gp_attr(it, o, name)
    if isinstance(o, NType):
        if name in o.ns:
            return o.ns[name]
        if name == "__name__":
            return o.name
        return Top("%s.%s" % (o.name, name))
    if isinstance(o, Builtin):
        if name in getattr(o, "members", ()):
            return o.members[name]
        if name in getattr(o, "ufunc", ()):
            return o.ufunc[name]
        if o.name == "dict" and name == "fromkeys":
            def fk(it, a, k):
                d = ADict()
                for x in it.iterate(a[0]):
                    it.dict_set(d, x, a[1] if len(a) > 1 else None)
                return d
            return Builtin("fromkeys", fk)
        if name in ("__name__", "__qualname__"):
            return o.name
        if o.name == "object" and name == "__setattr__":
            return Builtin("object.__setattr__", lambda it, a, k: a[0].attrs.__setitem__(a[1], a[2]))
        if o.name == "object" and name == "__getattribute__":
            return Builtin("object.__getattribute__", lambda it, a, k: a[0].attrs[a[1]])
        return Top("%s.%s" % (o.name, name))
    if isinstance(o, PyRaise):
        if name == "args":
            return (o.msg,)
        if o.value is not None:
            return it._getattr(o.value, name)
        return Top("exc." + name)
    if isinstance(o, BaseException):
        return Top("exc." + name)
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, (FuncV, Prop, StaticM, ClassM, KeyV, Partial)):
        return Top("%s.%s" % (type(o).__name__, name))
    if isinstance(o, range):
        return getattr(o, name)
    if isinstance(o, type):
        if name == "__name__":
            return o.__name__
        return Top("type." + name)
    raise Unsupported("attribute %s of %r" % (name, o))


_METH = ("sum", "mean", "min", "max", "any", "all", "cumsum", "argmax", "argmin", "clip", "round", "squeeze",
         "transpose", "repeat", "prod", "std", "var", "ravel", "nonzero", "take", "compress", "cumprod", "searchsorted", "argsort", "dot", "ptp", "swapaxes")


def _copyflat(it, o):
    r = dom.reshape(o, (-1,)).copy()
    r.scalar = False
    return r


def a_attr(it, o, name):
    if o.py and name not in ("real", "is_integer"):
        return _noattr(it, "float", name, float, int)
    if name == "shape":
        return tuple(o.shape)
    if name == "ndim":
        return o.ndim
    if name == "size":
        return o.size
    if name == "T":
        return dom.apply_struct(o, lambda x: x.T)
    if name == "dtype":
        return _npt({"f8": "float64", "f4": "float32", "f2": "float16", "i8": "int64", "b1": "bool"}[o.dtype], o.dtype, _sc(o.dtype))
    if name == "flat":
        return dom.reshape(o, (-1,))
    if name == "real":
        return o
    if name == "astype":
        def f(it, a, k):
            dt = dtcode(it, a[0] if a else k["dtype"]) or o.dtype
            r = o if dt == o.dtype and not o.scalar else dom.astype(o, dt)
            if r is o and k.get("copy", True) is not False:
                r = o.copy()
            return r
        return Builtin("astype", f)
    if name == "copy":
        return Builtin("copy", lambda it, a, k: o.copy())
    if name == "view":
        return Builtin("view", lambda it, a, k: o.view() if not a else Top("view"))
    if name == "flatten":
        return Builtin("flatten", lambda it, a, k: _copyflat(it, o))
    if name == "reshape":
        def f(it, a, k):
            s = a[0] if len(a) == 1 else tuple(a)
            return dom.reshape(o, _shape(it, s))
        return Builtin("reshape", f)
    if name == "tolist":
        return Builtin("tolist", lambda it, a, k: _tolist(o))
    if name == "item":
        def f(it, a, k):
            r = dom.getitem(o, a[0] if a else (0,) * o.ndim) if o.ndim else o.as_scalar()
            r = r.copy()
            r.scalar = True
            r.py = True
            return r
        return Builtin("item", f)
    if name == "fill":
        def f(it, a, k):
            it.setitem(o, Ellipsis, a[0])
        return Builtin("fill", f)
    if name == "sort":
        def f(it, a, k):
            r = NP["sort"](it, [o], {})
            it._store_into(o, r)
        return Builtin("sort", f)
    if name == "is_integer":
        return Builtin("is_integer", lambda it, a, k: dom.compare("==", o, dom.floor(o)))
    if name == "at":
        return Top("jax at")
    if name in _METH:
        f = NP[name]
        if name == "transpose":
            return Builtin(name, lambda it, a, k: f(it, [o] + ([tuple(a)] if a and not isinstance(a[0], tuple) else list(a)), k))
        return Builtin(name, lambda it, a, k: f(it, [o] + list(a), k))
    if name in ("value", "unit", "to", "to_value"):
        raise PyRaise(AttributeError, "'numpy.ndarray' object has no attribute %r" % name, it.site)
    if name in ("mask", "data", "base", "flags", "nbytes", "strides", "itemsize", "setflags", "tobytes"):
        return Top("ndarray." + name) if name != "setflags" else Builtin("setflags", lambda it, a, k: None)
    if hasattr(np.ndarray, name):
        return Top("ndarray." + name)
    raise PyRaise(AttributeError, "'numpy.ndarray' object has no attribute %r" % name, it.site)


def _tolist(o):
    if o.shape == ():
        r = o.copy()
        r.scalar = True
        r.py = True
        return r
    return [_tolist(dom.getitem(o, i)) for i in range(o.shape[0])]


def _unit_arg(it, x):
    if isinstance(x, U.Unit):
        return x
    if isinstance(x, str):
        return L.parse_unit(it, x)
    if isinstance(x, Q):
        if not x.v.is_point() or x.shape != ():
            raise Undecided("unit from quantity")
        return U.Unit(x.unit.dims, x.unit.scale * float(x.v.lo))
    if isinstance(x, Top):
        raise Undecided("unknown unit")
    L.terr(it, "not a unit: %r" % (x,), x)


def value_of(q):
    """Quantity.value: a view for arrays, an immutable number for scalars."""
    if q.shape == ():
        r = q.v.as_scalar()
        r.py = False
        return r
    return q.v.view()


def q_attr(it, o, name):
    if name == "value":
        return value_of(o)
    if name == "unit":
        return o.unit
    if name == "to":
        def f(it, a, k):
            u = _unit_arg(it, a[0] if a else k["unit"])
            if len(a) > 1 or "equivalencies" in k:
                raise Unsupported("equivalencies")
            return L.to_unit(it, o, u)
        return Builtin("to", f)
    if name == "to_value":
        def f(it, a, k):
            x = a[0] if a else k.get("unit")
            if len(a) > 1 or "equivalencies" in k:
                raise Unsupported("equivalencies")
            if x is None:
                return value_of(o)
            u = _unit_arg(it, x)
            if o.unit.dims == u.dims and abs(o.unit.scale / u.scale - 1) < 1e-15:
                return value_of(o)
            return value_of(L.to_unit(it, o, u))
        return Builtin("to_value", f)
    if name == "si":
        return L.to_unit(it, o, U.Unit(o.unit.dims, 1.0))
    if name in ("decompose",):
        return Builtin("decompose", lambda it, a, k: L.to_unit(it, o, U.Unit(o.unit.dims, 1.0)))
    if name == "cgs":
        sc = 1.0
        for d, e in o.unit.dims.items():
            sc *= {"m": 1e-2, "kg": 1e-3}.get(d, 1.0) ** float(e)
        return L.to_unit(it, o, U.Unit(o.unit.dims, sc))
    if name == "isscalar":
        return o.shape == ()
    if name in ("shape", "ndim", "size", "dtype"):
        return a_attr(it, _nopy(o.v), name)
    if name == "T":
        return Q(dom.apply_struct(o.v, lambda x: x.T), o.unit)
    if name == "copy":
        return Builtin("copy", lambda it, a, k: Q(o.v.copy(), o.unit))
    if name == "flatten":
        return Builtin("flatten", lambda it, a, k: Q(_copyflat(it, o.v), o.unit))
    if name == "astype":
        return Builtin("astype", lambda it, a, k: Q(dom.astype(o.v, dtcode(it, a[0])), o.unit))
    if name == "reshape":
        def f(it, a, k):
            s = a[0] if len(a) == 1 else tuple(a)
            return Q(dom.reshape(o.v, _shape(it, s)), o.unit)
        return Builtin("reshape", f)
    if name == "item":
        return Builtin("item", lambda it, a, k: Q(dom.getitem(o.v, a[0]) if a else dom.reshape(o.v, ()).copy(), o.unit))
    if name == "tolist":
        return Builtin("tolist", lambda it, a, k: _tolist(o.v))
    if name == "view":
        return Builtin("view", lambda it, a, k: o.v.view() if a and a[0] is it.NDARRAY else Top("view"))
    if name == "fill":
        return Builtin("fill", lambda it, a, k: it.setitem(o, Ellipsis, a[0]))
    if name in ("real",):
        return o
    if name in _METH:
        f = NP[name]
        return Builtin(name, lambda it, a, k: f(it, [o] + list(a), k))
    if name in ("info", "equivalencies", "to_string", "_repr_latex_", "base", "flags", "cgs"):
        return Top("Quantity." + name)
    # astropy: q.<unit name>  -> converts
    if name in U.TABLE and U.TABLE[name].dims == o.unit.dims:
        return L.to_unit(it, o, U.TABLE[name])
    if name.startswith("__") or hasattr(np.ndarray, name) or name in (
            "si", "cgs", "decompose", "info", "isscalar", "equivalencies", "to_string", "diff", "ediff1d", "insert", "nansum", "unmasked"):
        return Top("Quantity." + name)
    raise PyRaise(AttributeError, "'Quantity' object has no %r member" % name, it.site)


def _nopy(a):
    r = a.view()
    r.py = False
    return r


def unit_attr(it, o, name):
    if name == "to":
        def f(it, a, k):
            u = _unit_arg(it, a[0])
            f = L.scale_factor(it, o, u)
            return L.binop(it, "Mult", a[1] if len(a) > 1 else 1.0, f)
        return Builtin("unit.to", f)
    if name == "is_equivalent":
        return Builtin("is_equivalent", lambda it, a, k: o.dims == _unit_arg(it, a[0]).dims)
    if name in ("to_string",):
        return Builtin("to_string", lambda it, a, k: o.to_string())
    if name in ("name", "__name__"):
        return o.to_string()
    if name == "physical_type":
        return AStr([(None, "ptype", 0, 0)]) if o.dims else "dimensionless"
    if name in ("si",):
        return U.Unit(o.dims, 1.0)
    if name == "decompose":
        return Builtin("decompose", lambda it, a, k: o)
    if name == "scale":
        return 1.0
    return Top("Unit." + name)


def deque_attr(it, o, name):
    def trim(left):
        while o.maxlen is not None and len(o) > o.maxlen:
            o.pop(-1 if left else 0)

    def f(it, a, k):
        if name in ("append", "appendleft"):
            o.insert(len(o) if name == "append" else 0, a[0])
            trim(name == "appendleft")
        elif name in ("extend", "extendleft"):
            for x in it.iterate(a[0]):
                o.insert(len(o) if name == "extend" else 0, x)
                trim(name == "extendleft")
        elif name in ("pop", "popleft"):
            if not o:
                raise PyRaise(IndexError, "pop from an empty deque", it.site)
            return o.pop(-1 if name == "pop" else 0)
        elif name == "rotate":
            n = L.as_int(it, a[0]) if a else 1
            if o:
                n %= len(o)
                o[:] = o[len(o) - n:] + o[:len(o) - n]
        elif name == "copy":
            r = Deque(o)
            r.maxlen = o.maxlen
            return r
    if name == "maxlen":
        return o.maxlen
    if name in ("append", "appendleft", "extend", "extendleft", "pop", "popleft", "rotate", "copy"):
        return Builtin("deque." + name, f)
    return None


def list_attr(it, o, name):
    if isinstance(o, AIter):
        if name in ("__next__", "__iter__"):
            return Builtin(name, lambda it, a, k: it.call(it.builtins[name.strip("_")], [o], {}))
        if name == "close":
            return Builtin(name, lambda it, a, k: o.clear())
        return _noattr(it, "generator", name, type(x for x in ()), map)
    if isinstance(o, Deque) and deque_attr(it, o, name) is not None:
        return deque_attr(it, o, name)

    def f(it, a, k):
        if name == "append":
            o.append(a[0])
        elif name == "extend":
            o.extend(it.iterate(a[0]))
        elif name == "insert":
            o.insert(L.as_int(it, a[0]), a[1])
        elif name == "pop":
            try:
                return o.pop(L.as_int(it, a[0])) if a else o.pop()
            except IndexError as e:
                raise PyRaise(IndexError, str(e), it.site)
        elif name == "clear":
            o.clear()
        elif name == "copy":
            return list(o)
        elif name == "reverse":
            o.reverse()
        elif name == "sort":
            o[:] = L.sort_list(it, list(o), k.get("key"), it.truth(k.get("reverse", False)))
        elif name in ("index", "remove", "count"):
            n = 0
            for i, x in enumerate(o):
                if x is a[0] or it.truth(L.compare(it, "Eq", x, a[0])):
                    if name == "index":
                        return i
                    if name == "remove":
                        del o[i]
                        return None
                    n += 1
            if name == "count":
                return n
            raise PyRaise(ValueError, "not in list", it.site)
        return None
    if name in ("append", "extend", "insert", "pop", "clear", "copy", "reverse", "sort", "index", "remove", "count"):
        return Builtin("list." + name, f)
    return _noattr(it, "list", name, list, *([_deque] if isinstance(o, Deque) else []))


def dict_attr(it, o, name):
    def f(it, a, k):
        if name == "keys":
            return o.keys()
        if name == "values":
            return o.values()
        if name == "items":
            return [tuple(kv) for kv in o.items_]
        if name == "get":
            it.check_hashable(a[0])
            i = it.dict_find(o, a[0])
            return o.items_[i][1] if i >= 0 else (a[1] if len(a) > 1 else k.get("default"))
        if name == "setdefault":
            it.check_hashable(a[0])
            i = it.dict_find(o, a[0])
            if i >= 0:
                return o.items_[i][1]
            v = a[1] if len(a) > 1 else None
            o.items_.append([a[0], v])
            return v
        if name == "pop":
            i = it.dict_find(o, a[0])
            if i >= 0:
                return o.items_.pop(i)[1]
            if len(a) > 1:
                return a[1]
            raise PyRaise(KeyError, str(a[0]), it.site)
        if name == "popitem":
            if not o.items_:
                raise PyRaise(KeyError, "popitem(): dictionary is empty", it.site)
            return tuple(o.items_.pop())
        if name == "update":
            if a and o.factory == "$counter":
                if isinstance(a[0], Top):
                    raise Undecided("dict update")
                for kk, v in ([tuple(kv) for kv in a[0].items_] if isinstance(a[0], ADict) else [(x, 1) for x in it.iterate(a[0])]):
                    it.dict_set(o, kk, L.binop(it, "Add", it.getitem(o, kk), v))
            elif a:
                L.dict_update(it, o, a[0])
            for kk, v in k.items():
                it.dict_set(o, kk, v)
            return None
        if name == "copy":
            return o.copy()
        if name == "clear":
            o.items_.clear()
            return None
        if name == "move_to_end":
            i = it.dict_find(o, a[0])
            o.items_.append(o.items_.pop(i))
    if name in ("keys", "values", "items", "get", "setdefault", "pop", "popitem", "update", "copy", "clear", "move_to_end"):
        return Builtin("dict." + name, f)
    return _noattr(it, "dict", name, dict, _Counter, _OD, _CM)


def set_attr(it, o, name):
    def f(it, a, k):
        if name == "add":
            if not any(it.key_eq(x, a[0]) for x in o.items_):
                o.items_.append(a[0])
        elif name in ("discard", "remove"):
            for i, x in enumerate(o.items_):
                if it.key_eq(x, a[0]):
                    del o.items_[i]
                    return None
            if name == "remove":
                raise PyRaise(KeyError, "", it.site)
        elif name == "union":
            return L.mkset(it, o.items_ + it.iterate(a[0]))
        elif name == "update":
            o.items_[:] = L.mkset(it, o.items_ + it.iterate(a[0])).items_
        elif name in ("intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            other = [x for y in a for x in it.iterate(y)] if name == "difference" else it.iterate(a[0])
            if name == "intersection" and len(a) > 1:
                raise Unsupported("set." + name)

            def has(xs, v):
                return any(it.key_eq(x, v) for x in xs)
            if name == "intersection":
                return ASet([x for x in o.items_ if has(other, x)])
            if name == "difference":
                return ASet([x for x in o.items_ if not has(other, x)])
            if name == "symmetric_difference":
                return L.mkset(it, [x for x in o.items_ if not has(other, x)] + [x for x in other if not has(o.items_, x)])
            if name == "issubset":
                return all(has(other, x) for x in o.items_)
            if name == "issuperset":
                return all(has(o.items_, x) for x in other)
            return not any(has(other, x) for x in o.items_)
        elif name == "copy":
            return ASet(list(o.items_))
        elif name == "clear":
            o.items_.clear()
        else:
            raise Unsupported("set." + name)
    return Builtin("set." + name, f)


def _noattr(it, kind, name, *types):
    """AttributeError, unless a type the value may stand for has the attribute."""
    if any(hasattr(t, name) for t in types):
        if kind in ("list", "dict", "generator"):
            raise Unsupported("%s.%s" % (kind, name))
        return Top("%s.%s" % (kind, name))
    raise PyRaise(AttributeError, "%r object has no attribute %r" % (kind, name), it.site)


def str_attr(it, o, name):
    def f(it, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) for x in a):
            if name == "join":
                pass
            elif name == "format":
                if all(isinstance(x, (str, int, float)) for x in list(a) + list(k.values())):
                    return o.format(*a, **k)
                return L.str_format(it, o, a, k)
            else:
                return getattr(o, name)(*a)
        if name == "format" and isinstance(o, str):
            return L.str_format(it, o, a, k)
        if name == "join":
            xs = it.iterate(a[0])
            parts = []
            for i, x in enumerate(xs):
                if i:
                    parts.append(o)
                parts.append(x)
            return L.join_parts(parts)
        if isinstance(o, AStr):
            if name == "split":
                # '<num> unit'.split()
                ps = list(o.parts)
                if not a and len(ps) == 2 and not isinstance(ps[0], str) and isinstance(ps[1], str) and ps[1].startswith(" "):
                    return [AStr([ps[0]]), ps[1].strip()]
            if name == "strip":
                return o
        if name in ("split", "partition", "rsplit"):
            raise Undecided("split of abstract string")
        return AStr([(None, name, 0, 0)])
    if not hasattr(str, name):
        raise PyRaise(AttributeError, "'str' object has no attribute %r" % name, it.site)
    return Builtin("str." + name, f)


# ====================================================================== tinygp
def gp_attr(it, o, name):
    if name == "sample":
        def f(it, a, k):
            key = a[0] if a else k.get("key")
            shape = a[1] if len(a) > 1 else k.get("shape")
            if shape is not None:
                return Top("gp.sample shape")
            xv, xu = L.split(it, o.X)
            rec = {"key": key.seed if isinstance(key, KeyV) else key, "X": o.X, "mean": o.mean, "kernel": o.kernel, "diag": o.diag, "site": it.site}
            it.gps.append(rec)
            n = xv.size if xv.ndim else 1
            sd = key.seed if isinstance(key, KeyV) else None
            sd = int(sd.lo) if isinstance(sd, A) and sd.is_point() else sd
            vals = [it.ctx.gp("%s.%d" % (sd if isinstance(sd, int) else "?", i), n, i) for i in range(n)]
            r = rec["res"] = dom.stack_struct([dom.reshape(v, ()) for v in vals], lambda ps: np.stack(ps)) if vals else from_np(np.zeros(0))
            return r
        return Builtin("gp.sample", f)
    return Top("gp." + name)


# ====================================================================== modules
def module(it, name):
    if name in ("numpy",):
        return numpy_module(it)
    if name.startswith("numpy."):
        m = it.import_module("numpy")
        for p in name.split(".")[1:]:
            m = it.mod_attr(m, p)
        return m if isinstance(m, ModV) else ModV(name, {}, lambda n: None)
    if name == "jax.numpy":
        return numpy_module(it, "jax.numpy", True)
    if name == "jax":
        m = ModV("jax")
        r = ModV("jax.random")

        def prng(it, a, k):
            return KeyV(a[0] if a else k.get("seed"))
        r.ns["PRNGKey"] = r.ns["key"] = Builtin("PRNGKey", prng)
        m.ns["random"] = r
        m.ns["jit"] = Builtin("jit", lambda it, a, k: a[0] if a else Builtin("jit", lambda it, a2, k2: a2[0]))
        m.getter = lambda n: it.import_module("jax.numpy") if n == "numpy" else None
        return m
    if name == "jax.random":
        return it.mod_attr(it.import_module("jax"), "random")
    if name == "tinygp":
        m = ModV("tinygp")
        kern = ModV("tinygp.kernels")
        kern.ns["Kernel"] = NType("Kernel", lambda v: False)

        def gp(it, a, k):
            ker, X = a[0] if a else k["kernel"], a[1] if len(a) > 1 else k["X"]
            return GPV(ker, X, k.get("diag"), k.get("mean"))
        m.ns["GaussianProcess"] = NType("GaussianProcess", lambda v: isinstance(v, GPV), gp)
        m.ns["kernels"] = kern
        return m
    if name == "tinygp.kernels":
        return it.mod_attr(it.import_module("tinygp"), "kernels")
    if name == "astropy":
        m = ModV("astropy")
        m.getter = lambda n: it.import_module("astropy." + n)
        return m
    if name in ("astropy.units",):
        return units_module(it)
    if name.startswith("astropy.units"):
        return it.import_module("astropy.units")
    if name == "astropy.constants":
        return const_module(it)
    if name.startswith("astropy.coordinates"):
        m = ModV(name, {}, lambda n: Top("%s.%s" % (name, n)))

        def angsep(it, a, k):
            # the great-circle angle between (lon1, lat1) and (lon2, lat2); the library uses the Vincenty form of the same angle
            lon1, lat1, lon2, lat2 = (list(a) + [k[n] for n in ("lon1", "lat1", "lon2", "lat2")[len(a):]])
            B = lambda op, x, y: L.binop(it, op, x, y)
            sn, cs = (lambda x: NP["sin"](it, [x], {})), (lambda x: NP["cos"](it, [x], {}))
            c = B("Add", B("Mult", sn(lat1), sn(lat2)), B("Mult", B("Mult", cs(lat1), cs(lat2)), cs(B("Sub", lon2, lon1))))
            v, u = L.split(it, c)
            return wrap(dom.arccos(NP["clip"](it, [v, -1.0, 1.0], {})), None if u is None else U.RAD if hasattr(U, "RAD") else U.parse("rad"))
        m.ns["angular_separation"] = Builtin("angular_separation", angsep)
        return m
    if name == "warnings":
        m = ModV("warnings")

        def warn(it, a, k):
            cat = a[1] if len(a) > 1 else k.get("category")
            it.warnings.append((it.site, a[0] if a else k.get("message"), cat))
        m.ns["warn"] = Builtin("warn", warn)
        m.ns["catch_warnings"] = Builtin("catch_warnings", lambda it, a, k: Builtin("ctx", lambda it, a, k: []))
        for n in ("simplefilter", "filterwarnings", "resetwarnings"):
            m.ns[n] = Builtin(n, lambda it, a, k: None)
        return m
    if name == "math":
        return math_module(it)
    if name == "functools":
        return functools_module(it)
    if name == "itertools":
        return itertools_module(it)
    if name == "operator":
        m = ModV("operator")
        for n, o in dict(add="Add", sub="Sub", mul="Mult", truediv="Div", pow="Pow", and_="BitAnd", or_="BitOr").items():
            m.ns[n] = Builtin(n, lambda it, a, k, o=o: L.binop(it, o, a[0], a[1]))
        for n, o in dict(lt="Lt", le="LtE", gt="Gt", ge="GtE", eq="Eq", ne="NotEq").items():
            m.ns[n] = Builtin(n, lambda it, a, k, o=o: L.compare(it, o, a[0], a[1]))
        def path(it, o, name):
            for n in name.split("."):
                o = it.getattr(o, n)
            return o

        def many(g, names, o):
            r = tuple(g(o, n) for n in names)
            return r[0] if len(r) == 1 else r
        for n, o in dict(floordiv="FloorDiv", mod="Mod", xor="BitXor", matmul="MatMult", concat="Add", iadd="Add").items():
            if n != "iadd":
                m.ns[n] = Builtin(n, lambda it, a, k, o=o: L.binop(it, o, a[0], a[1]))
        m.ns["neg"] = Builtin("neg", lambda it, a, k: L.unary(it, "USub", a[0]))
        m.ns["invert"] = m.ns["inv"] = Builtin("invert", lambda it, a, k: L.unary(it, "Invert", a[0]))
        m.ns["is_"] = Builtin("is_", lambda it, a, k: L.compare(it, "Is", a[0], a[1]))
        m.ns["is_not"] = Builtin("is_not", lambda it, a, k: L.compare(it, "IsNot", a[0], a[1]))
        m.ns["contains"] = Builtin("contains", lambda it, a, k: L.compare(it, "In", a[1], a[0]))
        m.ns["getitem"] = Builtin("getitem", lambda it, a, k: it.getitem(a[0], a[1]))
        m.ns["setitem"] = Builtin("setitem", lambda it, a, k: it.setitem(a[0], a[1], a[2]))
        m.ns["truth"] = Builtin("truth", lambda it, a, k: it.truth(a[0]))
        m.ns["methodcaller"] = Builtin("methodcaller", lambda it, a, k: Builtin(
            "mc", lambda it, x, kk: it.call(it.getattr(x[0], a[0]), list(a[1:]), dict(k))))
        m.ns["attrgetter"] = Builtin("attrgetter", lambda it, a, k: Builtin("ag", lambda it, x, kk: many(lambda o, n: path(it, o, n), a, x[0])))
        m.ns["itemgetter"] = Builtin("itemgetter", lambda it, a, k: Builtin("ig", lambda it, x, kk: many(it.getitem, a, x[0])))
        m.ns["not_"] = Builtin("not_", lambda it, a, k: not it.truth(a[0]))
        return m
    if name == "copy":
        m = ModV("copy")
        m.ns["copy"] = Builtin("copy", lambda it, a, k: shallow(it, a[0]))
        m.ns["deepcopy"] = Builtin("deepcopy", lambda it, a, k: deep(it, a[0], {}))
        return m
    if name == "collections":
        m = ModV("collections")

        def dd(it, a, k):
            d = ADict()
            d.factory = a[0] if a else None
            if len(a) > 1:
                L.dict_update(it, d, a[1])
            return d
        m.ns["defaultdict"] = Builtin("defaultdict", dd)

        def nt(it, a, k):
            name, fields = a[0], a[1]
            fields = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
            dflt = list(k.get("defaults") or ())

            def make(it, b, kk):
                vals = dict(zip(fields[len(fields) - len(dflt):], dflt))
                if len(b) > len(fields) or any(n not in fields for n in kk):
                    raise PyRaise(TypeError, "%s() got unexpected arguments" % name, it.site)
                vals.update(zip(fields, b))
                vals.update(kk)
                if any(n not in vals for n in fields):
                    raise PyRaise(TypeError, "%s() missing arguments" % name, it.site)
                return NT([vals[n] for n in fields], fields, name)
            return Builtin(name, make)
        m.ns["namedtuple"] = Builtin("namedtuple", nt)
        m.ns["OrderedDict"] = it.builtins["dict"]

        def counter(it, a, k):
            d = ADict()
            d.factory = "$counter"
            dict_attr(it, d, "update").fn(it, a, k)
            return d
        m.ns["Counter"] = Builtin("Counter", counter)

        def deque(it, a, k):
            d = Deque()
            d.maxlen = a[1] if len(a) > 1 else k.get("maxlen")
            if a:
                deque_attr(it, d, "extend").fn(it, [a[0]], {})
            return d
        m.ns["deque"] = Builtin("deque", deque)
        m.ns["abc"] = ModV("collections.abc", {}, lambda n: _abc(it, n))
        return m
    if name == "collections.abc":
        return ModV(name, {}, lambda n: _abc(it, n))
    if name in ("typing", "typing_extensions"):
        m = ModV("typing")
        m.ns["TYPE_CHECKING"] = False
        m.ns["cast"] = Builtin("cast", lambda it, a, k: a[1])
        m.ns["overload"] = Builtin("overload", lambda it, a, k: a[0])
        m.ns["final"] = Builtin("final", lambda it, a, k: a[0])
        m.ns["NamedTuple"] = NType("NamedTuple", lambda v: False)
        return m
    if name == "dataclasses":
        m = ModV("dataclasses")

        def dc(it, a, k):
            def deco(it, b, kk):
                b[0].ns["$dataclass"] = True
                if k.get("order") or k.get("init") is False or k.get("kw_only"):
                    b[0].ns["$odd"] = True
                if k.get("eq", True) and "__eq__" not in b[0].ns:
                    def eq(it, p, kk, cls=b[0]):
                        x, y = p
                        if not isinstance(y, Obj) or y.cls is not x.cls:
                            return False
                        return all(it.truth(L.compare(it, "Eq", x.attrs[n], y.attrs[n])) for n in names(x))
                    e = Builtin("__eq__", eq)
                    e.binds = True
                    b[0].ns["__eq__"] = e
                    if k.get("frozen") or k.get("unsafe_hash"):
                        b[0].ns.setdefault("__hash__", Builtin("__hash__", lambda it, p, kk: Top("hash")))
                if k.get("frozen"):
                    def frozen(it, p, kk):
                        raise PyRaise(AttributeError, "cannot assign to field %r" % (p[1],), it.site)
                    fz = Builtin("__setattr__", frozen)
                    fz.binds = True
                    b[0].ns.setdefault("__setattr__", fz)
                return b[0]
            if a:
                return deco(it, a, {})
            return Builtin("dataclass", deco)
        m.ns["dataclass"] = Builtin("dataclass", dc)
        m.ns["field"] = Builtin("field", lambda it, a, k: ("$field", k.get("default"), k.get("default_factory")))

        def names(o):
            r = []
            for c in reversed(o.cls.mro):
                r += [n for n in c.ns.get("__annotations__", []) if n not in r]
            return r
        m.ns["astuple"] = Builtin("astuple", lambda it, a, k: tuple(deep(it, a[0].attrs[n], {}) for n in names(a[0])))
        m.ns["asdict"] = Builtin("asdict", lambda it, a, k: attr_dict({n: deep(it, a[0].attrs[n], {}) for n in names(a[0])}))

        def replace(it, a, k):
            o = shallow(it, a[0])
            for n, v in k.items():
                o.attrs[n] = v
            return o
        m.ns["replace"] = Builtin("replace", replace)
        return m
    if name == "abc":
        m = ModV("abc")
        m.ns["ABC"] = it.builtins["object"]
        m.ns["abstractmethod"] = Builtin("abstractmethod", lambda it, a, k: a[0])
        return m
    if name in ("time", "datetime", "uuid", "secrets", "os", "random"):
        def amb(n):
            def f(it, a, k):
                it.ambient("%s.%s" % (name, n))
                return Top("%s.%s" % (name, n))
            return Builtin("%s.%s" % (name, n), f)
        return ModV(name, {}, amb)
    if name == "contextlib":
        m = ModV("contextlib")
        m.ns["suppress"] = Builtin("suppress", lambda it, a, k: Suppress(a))
        m.ns["contextmanager"] = Builtin("contextmanager", lambda it, a, k: FuncAsCtx(a[0]))

        m.ns["ExitStack"] = Builtin("ExitStack", lambda it, a, k: ExitStackV())

        def closing(it, a, k):
            def fn(it, b, kk):
                raise Unsupported("closing")
            return Builtin("ctx", fn)
        m.ns["closing"] = Builtin("closing", closing)
        m.ns["nullcontext"] = Builtin("nullcontext", lambda it, a, k: Builtin("ctx", lambda it, b, kk: a[0] if a else None))
        return m
    if name == "enum":
        m = ModV("enum")
        m.ns["Enum"] = NType("Enum", lambda v: False)
        m.ns["IntEnum"] = NType("IntEnum", lambda v: False)
        m.ns["auto"] = Builtin("auto", lambda it, a, k: ("$auto",))
        return m
    if name == "numbers":
        m = ModV("numbers")
        m.ns["Integral"] = NType("Integral", lambda v: L._pyint(v) or isinstance(v, A) and v.scalar and v.dtype == "i8")
        m.ns["Real"] = NType("Real", lambda v: isinstance(v, (int, float)) or isinstance(v, A) and v.scalar)
        m.ns["Number"] = NType("Number", lambda v: isinstance(v, (int, float)) or isinstance(v, A) and v.scalar)
        return m
    if name == "logging":
        m = ModV("logging")
        lg = ModV("logger", {}, lambda n: Builtin("log", lambda it, a, k: None))
        m.ns["getLogger"] = Builtin("getLogger", lambda it, a, k: lg)
        m.getter = lambda n: Builtin("log", lambda it, a, k: None)
        return m
    return ModV(name, {}, lambda n: Top("%s.%s" % (name, n)))


def FuncAsCtx(f):
    """@contextmanager: a function, so that it also binds as a method."""
    g = Builtin("contextmanager", lambda it, a, k: CtxGen(f, list(a), dict(k)))
    g.binds = True
    return g


def exitstack_attr(it, o, name):
    def f(it, a, k):
        if name == "callback":
            o.todo.append(lambda it: it.call(a[0], list(a[1:]), dict(k)))
            return a[0]
        if name == "enter_context":
            c = a[0]
            if isinstance(c, Obj):
                m, _ = c.cls.lookup("__enter__")
                x, _ = c.cls.lookup("__exit__")
                v = it.call(Bound(m, c), [], {})
                o.todo.append(lambda it: it.call(Bound(x, c), [None, None, None], {}))
                return v
            if isinstance(c, Builtin) and c.name == "ctx":
                return c.fn(it, [], {})
            raise Unsupported("enter_context")
        while o.todo:
            o.todo.pop()(it)
    if name in ("callback", "enter_context", "close"):
        return Builtin("ExitStack." + name, f)
    raise Unsupported("ExitStack." + name)


def _abc(it, n):
    t = {"Sequence": lambda v: isinstance(v, (list, tuple, str, range)),
         "Iterable": lambda v: isinstance(v, (list, tuple, str, range, ADict, ASet)) or isinstance(v, (A, Q)) and v.shape != (),
         "Mapping": lambda v: isinstance(v, ADict), "Callable": lambda v: isinstance(v, (FuncV, Bound, Builtin))}.get(n)
    return NType(n, t) if t else Top("abc." + n)


def shallow(it, v):
    if isinstance(v, Obj):
        m, _ = v.cls.lookup("__copy__")
        if m is not None:
            return it.call(Bound(m, v), [], {})
        o = Obj(v.cls)
        o.native = v.native
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, list):
        return list(v)
    if isinstance(v, ADict):
        return v.copy()
    if isinstance(v, A):
        return v.copy()
    if isinstance(v, Q):
        return Q(v.v.copy(), v.unit)
    if isinstance(v, Rng):
        raise Unsupported("copy of rng")
    return v


def deep(it, v, memo):
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.native = v.native
        memo[id(v)] = (v, o)
        for k, x in v.attrs.items():
            o.attrs[k] = deep(it, x, memo)
        return o
    if isinstance(v, list):
        r = []
        memo[id(v)] = (v, r)
        r.extend(deep(it, x, memo) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(deep(it, x, memo) for x in v)
    if isinstance(v, ADict):
        d = ADict()
        memo[id(v)] = (v, d)
        d.items_ = [[deep(it, k, memo), deep(it, x, memo)] for k, x in v.items_]
        d.factory = v.factory
        return d
    if isinstance(v, Rng):
        r = Rng(v.ident + ".copy", it.site)
        r.n = v.n
        memo[id(v)] = (v, r)
        return r
    return shallow(it, v)


def math_module(it):
    m = ModV("math")

    def wrapm(n, npn):
        def f(it, a, k):
            if all(isinstance(x, (int, float)) for x in a):
                try:
                    return getattr(math, n)(*a)
                except (ValueError, OverflowError) as e:
                    raise PyRaise(type(e), str(e), it.site)
                except TypeError as e:
                    raise Unsupported("math.%s: %s" % (n, e))
            a = list(a)
            for i, v in enumerate(a):
                if isinstance(v, Q):
                    if not v.unit.is_dimless():
                        raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
                    a[i] = L.to_unit(it, v, U.ONE).v
            if n == "log" and len(a) == 2:
                return L.binop(it, "Div", f(it, a[:1], {}), f(it, a[1:], {}))
            if n == "hypot" and len(a) > 2:
                a = [f(it, a[:-1], {}), a[-1]]
            r = NP[npn](it, a, {})
            if isinstance(r, A):
                if n in ("sqrt", "log", "acos", "asin") and r.nan.any():
                    if int(r.nan.max()) == 2:
                        raise PyRaise(ValueError, "math domain error", it.site)
                r = r.copy()
                r.py = True
                r.scalar = True
            return r
        return Builtin("math." + n, f)
    m.ns["copysign"] = wrapm("copysign", "copysign")
    for n, p in dict(sin="sin", cos="cos", tan="tan", asin="arcsin", acos="arccos", atan="arctan", exp="exp", log="log",
                     log10="log10", sqrt="sqrt", fabs="abs", log2="log2", log1p="log1p", expm1="expm1",
                     atan2="arctan2", hypot="hypot", radians="radians", degrees="degrees", tanh="tanh", sinh="sinh", cosh="cosh", pow="power").items():
        m.ns[n] = wrapm(n, p)

    def fl(n):
        def f(it, a, k):
            v = a[0]
            if isinstance(v, (int, float)):
                try:
                    return getattr(math, n)(v)
                except (ValueError, OverflowError) as e:
                    raise PyRaise(type(e), str(e), it.site)
            if isinstance(v, Q):
                if not v.unit.is_dimless():
                    raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
                v = L.to_unit(it, v, U.ONE).v
            r = getattr(dom, n)(v)
            if float(r.lo) == float(r.hi):
                return int(r.lo)
            r.dtype = "i8"
            r.py = True
            return r
        return Builtin("math." + n, f)
    for n in ("floor", "ceil", "trunc"):
        m.ns[n] = fl(n)
    m.ns.update(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau)
    m.ns["isnan"] = Builtin("isnan", lambda it, a, k: NP["isnan"](it, a, k))
    m.ns["isinf"] = Builtin("isinf", lambda it, a, k: NP["isinf"](it, a, k))
    m.ns["isfinite"] = Builtin("isfinite", lambda it, a, k: NP["isfinite"](it, a, k))
    m.ns["isclose"] = Builtin("isclose", lambda it, a, k: NP["isclose"](it, list(a), {"rtol": k.get("rel_tol", 1e-9), "atol": k.get("abs_tol", 0.0)}))
    m.ns["fsum"] = it.builtins["sum"]
    m.ns["prod"] = Builtin("prod", lambda it, a, k: _fold(it, "Mult", 1, it.iterate(a[0])))
    return m


def _fold(it, op, acc, xs):
    for x in xs:
        acc = L.binop(it, op, acc, x)
    return acc


def functools_module(it):
    m = ModV("functools")

    def lru(it, a, k):
        if a and isinstance(a[0], (FuncV, StaticM, ClassM, Builtin)) and not isinstance(a[0], (int,)):
            return Memo(a[0], 128)
        mx = a[0] if a else k.get("maxsize", 128)
        return Builtin("lru_cache", lambda it, b, kk: Memo(b[0], mx))
    m.ns["lru_cache"] = Builtin("lru_cache", lru)
    m.ns["cache"] = Builtin("cache", lambda it, a, k: Memo(a[0]))

    def cp(it, a, k):
        return Prop(a[0], cached=True)
    m.ns["cached_property"] = Builtin("cached_property", cp)
    m.ns["wraps"] = Builtin("wraps", lambda it, a, k: Builtin("wraps", lambda it, b, kk: b[0]))
    m.ns["partial"] = Builtin("partial", lambda it, a, k: Partial(a[0], list(a[1:]), dict(k)))

    def reduce(it, a, k):
        xs = list(it.iterate(a[1]))
        if len(a) > 2:
            acc = a[2]
        elif xs:
            acc = xs.pop(0)
        else:
            raise PyRaise(TypeError, "reduce() of empty iterable with no initial value", it.site)
        for x in xs:
            acc = it.call(a[0], [acc, x], {})
        return acc
    m.ns["reduce"] = Builtin("reduce", reduce)
    def total(it, a, k):
        c = a[0]
        have = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in c.ns]
        if not have:
            raise PyRaise(ValueError, "must define at least one ordering operation", it.site)
        base = have[0]

        def lt(it, x, y):
            r = {"__lt__": lambda: L.compare(it, "Lt", x, y), "__gt__": lambda: L.compare(it, "Gt", y, x),
                 "__le__": lambda: not it.truth(L.compare(it, "LtE", y, x)), "__ge__": lambda: not it.truth(L.compare(it, "GtE", x, y))}[base]()
            return it.truth(r)
        new = {"__lt__": lambda it, p, k: lt(it, p[0], p[1]), "__gt__": lambda it, p, k: lt(it, p[1], p[0]),
               "__le__": lambda it, p, k: not lt(it, p[1], p[0]), "__ge__": lambda it, p, k: not lt(it, p[0], p[1])}
        for n, g in new.items():
            if n not in have:
                c.ns[n] = Builtin(n, g)
                c.ns[n].binds = True
        return c
    m.ns["total_ordering"] = Builtin("total_ordering", total)

    def single(it, a, k):
        base = a[0]
        table = []

        def matches(t, v):
            if isinstance(t, ClassV):
                return isinstance(v, Obj) and t in v.cls.mro
            return it.truth(L.isinstance_(it, v, t))

        def call(it, p, kk):
            v = p[0]
            best = None
            for t, g in table:
                if matches(t, v) and (best is None or isinstance(t, ClassV) and isinstance(best[0], ClassV) and best[0] in t.mro
                                      or not (isinstance(t, ClassV) and isinstance(best[0], ClassV) and t in best[0].mro)):
                    best = (t, g)
            return it.call(best[1] if best else base, list(p), dict(kk))

        def register(it, p, kk):
            if isinstance(p[0], FuncV):
                ann = (p[0].node.args.posonlyargs + p[0].node.args.args)[0].annotation
                if ann is None:
                    raise Unsupported("register without annotation")
                t = it.eval(ann, Env0(p[0]))
                table.append((t, p[0]))
                return p[0]
            if len(p) > 1:
                table.append((p[0], p[1]))
                return p[1]
            return Builtin("register", lambda it, q, qq: (table.append((p[0], q[0])), q[0])[1])
        d = Builtin("singledispatch", call)
        d.members = {"register": Builtin("register", register)}
        return d
    m.ns["singledispatch"] = Builtin("singledispatch", single)
    return m


def Env0(f):
    from .interp import Env
    return Env(f.env, f.globals)


def itertools_module(it):
    import itertools
    m = ModV("itertools")
    m.ns["chain"] = ModChain(it)
    m.ns["product"] = Builtin("product", lambda it, a, k: [tuple(x) for x in itertools.product(*[it.iterate(y) for y in a], repeat=k.get("repeat", 1))])
    m.ns["repeat"] = Builtin("repeat", lambda it, a, k: AIter([a[0]] * (L.as_int(it, a[1]) if len(a) > 1 else 5000)))
    m.ns["filterfalse"] = Builtin("filterfalse", lambda it, a, k: AIter(
        [x for x in it.iterate(a[1]) if not it.truth(x if a[0] is None else it.call(a[0], [x], {}))]))

    def dropwhile(it, a, k):
        xs = list(it.iterate(a[1]))
        while xs and it.truth(it.call(a[0], [xs[0]], {})):
            xs.pop(0)
        return AIter(xs)
    m.ns["dropwhile"] = Builtin("dropwhile", dropwhile)

    def cycle(it, a, k):
        xs = list(it.iterate(a[0]))
        return AIter((xs * (1 + 5000 // len(xs)))[:5000]) if xs else AIter()
    m.ns["cycle"] = Builtin("cycle", cycle)
    m.ns["tee"] = Builtin("tee", lambda it, a, k: (lambda xs: tuple(AIter(xs) for _ in range(a[1] if len(a) > 1 else 2)))(it.iterate(a[0])))
    m.ns["permutations"] = Builtin("permutations", lambda it, a, k: AIter(itertools.permutations(it.iterate(a[0]), *[L.as_int(it, x) for x in a[1:]])))

    def acc(it, a, k):
        out, cur = [], None
        for i, x in enumerate(it.iterate(a[0])):
            cur = x if i == 0 else (L.binop(it, "Add", cur, x) if len(a) < 2 else it.call(a[1], [cur, x], {}))
            out.append(cur)
        return out
    m.ns["accumulate"] = Builtin("accumulate", acc)
    m.ns["islice"] = Builtin("islice", lambda it, a, k: it.iterate(a[0])[slice(*[None if x is None else L.as_int(it, x) for x in a[1:]])])
    m.ns["combinations"] = Builtin("combinations", lambda it, a, k: [tuple(x) for x in itertools.combinations(it.iterate(a[0]), L.as_int(it, a[1]))])
    m.ns["starmap"] = Builtin("starmap", lambda it, a, k: [it.call(a[0], list(x), {}) for x in it.iterate(a[1])])
    m.ns["compress"] = Builtin("compress", lambda it, a, k: [x for x, s in zip(it.iterate(a[0]), it.iterate(a[1])) if it.truth(s)])
    m.ns["count"] = Builtin("count", lambda it, a, k: list(range(a[0] if a else 0, (a[0] if a else 0) + 5000)))
    def pairwise(it, a, k):
        xs = list(it.iterate(a[0]))
        return list(zip(xs, xs[1:]))
    m.ns["pairwise"] = Builtin("pairwise", pairwise)
    m.ns["zip_longest"] = Builtin("zip_longest", lambda it, a, k: list(itertools.zip_longest(*[it.iterate(x) for x in a], fillvalue=k.get("fillvalue"))))

    def groupby(it, a, k):
        key = a[1] if len(a) > 1 else k.get("key")
        out = []
        for x in it.iterate(a[0]):
            kv = it.call(key, [x], {}) if key is not None else x
            if out and it.truth(it.compare1("Eq", out[-1][0], kv)):
                out[-1][1].append(x)
            else:
                out.append((kv, [x]))
        return out
    m.ns["groupby"] = Builtin("groupby", groupby)
    m.ns["takewhile"] = Builtin("takewhile", lambda it, a, k: _takewhile(it, a))
    for n, b in m.ns.items():
        if isinstance(b, Builtin) and n != "tee":
            b.fn = _as_iter(b.fn)
    return m


def _as_iter(fn):
    def f(it, a, k):
        r = fn(it, a, k)
        return AIter(r) if type(r) is list else r
    return f


def _takewhile(it, a):
    out = []
    for x in it.iterate(a[1]):
        if not it.truth(it.call(a[0], [x], {})):
            break
        out.append(x)
    return out


def ModChain(it):
    def chain(it, a, k):
        out = AIter()
        for x in a:
            out.extend(it.iterate(x))
        return out
    n = NType("chain", lambda v: False, chain)
    n.ns["from_iterable"] = Builtin("from_iterable", lambda it, a, k: AIter([y for x in it.iterate(a[0]) for y in it.iterate(x)]))
    return n


def units_module(it):
    m = ModV("astropy.units")
    m.ns["Quantity"] = it.QTYPE
    m.ns["quantity"] = ModV("astropy.units.quantity", {"Quantity": it.QTYPE})

    def unit_ctor(it, a, k):
        return _unit_arg(it, a[0])
    ut = NType("Unit", lambda v: isinstance(v, U.Unit), unit_ctor)
    m.ns["Unit"] = ut
    for n in ("UnitBase", "CompositeUnit", "IrreducibleUnit", "NamedUnit", "PrefixUnit"):
        m.ns[n] = NType(n, lambda v: isinstance(v, U.Unit))
    m.ns["UnitsError"] = U.UnitsError
    m.ns["UnitConversionError"] = U.UnitConversionError
    m.ns["UnitTypeError"] = U.UnitTypeError

    def def_unit(it, a, k):
        name, q = a[0], a[1] if len(a) > 1 else k.get("represents")
        if isinstance(name, list):
            name = name[0]
        if q is None:
            return U.Unit({name: 1}, 1.0, name)
        u = _unit_arg(it, q) if not isinstance(q, Q) else U.Unit(q.unit.dims, q.unit.scale * float(q.v.lo))
        return U.Unit(u.dims, u.scale, name)
    m.ns["def_unit"] = Builtin("def_unit", def_unit)

    def allclose(it, a, k):
        return NP["allclose"](it, a, k)
    m.ns["allclose"] = Builtin("allclose", allclose)
    m.ns["isclose"] = Builtin("isclose", lambda it, a, k: NP["isclose"](it, a, k))

    def quantity_input(it, a, k):
        def deco(it, b, kk):
            f = b[0]
            if isinstance(f, FuncV):
                f.qinput = dict(k)
            return f
        if a and isinstance(a[0], FuncV):
            return deco(it, a, {})
        return Builtin("quantity_input", deco)
    m.ns["quantity_input"] = Builtin("quantity_input", quantity_input)
    m.ns["add_enabled_units"] = Builtin("add_enabled_units", lambda it, a, k: Top("enabled"))
    m.ns["dimensionless_angles"] = Builtin("dimensionless_angles", lambda it, a, k: Top("equiv"))

    def getter(n):
        return U.TABLE.get(n)
    m.getter = getter
    return m


def _parsed(part):
    """The number read back from its formatted text."""
    t, spec, lo, hi = part
    try:
        nd = int(spec.strip(".f") or 6)
    except ValueError:
        raise Unsupported("format spec")
    h = 0.5 * 10.0 ** -nd
    r = dom.var("parsed", lo - h, hi + h)
    r.t[()] = dom.fresh("parsed") if t is None else tm.opaque("parsed", t, spec)
    return r


def parse_number(it, v):
    """float(text)"""
    ps = [p for p in v.parts if not (isinstance(p, str) and not p.strip())]
    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][1].endswith("f"):
        r = _parsed(ps[0])
        r.py = r.scalar = True
        return r
    raise Undecided("parse of abstract string")


def quantity_ctor(it, a, k):
    v = a[0]
    unit = a[1] if len(a) > 1 else k.get("unit")
    copy = k.get("copy", True)
    u = _unit_arg(it, unit) if unit is not None else None
    if isinstance(v, str):
        parts = v.split(None, 1)
        try:
            x = float(parts[0])
        except ValueError:
            raise PyRaise(TypeError, "Cannot parse %r as a Quantity" % v, it.site)
        q = Q(num(x), L.parse_unit(it, parts[1]) if len(parts) > 1 else U.ONE)
        return q if u is None else L.to_unit(it, q, u)
    if isinstance(v, AStr):
        ps = list(v.parts)
        if len(ps) <= 2 and not isinstance(ps[0], str) and ps[0][1].endswith("f"):
            q = Q(_parsed(ps[0]), L.parse_unit(it, ps[1]) if len(ps) > 1 else U.ONE)
            return q if u is None else L.to_unit(it, q, u)
        raise Undecided("parse of abstract string")
    if isinstance(v, (list, tuple)) and any(isinstance(x, Q) for x in v):
        u0 = u or next(x.unit for x in v if isinstance(x, Q))
        xs = []
        for x in v:
            if not isinstance(x, Q):
                raise PyRaise(TypeError, "mixed quantity list", it.site)
            xs.append(L.to_unit(it, x, u0).v)
        return Q(dom.stack_struct(xs, lambda ps: np.stack(ps)), u0)
    v = L.arr(it, v)
    if isinstance(v, Top):
        return v
    if isinstance(v, Q):
        if u is None:
            return Q(v.v.copy(), v.unit) if copy else v
        return L.to_unit(it, v, u)
    if v.dtype != "f8" and k.get("dtype") is None:
        return Q(dom.astype(v, "f8"), u or U.ONE)
    return Q(v.copy() if copy else v, u or U.ONE)


def const_module(it):
    m = ModV("astropy.constants")

    def c(v, u):
        return Q(num(float(v)), U.parse(u))
    m.ns["sigma_sb"] = c(U.SIGMA_SB, "W m-2 K-4")
    m.ns["R_sun"] = c(U.R_SUN, "m")
    m.ns["R_earth"] = c(U.R_EARTH, "m")
    m.ns["M_sun"] = c(U.M_SUN, "kg")
    m.ns["L_sun"] = c(U.L_SUN, "W")
    m.ns["au"] = c(U.AU, "m")
    m.ns["c"] = c(299792458.0, "m s-1")
    m.ns["h"] = c(6.62607015e-34, "J s")
    m.ns["k_B"] = c(1.380649e-23, "J K-1")
    m.ns["G"] = c(6.6743e-11, "m3 kg-1 s-2")
    return m


from . import npmore  # noqa: E402,F401


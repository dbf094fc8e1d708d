"""Further numpy functions, built from the primitives of npmodel."""
import math
import numpy as np
from . import dom
from .dom import A, PyRaise, Unsupported, Undecided, num, from_np
from .values import *  # noqa
from . import lib as L
from .npmodel import NP, reg, wrap, pair, _b, _shape, _kw


def _take(v, ix, axis=None):
    ix = np.asarray(ix)
    if axis is None:
        return dom.apply_struct(v, lambda x: x.reshape(-1)[ix])
    return dom.apply_struct(v, lambda x: np.take(x, ix, axis=axis))


def _scal(r):
    if r.shape == ():
        r.scalar = True
    return r


@reg("take")
def np_take(it, a, k):
    v, u = L.split(it, a[0])
    ix = np.asarray(dom.concrete_index(L.arr(it, a[1])))
    axis = a[2] if len(a) > 2 else k.get("axis")
    try:
        return wrap(_scal(_take(v, ix, axis)), u)
    except IndexError as e:
        raise PyRaise(IndexError, str(e), it.site)


@reg("compress")
def np_compress(it, a, k):
    if k.get("axis") is not None or len(a) > 2:
        raise Unsupported("compress axis")
    v, u = L.split(it, a[1])
    m = dom.bool_index(_b(it, a[0]))
    return wrap(_take(v, np.flatnonzero(m)), u)


@reg("extract")
def np_extract(it, a, k):
    return np_compress(it, [wrap(dom.reshape(_b(it, a[0]), (-1,)), None), a[1]], {})


@reg("choose")
def np_choose(it, a, k):
    i, _ = L.split(it, a[0])
    ch = list(it.iterate(a[1]))
    if not i.is_point():
        raise Undecided("choose")
    r = ch[0]
    for j in range(1, len(ch)):
        r = NP["where"](it, [dom.compare("==", i, num(j)), ch[j], r], {})
    return r


@reg("piecewise")
def np_piecewise(it, a, k):
    v, u = L.split(it, a[0])
    conds = list(it.iterate(a[1]))
    fs = list(it.iterate(a[2]))
    r = from_np(np.zeros(v.shape))
    if len(fs) == len(conds) + 1:
        fs = fs[:-1]
        conds = list(conds)
        rest = a[2][-1]
        r = _pw(it, rest, a[0], v)
    for c, f in zip(conds, fs):
        m = _b(it, c)
        # numpy evaluates each function on its own points only
        r = dom.where(m, _pw(it, f, a[0], v), r)
    return r


def _pw(it, f, x, v):
    y = it.call(f, [x], {}) if isinstance(f, (FuncV, Bound, Builtin)) else f
    y, u = L.split(it, y)
    if u is not None:
        raise Unsupported("piecewise units")
    return y


@reg("copysign")
def np_copysign(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    if not (np.all(y.lo > 0) or np.all(y.hi < 0)):
        s = dom.where(dom.compare(">=", y, num(0.0)), num(1.0), num(-1.0))
        return wrap(dom.mul(dom.absv(x), s), u)
    m = dom.absv(x)
    return wrap(m if np.all(y.lo > 0) else dom.neg(m), u)


@reg("heaviside")
def np_heaviside(it, a, k):
    x, u = L.split(it, a[0])
    h, _ = L.split(it, a[1])
    z = dom.where(dom.compare(">", x, num(0.0)), num(1.0), h)
    return dom.where(dom.compare("<", x, num(0.0)), num(0.0), z)


@reg("fmod")
def np_fmod(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    q = dom.trunc(dom.div(x, y))
    return wrap(dom.sub(x, dom.mul(q, y)), u)


@reg("fix")
def np_fix(it, a, k):
    v, u = L.split(it, a[0])
    return wrap(dom.trunc(v), u)


@reg("atleast_2d")
def np_al2(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim >= 2:
        return a[0]
    return wrap(dom.reshape(v, (1, -1)), u)


@reg("ediff1d")
def np_ediff(it, a, k):
    v, u = L.split(it, a[0])
    return NP["diff"](it, [wrap(dom.reshape(v, (-1,)), u)], {})


@reg("diag")
def np_diag(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim == 2:
        return wrap(dom.apply_struct(v, lambda x: np.diag(x).copy()), u)
    n = v.size
    z = from_np(np.zeros((n, n)))
    for i in range(n):
        dom.setitem(z, (i, i), dom.getitem(v, i))
    return wrap(z, u)


@reg("cumprod")
def np_cumprod(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1 or u is not None:
        raise Unsupported("cumprod")
    xs = []
    for x in it.iterate(a[0]):
        xs.append(L.binop(it, "Mult", xs[-1], x) if xs else x)
    return NP["array"](it, [xs], {}) if xs else from_np(np.zeros(0))


@reg("count_nonzero")
def np_cnz(it, a, k):
    return dom.rsum(_b(it, a[0]), a[1] if len(a) > 1 else k.get("axis"))


@reg("var")
def np_var(it, a, k):
    from . import units as U
    v, u = L.split(it, a[0])
    ax = a[1] if len(a) > 1 else k.get("axis")
    dd = k.get("ddof", 0)
    m = dom.rmean(v, ax, keepdims=True) if ax is not None else dom.rmean(v)
    sq = dom.int_pow(dom.sub(v, m), 2)
    if dd:
        n = v.size if ax is None else v.shape[ax]
        r = dom.div(dom.rsum(sq, ax), num(float(n - L.as_int(it, dd))))
    else:
        r = dom.rmean(sq, ax)
    return wrap(r, None if u is None else U.power(u, 2))


@reg("std")
def np_std(it, a, k):
    return NP["sqrt"](it, [np_var(it, a, k)], {})


@reg("digitize")
def np_digitize(it, a, k):
    right = a[2] if len(a) > 2 else k.get("right", False)
    return NP["searchsorted"](it, [a[1], a[0]], {"side": "left" if right else "right"})


@reg("pad")
def np_pad(it, a, k):
    v, u = L.split(it, a[0])
    mode = a[2] if len(a) > 2 else k.get("mode", "constant")
    w = a[1]

    def conv(x):
        return tuple(conv(y) for y in x) if isinstance(x, (list, tuple)) else L.as_int(it, x)
    w = conv(w)
    if mode == "constant":
        if k.get("constant_values", 0) != 0:
            raise Unsupported("pad value")
        idx = np.pad(np.arange(v.size).reshape(v.shape) + 1, w)
        z = dom.reshape(v, (-1,))
        e = from_np(np.zeros(1))
        z = dom.stack_struct([e, z], lambda xs: np.concatenate(xs))
        return wrap(_take(z, idx), u)
    idx = np.pad(np.arange(v.size).reshape(v.shape), w, mode=mode)
    return wrap(_take(v, idx), u)


@reg("insert", "delete")
def np_insdel(it, a, k):
    raise Unsupported("insert/delete")


@reg("insert")
def np_insert(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1:
        raise Unsupported("insert nd")
    i = L.as_int(it, a[1])
    x, y, uu = pair(it, a[0], a[2])
    if y.size != 1:
        raise Unsupported("insert many")
    z = dom.stack_struct([x, dom.reshape(y, (1,))], lambda xs: np.concatenate(xs))
    n = v.size
    return wrap(_take(z, np.insert(np.arange(n), i, n)), uu)


@reg("delete")
def np_delete(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1:
        raise Unsupported("delete nd")
    ix = dom.concrete_index(L.arr(it, a[1]) if not isinstance(a[1], (int, slice)) else a[1])
    return wrap(_take(v, np.delete(np.arange(v.size), ix)), u)


@reg("interp")
def np_interp(it, a, k):
    x, xp, xu = pair(it, a[0], a[1])
    fp, fu = L.split(it, a[2])
    if any(k.get(n) is not None for n in ("left", "right", "period")) or len(a) > 3:
        raise Unsupported("interp options")
    if not xp.is_point() or xp.ndim != 1 or np.any(np.diff(xp.lo) <= 0):
        raise Unsupported("interp nodes")
    n = xp.size
    r = dom.getitem(fp, n - 1)
    for i in range(n - 2, -1, -1):
        x0, x1 = float(xp.lo[i]), float(xp.lo[i + 1])
        f0, f1 = dom.getitem(fp, i), dom.getitem(fp, i + 1)
        w = dom.div(dom.sub(x, num(x0)), num(x1 - x0))
        seg = dom.add(f0, dom.mul(w, dom.sub(f1, f0)))
        r = dom.where(dom.compare("<", x, num(x1)), seg, r)
    r = dom.where(dom.compare("<", x, num(float(xp.lo[0]))), dom.getitem(fp, 0), r)
    return wrap(r, fu)


@reg("geomspace")
def np_geomspace(it, a, k):
    x, y, u = pair(it, a[0], a[1])
    n = L.as_int(it, a[2] if len(a) > 2 else k.get("num", 50))
    if k.get("endpoint", True) is False or n < 2:
        raise Unsupported("geomspace")
    w = NP["linspace"](it, [dom.log(x), dom.log(y), n], {})
    return wrap(dom.exp(w), u)


@reg("iterable")
def np_iterable(it, a, k):
    v = a[0]
    if isinstance(v, (A, Q)):
        return v.shape != ()
    return isinstance(v, (list, tuple, str, range, ADict, ASet))


@reg("nditer")
def np_nditer(it, a, k):
    if len(a) > 1 or k:
        raise Unsupported("nditer options")
    v, u = L.split(it, a[0])
    return [dom.getitem(dom.reshape(v, (-1,)), i) for i in range(v.size)]


@reg("put")
def np_put(it, a, k):
    if not isinstance(a[0], A) or a[0].ndim != 1:
        raise Unsupported("put")
    it.setitem(a[0], L.arr(it, a[1]), L.arr(it, a[2]))


@reg("place")
def np_place(it, a, k):
    y, _ = L.split(it, a[2])
    if y.size != 1:
        raise Unsupported("place many")
    return NP["putmask"](it, [a[0], a[1], dom.getitem(dom.reshape(y, (-1,)), 0)], {})


@reg("cross")
def np_cross(it, a, k):
    x, xu = L.split(it, a[0])
    y, yu = L.split(it, a[1])
    if k or len(a) > 2 or x.shape != (3,) or y.shape != (3,):
        raise Unsupported("cross")
    g = lambda v, u, i: wrap(dom.getitem(v, i), u)  # noqa: E731
    o = []
    for i, j in ((1, 2), (2, 0), (0, 1)):
        o.append(L.binop(it, "Sub", L.binop(it, "Mult", g(x, xu, i), g(y, yu, j)), L.binop(it, "Mult", g(x, xu, j), g(y, yu, i))))
    return NP["array"](it, [o], {}) if xu is None and yu is None else NP["stack"](it, [o], {})


@reg("tensordot")
def np_tensordot(it, a, k):
    ax = a[2] if len(a) > 2 else k.get("axes", 2)
    nx, ny = L.split(it, a[0])[0].ndim, L.split(it, a[1])[0].ndim
    if isinstance(ax, (list, tuple)):
        if len(ax) != 2:
            raise Unsupported("tensordot axes")
        seq = lambda v: [L.as_int(it, i) for i in v] if isinstance(v, (list, tuple)) else [L.as_int(it, v)]  # noqa: E731
        px, py = [i % nx for i in seq(ax[0])], [i % ny for i in seq(ax[1])]
    else:
        n = L.as_int(it, ax)
        px, py = list(range(nx - n, nx)), list(range(n))
    sx = [chr(97 + i) for i in range(nx)]
    sy = [chr(110 + i) for i in range(ny)]
    for i, j in zip(px, py):
        sy[j] = sx[i]
    out = [c for i, c in enumerate(sx) if i not in px] + [c for j, c in enumerate(sy) if j not in py]
    return np_einsum(it, ["%s,%s->%s" % ("".join(sx), "".join(sy), "".join(out)), a[0], a[1]], {})


@reg("einsum")
def np_einsum(it, a, k):
    spec = a[0]
    if not isinstance(spec, str):
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    ins, arrow, out = spec.partition("->")
    ins = ins.split(",")
    if "..." in spec:
        if not arrow:
            raise Unsupported("einsum ellipsis without output")
        nd = [L.split(it, x)[0].ndim - (len(s) - 3) if "..." in s else 0 for s, x in zip(ins, a[1:])]
        dots = "".join(chr(65 + i) for i in range(max(nd)))
        ins = [s.replace("...", dots[len(dots) - n:]) for s, n in zip(ins, nd)]
        out = out.replace("...", dots)
    if not arrow:
        flat = "".join(ins)
        out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    if any(len(set(s)) != len(s) for s in ins):
        raise Unsupported("einsum diagonal")
    order = out + "".join(sorted(set("".join(ins)) - set(out)))
    r = None
    for s, x in zip(ins, a[1:]):
        v, u = L.split(it, x)
        if v.ndim != len(s):
            raise PyRaise(ValueError, "einsum operand", it.site)
        p = [c for c in order if c in s]
        v = dom.apply_struct(v, lambda y: np.transpose(y, [s.index(c) for c in p]))
        dims = dict(zip(p, v.shape))
        v = dom.reshape(v, tuple(dims.get(c, 1) for c in order))
        r = wrap(v, u) if r is None else L.binop(it, "Mult", r, wrap(v, u))
    ax = tuple(range(len(out), len(order)))
    for i in reversed(ax):
        r = NP["sum"](it, [r], {"axis": i})
    return r


@reg("apply_along_axis")
def np_aaa(it, a, k):
    f, ax, arr = a[0], L.as_int(it, a[1]), a[2]
    v, u = L.split(it, arr)
    if v.ndim != 2:
        raise Unsupported("apply_along_axis")
    if ax in (0, -2):
        v = dom.apply_struct(v, lambda x: x.T)
    out = [it.call(f, [wrap(dom.getitem(v, i), u)] + list(a[3:]), dict(k)) for i in range(v.shape[0])]
    r = NP["stack"](it, [out], {}) if isinstance(out[0], Q) or getattr(out[0], "shape", ()) else NP["array"](it, [out], {})
    if ax in (0, -2) and L.split(it, r)[0].ndim == 2:
        w, uu = L.split(it, r)
        r = wrap(dom.apply_struct(w, lambda x: x.T), uu)
    return r


@reg("indices")
def np_indices(it, a, k):
    return from_np(np.indices(_shape(it, a[0])), "i8", False)


@reg("triu", "tril")
def np_tri(it, a, k):
    raise Unsupported("triu")


def _tri(name):
    def f(it, a, k):
        v, u = L.split(it, a[0])
        if v.ndim != 2:
            raise Unsupported(name)
        m = getattr(np, name)(np.ones(v.shape, bool), L.as_int(it, a[1] if len(a) > 1 else k.get("k", 0)))
        return wrap(L.split(it, NP["where"](it, [from_np(m, "b1", False), v, from_np(np.zeros(v.shape), "f8", False)], {}))[0], u)
    return f


for _n in ("triu", "tril"):
    NP[_n] = _tri(_n)


@reg("gradient")
def np_gradient(it, a, k):
    v, u = L.split(it, a[0])
    if v.ndim != 1 or len(a) > 1 or k or v.size < 2:
        raise Unsupported("gradient")
    n = v.size
    out = []
    for i in range(n):
        lo, hi = max(0, i - 1), min(n - 1, i + 1)
        out.append(dom.div(dom.sub(dom.getitem(v, hi), dom.getitem(v, lo)), num(float(hi - lo))))
    return wrap(dom.stack_struct([dom.reshape(x, (1,)) for x in out], lambda xs: np.concatenate(xs)), u)


_old_pct = {n: NP[n] for n in ("percentile", "quantile")}


def _pct(n):
    def f(it, a, k):
        q = a[1] if len(a) > 1 else k.get("q")
        if isinstance(q, (list, tuple)) or isinstance(q, (A, Q)) and q.shape != ():
            k = {x: y for x, y in k.items() if x != "q"}
            xs = [_old_pct[n](it, [a[0], x], k) for x in it.iterate(q)]
            return NP["stack"](it, [xs], {}) if isinstance(xs[0], Q) else NP["array"](it, [xs], {})
        return _old_pct[n](it, a, k)
    return f


for _n in _old_pct:
    NP[_n] = _pct(_n)


def _argax(which):
    old = NP["arg" + which]

    def f(it, a, k):
        ax = a[1] if len(a) > 1 else k.get("axis")
        if ax is None:
            return old(it, a[:1], {})
        v, u = L.split(it, a[0])
        ax = L.as_int(it, ax) % v.ndim
        if v.ndim == 1:
            return old(it, a[:1], {})
        if v.ndim != 2:
            raise Unsupported("argmax axis")
        if ax == 0:
            v = dom.apply_struct(v, lambda x: x.T)
        out = [int(old(it, [dom.getitem(v, i)], {}).lo) for i in range(v.shape[0])]
        return from_np(np.array(out), "i8", False)
    return f


NP["argmin"], NP["argmax"] = _argax("min"), _argax("max")


def _wred(n):
    old = NP[n]

    def f(it, a, k):
        ax = a[1] if len(a) > 1 else k.get("axis")
        if isinstance(ax, tuple) and ax and k.get("where") is None and k.get("initial") is None:
            v, u = L.split(it, a[0])
            axs = sorted({L.as_int(it, x) % v.ndim for x in ax}, reverse=True)
            keep = k.get("keepdims", False)
            r, cnt = a[0], 1
            for x in axs:
                r = f(it, [r, x], {"keepdims": keep} if keep else {})
            return r      # a mean of means over equal shares is the mean
        wh, ini = k.get("where"), k.get("initial")
        if wh is None or wh is True:
            wh = None
        if wh is None and ini is None:
            return old(it, a, {x: y for x, y in k.items() if x not in ("where", "initial")})
        k = {x: y for x, y in k.items() if x not in ("where", "initial")}
        if wh is not None:
            v, u = L.split(it, a[0])
            if n == "sum":
                x = wrap(dom.where(_b(it, wh), v, num(0.0)), u)
                r = old(it, [x] + list(a[1:]), k)
            elif n in ("any", "all"):
                m = _b(it, wh)
                x = dom.band(_b(it, a[0]), m) if n == "any" else dom.bor(_b(it, a[0]), dom.bnot(m))
                r = old(it, [x] + list(a[1:]), k)
            elif n == "mean" and k.get("axis") is None and len(a) == 1:
                x = wrap(_take(v, np.flatnonzero(np.broadcast_to(dom.bool_index(_b(it, wh)), v.shape))), u)
                r = old(it, [x], k)
            else:
                raise Unsupported("reduction where=")
        else:
            v, u = L.split(it, a[0])
            if v.size == 0 and n in ("min", "max"):
                return ini
            r = old(it, a, k)
        if ini is not None:
            if n == "sum":
                return L.binop(it, "Add", r, ini)
            if n in ("min", "max"):
                return NP[n + "imum"](it, [r, ini], {})
            raise Unsupported("reduction initial=")
        return r
    return f


for _n in ("sum", "mean", "min", "max", "any", "all"):
    NP[_n] = _wred(_n)
NP["amin"], NP["amax"] = NP["min"], NP["max"]


def _meshsparse(old):
    def f(it, a, k):
        if not k.get("sparse"):
            return old(it, a, {x: y for x, y in k.items() if x not in ("sparse", "copy")})
        ix = k.get("indexing", "xy")
        vs = [L.split(it, x) for x in a]
        n = len(vs)
        out = []
        for i, (v, u) in enumerate(vs):
            ax = i
            if ix == "xy" and n >= 2 and i < 2:
                ax = 1 - i
            out.append(wrap(dom.reshape(v, tuple(-1 if j == ax else 1 for j in range(n))), u))
        return out
    return f


NP["meshgrid"] = _meshsparse(NP["meshgrid"])


class Grid:
    """np.mgrid / np.ogrid / np.r_ / np.c_ / np.s_"""
    def __init__(self, kind):
        self.kind = kind

    def get(self, it, key):
        if self.kind == "s_":
            return key
        ks = key if isinstance(key, tuple) else (key,)
        if self.kind in ("mgrid", "ogrid"):
            sl = []
            for s in ks:
                if not isinstance(s, slice):
                    raise Unsupported("grid index")
                sl.append(slice(*[None if x is None else L.as_int(it, x) for x in (s.start, s.stop, s.step)]))
            sl = tuple(sl) if isinstance(key, tuple) else sl[0]
            r = getattr(np, self.kind)[sl]
            if isinstance(r, (list, tuple)):
                return [from_np(x, "i8", False) for x in r]
            return from_np(r, "i8", False)
        xs = []
        for s in ks:
            if isinstance(s, str):
                raise Unsupported("r_ directive")
            if isinstance(s, slice):
                s = NP["arange"](it, [s.start or 0, s.stop] + ([s.step] if s.step is not None else []), {})
            xs.append(NP["atleast_1d"](it, [s], {}))
        if self.kind == "r_":
            return NP["concatenate"](it, [xs], {})
        return NP["column_stack"](it, [xs], {})


@reg("ix_")
def np_ix(it, a, k):
    arrs = [np.asarray(dom.concrete_index(L.arr(it, x))) for x in a]
    return tuple(from_np(x, "i8", False) for x in np.ix_(*arrs))


@reg("fromfunction")
def np_fromfunction(it, a, k):
    g = np.indices(_shape(it, a[1]), dtype=float)
    return it.call(a[0], [from_np(x, "f8", False) for x in g], {})


@reg("take_along_axis")
def np_taa(it, a, k):
    v, u = L.split(it, a[0])
    ix = np.asarray(dom.concrete_index(L.arr(it, a[1])))
    ax = a[2] if len(a) > 2 else k.get("axis", -1)
    if ax is None:
        return wrap(_take(v, ix), u)
    return wrap(dom.apply_struct(v, lambda x: np.take_along_axis(x, ix, axis=L.as_int(it, ax))), u)


@reg("copysign")
def np_copysign(it, a, k):
    v, u = L.split(it, a[0])
    s, _ = L.split(it, a[1])
    if not s.is_point():
        raise Undecided("copysign of an undecided sign")
    m = dom.absolute(v) if hasattr(dom, "absolute") else NP["abs"](it, [v], {})
    return wrap(dom.mul(m, from_np(np.copysign(1.0, s.lo), "f8", s.shape == ())), u)

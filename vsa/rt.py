"""Runs analysis harnesses (vsa/scen/*.py) through the abstract interpreter.

A harness is an ordinary Python file that is itself only ever *interpreted abstractly*;
it builds abstract model objects (``var`` gives an interval of inputs with a symbolic
name), calls the public interface of the analysed package and states obligations.
"""
import hashlib
import math
import os
import traceback
import numpy as np
from . import dom, terms as tm, units as U, lib
from .dom import A, PyRaise, Unsupported, Undecided, num
from .values import *  # noqa
from .interp import Interp

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSA_REPO", "/repo")
PKG = "vspec_vsm"
SCEN_DIR = os.path.join(HERE, "scen")
STUBS = os.path.join(HERE, "stubs")
CELL_W = 1e-6


class Infeasible(Exception):
    pass


def _h(*a):
    s = "|".join(str(x) for x in a).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


def _u(*a):
    return _h(*a) / 2.0 ** 64


def _ext_point(lo, hi, ext, f):
    """a point of the extended range outside the usual one; f in [0,1], lower part below lo, upper part above hi"""
    def span(a, b, f):
        if a > 0:
            return a * (b / a) ** f
        if b < 0:
            return -((-a) * (b / a) ** f)
        return a + (b - a) * f
    below, above = ext[0] < lo, ext[1] > hi
    if below and above:
        return span(ext[0], lo, 2 * f) if f < 0.5 else span(hi, ext[1], 2 * f - 1)
    return span(ext[0], lo, f) if below else span(hi, ext[1], f)


class Ctx:
    """Inputs of one abstract run: which cell every named input ranges over."""

    def __init__(self, scn, k, wide, seed, over):
        self.scn, self.k, self.wide, self.seed = scn, k, wide, seed
        self.over = over or {}
        self.ranges = {}
        self.exts = {}
        self.vars = {}
        self.choices = {}
        self.obl = []
        self.notes = []
        self.ncount = 0
        self.npick = 0
        self.entry = None
        self.counts = None
        self.keepq = []
        self.tails = {}

    def cell(self, name, lo, hi, special=None, ext=None):
        if name in self.over:
            c = self.over[name]
            if isinstance(c, tuple):
                return c
            lo2, hi2 = ext or (lo, hi)
            w = (hi - lo) * CELL_W
            if ext and not lo <= c <= hi:
                w = min(w, abs(c) * CELL_W)
            if c <= lo2 or c >= hi2 or w == 0:
                return (min(max(c, lo2), hi2),) * 2
            return max(lo2, c - w / 2), min(hi2, c + w / 2)
        if self.wide:
            return lo, hi
        if special and _u("sp?", self.seed, self.scn, name, self.k) < 0.3:
            v = special[_h("sp", self.seed, self.scn, name, self.k) % len(special)]
            return v, v
        if ext and _u("ex?", self.seed, self.scn, name, self.k) < 0.06:
            c = _ext_point(lo, hi, ext, _u("ex", self.seed, self.scn, name, self.k))
            w = min((hi - lo) * CELL_W, abs(c) * CELL_W)
            return max(ext[0], c - w / 2), min(ext[1], c + w / 2)
        base = _u("b", self.seed, self.scn, name)
        alpha = 0.1 + 0.8 * _u("a", self.seed, self.scn, name)
        f = (base + self.k * alpha) % 1.0
        f = 0.002 + 0.996 * f
        c = lo + (hi - lo) * f
        w = (hi - lo) * CELL_W
        return max(lo, c - w / 2), min(hi, c + w / 2)

    def draw(self, name, lo, hi, special=None, ext=None):
        if name in self.vars:
            l, h = self.vars[name]
        else:
            l, h = self.cell(name, lo, hi, special, ext)
            self.vars[name] = (l, h)
            self.ranges[name] = (lo, hi)
            if ext:
                self.exts[name] = ext
        return dom.var(name, l, h, py=True) if l != h else self._pt(l)

    @staticmethod
    def _pt(v):
        return num(float(v))

    def choice(self, name, opts):
        if name in self.choices:
            return opts[self.choices[name] % len(opts)]
        # every block of n cells sees every option once, in an order drawn per block and choice
        n = len(opts)
        blk, pos = divmod(self.k, n)
        order = sorted(range(n), key=lambda j: _h("cb", self.seed, self.scn, name, blk, j))
        i = order[pos]
        self.choices[name] = i
        return opts[i]

    def count(self, ident, lam):
        self.ncount += 1
        if self.counts is not None:
            return self.counts[(self.ncount - 1) % len(self.counts)]
        return (0, 1, 2, 3)[_h("cnt", self.seed, self.scn, self.k, self.ncount) % 4]

    def pick(self, ident, n):
        return _h("pick", self.seed, self.scn, self.k, ident) % max(n, 1)

    def gp(self, i, n, j=0):
        t = self.tails.get("gp")
        if t:
            return dom.num(float(t[j % len(t)]))
        return self.draw("gp%s" % i, -4.0, 4.0)


# ---------------------------------------------------------------- comparing abstract values
def _join(sts):
    s = "P"
    for x in sts:
        if x == "R":
            return "R"
        if x == "U":
            s = "U"
        elif x == "B" and s == "P":
            s = "B"
    return s


def num_eq(a, b, tol, atol=0.0):
    """Status and detail for 'a equals b' elementwise (A values, same shape)."""
    sts = []
    s = a.shape
    al, ah = a.lo.reshape(-1), a.hi.reshape(-1)
    bl, bh = b.lo.reshape(-1), b.hi.reshape(-1)
    na, nb = a.nan.reshape(-1), b.nan.reshape(-1)
    ta = a.t.reshape(-1) if a.t is not None else None
    tb = b.t.reshape(-1) if b.t is not None else None
    for i in range(al.size):
        if na[i] == 2 and nb[i] == 2:
            continue
        if (na[i] == 2 and nb[i] == 0) or (nb[i] == 2 and na[i] == 0):
            return "R", "element %d is NaN on one side" % i
        if na[i] or nb[i]:
            sts.append("U")
            continue
        if ta is not None and tb is not None and ta[i] is tb[i]:
            continue
        sc = max(min(abs(al[i]), abs(ah[i])), min(abs(bl[i]), abs(bh[i])))
        m = tol * (sc if math.isfinite(sc) else 0.0) + atol
        if al[i] > bh[i] + m or bl[i] > ah[i] + m:
            return "R", "element %d: computed [%.10g, %.10g], required [%.10g, %.10g]" % (i, al[i], ah[i], bl[i], bh[i])
        if al[i] == ah[i] == bl[i] == bh[i]:
            continue
        big = max(abs(al[i]), abs(ah[i]), abs(bl[i]), abs(bh[i]))
        d = max(ah[i] - bl[i], bh[i] - al[i])
        if math.isfinite(d) and d <= 2e-3 * big + atol:
            sts.append("B")
        else:
            sts.append("U")
    return _join(sts), ""


def value_eq(it, a, b, tol=1e-9, atol=0.0, loose=True):
    """Compare two abstract values; returns (status, detail)."""
    if a is b and not isinstance(a, Top):
        return "P", ""
    if isinstance(a, Top) or isinstance(b, Top):
        return "U", "unknown value"
    if a is None or b is None:
        return "R", "%s against %s" % (_d(a), _d(b))
    if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
        if not (isinstance(a, (str, AStr)) and isinstance(b, (str, AStr))):
            return "R", "%s against %s" % (_d(a), _d(b))
        r = lib.key_equal(it, a, b)
        return ("P" if r else "U" if r is None else "R"), "%s against %s" % (a, b)
    if isinstance(a, ADict) or isinstance(b, ADict):
        if not (isinstance(a, ADict) and isinstance(b, ADict)):
            return "R", "dict against other"
        return dict_eq(it, a, b, tol, atol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "R", "length %d against %d" % (len(a), len(b))
        sts = []
        for i, (x, y) in enumerate(zip(a, b)):
            s, d = value_eq(it, x, y, tol, atol)
            if s == "R":
                return s, "item %d: %s" % (i, d)
            sts.append(s)
        return _join(sts), ""
    if isinstance(a, (list, tuple)):
        a = lib.arr(it, list(a))
    if isinstance(b, (list, tuple)):
        b = lib.arr(it, list(b))
    if isinstance(a, (bool, int, float, A, Q)) and isinstance(b, (bool, int, float, A, Q)):
        av, au = lib.split(it, a)
        bv, bu = lib.split(it, b)
        if au is not None or bu is not None:
            au = au or U.ONE
            bu = bu or U.ONE
            if au.dims != bu.dims:
                return "R", "unit %s against %s" % (au.to_string(), bu.to_string())
            bv = lib.to_unit(it, Q(bv, bu), au).v
        if av.shape != bv.shape:
            if av.size == bv.size == 1:
                av, bv = dom.reshape(av, ()), dom.reshape(bv, ())
            else:
                return "R", "shape %s against %s" % (av.shape, bv.shape)
        return num_eq(av, bv, tol, atol)
    if isinstance(a, U.Unit) and isinstance(b, U.Unit):
        return ("P" if a.equals(b) else "R"), "unit"
    if isinstance(a, Obj) and isinstance(b, Obj):
        return "U", "distinct objects"
    if type(a) is not type(b):
        return "R", "%s against %s" % (_d(a), _d(b))
    return "U", "not comparable"


def dict_eq(it, a, b, tol, atol):
    sts = []
    if len(a.items_) != len(b.items_):
        return "R", "keys %s against %s" % (a.keys(), b.keys())
    left = list(b.items_)
    for k, v in a.items_:
        hit, maybe = None, None
        for kv in left:
            r = lib.key_equal(it, k, kv[0])
            if r is True:
                hit = kv
                break
            if r is None:
                maybe = kv
        if hit is None:
            if maybe is None:
                return "R", "key %s only on one side" % (k,)
            return "U", "undecided key"
        left = [x for x in left if x is not hit]
        s, d = value_eq(it, v, hit[1], tol, atol)
        if s == "R":
            return s, "%s: %s" % (k, d)
        sts.append(s)
    return _join(sts), ""


def _d(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


# ---------------------------------------------------------------- snapshots (effects)
def freeze(it, v, memo, pub=True, depth=0):
    """Structure of an abstract value, for before/after comparison."""
    if isinstance(v, (A,)):
        return ("A", v.copy(), v.dtype)
    if isinstance(v, Q):
        return ("Q", v.v.copy(), v.unit)
    if isinstance(v, (list, tuple)):
        if id(v) in memo:
            return ("ref", id(v))
        memo[id(v)] = v
        return ("seq", [freeze(it, x, memo, pub, depth + 1) for x in v])
    if isinstance(v, ADict):
        if id(v) in memo:
            return ("ref", id(v))
        memo[id(v)] = v
        return ("dict", [(k, freeze(it, x, memo, pub, depth + 1)) for k, x in v.items_])
    if isinstance(v, Obj):
        if id(v) in memo:
            return ("ref", id(v))
        memo[id(v)] = v
        return ("obj", v, {k: freeze(it, x, memo, pub, depth + 1) for k, x in v.attrs.items()
                           if not (pub and k.startswith("_"))})
    if isinstance(v, lib.Rng):
        return ("rng", v, v.n)
    return ("x", v)


def frozen_eq(it, f, g, path=""):
    """Yield (path, detail) for definite differences of two freezes of the same root."""
    if f[0] != g[0]:
        if {f[0], g[0]} <= {"seq", "ref"}:
            return
        yield path, "changed kind from %s to %s" % (f[0], g[0])
        return
    k = f[0]
    if k == "A":
        if f[1].shape != g[1].shape:
            yield path, "shape changed from %s to %s" % (f[1].shape, g[1].shape)
        else:
            s, d = num_eq(g[1], f[1], 1e-12)
            if s == "R":
                yield path, "value changed: %s" % d
    elif k == "Q":
        if f[1].shape != g[1].shape:
            yield path, "shape changed"
        elif f[2].dims != g[2].dims:
            yield path, "dimension changed"
        else:
            x = lib.to_unit(it, Q(g[1], g[2]), f[2]).v
            s, d = num_eq(x, f[1], 1e-12)
            if s == "R":
                yield path, "value changed: %s" % d
    elif k == "seq":
        if len(f[1]) != len(g[1]):
            yield path, "length changed from %d to %d" % (len(f[1]), len(g[1]))
            return
        for i, (x, y) in enumerate(zip(f[1], g[1])):
            yield from frozen_eq(it, x, y, "%s[%d]" % (path, i))
    elif k == "dict":
        if len(f[1]) != len(g[1]):
            yield path, "dictionary size changed from %d to %d" % (len(f[1]), len(g[1]))
            return
        for (kx, x), (ky, y) in zip(f[1], g[1]):
            r = lib.key_equal(it, kx, ky)
            if r is False:
                yield path, "keys changed"
                return
            yield from frozen_eq(it, x, y, "%s[%s]" % (path, kx))
    elif k == "obj":
        if f[1] is not g[1]:
            yield path, "object replaced"
            return
        for n, x in f[2].items():
            if n not in g[2]:
                yield path + "." + n, "attribute removed"
                continue
            yield from frozen_eq(it, x, g[2][n], path + "." + n)
    elif k == "rng":
        if f[1] is not g[1]:
            yield path, "random generator replaced"
        elif f[2] != g[2]:
            yield path, "random generator advanced by %d draws" % (g[2] - f[2])
    elif k == "x":
        if f[1] is not g[1] and isinstance(f[1], (str, int, float, bool, type(None))) and \
                isinstance(g[1], (str, int, float, bool, type(None))) and f[1] != g[1]:
            yield path, "changed from %r to %r" % (f[1], g[1])


# ---------------------------------------------------------------- intrinsics
def _bind(it, names, defaults, a, k):
    out = []
    for i, n in enumerate(names):
        if i < len(a):
            out.append(a[i])
        elif n in k:
            out.append(k[n])
        else:
            out.append(defaults[i])
    return out


def intrinsics(it, ctx):
    m = ModV("vsa_rt", {})
    ns = m.ns

    def reg(name):
        def deco(f):
            ns[name] = Builtin("vsa_rt." + name, f)
            return f
        return deco

    def F(v):
        if isinstance(v, A):
            return float(v.lo)
        return float(v)

    def put(key, st, detail=""):
        if it.tainted and st == "R":
            st, detail = "U", "tainted: %s" % it.tainted
        ctx.obl.append((key, st, detail, ctx.entry))

    @reg("var")
    def var(it, a, k):
        name, lo, hi, sp, ext = _bind(it, ["name", "lo", "hi", "special", "ext"], [None, None, None, None, None], a, k)
        return ctx.draw(name, F(lo), F(hi), [F(x) for x in sp] if sp else None, tuple(F(x) for x in ext) if ext else None)

    @reg("choice")
    def choice(it, a, k):
        return ctx.choice(a[0], list(a[1]))

    @reg("cell_index")
    def cell_index(it, a, k):
        return ctx.k

    @reg("rng")
    def rng(it, a, k):
        return lib.Rng(a[0] if a else "user")

    @reg("counts")
    def counts(it, a, k):
        ctx.counts = [int(F(x)) for x in a[0]] if a and a[0] is not None else None
        ctx.ncount = 0

    @reg("tails")
    def tails(it, a, k):
        """the next standard draws of a kind ('z' normal, 'u' uniform, 'e' exponential)"""
        ctx.tails[a[0]] = [float("nan") if isinstance(x, A) and x.nan.all() else F(x) for x in a[1]]

    @reg("eq")
    def eq(it, a, k):
        key, x, y, tol, atol = _bind(it, ["key", "a", "b", "tol", "atol"], [None, None, None, 1e-9, 0.0], a, k)
        at = atol
        if isinstance(atol, Q):
            xx = x if isinstance(x, Q) else y
            try:
                at = F(lib.to_unit(it, atol, xx.unit).v) if isinstance(xx, Q) else F(atol.v)
            except PyRaise:
                at = F(atol.v)
        s, d = value_eq(it, x, y, F(tol), F(at))
        put(key, s, d)

    @reg("check")
    def check(it, a, k):
        key, c = a[0], a[1]
        d = str(a[2]) if len(a) > 2 else ""
        if isinstance(c, Q):
            c = c.v
        if isinstance(c, A):
            b = dom.to_bool(c)
            if b.size == 0:
                put(key, "P")
            elif np.all(b.lo > 0):
                put(key, "P")
            elif np.any(b.hi <= 0):
                put(key, "R", d)
            else:
                put(key, "U")
        elif isinstance(c, Top):
            put(key, "U", repr(c))
        else:
            put(key, "P" if it.truth(c) else "R", d)

    @reg("le")
    def le(it, a, k):
        """every element of x is at most y (beyond rounding)"""
        key, x, y, tol, atol = _bind(it, ["key", "a", "b", "tol", "atol"], [None, None, None, 1e-9, 1e-12], a, k)
        x, y = lib.arr(it, x), lib.arr(it, y)
        if isinstance(x, Top) or isinstance(y, Top):
            put(key, "U")
            return
        xv, xu = lib.split(it, x)
        yv, yu = lib.split(it, y)
        if xu is not None or yu is not None:
            xu, yu = xu or U.ONE, yu or U.ONE
            if xu.dims != yu.dims:
                put(key, "R", "unit %s against %s" % (xu.to_string(), yu.to_string()))
                return
            yv = lib.to_unit(it, Q(yv, yu), xu).v
        s = np.broadcast_shapes(xv.shape, yv.shape)
        xl, xh, yl, yh = (np.broadcast_to(z, s) for z in (xv.lo, xv.hi, yv.lo, yv.hi))
        n = np.maximum(np.broadcast_to(xv.nan, s), np.broadcast_to(yv.nan, s))
        m_ = F(tol) * np.maximum(np.abs(np.where(np.isfinite(xl), xl, 0)), np.abs(np.where(np.isfinite(yh), yh, 0))) + F(atol)
        bad = (xl > yh + m_) | (n == 2)
        same_t = np.zeros(s, bool)
        if xv.t is not None and yv.t is not None:
            tx, ty = np.broadcast_to(xv.t, s), np.broadcast_to(yv.t, s)
            same_t = np.frompyfunc(lambda p, q: p is q, 2, 1)(tx, ty).astype(bool) if s else np.array(tx[()] is ty[()])
        if bad.any():
            i = int(np.argmax(bad.reshape(-1)))
            put(key, "R", "element %d: [%.10g, %.10g] must not exceed [%.10g, %.10g]" % (
                i, xl.reshape(-1)[i], xh.reshape(-1)[i], yl.reshape(-1)[i], yh.reshape(-1)[i]) if not (n == 2).any() else "NaN")
        elif (n == 0).all() and ((xh <= yl + m_) | same_t).all():
            put(key, "P")
        else:
            put(key, "U")

    @reg("finite")
    def finite(it, a, k):
        key, x = a[0], a[1]
        strict = len(a) > 2 and a[2]
        v = lib.arr(it, x)
        if isinstance(v, Q):
            v = v.v
        if not isinstance(v, A):
            put(key, "U")
            return
        inf = (v.lo == v.hi) & np.isinf(v.lo)
        if (v.nan == 2).any() or inf.any():
            put(key, "R", "not a finite number")
        elif strict and (v.nan == 3).any():
            put(key, "R", "an inverse trigonometric function is applied to an unclipped rounded value at the edge of its "
                          "domain: rounding can make it NaN")
        elif (v.nan == 0).all():
            put(key, "P")
        else:
            put(key, "U")

    @reg("fail")
    def fail(it, a, k):
        put(a[0], "R", str(a[1]) if len(a) > 1 else "")

    @reg("passed")
    def passed(it, a, k):
        put(a[0], "P")

    @reg("assume")
    def assume(it, a, k):
        c = a[0]
        if isinstance(c, Q):
            c = c.v
        if isinstance(c, A):
            b = dom.to_bool(c)
            if np.all(b.lo > 0):
                return
            if np.any(b.hi <= 0):
                raise Infeasible()
            raise Undecided("assumption undecided on this cell")
        if isinstance(c, Top):
            raise Undecided("assumption unknown")
        if not it.truth(c):
            raise Infeasible()

    @reg("decided")
    def decided(it, a, k):
        """is the abstract boolean decided on this cell?"""
        c = a[0]
        if isinstance(c, A):
            return bool(np.all((c.lo > 0) == (c.hi > 0)))
        return not isinstance(c, Top)

    @reg("raises")
    def raises(it, a, k):
        """key, callable, exception types, args..."""
        key, f, exc = a[0], a[1], a[2]
        try:
            r = it.call(f, list(a[3:]), dict(k))
        except PyRaise as p:
            ok = it.exc_match(p, exc)
            put(key, "P" if ok else "U" if it.tainted else "R", "raised %s" % p)
            return True
        put(key, "U" if it.tainted or isinstance(r, Top) else "R", "accepted; returned %s" % _d(r))
        return False

    @reg("attempt")
    def attempt(it, a, k):
        """key, callable, args...: obligation that it completes; returns the result"""
        key, f = a[0], a[1]
        try:
            r = it.call(f, list(a[2:]), dict(k))
        except PyRaise as p:
            put(key, "U" if it.tainted else "R", "raised %s at %s" % (p, site_str(p.site or it.site)))
            raise Stop()
        put(key, "P")
        return r

    @reg("tryraise")
    def tryraise(it, a, k):
        """callable, args...: (raised?, result)"""
        try:
            r = it.call(a[0], list(a[1:]), dict(k))
        except PyRaise as p:
            return (True, str(p))
        return (False, r)

    @reg("snap")
    def snap(it, a, k):
        return ("$snap", [(x, freeze(it, x, {})) for x in a])

    @reg("unchanged")
    def unchanged(it, a, k):
        key, s = a[0], a[1]
        for i, (x, f) in enumerate(s[1]):
            for path, d in frozen_eq(it, f, freeze(it, x, {}), "#%d" % i):
                put(key, "R", "%s %s" % (path, d))
                return
        put(key, "P")

    @reg("draws")
    def draws(it, a, k):
        out = []
        for d in it.draws:
            e = ADict()
            for kk in ("rng", "kind", "res", "size", "site"):
                v = d[kk]
                if kk == "site":
                    v = site_str(v)
                e.items_.append([kk, v])
            e.items_.append(["params", tuple(d["params"])])
            out.append(e)
        return out

    @reg("ambients")
    def ambients(it, a, k):
        return ["%s at %s" % (w, site_str(s)) for w, s in it.ambients]

    @reg("clear_log")
    def clear_log(it, a, k):
        del it.draws[:]
        del it.ambients[:]
        del it.warnings[:]

    @reg("warned")
    def warned(it, a, k):
        return len(it.warnings)

    @reg("gps")
    def gps(it, a, k):
        out = []
        for r in it.gps:
            e = ADict()
            for kk, v in r.items():
                e.items_.append([kk, v])
            out.append(e)
        return out

    @reg("same")
    def same(it, a, k):
        """Definitely equal / definitely different / unknown -> True / False / None"""
        s, d = value_eq(it, a[0], a[1], F(a[2]) if len(a) > 2 else 1e-9)
        return True if s in ("P", "B") else False if s == "R" else None

    @reg("note")
    def note(it, a, k):
        ctx.notes.append(" ".join(_d(x) for x in a))

    @reg("same_obj")
    def same_obj(it, a, k):
        return a[0] is a[1]

    @reg("kind")
    def kind(it, a, k):
        v = a[0]
        if isinstance(v, Q):
            return "quantity"
        if isinstance(v, A):
            return "array" if not v.scalar else "number"
        if isinstance(v, (bool, int, float)):
            return "number"
        if isinstance(v, (str, AStr)):
            return "str"
        if isinstance(v, (list, tuple)):
            return "seq"
        if isinstance(v, ADict):
            return "dict"
        if isinstance(v, Obj):
            return v.cls.name
        return "none" if v is None else "other"

    @reg("dims_of")
    def dims_of(it, a, k):
        v = a[0]
        return v.unit.dims if isinstance(v, Q) else U.ONE.dims

    @reg("int_of")
    def int_of(it, a, k):
        return int(F(a[0]))

    @reg("hook")
    def hook(it, a, k):
        """count calls of package functions by qualified name"""
        cnt = []
        it.hooks[a[0]] = lambda it_, f, args, kw: cnt.append(tuple(args))
        return cnt

    @reg("known")
    def known(it, a, k):
        """widths small enough to be a meaningful cell value"""
        v = a[0].v if isinstance(a[0], Q) else num(a[0]) if not isinstance(a[0], A) else a[0]
        return bool(np.all(np.isfinite(v.lo)) and np.all(np.isfinite(v.hi)) and not v.nan.any())

    return m


class Stop(Exception):
    """An obligation failed in a way that ends the harness."""


def site_str(s):
    if not s:
        return "?"
    p = s[0]
    if p.startswith(REPO):
        p = os.path.relpath(p, REPO)
    return "%s:%s (%s)" % (p, s[1], s[2])


# ---------------------------------------------------------------- one cell
def run_cell(mod, scn, k, wide=False, seed=1, over=None, max_traces=16, max_forks=8, want=None, debug=False,
             max_steps=400000):
    """All traces of one harness on one cell. Returns a plain dict."""
    script = []
    traces = []
    lines, funcs = set(), set()
    incomplete = False
    guards = {}
    cands = []
    boxes = None
    while True:
        tm.reset()
        dom.guarded.clear()
        it = Interp(REPO, PKG, lib)
        it.extra_roots = {"scen": HERE, "matplotlib": STUBS, "cartopy": STUBS}
        it.script = list(script)
        it.max_forks = max_forks
        it.max_steps = max_steps
        ctx = Ctx(mod + "." + scn, k, wide, seed, over)
        it.ctx = ctx
        it.modules["vsa_rt"] = intrinsics(it, ctx)
        gterms = {}
        if want is not None:
            install_want(it, want, gterms)
        st, detail = "ok", None
        try:
            m = it.import_module("scen." + mod)
            del it.draws[:]
            del it.ambients[:]
            it.guards.clear()
            it.call(m.ns[scn], [], {})
        except Stop:
            pass
        except Infeasible:
            st = "infeasible"
        except PyRaise as p:
            st, detail = "raise", (p.name, p.msg, p.site or it.site)
        except (Undecided, Unsupported) as e:
            st, detail = "undecided", "%s: %s (at %s)" % (type(e).__name__, e, site_str(it.site))
            if debug:
                traceback.print_exc()
        except RecursionError:
            st, detail = "undecided", "recursion"
        except Exception as e:  # defect of the analyser: no verdict
            st, detail = "undecided", "internal %s: %s (at %s) %s" % (type(e).__name__, e, site_str(it.site),
                                                                     traceback.format_exc()[-600:] if debug else "")
            if debug:
                traceback.print_exc()
        obl = list(ctx.obl)
        if st == "raise":
            if it.tainted:
                st, detail = "undecided", "tainted: %s" % it.tainted
            elif detail[0] in ("AttributeError", "ImportError", "ModuleNotFoundError") and detail[2] and str(detail[2][0]).startswith(SCEN_DIR):
                # the harness itself looked for a name that the package no longer has
                st, detail = "undecided", "name used by the harness is gone: %s at %s" % (detail[1], site_str(detail[2]))
            else:
                obl.append(("the operation completes", "R", "raised %s: %s at %s" % (detail[0], detail[1], site_str(detail[2])), ctx.entry))
        traces.append({"st": st, "detail": detail, "obl": obl, "notes": ctx.notes})
        boxes = dict(ctx.vars)
        ch = dict(ctx.choices)
        lines |= {x for x in it.lines if x[0].startswith(REPO)}
        funcs |= {x for x in it.funcs if x[0].startswith(REPO)}
        for g, v in it.guards.items():
            if g[0].startswith(REPO):
                o = guards.setdefault(g, [0, 0, 0])
                for j in range(3):
                    o[j] += v[j]
        if want is not None:
            cands.extend(solve_guards(gterms, ctx))
        s = it.script[:it.pos]
        while s and s[-1] is False:
            s.pop()
        if not s:
            break
        s[-1] = False
        script = s
        if len(traces) >= max_traces:
            incomplete = True
            break
    live = [t for t in traces if t["st"] != "infeasible"]
    merged = {}
    for t in live:
        seen = {}
        for key, stt, d, anchor in t["obl"]:
            o = seen.get(key)
            seen[key] = (_join([o[0], stt]), (d if stt == "R" and o[0] != "R" else o[1]), o[2] if o[0] == "R" else anchor) if o else (stt, d, anchor)
        for key, v in seen.items():
            merged.setdefault(key, []).append(v)
    res = {}
    for key, vs in merged.items():
        if len(vs) == len(live) and all(v[0] == "R" for v in vs):
            res[key] = vs[0]
        elif all(v[0] in "PB" for v in vs):
            res[key] = (_join([v[0] for v in vs]), "", vs[0][2])
        else:
            res[key] = ("U", "", vs[0][2])
    complete = live and not incomplete
    refuted = []
    if complete:
        # every feasible trace of the cell must break some obligation
        per = [[(key, d, anchor) for key, stt, d, anchor in t["obl"] if stt == "R"] for t in live]
        if all(per):
            refuted = per[0]
    und = [t["detail"] for t in live if t["st"] == "undecided"]
    if und or incomplete:
        # obligations stated before the analysis lost track still count as refuted only if in all traces
        for key in list(res):
            if res[key][0] in "PB" and incomplete:
                res[key] = ("U", "", res[key][2])
    return {"mod": mod, "scn": scn, "k": k, "wide": wide, "over": over, "n": len(traces), "live": len(live),
            "res": res, "refuted": refuted, "und": und, "incomplete": incomplete, "lines": lines, "funcs": funcs,
            "guards": guards, "cands": cands, "box": boxes, "choices": ch,
            "notes": [n for t in traces for n in t["notes"]]}


# ---------------------------------------------------------------- guard-directed cells
def install_want(it, want, gterms):
    """Remember the operand terms of comparisons at wanted source lines."""
    def hook(op, must, may, a=None, b=None):
        it._guard(op, must, may)
        s = it.site
        if s is None or a is None or (s[0], s[1], op) not in want:
            return
        L_ = gterms.setdefault((s[0], s[1], op), [])
        if len(L_) >= 6 or a.t is None or b.t is None:
            return
        sh = np.broadcast_shapes(a.shape, b.shape)
        n = int(np.prod(sh)) if sh else 1
        ta = np.broadcast_to(a.t, sh).reshape(-1)
        tb = np.broadcast_to(b.t, sh).reshape(-1)
        for i in {0, n // 2, n - 1} if n else ():
            if tm.fvars(ta[i]) or tm.fvars(tb[i]):
                L_.append((ta[i], tb[i]))
    dom.guard_hook[0] = hook


def eval_term(t, env, memo):
    """Vectorised value of a term at sample points of the input box."""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [y for y in x.args if isinstance(y, tm.T) and y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _ev1(x, [memo[y.id] if isinstance(y, tm.T) else y for y in x.args], env)
        stack.pop()
    return memo[t.id]


_UF = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "arcsin": np.arcsin,
       "arccos": np.arccos, "arctan": np.arctan, "abs": np.abs, "floor": np.floor, "ceil": np.ceil, "sinh": np.sinh,
       "cosh": np.cosh, "tanh": np.tanh, "neg": np.negative, "sign": np.sign, "expm1": np.expm1}


def _ev1(x, a, env):
    op = x.op
    if op == "c":
        return a[0]
    if op == "v":
        return env.get(a[0], np.nan)
    if op in _UF:
        return _UF[op](a[0])
    try:
        if op == "+":
            return a[0] + a[1]
        if op == "-":
            return a[0] - a[1]
        if op == "*":
            return a[0] * a[1]
        if op == "/":
            return np.divide(a[0], a[1])
        if op == "**":
            return np.power(a[0], a[1])
        if op == "min":
            return np.minimum(a[0], a[1])
        if op == "max":
            return np.maximum(a[0], a[1])
        if op == "mod":
            return np.mod(a[0], a[1])
        if op == "arctan2":
            return np.arctan2(a[0], a[1])
        if op == "where":
            return np.where(a[0], a[1], a[2])
        if op == "<":
            return np.less(a[0], a[1])
        if op == "<=":
            return np.less_equal(a[0], a[1])
        if op == "==":
            return np.equal(a[0], a[1])
        if op == "not":
            return np.logical_not(a[0])
        if op == "and":
            return np.logical_and(a[0], a[1])
        if op == "or":
            return np.logical_or(a[0], a[1])
    except Exception:
        pass
    return np.nan


def solve_guards(gterms, ctx, n=600):
    out = []
    rs = np.random.RandomState(_h("sg", ctx.seed, ctx.scn, ctx.k) % 2 ** 32)
    for site, pairs in gterms.items():
        for ta, tb in pairs:
            vs = sorted((tm.fvars(ta) | tm.fvars(tb)) & set(ctx.ranges))
            if not vs:
                continue
            env = {}
            for v in ctx.vars:
                l, h = ctx.vars[v]
                env[v] = np.full(n, 0.5 * (l + h))
            for j, v in enumerate(vs):
                lo, hi = ctx.ranges[v]
                u = rs.rand(n)
                u[:40] = rs.beta(0.2, 0.2, 40)
                # vary one variable at a time in half of the samples
                x = lo + (hi - lo) * u
                if v in ctx.exts:
                    e = np.array([_ext_point(lo, hi, ctx.exts[v], f) for f in rs.rand(n)])
                    x = np.where(rs.rand(n) < 0.4, e, x)
                solo = (np.arange(n) % (2 * len(vs)) < len(vs)) & (np.arange(n) % len(vs) != j)
                env[v] = np.where(solo, env[v], x)
            d = np.asarray(eval_term(ta, env, {}) - eval_term(tb, env, {}), float) * np.ones(n)
            ok = np.isfinite(d)
            op = site[2]
            for side in (True, False):
                if op in ("<", "<="):
                    hit = ok & ((d < 0) == side) & (d != 0)
                elif op in (">", ">="):
                    hit = ok & ((d > 0) == side) & (d != 0)
                else:
                    hit = ok & (d == 0) if side == (op == "==") else ok & (d != 0)
                idx = np.nonzero(hit)[0]
                if idx.size:
                    for i in idx[[0, idx.size // 2, -1]]:
                        out.append((site, side, {v: float(env[v][i]) for v in vs}))
                elif op in ("==", "!=") and side == (op == "=="):
                    p = _root(ta, tb, vs, env, d, ok)
                    if p:
                        out.append((site, side, p))
    return out


def _root(ta, tb, vs, env, d, ok):
    pos, neg = np.nonzero(ok & (d > 0))[0], np.nonzero(ok & (d < 0))[0]
    if not pos.size or not neg.size:
        return None
    a = {v: float(env[v][pos[0]]) for v in vs}
    b = {v: float(env[v][neg[0]]) for v in vs}
    base = {v: float(x[0]) for v, x in env.items()}

    def f(s):
        e = dict(base)
        for v in vs:
            e[v] = a[v] + (b[v] - a[v]) * s
        return float(eval_term(ta, e, {}) - eval_term(tb, e, {})), {v: e[v] for v in vs}
    l, h = 0.0, 1.0
    for _ in range(80):
        mid = 0.5 * (l + h)
        val, e = f(mid)
        if val == 0:
            return e
        if val > 0:
            l = mid
        else:
            h = mid
    val, e = f(0.5 * (l + h))
    r = {v: float("%.10g" % x) for v, x in e.items()}
    return r

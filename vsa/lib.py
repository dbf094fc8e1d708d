"""Models of the Python builtins and of the libraries the analysed package uses."""
import math
import numpy as np
from fractions import Fraction
from . import dom, terms as tm, units as U
from .dom import A, PyRaise, Unsupported, Undecided, num, from_np
from .values import *  # noqa

INF = math.inf


# ====================================================================== helpers
def is_num(v):
    return isinstance(v, (int, float)) or (isinstance(v, A))


def terr(it, msg, *vals):
    """Raise TypeError, provided every operand is of a kind whose operations are modelled completely."""
    for v in vals:
        if isinstance(v, complex) or isinstance(v, ADict) and v.factory == "$counter" or not (v is None or isinstance(v, (bool, int, float, str, list, tuple, range, ADict, ASet, A, Q, U.Unit, Obj,
                                                                      FuncV, Bound, ClassV))):
            raise Unsupported("%s on %s" % (msg, type(v).__name__))
    raise PyRaise(TypeError, msg, it.site)


def as_int(it, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, A):
        if v.dtype[0] == "f" or v.shape != ():
            raise PyRaise(TypeError, "'float' object cannot be interpreted as an integer", it.site)
        if not v.is_point():
            raise Undecided("integer not decided")
        return int(v.lo)
    if isinstance(v, Top):
        raise Undecided("unknown integer")
    if isinstance(v, Obj) and v.cls.lookup("__index__")[0] is not None:
        return as_int(it, it.call(it.getattr(v, "__index__"), [], {}))
    terr(it, "%s object cannot be interpreted as an integer" % type(v).__name__, v)


def arr(it, v):
    """array-like -> A or Q (Top passes through)."""
    if isinstance(v, (A, Q, Top)):
        return v
    if isinstance(v, (bool, int, float)):
        return num(v)
    if isinstance(v, (list, tuple, range)):
        xs = [arr(it, x) for x in v]
        if not xs:
            return from_np(np.zeros(0), "f8", False)
        if any(isinstance(x, Top) for x in xs):
            return Top("array of unknown")
        if any(isinstance(x, Q) for x in xs):
            out = []
            for x in xs:
                if isinstance(x, Q):
                    if not x.unit.is_dimless():
                        raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
                    x = to_unit(it, x, U.ONE).v
                out.append(x)
            xs = out
        sh = xs[0].shape
        if any(x.shape != sh for x in xs):
            raise PyRaise(ValueError, "setting an array element with a sequence. inhomogeneous shape", it.site)
        r = dom.stack_struct([dom.reshape(x, sh) for x in xs], lambda ps: np.stack(ps))
        return r
    if v is None:
        raise Unsupported("None as array")
    if isinstance(v, (ADict, Obj, str, AStr)):
        raise Unsupported("object array")
    raise Unsupported("array from %r" % (v,))


def split(it, v):
    """-> (A, unit or None)"""
    v = arr(it, v)
    if isinstance(v, Top):
        raise Undecided("unknown value %s" % v.why)
    if isinstance(v, Q):
        return v.v, v.unit
    return v, None


def scale_factor(it, a, b):
    if a.dims != b.dims:
        raise PyRaise(U.UnitConversionError, "%r (%s) and %r (%s) are not convertible" % (
            a.to_string(), dict(a.dims), b.to_string(), dict(b.dims)), it.site)
    return a.scale / b.scale


def to_unit(it, q, unit):
    """Quantity in another unit (copy)."""
    if q.unit.dims == unit.dims and q.unit.scale == unit.scale:
        return Q(q.v.copy(), unit)
    f = scale_factor(it, q.unit, unit)
    if abs(f - 1) < 1e-15:
        return Q(q.v.copy(), unit)
    r = dom.mul(q.v, num(f))
    r.dtype = q.v.dtype
    return Q(r, unit)


def plain_to(it, a, unit):
    """Plain number used where a quantity of ``unit`` is expected."""
    if unit.is_dimless():
        return dom.mul(a, num(1 / unit.scale)) if unit.scale != 1 else a
    if arbitrary(a):
        return a
    raise PyRaise(U.UnitConversionError, "'' (dimensionless) and %r are not convertible" % unit.to_string(), it.site)


def arbitrary(a):
    """0, inf and nan may carry any unit."""
    pt = (a.lo == a.hi) & ((a.lo == 0) | np.isinf(a.lo))
    return bool(np.all(pt | (a.nan == 2)))


def mkq(v, unit):
    return Q(v, unit)


# ====================================================================== binary operators
OPF = {"Add": dom.add, "Sub": dom.sub, "Mult": dom.mul, "Div": dom.div, "Pow": dom.power,
       "Mod": dom.mod, "FloorDiv": dom.floordiv}
DUN = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
       "Mod": "__mod__", "FloorDiv": "__floordiv__", "BitAnd": "__and__", "BitOr": "__or__",
       "BitXor": "__xor__", "MatMult": "__matmul__", "LShift": "__lshift__", "RShift": "__rshift__"}
RDUN = {k: "__r" + v[2:] for k, v in DUN.items()}
IDUN = {k: "__i" + v[2:] for k, v in DUN.items()}


def _native(op, a, b):
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        return a / b
    if op == "Pow":
        return a ** b
    if op == "Mod":
        return a % b
    if op == "FloorDiv":
        return a // b
    if op == "BitAnd":
        return a & b
    if op == "BitOr":
        return a | b
    if op == "BitXor":
        return a ^ b
    if op == "LShift":
        return a << b
    if op == "RShift":
        return a >> b
    raise Unsupported(op)


def binop(it, op, a, b, inplace=False):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            r = _native(op, a, b)
        except (ZeroDivisionError, OverflowError, TypeError) as x:
            raise PyRaise(type(x), str(x), it.site)
        if isinstance(r, complex):
            return Top("complex")
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj):
            if inplace:
                m, _ = a.cls.lookup(IDUN[op])
                if m is not None:
                    return it.call(Bound(m, a), [b], {})
            m, _ = a.cls.lookup(DUN[op])
            if m is not None:
                return it.call(Bound(m, a), [b], {})
        if isinstance(b, Obj):
            m, _ = b.cls.lookup(RDUN[op])
            if m is not None:
                return it.call(Bound(m, b), [a], {})
        o = a if isinstance(a, Obj) else b
        if any(isinstance(x, (Top, NType)) for x in o.cls.native_bases()):
            return Top("op on %s" % o.cls.name)
        raise PyRaise(TypeError, "unsupported operand type(s) for %s" % op, it.site)
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("%s" % op)
    # strings and sequences
    if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
        if op == "Add" and isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
            return join_parts(_parts(a) + _parts(b))
        if op == "Mod" and isinstance(a, str):
            return percent(it, a, b)
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, (U.Unit, Q, A)) or isinstance(b, (U.Unit, Q, A)):
            if isinstance(b, U.Unit) and op == "Mult" and isinstance(a, str):
                return U.mul(parse_unit(it, a), b)
            terr(it, "unsupported operand type(s) for %s" % op, a, b)
        terr(it, "unsupported operand type(s) for %s: %s and %s" % (op, type(a).__name__, type(b).__name__), a, b)
    if a is None or b is None:
        terr(it, "unsupported operand type(s) for %s: 'NoneType'" % op, a, b)
    if isinstance(a, (ADict,)) and isinstance(b, ADict) and op == "BitOr":
        d = a.copy()
        dict_update(it, d, b)
        return d
    if isinstance(a, ASet) and isinstance(b, ASet):
        if op == "BitOr":
            return mkset(it, a.items_ + b.items_)
        if op == "Sub":
            return ASet([x for x in a.items_ if not any(it.key_eq(x, y) for y in b.items_)])
        if op == "BitAnd":
            return ASet([x for x in a.items_ if any(it.key_eq(x, y) for y in b.items_)])
        raise Unsupported("set op")
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op == "Add" and type(a) is type(b):
            return a + b
        if op == "Mult" and isinstance(a, (list, tuple)) and (isinstance(b, int) or isinstance(b, A) and b.scalar and b.dtype == "i8"):
            return a * as_int(it, b)
        if op == "Mult" and isinstance(b, (list, tuple)) and (isinstance(a, int) or isinstance(a, A) and a.scalar and a.dtype == "i8"):
            return b * as_int(it, a)
        if isinstance(a, (A, Q, U.Unit)) or isinstance(b, (A, Q, U.Unit)):
            if isinstance(a, (list, tuple)):
                a = arr(it, a)
            if isinstance(b, (list, tuple)):
                b = arr(it, b)
            return binop(it, op, a, b)
        terr(it, "unsupported operand type(s) for %s" % op, a, b)
    # units
    if isinstance(a, U.Unit) and isinstance(b, U.Unit):
        if op == "Mult":
            return U.mul(a, b)
        if op == "Div":
            return U.div(a, b)
        raise PyRaise(TypeError, "unsupported operand type(s) for units", it.site)
    if isinstance(a, U.Unit):
        if op == "Pow":
            if isinstance(b, A):
                if not b.is_point():
                    raise Undecided("unit power")
                b = float(b.lo)
            if isinstance(b, (int, float, Fraction)):
                return U.power(a, b)
        if op == "Mult":
            return binop(it, "Mult", b, a)
        if op == "Div":
            if isinstance(b, Q):
                return Q(dom.div(num(1.0), b.v), U.div(a, b.unit))
            return Q(dom.div(num(1.0), arr(it, b)), a)
        terr(it, "unsupported operand type(s) for %s: Unit" % op, a, b)
    if isinstance(b, U.Unit):
        if op == "LShift":
            if isinstance(a, Q):
                return to_unit(it, a, b)
            return Q(arr(it, a), b)
        if op in ("Mult", "Div"):
            uu = b if op == "Mult" else U.inv(b)
            if isinstance(a, Q):
                return Q(a.v.copy(), U.mul(a.unit, b) if op == "Mult" else U.div(a.unit, b))
            return Q(arr(it, a).copy(), uu)
        terr(it, "unsupported operand type(s) for %s: Unit" % op, a, b)
    if not (isinstance(a, (int, float, A, Q)) and isinstance(b, (int, float, A, Q))):
        terr(it, "unsupported operand type(s) for %s: %s %s" % (op, type(a).__name__, type(b).__name__), a, b)
    if isinstance(a, Q) or isinstance(b, Q):
        return qop(it, op, a, b)
    # python-float division by a definite zero
    a2, b2 = num(a), num(b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        return {"BitAnd": dom.band, "BitOr": dom.bor, "BitXor": dom.bxor}[op](a2, b2)
    if op == "MatMult":
        return matmul(it, a2, b2)
    if op not in OPF:
        raise Unsupported("operator %s" % op)
    if op in ("Div", "Mod", "FloorDiv") and a2.py and b2.py and b2.shape == () and float(b2.lo) == 0 == float(b2.hi):
        raise PyRaise(ZeroDivisionError, "division by zero", it.site)
    if op in ("Add", "Sub") and a2.dtype == "b1" and b2.dtype == "b1" and not a2.py and not b2.py:
        if op == "Sub":
            raise PyRaise(TypeError, "numpy boolean subtract not supported", it.site)
        return dom.bor(a2, b2)
    if op == "Pow" and b2.is_point() and a2.dtype == "i8" and b2.dtype == "i8" and np.any(b2.lo < 0) and not a2.py:
        raise PyRaise(ValueError, "Integers to negative integer powers are not allowed.", it.site)
    return OPF[op](a2, b2)


def qop(it, op, a, b):
    av, au = split(it, a)
    bv, bu = split(it, b)
    if op == "Mult":
        r = dom.mul(av, bv)
        return Q(r, au if bu is None else bu if au is None else U.mul(au, bu))
    if op == "Div":
        r = dom.div(av, bv)
        return Q(r, au if bu is None else U.inv(bu) if au is None else U.div(au, bu))
    if op in ("Add", "Sub", "Mod"):
        f = OPF[op]
        if au is not None and bu is not None:
            if au.dims != bu.dims:
                if arbitrary(bv):
                    pass
                else:
                    scale_factor(it, bu, au)
            return Q(f(av, to_unit(it, Q(bv, bu), au).v), au)
        if au is None:
            if bu.is_dimless():
                return Q(f(av, to_unit(it, b, U.ONE).v), U.ONE)
            if arbitrary(av):
                return Q(f(av, bv), bu)
            raise PyRaise(U.UnitConversionError, "Can only apply '%s' function to dimensionless quantities when other argument is not a quantity (unless the latter is all zero/infinity/nan)." % op.lower(), it.site)
        if au.is_dimless():
            return Q(f(to_unit(it, a, U.ONE).v, bv), U.ONE)
        if arbitrary(bv):
            return Q(f(av, bv), au)
        raise PyRaise(U.UnitConversionError, "Can only apply '%s' function to dimensionless quantities when other argument is not a quantity (unless the latter is all zero/infinity/nan)." % op.lower(), it.site)
    if op == "FloorDiv":
        if au is not None and bu is not None:
            return Q(dom.floordiv(av, to_unit(it, Q(bv, bu), au).v), U.ONE)
        if au is not None and au.is_dimless():
            return Q(dom.floordiv(to_unit(it, a, U.ONE).v, bv), U.ONE)
        raise PyRaise(U.UnitConversionError, "floor_divide", it.site)
    if op == "Pow":
        if bu is not None:
            if not bu.is_dimless():
                raise PyRaise(U.UnitTypeError, "Can only raise something to a dimensionless quantity", it.site)
            bv = to_unit(it, Q(bv, bu), U.ONE).v
        if au is None:
            return Q(dom.power(av, bv), U.ONE)
        if not bv.is_point() or bv.shape != ():
            if au.is_dimless():
                return Q(dom.power(to_unit(it, a, U.ONE).v, bv), U.ONE)
            # unit exponent is abstract: the resulting unit cannot be represented unless scale-free
            return Q(dom.power(av, bv), SymUnit.power(au, bv))
        e = float(bv.lo)
        if au.is_dimless() and au.scale == 1:
            return Q(dom.power(av, bv), U.ONE)
        return Q(dom.power(av, bv), U.power(au, int(e) if e == int(e) else e))
    if op in ("BitAnd", "BitOr", "BitXor"):
        raise PyRaise(TypeError, "ufunc 'bitwise' not supported for Quantity", it.site)
    if op == "MatMult":
        return Q(matmul(it, av, bv), U.mul(au or U.ONE, bu or U.ONE))
    raise Unsupported("quantity %s" % op)


class SymUnit:
    """unit ** abstract exponent: kept exact via a formal dimension."""
    @staticmethod
    def power(unit, bv):
        # use the interval midpoint exponent as formal exponent tagged by the term id
        t = bv.t[()] if bv.t is not None and bv.shape == () else None
        if t is None:
            raise Undecided("unit raised to an abstract power")
        raise Undecided("unit raised to an abstract power")


def matmul(it, a, b):
    if a.ndim == 1 and b.ndim == 1:
        return dom.rsum(dom.mul(a, b))
    if a.ndim == 2 and b.ndim == 1:
        return dom.rsum(dom.mul(a, b), axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return dom.rsum(dom.mul(dom.reshape(a, (-1, 1)), b), axis=0)
    if a.ndim == 2 and b.ndim == 2:
        x = dom.reshape(a, (a.shape[0], a.shape[1], 1))
        y = dom.reshape(b, (1, b.shape[0], b.shape[1]))
        return dom.rsum(dom.mul(x, y), axis=1)
    raise Unsupported("matmul")


def unary(it, op, v):
    if isinstance(v, Top):
        return v
    if isinstance(v, bool) and op == "Invert":
        return ~v
    if isinstance(v, (int, float)):
        return -v if op == "USub" else +v if op == "UAdd" else ~v
    if isinstance(v, A):
        if op == "USub":
            if v.dtype == "b1" and not v.py:
                raise PyRaise(TypeError, "The numpy boolean negative, the `-` operator, is not supported", it.site)
            return dom.neg(v)
        if op == "UAdd":
            return v
        return dom.bnot(v)
    if isinstance(v, Q):
        if op == "USub":
            return Q(dom.neg(v.v), v.unit)
        if op == "UAdd":
            return v
    if isinstance(v, Obj):
        m, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if m is not None:
            return it.call(Bound(m, v), [], {})
    terr(it, "bad operand type for unary %s" % op, v)


# ====================================================================== comparison
CMP = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}
CDUN = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__", "Eq": "__eq__", "NotEq": "__ne__"}
SWAP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}


def compare(it, op, a, b):
    if op == "Is":
        return ident(a, b)
    if op == "IsNot":
        return not ident(a, b)
    if op in ("In", "NotIn"):
        r = contains(it, b, a)
        if op == "NotIn":
            if isinstance(r, A):
                return dom.bnot(r)
            return not r
        return r
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
        try:
            return _ncmp(op, a, b)
        except TypeError as x:
            raise PyRaise(TypeError, str(x), it.site)
    if isinstance(a, AIter) or isinstance(b, AIter):
        if op in ("Eq", "NotEq"):
            return (a is b) == (op == "Eq")
        raise Unsupported("order of iterators")
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj):
            m, _ = a.cls.lookup(CDUN[op])
            if m is not None:
                return it.call(Bound(m, a), [b], {})
            if op == "NotEq":
                m, _ = a.cls.lookup("__eq__")
                if m is not None:
                    return not it.truth(it.call(Bound(m, a), [b], {}))
        if isinstance(b, Obj):
            m, _ = b.cls.lookup(CDUN[SWAP[op]])
            if m is not None:
                return it.call(Bound(m, b), [a], {})
        if op == "Eq":
            return a is b
        if op == "NotEq":
            return a is not b
        if isinstance(a, Obj) and a.cls.ns.get("$dataclass"):
            raise Unsupported("dataclass order")
        raise PyRaise(TypeError, "'%s' not supported between instances" % CMP[op], it.site)
    if isinstance(a, Top) or isinstance(b, Top):
        return Top("cmp")
    if a is None or b is None:
        if op in ("Eq", "NotEq"):
            x = b if a is None else a
            if isinstance(x, (A, Q)) and x.shape != ():
                return dom.mkbool(np.zeros(x.shape, bool), np.zeros(x.shape, bool)) if op == "Eq" else \
                    dom.mkbool(np.ones(x.shape, bool), np.ones(x.shape, bool))
            return (a is b) if op == "Eq" else (a is not b)
        terr(it, "'%s' not supported between instances of NoneType" % CMP[op], a, b)
    if isinstance(a, U.Unit) and isinstance(b, (U.Unit, str)):
        if isinstance(b, str):
            b = parse_unit(it, b)
        r = a.equals(b)
        if op == "Eq":
            return r
        if op == "NotEq":
            return not r
        raise Unsupported("unit ordering")
    if isinstance(a, str) and isinstance(b, U.Unit):
        return compare(it, op, b, a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if op in ("Eq", "NotEq"):
            if type(a) is not type(b) or len(a) != len(b):
                return op == "NotEq"
            r = all(x is y or it.truth(compare(it, "Eq", x, y)) for x, y in zip(a, b))
            return r if op == "Eq" else not r
        for x, y in zip(a, b):
            if not (x is y or it.truth(compare(it, "Eq", x, y))):
                return compare(it, op, x, y)
        return _ncmp(op, len(a), len(b))
    if isinstance(a, (AStr, str)) and isinstance(b, (AStr, str)):
        if op in ("Eq", "NotEq"):
            r = key_equal(it, a, b)
            if r is None:
                r = it.decide(None)
            return r if op == "Eq" else not r
        raise Unsupported("string order")
    if isinstance(a, (ADict, ASet)) or isinstance(b, (ADict, ASet)):
        if op in ("Eq", "NotEq") and type(a) is type(b):
            if len(a.items_) != len(b.items_):
                return op == "NotEq"
            if isinstance(a, ADict):
                r = True
                for k, v in a.items_:
                    i = it.dict_find(b, k)
                    if i < 0 or not it.truth(compare(it, "Eq", v, b.items_[i][1])):
                        r = False
                        break
                return r if op == "Eq" else not r
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
        raise Unsupported("set/dict order")
    if isinstance(a, (list, tuple)) and isinstance(b, (A, Q)):
        a = arr(it, a)
    if isinstance(b, (list, tuple)) and isinstance(a, (A, Q)):
        b = arr(it, b)
    if isinstance(a, (int, float, A, Q)) and isinstance(b, (int, float, A, Q)):
        av, au = split(it, a)
        bv, bu = split(it, b)
        if au is not None or bu is not None:
            ok = True
            if au is not None and bu is not None:
                if au.dims != bu.dims:
                    ok = False
                else:
                    bv = to_unit(it, Q(bv, bu), au).v
            elif au is None:
                if bu.is_dimless():
                    bv = to_unit(it, b, U.ONE).v
                elif not arbitrary(av):
                    ok = False
            else:
                if au.is_dimless():
                    av = to_unit(it, a, U.ONE).v
                elif not arbitrary(bv):
                    ok = False
            if not ok:
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                raise PyRaise(U.UnitConversionError, "cannot compare %s with %s" % (
                    au.to_string() if au else "number", bu.to_string() if bu else "number"), it.site)
        return dom.compare(CMP[op], av, bv)
    if op == "Eq":
        return a is b or (not isinstance(a, (A, Q)) and not isinstance(b, (A, Q)) and _plain_eq(a, b))
    if op == "NotEq":
        return not (a is b or (not isinstance(a, (A, Q)) and not isinstance(b, (A, Q)) and _plain_eq(a, b)))
    terr(it, "'%s' not supported between instances of %s and %s" % (CMP[op], type(a).__name__, type(b).__name__), a, b)


def _plain_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def _ncmp(op, a, b):
    return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
            "Eq": lambda: a == b, "NotEq": lambda: a != b}[op]()


def ident(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        return False
    if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, U.Unit) and isinstance(b, U.Unit):
        return a.equals(b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def contains(it, c, x):
    if isinstance(c, (A, Q)):
        return np_any(it, compare(it, "Eq", c, x))
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return it.decide(None)
    if isinstance(c, ADict):
        it.check_hashable(x)
        return it.dict_find(c, x) >= 0
    if isinstance(c, Obj):
        m, _ = c.cls.lookup("__contains__")
        if m is not None:
            return it.truth(it.call(Bound(m, c), [x], {}))
    if isinstance(c, Top):
        return it.decide(None)
    if isinstance(c, ASet):
        return any(it.key_eq(y, x) for y in c.items_)
    if isinstance(c, range):
        return as_int(it, x) in c
    for y in it.iterate(c):
        if y is x or it.truth(compare(it, "Eq", y, x)):
            return True
    return False


def np_any(it, v):
    if isinstance(v, bool):
        return v
    return dom.rany(v)


# ---------------------------------------------------------------- keys, strings
def _parts(s):
    return [s] if isinstance(s, str) else list(s.parts)


def join_parts(parts):
    flat = []
    for p in parts:
        if isinstance(p, AStr):
            flat.extend(p.parts)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) and p == "":
            continue
        else:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return AStr(out)


def percent(it, fmt, args):
    import re
    vals = list(args) if isinstance(args, tuple) else [args]
    out, pos, i = [], 0, 0
    for m in re.finditer(r"%([-+ 0#]*)(\d*)(\.\d+)?([sdifgeEFGr%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(4)
        if c == "%":
            out.append("%")
            continue
        if i >= len(vals):
            raise PyRaise(TypeError, "not enough arguments for format string", it.site)
        v = vals[i]
        i += 1
        if c in "sr":
            out.append(to_str(it, v))
        else:
            if isinstance(v, Q):
                if any(v.unit.dims):
                    raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted", it.site)
                v = to_unit(it, v, U.ONE).v
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, A) and v.size == 1 and v.shape != ():
                return AStr([(None, "%", 0, 0)])
            if c in "di":
                if isinstance(v, A) and not v.is_point():
                    out.append(AStr([(None, "%d", 0, 0)]))
                    continue
                v = int(v.lo) if isinstance(v, A) else int(v)
                out.append(("%" + m.group(1) + m.group(2) + (m.group(3) or "") + "d") % v)
            else:
                out.append(format_(it, v, m.group(1).replace("-", "<") + m.group(2) + (m.group(3) or "") + c))
    out.append(fmt[pos:])
    return join_parts([p for x in out for p in _parts(x)])


def str_format(it, fmt, a, k):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v, auto = a[auto], auto + 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return AStr([(None, "format", 0, 0)])
        out.append(to_str(it, v) if conv else format_(it, v, spec or ""))
    return join_parts([p for x in out for p in _parts(x)])


def format_(it, x, spec):
    if isinstance(x, (int, float, str)) or x is None:
        try:
            return format(x, spec)
        except (ValueError, TypeError) as e:
            raise PyRaise(type(e), str(e), it.site)
    if isinstance(x, AStr):
        return x
    if isinstance(x, A):
        if x.shape != () or x.nan.any():
            return AStr([(None, spec, -INF, INF)])
        if x.dtype == "i8" and x.is_point():
            return format(int(x.lo), spec)
        return _fmt(x, spec)
    if isinstance(x, Q):
        if x.shape != ():
            return AStr([(None, spec, -INF, INF)])
        return join_parts([_fmt(x.v, spec), " " + x.unit.to_string() if x.unit.to_string() else ""])
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__format__")
        if m is not None:
            return it.call(Bound(m, x), [spec], {})
        return to_str(it, x)
    return AStr([(None, spec, -INF, INF)])


def _fmt(x, spec):
    lo, hi = float(x.lo), float(x.hi)
    try:
        a, b = format(lo, spec), format(hi, spec)
    except (ValueError, TypeError) as e:
        raise PyRaise(type(e), str(e), None)
    if a == b and not int(x.nan) and (spec != "" or lo == hi):
        return a
    return AStr([(x.t[()] if x.t is not None else None, spec, lo, hi)])


def to_str(it, x):
    if isinstance(x, (str, AStr)):
        return x
    if isinstance(x, (int, float)) or x is None:
        return str(x)
    if isinstance(x, Obj):
        for n in ("__str__", "__repr__"):
            m, _ = x.cls.lookup(n)
            if m is not None:
                return it.call(Bound(m, x), [], {})
    if isinstance(x, PyRaise):
        return x.msg
    if isinstance(x, BaseException):
        return str(x)
    if isinstance(x, U.Unit):
        return x.to_string()
    if isinstance(x, (list, tuple, ADict)):
        out = ["{" if isinstance(x, ADict) else "[" if isinstance(x, list) else "("]
        for i, e in enumerate(x.items_ if isinstance(x, ADict) else x):
            out += [", "] if i else []
            for j, y in enumerate(e if isinstance(x, ADict) else [e]):
                out += [": "] if j else []
                out += ["'%s'" % y] if isinstance(y, str) else _parts(to_str(it, y))
        return join_parts(out + ["}" if isinstance(x, ADict) else "]" if isinstance(x, list) else ")"])
    return format_(it, x, "")


def key_equal(it, a, b):
    """True / False / None (unknown)."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (AStr, str)) and isinstance(b, (AStr, str)):
        pa, pb = _parts(a), _parts(b)
        if len(pa) == len(pb):
            res = True
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        return False
                elif isinstance(x, str) or isinstance(y, str):
                    s, f = (x, y) if isinstance(x, str) else (y, x)
                    return _str_vs_fmt(s, f, pa, pb)
                else:
                    if x[0] is not None and x[0] is y[0] and x[1] == y[1]:
                        continue
                    if x[1] == y[1] and (x[3] < y[2] or y[3] < x[2]):
                        if format(x[3], x[1]) != format(y[2], y[1]) and format(y[3], y[1]) != format(x[2], x[1]):
                            return False
                    res = None
            return res
        # "3000.00 K" against <fmt> " K"
        s, f = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(s, str) and isinstance(f, AStr):
            return _str_vs_astr(s, f)
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, (int, float, A)) and isinstance(b, (int, float, A)):
        x, y = num(a), num(b)
        if x.shape != () or y.shape != ():
            return None
        return dom.definitely_equal(x, y)
    if isinstance(a, Q) and isinstance(b, Q):
        if not a.unit.equals(b.unit):
            return False
        if a.shape != () or b.shape != ():
            return None
        return dom.definitely_equal(a.v, b.v)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            r = key_equal(it, x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(a, Obj) and isinstance(b, Obj):
        m, _ = a.cls.lookup("__eq__")
        if m is not None:
            return it.truth(it.call(Bound(m, a), [b], {}))
        return False
    if isinstance(a, U.Unit) and isinstance(b, U.Unit):
        return a.equals(b)
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    return False


def _str_vs_astr(s, f):
    ps = f.parts
    if len(ps) >= 1 and not isinstance(ps[0], str):
        tail = "".join(p for p in ps[1:] if isinstance(p, str))
        if len(ps) <= 2 and s.endswith(tail):
            body = s[:len(s) - len(tail)] if tail else s
            try:
                v = float(body)
            except ValueError:
                return False
            lo, hi = ps[0][2], ps[0][3]
            if format(lo, ps[0][1]) != body and format(hi, ps[0][1]) != body and (v < lo or v > hi):
                return False
            return None
        return False if len(ps) <= 2 else None
    return None


def _str_vs_fmt(s, f, pa, pb):
    return None


def mkset(it, items):
    out = []
    for x in items:
        it.check_hashable(x)
        if not any(it.key_eq(x, y) for y in out):
            out.append(x)
    return ASet(out)


def dict_update(it, d, src):
    if isinstance(src, ADict):
        for k, v in [tuple(kv) for kv in src.items_]:
            it.dict_set(d, k, v)
    elif isinstance(src, Top):
        raise Undecided("dict update")
    else:
        for kv in it.iterate(src):
            k, v = it.iterate(kv)
            it.dict_set(d, k, v)


def parse_unit(it, s):
    try:
        return U.parse(s)
    except ValueError:
        raise Unsupported("unit string %r" % s)


# ====================================================================== isinstance
def isinstance_(it, v, t):
    if isinstance(t, tuple):
        return any(it.truth(isinstance_(it, v, x)) for x in t)
    if isinstance(t, ASet):
        return any(it.truth(isinstance_(it, v, x)) for x in t.items_)
    if isinstance(t, ClassV):
        return isinstance(v, Obj) and t in v.cls.mro
    if isinstance(t, NType):
        if isinstance(v, Top):
            return it.decide(None)
        if isinstance(v, Obj):
            return t in v.cls.native_bases() or t.name == "object"
        return t.test(v)
    if isinstance(t, Builtin):
        if isinstance(v, Top):
            return it.decide(None)
        f = PYT.get(t.name)
        if f is None:
            raise Unsupported("isinstance %s" % t.name)
        return f(v)
    if isinstance(t, type) and issubclass(t, BaseException):
        if isinstance(v, PyRaise):
            return it.exc_match(v, t)
        return isinstance(v, t)
    if isinstance(t, Top):
        if t.why.startswith("typing"):
            return it.decide(None)
        return it.decide(None)
    raise Unsupported("isinstance with %r" % (t,))


def _pyint(v):
    return isinstance(v, int) or (isinstance(v, A) and v.py and v.dtype in ("i8", "b1"))


def _pyfloat(v):
    if isinstance(v, float):
        return True
    return isinstance(v, A) and v.scalar and v.dtype == "f8"


PYT = {
    "int": _pyint, "float": _pyfloat,
    "bool": lambda v: isinstance(v, bool) or (isinstance(v, A) and v.py and v.dtype == "b1"),
    "str": lambda v: isinstance(v, (str, AStr)),
    "list": lambda v: isinstance(v, list), "tuple": lambda v: isinstance(v, tuple),
    "dict": lambda v: isinstance(v, ADict), "set": lambda v: isinstance(v, ASet),
    "object": lambda v: True, "complex": lambda v: False, "range": lambda v: isinstance(v, range),
    "type": lambda v: isinstance(v, (ClassV, NType)), "slice": lambda v: isinstance(v, slice),
    "frozenset": lambda v: isinstance(v, ASet), "bytes": lambda v: False,
}


# ====================================================================== builtins
def make_builtins(it):
    B = {}

    def reg(name):
        def d(f):
            B[name] = Builtin(name, f)
            return f
        return d

    for n in ("True", "False", "None"):
        B[n] = {"True": True, "False": False, "None": None}[n]
    B["NotImplemented"] = Top("NotImplemented")
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "?"
    import builtins as bi
    for n in dir(bi):
        o = getattr(bi, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            B[n] = o

    @reg("len")
    def _len(it, a, k):
        v = a[0]
        if isinstance(v, AIter):
            raise PyRaise(TypeError, "object of type 'generator' has no len()", it.site)
        if isinstance(v, (list, tuple, str, range)):
            return len(v)
        if isinstance(v, (ADict, ASet)):
            return len(v.items_)
        if isinstance(v, (A, Q)):
            if v.shape == ():
                raise PyRaise(TypeError, "object of type 'float' has no len() / unsized object", it.site)
            return v.shape[0]
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return it.call(Bound(m, v), [], {})
            raise PyRaise(TypeError, "object of type %r has no len()" % v.cls.name, it.site)
        if isinstance(v, Top):
            return Top("len")
        terr(it, "object has no len()", v)

    @reg("range")
    def _range(it, a, k):
        xs = [as_int(it, x) for x in a]
        try:
            return range(*xs)
        except ValueError as e:
            raise PyRaise(ValueError, str(e), it.site)

    @reg("enumerate")
    def _enum(it, a, k):
        s = as_int(it, a[1]) if len(a) > 1 else as_int(it, k.get("start", 0))
        return AIter((i + s, x) for i, x in enumerate(it.iterate(a[0])))

    @reg("zip")
    def _zip(it, a, k):
        xs = [it.iterate(x) for x in a]
        if k.get("strict") and len({len(x) for x in xs}) > 1:
            raise PyRaise(ValueError, "zip() argument lengths differ", it.site)
        return AIter(tuple(t) for t in zip(*xs))

    @reg("map")
    def _map(it, a, k):
        xs = [it.iterate(x) for x in a[1:]]
        return AIter([it.call(a[0], list(t), {}) for t in zip(*xs)])

    @reg("filter")
    def _filter(it, a, k):
        return AIter([x for x in it.iterate(a[1]) if it.truth(x if a[0] is None else it.call(a[0], [x], {}))])

    @reg("reversed")
    def _rev(it, a, k):
        return AIter(reversed(it.iterate(a[0])))

    @reg("list")
    def _list(it, a, k):
        return list(it.iterate(a[0])) if a else []

    @reg("tuple")
    def _tuple(it, a, k):
        return tuple(it.iterate(a[0])) if a else ()

    @reg("set")
    def _set(it, a, k):
        return mkset(it, it.iterate(a[0]) if a else [])
    B["frozenset"] = Builtin("frozenset", _set)

    @reg("dict")
    def _dict(it, a, k):
        d = ADict()
        if a:
            dict_update(it, d, a[0])
        for kk, v in k.items():
            it.dict_set(d, kk, v)
        return d

    @reg("int")
    def _int(it, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (bool, int, float)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(type(e), str(e), it.site)
        if isinstance(v, str):
            try:
                b = a[1] if len(a) > 1 else k.get("base", 10)
                return int(v, b)
            except ValueError as e:
                raise PyRaise(ValueError, str(e), it.site)
        if isinstance(v, Q):
            if not v.unit.is_dimless():
                raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
            v = to_unit(it, v, U.ONE).v
        if isinstance(v, A):
            if v.size != 1:
                raise PyRaise(TypeError, "only length-1 arrays can be converted to Python scalars", it.site)
            v = dom.reshape(v, ())
            if int(v.nan) == 2:
                raise PyRaise(ValueError, "cannot convert float NaN to integer", it.site)
            if float(v.lo) == float(v.hi) and math.isinf(float(v.lo)):
                raise PyRaise(OverflowError, "cannot convert float infinity to integer", it.site)
            r = dom.trunc(v)
            if float(r.lo) == float(r.hi):
                return int(r.lo)
            r.dtype = "i8"
            r.py = True
            r.scalar = True
            return r
        if isinstance(v, Top):
            return Top("int")
        if isinstance(v, Obj):
            for n in ("__int__", "__index__", "__trunc__"):
                if v.cls.lookup(n)[0] is not None:
                    return it.call(it.getattr(v, n), [], {})
        terr(it, "int() argument must be a number", v)

    @reg("float")
    def _float(it, a, k):
        if not a:
            return 0.0
        v = a[0]
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                raise PyRaise(ValueError, str(e), it.site)
        if isinstance(v, Q):
            if not v.unit.is_dimless():
                raise PyRaise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars", it.site)
            v = to_unit(it, v, U.ONE).v
        if isinstance(v, A):
            if v.size != 1:
                raise PyRaise(TypeError, "only length-1 arrays can be converted to Python scalars", it.site)
            r = dom.reshape(v, ()).copy()
            r.dtype = "f8"
            r.py = True
            r.scalar = True
            return r
        if isinstance(v, Top):
            return Top("float")
        if isinstance(v, AStr):
            from . import npmodel
            return npmodel.parse_number(it, v)
        if isinstance(v, Obj):
            for n in ("__float__", "__index__"):
                if v.cls.lookup(n)[0] is not None:
                    return it.call(it.getattr(v, n), [], {})
        terr(it, "float() argument must be a string or a real number", v)

    @reg("bool")
    def _bool(it, a, k):
        if not a:
            return False
        v = a[0]
        if isinstance(v, A) and v.shape == ():
            r = dom.to_bool(v).copy()
            r.py = True
            if r.lo == r.hi:
                return bool(r.lo)
            return r
        return it.truth(v)

    @reg("str")
    def _str(it, a, k):
        return to_str(it, a[0]) if a else ""

    @reg("repr")
    def _repr(it, a, k):
        return to_str(it, a[0])

    @reg("format")
    def _format(it, a, k):
        return format_(it, a[0], a[1] if len(a) > 1 else "")

    @reg("abs")
    def _abs(it, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, Q):
            return Q(dom.absv(v.v), v.unit)
        if isinstance(v, A):
            return dom.absv(v)
        if isinstance(v, Top):
            return v
        raise Unsupported("abs")

    @reg("round")
    def _round(it, a, k):
        v = a[0]
        nd = a[1] if len(a) > 1 else k.get("ndigits")
        if isinstance(v, (int, float)):
            try:
                return round(v, nd) if nd is not None else round(v)
            except (ValueError, OverflowError) as e:
                raise PyRaise(type(e), str(e), it.site)
        if isinstance(v, A):
            r = dom.rnd(v, nd or 0)
            if nd is None:
                if v.shape != ():
                    raise Unsupported("round array")
                if float(r.lo) == float(r.hi):
                    return int(r.lo)
                r.dtype = "i8"
                r.py = True
            else:
                r.py = v.py
            return r
        if isinstance(v, Q):
            return Q(dom.rnd(v.v, nd or 0), v.unit)
        if isinstance(v, Top):
            return v
        raise Unsupported("round")

    def _minmax(which):
        def f(it, a, k):
            xs = list(a) if len(a) > 1 else it.iterate(a[0])
            if not xs:
                if "default" in k:
                    return k["default"]
                raise PyRaise(ValueError, "%s() arg is an empty sequence" % which, it.site)
            key = k.get("key")
            best = xs[0]
            kb = it.call(key, [best], {}) if key is not None else best
            for x in xs[1:]:
                kx = it.call(key, [x], {}) if key is not None else x
                c = compare(it, "Lt" if which == "min" else "Gt", kx, kb)
                if key is None and isinstance(c, A) and c.shape == () and c.lo != c.hi:
                    xa, xu = split(it, x)
                    ba, bu = split(it, best)
                    if (xu is None) == (bu is None):
                        if xu is not None:
                            xa = to_unit(it, Q(xa, xu), bu).v
                        r = dom.minimum(xa, ba, which)
                        best = kb = r if bu is None else Q(r, bu)
                        continue
                if it.truth(c):
                    best, kb = x, kx
            return best
        return f
    B["min"] = Builtin("min", _minmax("min"))
    B["max"] = Builtin("max", _minmax("max"))

    @reg("sum")
    def _sum(it, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in it.iterate(a[0]):
            r = binop(it, "Add", r, x)
        return r

    @reg("any")
    def _any(it, a, k):
        return any(it.truth(x) for x in it.iterate(a[0]))

    @reg("all")
    def _all(it, a, k):
        return all(it.truth(x) for x in it.iterate(a[0]))

    @reg("sorted")
    def _sorted(it, a, k):
        xs = list(it.iterate(a[0]))
        return sort_list(it, xs, k.get("key"), it.truth(k.get("reverse", False)))

    @reg("isinstance")
    def _isi(it, a, k):
        return isinstance_(it, a[0], a[1])

    @reg("issubclass")
    def _iss(it, a, k):
        if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
            return a[1] in a[0].mro
        raise Unsupported("issubclass")

    @reg("hasattr")
    def _has(it, a, k):
        try:
            r = it._getattr(a[0], a[1])
        except PyRaise as p:
            if isinstance(p.exc, type) and issubclass(p.exc, AttributeError):
                return False
            raise
        if isinstance(r, Top) and not isinstance(a[0], Top):
            return it.decide(None)
        return True

    @reg("getattr")
    def _ga(it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr name")
        if len(a) > 2:
            return it.getattr(a[0], a[1], a[2])
        return it.getattr(a[0], a[1])

    @reg("setattr")
    def _sa(it, a, k):
        it.setattr(a[0], a[1], a[2])

    @reg("delattr")
    def _da(it, a, k):
        if isinstance(a[0], Obj) and a[1] in a[0].attrs:
            del a[0].attrs[a[1]]
        else:
            raise PyRaise(AttributeError, str(a[1]), it.site)

    @reg("vars")
    def _vars(it, a, k):
        return it._getattr(a[0], "__dict__")

    @reg("callable")
    def _callable(it, a, k):
        return isinstance(a[0], (FuncV, Bound, Builtin, ClassV, Memo, Partial))

    @reg("id")
    def _id(it, a, k):
        it.ambient("id()")
        if isinstance(a[0], Obj):
            return 10 ** 12 + a[0].oid
        return id(a[0])

    @reg("hash")
    def _hash(it, a, k):
        it.check_hashable(a[0])
        v = a[0]
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__hash__")
            if m is not None:
                return it.call(Bound(m, v), [], {})
            it.ambient("hash()")
            return 10 ** 12 + v.oid
        if isinstance(v, (int, float)):
            return hash(v)
        if isinstance(v, (str, AStr)):
            it.ambient("hash(str)")
            return 7
        if isinstance(v, tuple):
            out = 1
            for x in v:
                h = _hash(it, [x], {})
                if isinstance(h, int):
                    out = out * 31 + h
                else:
                    return Top("hash")
            return out
        return Top("hash")

    @reg("type")
    def _type(it, a, k):
        v = a[0]
        if len(a) == 3:
            raise Unsupported("type()")
        if isinstance(v, Obj):
            return v.cls
        for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "set"):
            if PYT[n](v) and not (n == "float" and isinstance(v, A) and not v.py):
                return B[n]
        if isinstance(v, Q):
            return it.QTYPE
        if isinstance(v, A):
            return it.NDARRAY if not v.scalar else Top("npscalar type")
        if v is None:
            return Top("NoneType")
        return Top("type")

    @reg("print")
    def _print(it, a, k):
        return None

    @reg("iter")
    def _iter(it, a, k):
        if isinstance(a[0], AIter):
            return a[0]
        return AIter(it.iterate(a[0]))

    @reg("next")
    def _next(it, a, k):
        xs = a[0]
        if isinstance(xs, list) and not isinstance(xs, AIter):
            raise PyRaise(TypeError, "'list' object is not an iterator", it.site)
        if isinstance(xs, AIter):
            if xs:
                return xs.pop(0)
            if len(a) > 1:
                return a[1]
            raise PyRaise(StopIteration, "", it.site)
        raise Unsupported("next")

    @reg("slice")
    def _slice(it, a, k):
        return slice(*a)

    @reg("divmod")
    def _divmod(it, a, k):
        return (binop(it, "FloorDiv", a[0], a[1]), binop(it, "Mod", a[0], a[1]))

    @reg("pow")
    def _pow(it, a, k):
        if len(a) > 2 or k:
            if all(isinstance(x, int) for x in a) and not k:
                return pow(*a)
            raise Unsupported("pow with a modulus")
        return binop(it, "Pow", a[0], a[1])

    @reg("property")
    def _property(it, a, k):
        return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))

    @reg("staticmethod")
    def _static(it, a, k):
        return StaticM(a[0])

    @reg("classmethod")
    def _class(it, a, k):
        return ClassM(a[0])

    @reg("object")
    def _object(it, a, k):
        return Obj(it.OBJECT)
    it.OBJECT = ClassV("object", [], {}, "builtins")

    @reg("globals")
    def _globals(it, a, k):
        raise Unsupported("globals()")
    B["locals"] = B["exec"] = B["eval"] = B["open"] = B["compile"] = Builtin("unsupported", lambda it, a, k: (_ for _ in ()).throw(Unsupported("dynamic builtin")))

    @reg("complex")
    def _complex(it, a, k):
        return Top("complex")
    B["super"] = Builtin("super", lambda it, a, k: SuperV(a[0], a[1]))

    @reg("__import__")
    def _import(it, a, k):
        if not isinstance(a[0], str):
            raise Unsupported("dynamic import")
        m = it.import_module(a[0])
        return it.import_module(a[0].split(".")[0]) if "." in a[0] and not (len(a) > 3 and a[3]) else m
    B["bytes"] = B["eval"]
    B["ord"] = Builtin("ord", lambda it, a, k: ord(a[0]))
    B["chr"] = Builtin("chr", lambda it, a, k: chr(a[0]))
    return B


def sort_list(it, xs, key=None, reverse=False):
    ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
    idx = list(range(len(xs)))
    # insertion sort, stable; comparisons must be decided
    out = []
    for i in idx:
        j = len(out)
        while j > 0:
            c = compare(it, "Lt", ks[i], ks[out[j - 1]]) if not reverse else compare(it, "Gt", ks[i], ks[out[j - 1]])
            if isinstance(c, A) and c.shape == () and c.lo != c.hi:
                raise Undecided("sort order")
            if it.truth(c):
                j -= 1
            else:
                break
        out.insert(j, i)
    return [xs[i] for i in out]


def dataclass_init(it, c, o, args, kw):
    if c.lookup("$odd")[1] is not None:
        raise Unsupported("dataclass options")
    fields = []
    for k in reversed(c.mro):
        for n in k.ns.get("__annotations__", []):
            if n not in fields:
                fields.append(n)
    kw = dict(kw)
    vals = list(args)
    for i, n in enumerate(fields):
        if i < len(vals):
            v = vals[i]
        elif n in kw:
            v = kw.pop(n)
        else:
            d, cc = c.lookup(n)
            if cc is None:
                raise PyRaise(TypeError, "__init__() missing required argument: %r" % n, it.site)
            if isinstance(d, tuple) and d and d[0] == "$field":
                if d[2] is not None:
                    v = it.call(d[2], [], {})
                else:
                    v = d[1]
            else:
                v = d
        o.attrs[n] = v
    if kw:
        raise PyRaise(TypeError, "__init__() got an unexpected keyword argument %r" % next(iter(kw)), it.site)
    p, _ = c.lookup("__post_init__")
    if p is not None:
        it.call(Bound(p, o), [], {})


from .npmodel import module, attr, Rng, quantity_ctor  # noqa: E402

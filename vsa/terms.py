"""Hash-consed symbolic terms (the "symbolic constant" half of the value domain).

A term names the exact real number an expression denotes; two abstract values with the
same term are equal in every concrete execution described by the abstract state.
"""
import math


class T:
    __slots__ = ("op", "args", "id", "_vars", "iv")

    def __init__(self, op, args, i):
        self.op = op
        self.args = args
        self.id = i
        self._vars = None
        self.iv = None

    def __repr__(self):
        return show(self)


_table = {}
_n = [0]


def _mk(op, args):
    key = (op,) + tuple(a.id if isinstance(a, T) else ("k", a) for a in args)
    t = _table.get(key)
    if t is None:
        _n[0] += 1
        t = T(op, args, _n[0])
        _table[key] = t
    return t


def reset():
    _table.clear()


def size():
    return len(_table)


def const(v):
    v = float(v)
    if v == 0:
        v = 0.0
    if v != v:
        return _mk("nan", ())
    return _mk("c", (v,))


def var(name):
    return _mk("v", (name,))


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def fvars(t):
    """Free variables of a term."""
    if t._vars is not None:
        return t._vars
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a._vars is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "v":
            x._vars = frozenset([x.args[0]])
        else:
            s = frozenset()
            for a in x.args:
                if isinstance(a, T):
                    s = s | a._vars
            x._vars = s
        stack.pop()
    return t._vars


def show(t, depth=6):
    if t.op == "c":
        return repr(t.args[0])
    if t.op == "v":
        return t.args[0]
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) if isinstance(x, T) else repr(x) for x in t.args]
    if t.op in ("+", "-", "*", "/", "**"):
        return "(%s %s %s)" % (a[0], t.op, a[1])
    return "%s(%s)" % (t.op, ", ".join(a))


ZERO = None
ONE = None


def add(a, b):
    if is_c(a):
        if is_c(b):
            return const(cval(a) + cval(b))
        if cval(a) == 0:
            return b
    elif is_c(b) and cval(b) == 0:
        return a
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return const(0.0)
    if b.op == "neg":
        return sub(a, b.args[0])
    if a.op == "neg":
        return sub(b, a.args[0])
    # (x - b) + b == x
    if a.op == "-" and a.args[1] is b:
        return a.args[0]
    if b.op == "-" and b.args[1] is a:
        return b.args[0]
    if a.id > b.id:
        a, b = b, a
    return _mk("+", (a, b))


def sub(a, b):
    if a is b and a.op != "nan":
        return const(0.0)
    if is_c(b):
        if is_c(a):
            return const(cval(a) - cval(b))
        if cval(b) == 0:
            return a
    if is_c(a) and cval(a) == 0:
        return neg(b)
    if b.op == "neg":
        return add(a, b.args[0])
    if a.op == "+":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if b.op == "-" and b.args[0] is a:
        return b.args[1]
    return _mk("-", (a, b))


def neg(a):
    if is_c(a):
        return const(-cval(a))
    if a.op == "neg":
        return a.args[0]
    if a.op == "-":
        return sub(a.args[1], a.args[0])
    return _mk("neg", (a,))


def mul(a, b):
    if is_c(a) and is_c(b):
        v = cval(a) * cval(b)
        return const(v)
    if is_c(b):
        a, b = b, a
    if is_c(a):
        v = cval(a)
        if v == 1:
            return b
        if v == 0:
            return a
        if v == -1:
            return neg(b)
        if b.op == "*" and is_c(b.args[0]):
            return mul(const(v * cval(b.args[0])), b.args[1])
    if a.op == "neg" and b.op == "neg":
        return mul(a.args[0], b.args[0])
    # (x / b) * b == x
    if a.op == "/" and a.args[1] is b:
        return a.args[0]
    if b.op == "/" and b.args[1] is a:
        return b.args[0]
    if not is_c(a) and a.id > b.id:
        a, b = b, a
    return _mk("*", (a, b))


def div(a, b):
    if is_c(b) and cval(b) == 1:
        return a
    if is_c(a) and is_c(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if is_c(a) and cval(a) == 0:
        return a
    if a is b and not is_c(a):
        return const(1.0)
    if is_c(b) and cval(b) != 0 and math.isfinite(cval(b)):
        return mul(const(1.0 / cval(b)), a)
    if a.op == "*":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    return _mk("/", (a, b))


def power(a, b):
    if is_c(b):
        e = cval(b)
        if e == 1:
            return a
        if e == 0:
            return const(1.0)
        if e == 2:
            return mul(a, a)
        if is_c(a):
            try:
                v = cval(a) ** e
                if isinstance(v, float):
                    return const(v)
            except (ZeroDivisionError, OverflowError):
                pass
    return _mk("**", (a, b))


_FOLD = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log,
    "sqrt": math.sqrt, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
    "abs": abs, "floor": math.floor, "ceil": math.ceil,
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
}


def fn(op, *args):
    if op in _FOLD and is_c(args[0]):
        try:
            return const(_FOLD[op](cval(args[0])))
        except (ValueError, OverflowError):
            pass
    if op in ("min", "max"):
        a, b = args
        if a is b:
            return a
        if is_c(a) and is_c(b):
            return const(min(cval(a), cval(b)) if op == "min" else max(cval(a), cval(b)))
        if a.id > b.id:
            args = (b, a)
    if op == "where" and args[1] is args[2]:
        return args[1]
    return _mk(op, tuple(args))


def opaque(op, *args):
    """Uninterpreted function application; args may be terms or hashable constants."""
    return _mk(op, tuple(args))

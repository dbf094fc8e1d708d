"""tools/model/compare.py SNIPPETS.py: the analyser's model of Python, numpy and astropy against the real ones.

Every function t_* of the file is interpreted abstractly on its point inputs and, in another process, run
for real; the abstract value has to contain the real one and agree in type and shape. Development aid
only: no check runs it (it executes library calls, never code of the repository)."""
import sys, os, json, subprocess, math, shutil, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import numpy as np
from vsa import rt, lib, dom, units as U, terms as tm
from vsa.interp import *
from vsa.values import *


def canon(v, depth=0):
    if depth > 6:
        return ["deep"]
    if isinstance(v, Q):
        return ["q", v.unit, canon(v.v)]
    if isinstance(v, U.Unit):
        return ["unit", v.to_string()]
    if isinstance(v, A):
        if v.py:
            return ["n", {"i8": "int", "b1": "bool"}.get(v.dtype, "float"), v]
        return ["arr", {"b1": "b", "i8": "i"}.get(v.dtype, "f"), list(v.shape), v]
    if v is None or isinstance(v, bool):
        return ["c", v]
    if isinstance(v, (int, float)):
        return ["n", type(v).__name__, float(v)]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, AStr):
        return ["astr"]
    if isinstance(v, ADict):
        return ["dict", [[canon(a, depth + 1), canon(b, depth + 1)] for a, b in dict_items(v)]]
    if isinstance(v, ASet):
        return ["set"]
    if isinstance(v, (list, tuple)):
        return ["list" if isinstance(v, list) else "tuple", [canon(x, depth + 1) for x in v]]
    if isinstance(v, Top):
        return ["top", v.why]
    return ["other", type(v).__name__]


def dict_items(d):
    return [tuple(kv) for kv in d.items_]


def inside(a, xs):
    if isinstance(a, float):
        return len(xs) == 1 and (a == xs[0] or abs(a - xs[0]) <= 1e-9*max(1, abs(a)) or (a != a and xs[0] != xs[0]))
    lo, hi, nan = a.lo.ravel(), a.hi.ravel(), a.nan.ravel()
    if len(lo) != len(xs):
        return False
    for l, h, n, x in zip(lo, hi, nan, xs):
        if x != x:
            if not n:
                return False
            continue
        if n == 2:
            return False
        if l <= x <= h:
            continue
        t = 1e-9*max(1, abs(x))
        if not (l - t <= x <= h + t):
            return False
    return True


def match(a, r, path=""):
    """abstract a against real r: '' or the difference"""
    if a[0] == "top":
        return "GAP top %s" % a[1]
    if a[0] == "astr":
        return "" if r[0] == "s" else "type string / %s" % r[0]
    if a[0] == "n" and r[0] == "n":
        if a[1] != r[1]:
            return "%s: type %s / %s" % (path, a[1], r[1])
        return "" if inside(a[2], [r[2]]) else "%s: value %r / %r" % (path, a[2], r[2])
    if a[0] == "n" and a[1] == "bool" and r[0] == "c":
        return "" if inside(a[2], [float(r[1])]) else "%s: value" % path
    if a[0] == "arr" and r[0] == "n" or a[0] == "n" and r[0] == "arr" or a[0] == "arr" and r[0] == "c":
        x = a[-1]
        if a[0] == "arr" and a[2] != [] or r[0] == "arr" and r[2] != []:
            return "%s: shape" % path
        ok = inside(x, [float(r[-1])] if r[0] in "nc" else r[3])
        return "" if ok else "%s: value %r / %r" % (path, x, r[-1])
    if a[0] != r[0]:
        return "%s: kind %s / %s" % (path, a[:2] if a[0] != "raise" else a, r[:2] if r[0] == "raise" else r[0])
    if a[0] == "arr":
        if a[2] != r[2]:
            return "%s: shape %s / %s" % (path, a[2], r[2])
        if a[1] != r[1]:
            return "%s: dtype %s / %s" % (path, a[1], r[1])
        return "" if inside(a[3], r[3]) else "%s: value %r / %r" % (path, a[3], r[3])
    if a[0] == "q":
        d = match(a[2], r[2], path)
        if d:
            return d
        return "" if a[1].to_string().replace(" ", "") == r[1].replace(" ", "") else "UNIT %s / %s" % (a[1].to_string(), r[1])
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(r[1]):
            return "%s: length %d / %d" % (path, len(a[1]), len(r[1]))
        for i, (x, y) in enumerate(zip(a[1], r[1])):
            d = match(x, y, path + "[%d]" % i)
            if d:
                return d
        return ""
    if a[0] == "dict":
        if len(a[1]) != len(r[1]):
            return "%s: length" % path
        for (k, v), (kk, vv) in zip(a[1], r[1]):
            d = match(k, kk, path + ".key") or match(v, vv, path + ".val")
            if d:
                return d
        return ""
    if a[0] == "raise":
        return "" if a[1] == r[1] else "%s: raise %s / %s" % (path, a[1:], r[1:])
    if a[0] in ("c", "s", "unit"):
        return "" if a[1] == r[1] else "%s: %r / %r" % (path, a[1], r[1])
    return ""


def main():
    src = os.path.abspath(sys.argv[1])
    real = json.loads(subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "real.py"), src],
                                     stdout=subprocess.PIPE, check=True).stdout)
    tmp = tempfile.mkdtemp()
    shutil.copy(src, os.path.join(tmp, "snip.py"))
    bad = gap = ok = 0
    for n in sorted(real):
        if len(sys.argv) > 2 and n not in sys.argv[2:]:
            continue
        tm.reset()
        dom.guarded.clear()
        it = Interp("/repo", "vspec_vsm", lib)
        it.extra_roots = {"snip": tmp}
        ctx = rt.Ctx("m", 0, False, 1, None)
        it.ctx = ctx
        it.modules["vsa_rt"] = rt.intrinsics(it, ctx)
        try:
            m = it.import_module("snip")
            a = canon(it.call(m.ns[n], [], {}))
            d = match(a, real[n])
        except PyRaise as p:
            e = p.exc
            nm = e.__name__ if isinstance(e, type) else getattr(getattr(e, "cls", None), "name", str(e))
            d = match(["raise", nm, str(p)[:150]], real[n])
        except (Unsupported, Undecided) as e:
            d = "GAP %s %s" % (type(e).__name__, e)
        except Exception as e:
            d = "CRASH %s %s" % (type(e).__name__, e)
            if len(sys.argv) > 2:
                traceback.print_exc()
        if not d:
            ok += 1
        elif d.startswith("GAP"):
            gap += 1
            print("gap  ", n, d[:200])
        else:
            bad += 1
            print("WRONG", n, d[:300])
    print("%d agree, %d gaps, %d wrong" % (ok, gap, bad))
    shutil.rmtree(tmp)


main()

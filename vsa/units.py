"""Physical units (a dimension / scale domain mirroring astropy.units)."""
import math
import re
from fractions import Fraction


class UnitsError(ValueError):
    pass


class UnitConversionError(UnitsError, TypeError):
    pass


class UnitTypeError(UnitsError, TypeError):
    pass


class Unit:
    __slots__ = ("dims", "scale", "name")

    def __init__(self, dims, scale=1.0, name=None):
        self.dims = {k: Fraction(v) for k, v in dims.items() if v != 0}
        self.scale = float(scale)
        self.name = name

    def key(self):
        return (tuple(sorted(self.dims.items())), self.scale)

    def same_dims(self, o):
        return self.dims == o.dims

    def is_dimless(self):
        return not self.dims

    def __repr__(self):
        return "Unit(%s)" % self.to_string()

    def to_string(self):
        if self.name is not None:
            return self.name
        return " ".join("%s%s" % (k, "" if v == 1 else v) for k, v in sorted(self.dims.items())) + \
            ("" if self.scale == 1 else " x%g" % self.scale)

    def equals(self, o):
        return self.dims == o.dims and abs(self.scale - o.scale) <= 1e-13 * abs(self.scale)


def _nm(a, b, op):
    if a.name == "" and op == "*":
        return b.name
    if b.name == "" and op in ("*", "/"):
        return a.name
    return None


def mul(a, b):
    d = dict(a.dims)
    for k, v in b.dims.items():
        d[k] = d.get(k, Fraction(0)) + v
    nm = _nm(a, b, "*")
    if nm is None and not {k: v for k, v in d.items() if v} and a.scale * b.scale == 1:
        nm = ""
    return Unit(d, a.scale * b.scale, nm)


def inv(a):
    return Unit({k: -v for k, v in a.dims.items()}, 1 / a.scale, "" if a.name == "" else None)


def div(a, b):
    if a is b or (a.dims == b.dims and a.scale == b.scale):
        return ONE
    d = dict(a.dims)
    for k, v in b.dims.items():
        d[k] = d.get(k, Fraction(0)) - v
    return Unit(d, a.scale / b.scale, _nm(a, b, "/"))


def power(a, n):
    if n == 1:
        return a
    f = Fraction(n).limit_denominator(10 ** 6) if not isinstance(n, Fraction) else n
    if isinstance(n, float) and abs(float(Fraction(n).limit_denominator(50)) - n) < 1e-15:
        f = Fraction(n).limit_denominator(50)
    return Unit({k: v * f for k, v in a.dims.items()}, a.scale ** float(n), "" if a.name == "" else None)


ONE = Unit({}, 1.0, "")

R_SUN = 695700000.0
R_EARTH = 6378100.0
AU = 149597870700.0
M_SUN = 1.988409870698051e30
L_SUN = 3.828e26
SIGMA_SB = 5.6703744191844314e-08

TABLE = {}


def _d(names, dims, scale):
    names = names.split()
    u = Unit(dims, scale, names[0])
    for n in names:
        TABLE[n] = u


L, TM, M, TH, ANG = {"m": 1}, {"s": 1}, {"kg": 1}, {"K": 1}, {"rad": 1}
_d("rad radian", ANG, 1.0)
_d("deg degree", ANG, math.pi / 180)
_d("arcmin arcminute", ANG, math.pi / 180 / 60)
_d("arcsec arcsecond", ANG, math.pi / 180 / 3600)
_d("hourangle", ANG, math.pi / 12)
_d("cycle cy", ANG, 2 * math.pi)
_d("sr steradian", {"rad": 2}, 1.0)
_d("s second", TM, 1.0)
_d("ms", TM, 1e-3)
_d("min minute", TM, 60.0)
_d("h hr hour", TM, 3600.0)
_d("d day", TM, 86400.0)
_d("wk week", TM, 7 * 86400.0)
_d("yr year", TM, 365.25 * 86400.0)
_d("m meter", L, 1.0)
_d("mm", L, 1e-3)
_d("cm centimeter", L, 1e-2)
_d("km kilometer", L, 1e3)
_d("Mm", L, 1e6)
_d("um micron", L, 1e-6)
_d("nm", L, 1e-9)
_d("AU au astronomical_unit", L, AU)
_d("pc parsec", L, 3.0856775814913674e16)
_d("lyr", L, 9460730472580800.0)
_d("R_sun solRad Rsun", L, R_SUN)
_d("R_earth earthRad Rearth", L, R_EARTH)
_d("R_jup jupiterRad Rjup", L, 71492000.0)
_d("kg", M, 1.0)
_d("g", M, 1e-3)
_d("M_sun solMass Msun", M, M_SUN)
_d("K Kelvin", TH, 1.0)
_d("mK", TH, 1e-3)
_d("kK", TH, 1e3)
_d("MK", TH, 1e6)
EN = {"kg": 1, "m": 2, "s": -2}
_d("J Joule", EN, 1.0)
_d("kJ", EN, 1e3)
_d("erg", EN, 1e-7)
_d("eV", EN, 1.602176634e-19)
PW = {"kg": 1, "m": 2, "s": -3}
_d("W Watt", PW, 1.0)
_d("L_sun solLum Lsun", PW, L_SUN)
_d("Hz", {"s": -1}, 1.0)
_d("Pa", {"kg": 1, "m": -1, "s": -2}, 1.0)
_d("N", {"kg": 1, "m": 1, "s": -2}, 1.0)
TABLE["dimensionless_unscaled"] = ONE
TABLE["one"] = ONE
TABLE["percent"] = TABLE["pct"] = Unit({}, 0.01, "%")


def parse(s):
    """Parse a unit string such as 'hr km2', 'km^2 hr', 'K/km', ''."""
    s = s.strip()
    if s == "":
        return ONE
    r = ONE
    parts = re.split(r"\s*(/)\s*|\s*[\s.*]\s*(?!\d)", s)
    parts = [p for p in parts if p]
    sgn = 1
    single = len(parts) == 1
    for p in parts:
        if p == "/":
            sgn = -1
            continue
        m = re.fullmatch(r"([A-Za-z_]+)(?:\*\*|\^)?\(?(-?\d+)?\)?", p)
        if not m or m.group(1) not in TABLE:
            raise ValueError("%r did not parse as unit" % s)
        u = TABLE[m.group(1)]
        if single and m.group(2) is None:
            return u
        e = int(m.group(2)) if m.group(2) else 1
        r = mul(r, power(u, sgn * e))
        sgn = 1
    return r

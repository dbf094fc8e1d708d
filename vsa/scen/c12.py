"""C12: aging does not depend on how time is sliced, and follows the documented laws."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, snap, unchanged, assume
from scen.common import *

CELLS = {'spot_slices': (60, 400), 'spot_law': (40, 240), 'spot_law_decay': (20, 120), 'facula_slices': (60, 400), 'facula_law': (40, 240),
         'star_slices': (24, 120), 'zero': (16, 60), 'short': (24, 80), 'near_max': (16, 60), 'turn': (40, 200)}
WIDE = ['spot_law_decay']


def _mk_spot(grow, top=(1.0,)):
    amax = 10 ** var('amax', 2, 6, ext=(-3, 9)) * MSH
    return spot('s', grid=9, growing=grow, la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K, amax=amax,
                acur=amax * var('frac', 0.05, 0.98, top), rate=var('rate', 0.05, 2.5, ext=(0.001, 100)) / u.day,
                decay=amax * 10 ** var('decay', -2, 0.5) / u.day)


def _mk_fac(grow, top=(1.0,)):
    rmax = 10 ** var('rmax', 2, 6, ext=(-2, 7)) * u.km
    return facula('f', grid=9, growing=grow, la=10 * u.deg, lo=20 * u.deg, rmax=rmax, rinit=rmax * var('frac', 0.15, 0.98, top),
                  life=10 ** var('life', 0, 2, ext=(-2, 5)) * u.hr)


def spot_slices():
    grow = choice('grow', [True, True, False])
    a, b = _mk_spot(grow), _mk_spot(grow)
    t = 10 ** var('t', -1, 1.7) * u.day
    c1, c2 = var('c1', 0.05, 0.9), var('c2', 0.05, 0.9)
    a.age(t)
    b.age(t * c1)
    b.age(t * (1 - c1) * c2)
    b.age(t * (1 - c1) * (1 - c2))
    eq('the spot area does not depend on the slicing', b.area_current, a.area_current, tol=1e-6, atol=1e-6 * a.area_max)
    check('the spot phase does not depend on the slicing', a.is_growing == b.is_growing)


def spot_law():
    grow = choice('grow', [True, True, False])
    s = _mk_spot(grow)
    a0 = s.area_current
    t = var('t', 0.05, 12) * u.day
    s.age(t)
    k = (1 + (s.growth_rate * u.day).to_value(u.dimensionless_unscaled))
    days = t.to_value(u.day)
    tmax = (np.log((s.area_max / a0).to_value(u.dimensionless_unscaled)) / np.log(k)) if grow else 0.0
    start = s.area_max if grow else a0
    if days < tmax:
        eq('a growing spot grows by its fractional rate per day', s.area_current, a0 * k**days, tol=1e-6)
        check('a spot below its maximum is still growing', s.is_growing)
    else:
        lost = s.decay_rate * (days - tmax) * u.day
        left = start - lost
        if left > 0 * MSH:
            eq('a decaying spot loses area linearly', s.area_current, left, tol=1e-6, atol=1e-6 * s.area_max)
        else:
            eq('a decayed spot has no area', s.area_current, 0 * MSH, atol=1e-9 * s.area_max)
        check('a spot past its maximum is decaying', not s.is_growing)


def spot_law_decay():
    s = spot('s', grid=9, growing=False, la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K,
             amax=300 * MSH, acur=var('acur', 150, 290) * MSH, rate=0.5 / u.day, decay=var('decay', 1, 10) * MSH / u.day)
    a0 = s.area_current
    t = var('t', 0.05, 12) * u.day
    s.age(t)
    eq('a decaying spot loses area linearly (short step)', s.area_current, a0 - s.decay_rate * t, tol=1e-9)


def facula_slices():
    grow = choice('grow', [True, True, False])
    a, b = _mk_fac(grow), _mk_fac(grow)
    t = a.lifetime * 10 ** var('t', -1.3, 0.4)
    c1, c2 = var('c1', 0.05, 0.9), var('c2', 0.05, 0.9)
    a.age(t)
    b.age(t * c1)
    b.age(t * (1 - c1) * c2)
    b.age(t * (1 - c1) * (1 - c2))
    eq('the facula radius does not depend on the slicing', b.radius, a.radius, tol=1e-6)
    check('the facula phase does not depend on the slicing', a.is_growing == b.is_growing)


def facula_law():
    grow = choice('grow', [True, True, False])
    f = _mk_fac(grow)
    r0 = f.radius
    x = 10 ** var('t', -1.3, 0.4)
    f.age(x * f.lifetime)
    xmax = 0.5 * np.log((f.r_max / r0).to_value(u.dimensionless_unscaled)) if grow else 0.0
    start = f.r_max if grow else r0
    if x < xmax:
        eq('a growing facula grows by e^2 per lifetime', f.radius, r0 * np.exp(2 * x), tol=1e-6)
        check('a facula below its maximum is still growing', f.is_growing)
    else:
        eq('a decaying facula shrinks by e^2 per lifetime', f.radius, start * np.exp(-2 * (x - xmax)), tol=1e-6)
        check('a facula past its maximum is decaying', not f.is_growing)


def _star():
    kw = dict(la=10 * u.deg, lo=20 * u.deg)
    sp = [spot('s%d' % i, grid=9, growing=choice('sg%d' % i, [True, False]), amax=400 * MSH, acur=var('sa%d' % i, 20, 390) * MSH,
               rate=var('sr%d' % i, 0.1, 1.5) / u.day, decay=var('sd%d' % i, 5, 200) * MSH / u.day, umb=2500 * u.K, pen=2800 * u.K, **kw)
          for i in range(3)]
    fc = [facula('f%d' % i, grid=9, growing=choice('fg%d' % i, [True, False]), rmax=400 * u.km, rinit=var('fr%d' % i, 60, 390) * u.km,
                 life=var('fl%d' % i, 5, 60) * u.hr, **kw) for i in range(3)]
    return star_with(9, sp, fc, teff=3300 * u.K, radius=1 * u.R_sun)


def star_slices():
    a, b = _star(), _star()
    t, c = var('t', 1, 90) * u.hr, var('c', 0.05, 0.95)
    how = choice('how', ['star', 'collections'])
    if how == 'star':
        a.age(t)
        b.age(t * c)
        b.age(t * (1 - c))
    else:
        a.spots.age(t)
        a.faculae.age(t)
        for x in (c, 1 - c):
            b.spots.age(t * x)
            b.faculae.age(t * x)
    eq('the surviving spots do not depend on the slicing', len(a.spots.spots), len(b.spots.spots))
    eq('the surviving faculae do not depend on the slicing', len(a.faculae.faculae), len(b.faculae.faculae))
    if len(a.spots.spots) == len(b.spots.spots):
        for x, y in zip(a.spots.spots, b.spots.spots):
            eq('the areas of surviving spots do not depend on the slicing', y.area_current, x.area_current, tol=1e-6, atol=1e-6 * x.area_max)
            check('the phase of surviving spots does not depend on the slicing', x.is_growing == y.is_growing)
    if len(a.faculae.faculae) == len(b.faculae.faculae):
        for x, y in zip(a.faculae.faculae, b.faculae.faculae):
            eq('the radii of surviving faculae do not depend on the slicing', y.radius, x.radius, tol=1e-6)
            check('the phase of surviving faculae does not depend on the slicing', x.is_growing == y.is_growing)


def zero():
    star = _star()
    n, m = len(star.spots.spots), len(star.faculae.faculae)
    spots, facs = tuple(star.spots.spots), tuple(star.faculae.faculae)
    before = [(s.area_current, s.is_growing) for s in spots] + [(f.radius, f.is_growing) for f in facs]
    z = choice('z', [0 * u.s, 0 * u.day, 0 * u.hr])
    star.age(z)
    for s in spots:
        s.age(z)
    for f in facs:
        f.age(z)
    after = [(s.area_current, s.is_growing) for s in spots] + [(f.radius, f.is_growing) for f in facs]
    eq('aging by zero changes no size and no phase', after, before)


def turn():
    """steps that end shortly before, or start shortly after, the maximum"""
    which = choice('which', ['spot', 'facula'])
    e = var('e', 0.002, 0.2)
    if which == 'spot':
        a = _mk_spot(True, None)
        a.decay_rate = a.area_max * 0.05 / u.day
        k = np.log(1 + (a.growth_rate * u.day).to_value(u.dimensionless_unscaled))
        tmax = np.log((a.area_max / a.area_current).to_value(u.dimensionless_unscaled)) / k * u.day
        side = choice('side', [-1, 1])
        a.age(tmax * (1 + side * e))
        if side < 0:
            check('before the maximum a spot is growing', a.is_growing)
            eq('shortly before the maximum the area is that of exponential growth', a.area_current,
               a.area_max * np.exp(-k * e * tmax.to_value(u.day)), tol=1e-6)
        else:
            check('after the maximum a spot is decaying', not a.is_growing)
            left = a.area_max * (1 - 0.05 * e * tmax.to_value(u.day))
            if left > 0 * MSH:
                eq('after the maximum only the left-over time counts as decay', a.area_current, left, tol=1e-6)
    else:
        f = _mk_fac(True, None)
        tmax = 0.5 * np.log((f.r_max / f.radius).to_value(u.dimensionless_unscaled)) * f.lifetime
        side = choice('side', [-1, 1])
        f.age(tmax * (1 + side * e))
        check('the facula phase turns at its maximum', f.is_growing == (side < 0))
        eq('around the maximum only the time beyond it counts as decay', f.radius,
           f.r_max * np.exp(-2 * e * (tmax / f.lifetime).to_value(u.dimensionless_unscaled)), tol=1e-6)


def short():
    """short steps: the change is the rate times the step, however short it is"""
    dt = choice('dt', [0.01, 0.2, 1, 10, 60, 300]) * u.s
    days = dt.to_value(u.day)
    grow = choice('grow', [True, False])
    through = choice('through', ['feature', 'collection', 'star'])
    rate, decay, life = choice('rate', [0.1, 0.52, 1.5]), choice('decay', [0.3, 2.0, 10.89]), choice('life', [6.0, 50.0])
    s = spot('s', grid=9, growing=grow, la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K, amax=400 * MSH,
             acur=choice('acur', [10.0, 55.0, 250.0]) * MSH, rate=rate / u.day, decay=decay * MSH / u.day)
    f = facula('f', grid=9, growing=grow, la=10 * u.deg, lo=20 * u.deg, rmax=4000 * u.km, rinit=choice('rinit', [900.0, 2500.0]) * u.km, life=life * u.hr)
    star = star_with(9, [s], [f], teff=3300 * u.K, radius=1 * u.R_sun)
    a, r = s.area_current.to_value(MSH), f.radius.to_value(u.km)
    n = choice('times', [1, 2, 3])
    for i in range(n):
        if through == 'feature':
            s.age(dt)
            f.age(dt)
        elif through == 'collection':
            star.spots.age(dt)
            star.faculae.age(dt)
        else:
            star.age(dt)
    da, dr = s.area_current.to_value(MSH) - a, f.radius.to_value(u.km) - r
    eq('a short step changes the spot by its rate times the step', da, a * (np.exp(np.log(1 + rate) * n * days) - 1) if grow else -decay * n * days, tol=0.01)
    eq('a short step changes the facula by its rate times the step', dr, r * (np.exp((2 if grow else -2) * n * days * 24 / life) - 1), tol=0.01)


def near_max():
    """features a moment before their maximum"""
    e = choice('e', [1e-6, 1e-5, 3e-5, 2e-4])
    rate, life = choice('rate', [0.1, 0.52, 1.5]), choice('life', [6.0, 50.0])
    s = spot('s', grid=9, growing=True, la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K, amax=400 * MSH, acur=400 * (1 - e) * MSH,
             rate=rate / u.day, decay=200 * MSH / u.day)
    f = facula('f', grid=9, growing=True, la=10 * u.deg, lo=20 * u.deg, rmax=4000 * u.km, rinit=4000 * (1 - e) * u.km, life=life * u.hr)
    k = choice('k', [0.5, 2.0, 9.0])
    ts, tf = -np.log(1 - e) / np.log(1 + rate) * u.day, -0.5 * np.log(1 - e) * life * u.hr
    s.age(k * ts)
    f.age(k * tf)
    check('features turn at their maximum', s.is_growing == (k < 1) and f.is_growing == (k < 1))
    left = 1 - s.area_current.to_value(MSH) / 400, 1 - f.radius.to_value(u.km) / 4000
    eq('around the maximum the spot changes by its rate times the time beyond it', left[0], e / 2 if k < 1 else 0.5 * (k - 1) * ts.to_value(u.day), tol=0.01)
    eq('around the maximum the facula changes by its rate times the time beyond it', left[1], e / 2 if k < 1 else (k - 1) * e, tol=0.01)

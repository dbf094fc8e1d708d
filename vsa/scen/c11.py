"""C11: spot and facula sizes stay physical while aging."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, finite
from scen.common import *

CELLS = {'spot_steps': (60, 400), 'spot_edge': (24, 100), 'facula_steps': (60, 400), 'facula_edge': (16, 60),
         'collection': (20, 100), 'one_spot_step': (12, 60), 'one_facula_step': (12, 60), 'around_max': (40, 200)}
WIDE = ['one_spot_step', 'one_facula_step']


def _step(name):
    return 10 ** var(name, -2.5, 2.2) * choice(name + '.u', [1 * u.hr, 1 * u.day])


def _spot():
    amax = 10 ** var('amax', 1, 6, ext=(-3, 9)) * MSH
    return spot('s', grid=9, growing=choice('grow', [True, True, False]), la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K,
                pen=2800 * u.K, amax=amax, acur=amax * var('frac', 0.001, 0.999, (1.0,), ext=(1e-09, 0.999)),
                rate=var('rate', 0.01, 2.5, ext=(0.0001, 100)) / u.day, decay=10 ** var('decay', 0, 5, ext=(-4, 9)) * MSH / u.day)


def _fac():
    rmax = 10 ** var('rmax', 2, 6, ext=(-2, 7)) * u.km
    return facula('f', grid=9, growing=choice('grow', [True, True, False]), la=10 * u.deg, lo=20 * u.deg,
                  rmax=rmax, rinit=rmax * var('frac', 0.02, 0.999, (1.0,)), life=10 ** var('life', 0, 3, ext=(-2, 5)) * u.hr)


def _watch_spot(s, dt):
    a0, g0 = s.area_current, s.is_growing
    s.age(dt)
    a1, g1 = s.area_current, s.is_growing
    finite('the spot area stays a number', a1)
    le('the spot area is never negative', 0 * MSH, a1, atol=0)
    le('the spot area never exceeds its maximum', a1, s.area_max)
    if g0:
        if g1:
            le('the spot area does not shrink while growing', a0, a1)
    else:
        check('a decaying spot never grows again', not g1)
        le('the spot area does not grow while decaying', a1, a0)


def _watch_fac(f, dt):
    a0, g0 = f.radius, f.is_growing
    f.age(dt)
    a1, g1 = f.radius, f.is_growing
    finite('the facula radius stays a number', a1)
    le('the facula radius is never negative', 0 * u.km, a1, atol=0)
    le('the facula radius never exceeds its maximum', a1, f.r_max)
    if dt / f.lifetime < 100:
        check('the facula radius never reaches zero', a1 > 0 * u.km)
    if g0:
        if g1:
            le('the facula radius does not shrink while growing', a0, a1)
    else:
        check('a decaying facula never grows again', not g1)
        le('the facula radius does not grow while decaying', a1, a0)


def spot_steps():
    s = _spot()
    for i in range(3):
        _watch_spot(s, _step('dt%d' % i))


def one_spot_step():
    s = spot('s', grid=9, growing=choice('grow', [True, False]), la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K,
             pen=2800 * u.K, amax=var('amax', 100, 200) * MSH, acur=var('acur', 10, 90) * MSH, rate=0.5 / u.day,
             decay=var('decay', 1, 50) * MSH / u.day)
    _watch_spot(s, var('dt', 0.01, 50, ext=(1e-05, 100000)) * u.day)


def one_facula_step():
    f = facula('f', grid=9, growing=choice('grow', [True, False]), la=10 * u.deg, lo=20 * u.deg,
               rmax=var('rmax', 100, 200) * u.km, rinit=var('rinit', 10, 90) * u.km, life=var('life', 2, 9) * u.hr)
    _watch_fac(f, var('dt', 0.01, 20) * u.hr)


def spot_edge():
    """zero steps, zero rates, features at their maximum, overshooting steps"""
    amax = var('amax', 100, 900) * MSH
    s = spot('s', grid=9, growing=choice('grow', [True, False]), la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K,
             pen=2800 * u.K, amax=amax, acur=amax * var('frac', 0.1, 0.9, (1.0, 0.5)),
             rate=choice('rate', [0.0, 0.5, 3.0]) / u.day, decay=choice('decay', [0.0, 10.0, 1e5]) * MSH / u.day)
    for i in range(3):
        _watch_spot(s, choice('dt%d' % i, [0.0, 0.3, 40.0, 4000.0]) * u.day)


def facula_steps():
    f = _fac()
    for i in range(3):
        # steps of up to a hundred lifetimes, so that the radius stays representable
        _watch_fac(f, f.lifetime * 10 ** var('dt%d' % i, -3.5, 1.9))


def facula_edge():
    rmax = var('rmax', 100, 900) * u.km
    f = facula('f', grid=9, growing=choice('grow', [True, False]), la=10 * u.deg, lo=20 * u.deg,
               rmax=rmax, rinit=rmax * var('frac', 0.1, 0.9, (1.0, 0.5)), life=choice('life', [1.0, 6.0, 48.0]) * u.hr)
    for i in range(3):
        _watch_fac(f, choice('dt%d' % i, [0.0, 0.3, 5.0, 40.0]) * u.hr)


def collection():
    """collections and stars age the same way"""
    s, f = _spot(), _fac()
    star = star_with(9, [s], [f])
    for i in range(2):
        dt = _step('dt%d' % i)
        a0, g0, r0, h0 = s.area_current, s.is_growing, f.radius, f.is_growing
        star.age(dt)
        for x in star.spots.spots:
            le('a surviving spot has an area between 0 and its maximum', 0 * MSH, x.area_current, atol=0)
            le('a surviving spot has at most its maximum area', x.area_current, x.area_max)
            if not g0:
                le('a surviving decaying spot did not grow', x.area_current, a0)
        for x in star.faculae.faculae:
            le('a surviving facula has at most its maximum radius', x.radius, x.r_max)
            check('a surviving facula has a radius', x.radius > 0 * u.km)
            if not h0:
                le('a surviving decaying facula did not grow', x.radius, r0)


def around_max():
    """steps that end just before, at or just after the maximum"""
    off = 1 + choice('side', [1, -1]) * 10 ** var('off', -3.5, -0.3)
    if choice('what', ['spot', 'facula']) == 'spot':
        rate, frac = var('rate', 0.05, 2.5), var('frac', 0.05, 0.9)
        amax = 10 ** var('amax', 1, 6, ext=(-3, 9)) * MSH
        s = spot('s', grid=9, la=10 * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K, amax=amax, acur=amax * frac,
                 rate=rate / u.day, decay=amax * 10 ** var('decay', -3, 1) / u.day)
        _watch_spot(s, -np.log(frac) / np.log(1 + rate) * off * u.day)
        _watch_spot(s, var('dt', 0.01, 3) * u.day)
    else:
        frac, life = var('frac', 0.05, 0.9), 10 ** var('life', 0, 3, ext=(-2, 5)) * u.hr
        rmax = 10 ** var('rmax', 2, 6, ext=(-2, 7)) * u.km
        f = facula('f', grid=9, la=10 * u.deg, lo=20 * u.deg, rmax=rmax, rinit=rmax * frac, life=life)
        _watch_fac(f, -np.log(frac) * life * 0.5 * off)
        _watch_fac(f, life * var('dt', 0.01, 3))

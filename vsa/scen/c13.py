"""C13: exactly the dead features are dropped."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, check, same_obj, hook
from scen.common import *

CELLS = {'spots': (60, 300), 'faculae': (60, 300), 'star': (30, 150), 'adding': (24, 100), 'clean': (30, 120), 'crowd': (6, 24)}
WIDE = []


def _spots(n, kinds):
    out = []
    for i in range(n):
        k = choice('kind%d' % i, kinds)
        amax = var('amax%d' % i, 300, 500, ext=(300, 1e+06)) * MSH
        kw = dict(grid=9, la=(10 + i) * u.deg, lo=20 * u.deg, umb=2500 * u.K, pen=2800 * u.K, rate=var('rate%d' % i, 0.1, 1.5, ext=(0.001, 50)) / u.day)
        if k == 'growing':
            out.append(spot('s%d' % i, growing=True, amax=amax, acur=var('acur%d' % i, 5, 250) * MSH, decay=var('d%d' % i, 5, 500) * MSH / u.day, **kw))
        elif k == 'decaying':
            out.append(spot('s%d' % i, growing=False, amax=amax, acur=var('acur%d' % i, 5, 250) * MSH, decay=var('d%d' % i, 5, 500) * MSH / u.day, **kw))
        elif k == 'dying':
            out.append(spot('s%d' % i, growing=False, amax=amax, acur=var('acur%d' % i, 0.1, 2) * MSH, decay=500 * MSH / u.day, **kw))
        elif k == 'dead':
            out.append(spot('s%d' % i, growing=False, amax=amax, acur=0 * MSH, decay=5 * MSH / u.day, **kw))
        elif k == 'tiny':
            a = 10 ** var('tiny%d' % i, -9, -1.5) * MSH
            out.append(spot('s%d' % i, growing=False, amax=amax, acur=a, decay=1e-3 * a / u.day, **kw))
        else:
            out.append(spot('s%d' % i, growing=True, amax=amax, acur=0 * MSH, decay=5 * MSH / u.day, **kw))
    return out


def _facs(n, kinds):
    out = []
    for i in range(n):
        k = choice('fkind%d' % i, kinds)
        rmax = var('rmax%d' % i, 300, 500, ext=(3, 1e+06)) * u.km
        kw = dict(grid=9, la=(10 + i) * u.deg, lo=20 * u.deg, rmax=rmax, life=10 ** var('life%d' % i, -1.5, 1.6) * u.hr)
        if k == 'growing':
            out.append(facula('f%d' % i, growing=True, rinit=rmax * var('rf%d' % i, 0.14, 0.9), **kw))
        elif k == 'decaying':
            out.append(facula('f%d' % i, growing=False, rinit=rmax * var('rf%d' % i, 0.14, 0.9), **kw))
        elif k == 'dying':
            out.append(facula('f%d' % i, growing=False, rinit=rmax * var('rf%d' % i, 0.1355, 0.14), **kw))
        elif k == 'dead':
            out.append(facula('f%d' % i, growing=False, rinit=rmax * var('rf%d' % i, 0.05, 0.135), **kw))
        else:
            out.append(facula('f%d' % i, growing=True, rinit=rmax * var('rf%d' % i, 0.02, 0.13), **kw))
    return out


KINDS = ['growing', 'decaying', 'dying', 'dead', 'newborn']
SKINDS = KINDS + ['tiny']


def _spot_fate(s, t):
    """alive?, area, growing after t, from the documented law"""
    d = t.to_value(u.day)
    a = (s.area_current / MSH).to_value(u.dimensionless_unscaled)
    amax = (s.area_max / MSH).to_value(u.dimensionless_unscaled)
    dec = (s.decay_rate / (MSH / u.day)).to_value(u.dimensionless_unscaled)
    k = np.log(1 + (s.growth_rate * u.day).to_value(u.dimensionless_unscaled))
    if s.is_growing:
        if a == 0:
            return True, 0.0, True
        tm = np.log(amax / a) / k
        if d < tm:
            return True, a * np.exp(k * d), True
        left = amax - dec * (d - tm)
    else:
        left = a - dec * d
    if left > 0:
        return True, left, False
    return False, 0.0, False


def _fac_fate(f, t):
    x = (t / f.lifetime).to_value(u.dimensionless_unscaled)
    q = (f.radius / f.r_max).to_value(u.dimensionless_unscaled)
    if f.is_growing:
        tm = -0.5 * np.log(q)
        if x < tm:
            return True, q * np.exp(2 * x), True
        left = np.exp(-2 * (x - tm))
    else:
        left = q * np.exp(-2 * x)
    return bool(left > np.exp(-2)), left, False


def _judge(before, fates, after, what):
    want = [x for x, ft in zip(before, fates) if ft[0]]
    eq('aging keeps as many %s as survive' % what, len(after), len(want))
    if len(after) == len(want):
        for x, y in zip(after, want):
            check('surviving %s are kept in identity and order' % what, same_obj(x, y))
    for x, ft in zip(before, fates):
        if ft[0]:
            kept = False
            for y in after:
                if same_obj(x, y):
                    kept = True
            check('no living one of the %s is dropped' % what, kept)
            if what == 'spots':
                eq('every surviving spot ages once by the full step', x.area_current, ft[1] * MSH, tol=1e-6, atol=1e-5 * MSH)
            else:
                eq('every surviving facula ages once by the full step', x.radius, ft[1] * x.r_max, tol=1e-6)
            check('the phase of surviving %s is that of one full step' % what, x.is_growing == ft[2])


def spots():
    sp = _spots(choice('n', [3, 4, 5, 1]), SKINDS)
    col = vsm.SpotCollection(*sp, grid_params=9)
    t = 10 ** var('t', -1.5, 1) * u.day
    fates = [_spot_fate(s, t) for s in sp]
    col.age(t)
    _judge(sp, fates, col.spots, 'spots')


def faculae():
    fc = _facs(choice('n', [3, 4, 5, 1]), KINDS)
    col = vsm.FaculaCollection(*fc, grid_params=9)
    t = 10 ** var('t', -1.5, 1.5) * u.hr
    fates = [_fac_fate(f, t) for f in fc]
    col.age(t)
    _judge(fc, fates, col.faculae, 'faculae')


def star():
    sp, fc = _spots(3, KINDS), _facs(3, KINDS)
    st = star_with(9, sp, fc, teff=3300 * u.K, radius=1 * u.R_sun)
    t = 10 ** var('t', -1, 1.8) * u.hr
    f1, f2 = [_spot_fate(s, t) for s in sp], [_fac_fate(f, t) for f in fc]
    st.age(t)
    _judge(sp, f1, st.spots.spots, 'spots')
    _judge(fc, f2, st.faculae.faculae, 'faculae')


def adding():
    sp, fc = _spots(2, ['growing', 'decaying']), _facs(2, ['growing', 'decaying'])
    st = star_with(9, sp, fc, teff=3300 * u.K, radius=1 * u.R_sun)
    if choice('aged', [True, False]):
        st.age(0.001 * u.hr)
    # also features without size, past their end, or still at their very beginning
    az, rz, gz = choice('az', [100, 0, 1e-9]), choice('rz', [100, 1e-9]), choice('gz', [True, False])
    more_s = [spot('x%d' % i, grid=9, amax=300 * MSH, acur=(100 if i else az) * MSH, growing=gz) for i in range(2)]
    more_f = [facula('y%d' % i, grid=9, rmax=300 * u.km, rinit=(rz if i else 100) * u.km, growing=gz) for i in range(2)]
    form = choice('form', ['single', 'list', 'tuple'])
    if form == 'single':
        st.add_spot(more_s[0])
        st.add_spot(more_s[1])
        st.add_fac(more_f[0])
        st.add_fac(more_f[1])
    elif form == 'list':
        st.add_spot(more_s)
        st.add_fac(tuple(more_f))
    else:
        st.spots.add_spot(tuple(more_s))
        st.faculae.add_faculae(tuple(more_f))
    for have, want, what in ((st.spots.spots, sp + more_s, 'spots'), (st.faculae.faculae, fc + more_f, 'faculae')):
        eq('adding keeps all previous and all new %s' % what, len(have), len(want))
        for x, y in zip(have, want):
            check('added %s come after the previous ones' % what, same_obj(x, y))
    st.add_spot([])
    st.add_fac(())
    eq('adding nothing changes nothing', (len(st.spots.spots), len(st.faculae.faculae)), (4, 4))


def clean():
    sp, fc = _spots(4, ['growing', 'decaying', 'dead', 'newborn', 'tiny']), _facs(4, ['growing', 'decaying', 'dead', 'newborn'])
    a, b = vsm.SpotCollection(*sp, grid_params=9), vsm.FaculaCollection(*fc, grid_params=9)
    a.clean_spotlist()
    b.clean_faclist()
    ws = [s for s in sp if s.is_growing or s.area_current > 0 * MSH]
    wf = [f for f in fc if f.is_growing or f.radius > f.r_max * np.exp(-2)]
    # exactly at the limits: no area left, or exactly 1/e^2 of the maximum radius
    r0 = var('edge.r', 100, 900, ext=(1, 1e6)) * u.km
    gone, alive = facula('g', grid=9, rmax=r0, rinit=r0 / np.e**2, growing=False), facula('k', grid=9, rmax=r0, rinit=r0 / np.e**2)
    sgone, salive = spot('g', grid=9, acur=0 * MSH, growing=False), spot('k', grid=9, acur=0 * MSH)
    c, d = vsm.SpotCollection(sgone, salive, grid_params=9), vsm.FaculaCollection(gone, alive, grid_params=9)
    c.clean_spotlist()
    d.clean_faclist()
    check('a decaying spot without area is dropped and a growing one is kept', len(c.spots) == 1 and same_obj(c.spots[0], salive))
    check('a facula at the end of its decay is dropped and one at the start of its growth is kept',
          len(d.faculae) == 1 and same_obj(d.faculae[0], alive))
    eq('cleaning keeps the living spots', len(a.spots), len(ws))
    eq('cleaning keeps the living faculae', len(b.faculae), len(wf))
    for x, y in zip(a.spots, ws):
        check('cleaning keeps spots in order', same_obj(x, y))
    for x, y in zip(b.faculae, wf):
        check('cleaning keeps faculae in order', same_obj(x, y))


def crowd():
    """many features of all kinds"""
    n = choice('n', [70, 140, 40])
    mix = choice('mix', [True, False])
    q, r = var('q', 0.9, 1.1), var('r', 0.9, 1.1)
    sp, fc = [], []
    for i in range(n):
        k = (i * 7 + i // 5) % 4 if mix else 0 if i < n - 6 else 1 + i % 3
        sp.append(vsm.StarSpot(lat=(i % 90) * u.deg, lon=(i * 7 % 360) * u.deg, area_max=(300 + i) * q * MSH, area_current=(0.0 if k == 3 else 100.0 + i % 50) * q * MSH,
                               teff_umbra=2500 * u.K, teff_penumbra=2800 * u.K, is_growing=k == 0, growth_rate=0.5 / u.day,
                               decay_rate=(900 if k == 1 else 5) * MSH / u.day, grid_params=5))
        rm = (300 + i) * r * u.km
        fc.append(facula('f', grid=5, la=(i % 90) * u.deg, lo=(i * 7 % 360) * u.deg, rmax=rm, rinit=rm * (0.11 if k == 3 else 0.14 if k == 1 else 0.6),
                         life=20 * u.hr, growing=k == 0, depth=20 * u.km, fslope=0 * u.K / u.km, wslope=0 * u.K / u.km, floor0=-100 * u.K, wall0=100 * u.K))
    t = var('t', 4, 9) * u.hr
    f1, f2 = [_spot_fate(s, t) for s in sp], [_fac_fate(f, t) for f in fc]
    what = choice('what', ['star', 'collections'])
    if what == 'star':
        st = star_with(5, sp, fc, teff=3300 * u.K, radius=1 * u.R_sun)
        st.age(t)
        a, b = st.spots.spots, st.faculae.faculae
    else:
        x, y = vsm.SpotCollection(*sp, grid_params=5), vsm.FaculaCollection(*fc, grid_params=5)
        x.age(t)
        y.age(t)
        a, b = x.spots, y.faculae
    _judge(sp, f1, a, 'spots')
    _judge(fc, f2, b, 'faculae')

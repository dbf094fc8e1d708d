"""C04: transit and eclipse geometry."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, finite, assume
from scen.common import *
from vspec_vsm.helpers import calc_circ_fraction_inside_unit_circle

CELLS = {'overlap': (60, 400), 'grazing': (40, 200), 'tiny': (16, 60), 'filling': (12, 40), 'overlap_edge': (16, 60), 'eclipse': (60, 400), 'front': (16, 80), 'position': (16, 80), 'quadrature': (24, 120)}
WIDE = ['overlap_edge']


def _lens(d, r):
    """fraction of a disk of radius r whose centre is at distance d that lies inside the unit disk"""
    if d >= 1 + r:
        return 0.0
    if d <= 1 - r:
        return 1.0
    # half-angles of the common chord seen from both centres
    ca = (d * d + 1 - r * r) / (2 * d)
    cb = (d * d + r * r - 1) / (2 * d * r)
    a = np.arccos(np.clip(ca, -1, 1))
    b = np.arccos(np.clip(cb, -1, 1))
    area = (a - np.sin(2 * a) / 2) + r * r * (b - np.sin(2 * b) / 2)
    return area / (np.pi * r * r)


def overlap():
    r = var('r', 0.02, 1, (1.0, 0.5))
    rho = var('rho', 0, 2.3, (0.0,))
    th = var('theta', 0, 6.2832, (0.0,))
    x, y = rho * np.cos(th), rho * np.sin(th)
    f = calc_circ_fraction_inside_unit_circle(x, y, r)
    finite('the overlap is a number', f)
    le('the overlap is at least 0', 0, f, atol=1e-7)
    le('the overlap is at most 1', f, 1, atol=1e-7)
    eq('the overlap is the circle-circle overlap', f, _lens(rho, r), tol=1e-5, atol=1e-5)


def grazing():
    """close to external and internal contact: bounds that are exact there (no cancellation)"""
    r = var('r', 0.05, 0.95, (0.5,))
    gap = 10**var('gap', -3.5, -0.5)
    th = var('theta', 0, 6.2832, (0.0,))
    where = choice('contact', ['external', 'internal', 'inside', 'outside', 'external', 'internal'])
    if where == 'inside':
        rho = (1 - r) * (1 - gap)
    elif where == 'outside':
        rho = (1 + r) * (1 + gap)
    elif where == 'external':
        w = r * gap
        rho = 1 + r - w
    else:
        w = r * gap
        rho = 1 - r + w
    f = calc_circ_fraction_inside_unit_circle(rho * np.cos(th), rho * np.sin(th), r)
    finite('the overlap is a number', f)
    le('the overlap is at least 0', 0, f, atol=1e-9)
    le('the overlap is at most 1', f, 1, atol=1e-9)
    if where == 'inside':
        eq('a planet inside the disk is wholly inside', f, 1)
    elif where == 'outside':
        eq('disjoint disks do not overlap', f, 0, atol=1e-12)
    elif where == 'external':
        # the lens of width w and half-height h contains a rhombus and lies in a rectangle
        h = np.sqrt((rho + 1 + r) * (2 - w) * (2 * r - w) * w) / (2 * rho)
        area = np.pi * r * r
        le('a grazing planet overlaps a little', 0.999 * w * h / area, f)
        le('a grazing planet overlaps no more than a little', f, 1.001 * 2 * w * h / area)
    else:
        # the part outside contains a disk of diameter w and is narrower than w everywhere
        le('a planet that barely sticks out does stick out', 0.999 * gap * gap / 4, 1 - f)
        le('a planet that barely sticks out sticks out no more than that', 1 - f, 1.001 * np.pi * (r * r - (r - w)**2) / (np.pi * r * r))


def tiny():
    """a planet far smaller than the star: the limb is a straight line across it"""
    r = choice('r', [1e-4, 3e-4, 7e-4, 1.5e-3, 4e-3, 9e-3, 2e-2])
    d = choice('d', [-1.2, -0.7, -0.4, -0.1, 0.0, 0.2, 0.45, 0.8, 1.3])
    rho = 1 + d * r
    th = choice('theta', [0, 1, 2, 3])
    f = calc_circ_fraction_inside_unit_circle([rho, 0.0, -rho, 0.0][th], [0.0, rho, 0.0, -rho][th], r)
    c = np.clip(d, -1, 1)
    b = np.arccos(c)
    eq('a small planet at the limb is cut by it', f, (b - c * np.sin(b)) / np.pi, tol=1e-4, atol=0.012)


def filling():
    """a planet about as large as the star, almost concentric with it"""
    r = choice('r', [1.0, 0.9999, 0.999, 0.99])
    rho = choice('rho', [1e-4, 4e-4, 9e-4, 2e-3, 8e-3, 0.03])
    th = choice('theta', [0, 1, 2, 3])
    f = calc_circ_fraction_inside_unit_circle([rho, 0.0, -rho, 0.0][th], [0.0, rho, 0.0, -rho][th], r)
    eq('a planet as large as the star sticks out by what it is displaced', f, _lens(rho, r), atol=1e-6)


def overlap_edge():
    r = var('r', 0.05, 1, (1.0, 0.5))
    eq('a planet in the centre is inside', calc_circ_fraction_inside_unit_circle(0.0, 0.0, r), 1)
    d = var('gap', 0.01, 5, ext=(0.01, 5000))
    eq('disjoint disks do not overlap', calc_circ_fraction_inside_unit_circle(1 + r + d, 0.0, r), 0, atol=1e-9)
    eq('disjoint disks do not overlap (y)', calc_circ_fraction_inside_unit_circle(0.0, -(1 + r + d), r), 0, atol=1e-9)
    f = calc_circ_fraction_inside_unit_circle(1 + r, 0.0, r)
    finite('the overlap at external contact is a number', f, True)
    g = calc_circ_fraction_inside_unit_circle(0.0, 1 - r, r)
    finite('the overlap at internal contact is a number', g, True)


def _geometry():
    star = empty_star(choice('grid', [9, (4, 5)]), teff=3300 * u.K)
    rp = var('rp', 0.05, 1, (1.0,))
    orb = var('orb', 2.1, 12) if choice('near', [False, False, True]) is False else var('orb.near', 1.02, 2.1)
    return star, rp, orb


def eclipse():
    star, rp, orb = _geometry()
    turn = choice('turn', [0, 360, -360])
    ph = turn * u.deg + np.arcsin(np.clip(var('sx', -1.2, 1.2, (0.0,)) / orb, -1, 1)) * u.rad
    inc = 90 * u.deg + np.arcsin(np.clip(var('sy', -1.2, 1.2, (0.0,)) / orb, -1, 1)) * u.rad
    assume(np.cos(ph) > 1e-3)
    la0, lo0 = viewpoint()
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb * star.radius, radius=rp * star.radius, phase=ph,
                                    inclination=inc)
    px = orb * np.sin(ph).value
    py = orb * (np.cos(ph) * np.cos(inc)).value
    want = 1 - _lens(np.sqrt(px**2 + py**2), rp)
    finite('the visible fraction is a number', f)
    le('the visible fraction is at least 0', 0, f, atol=1e-7)
    le('the visible fraction is at most 1', f, 1, atol=1e-7)
    eq('behind the star the visible fraction is one minus the overlap', f, want, tol=1e-5, atol=1e-5)
    g = star.get_pl_frac(ph - 180 * u.deg, orb * star.radius, rp * star.radius, inc)
    eq('the planet fraction is one minus the overlap', g, want, tol=1e-5, atol=1e-5)
    cov = star.calc_coverage({'lat': la0, 'lon': lo0}, orbit_radius=orb * star.radius, planet_radius=rp * star.radius,
                             phase=ph, inclination=inc)
    eq('coverage reports the same visible fraction', cov[2], want, tol=1e-5, atol=1e-5)


def front():
    star, rp, orb = _geometry()
    la0, lo0 = viewpoint()
    ph = (180 + choice('turn', [0, 0, 360, -360, 720])) * u.deg + var('dph', -89.9, 89.9, (0.0, 5.0)) * u.deg
    inc = var('inc', 60, 120, (90.0,)) * u.deg
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb * star.radius, radius=rp * star.radius, phase=ph,
                                    inclination=inc)
    eq('in front of the star the planet is fully visible', f, 1)


def quadrature():
    """close to phases 90 and 270 degrees, orbits barely larger than the star"""
    star = empty_star(choice('grid', [9, (4, 5)]), teff=3300 * u.K)
    rp, orb = var('rp', 0.1, 1, (1.0,)), var('orb', 1.0, 1.08)
    d = var('d', 0.05, 6) * choice('side', [1, -1])
    ph = (choice('quarter', [90, 270, -90, 450]) + d) * u.deg
    inc = var('inc', 80, 100, (90.0,)) * u.deg
    mask, f = star.get_transit_mask(0 * u.deg, lon('lon0'), orbit_radius=orb * star.radius, radius=rp * star.radius, phase=ph,
                                    inclination=inc)
    if np.cos(ph) > 0:
        px, py = orb * np.sin(ph).value, orb * (np.cos(ph) * np.cos(inc)).value
        eq('behind the star the visible fraction is one minus the overlap', f, 1 - _lens(np.sqrt(px**2 + py**2), rp), tol=1e-5, atol=1e-5)
        eq('nothing is hidden by a planet behind the star', 1.0 * mask, 0.0 * mask)
    else:
        eq('in front of the star the planet is fully visible', f, 1)


def position():
    """which side of the disk is hidden: x follows sin(phase - 180 deg), y follows cos(phase - 180 deg) cos(inclination)"""
    star = empty_star(choice('grid', [30, 40, (8, 12)]), teff=3300 * u.K)
    la0, lo0 = lat('lat0', -70, 70, (0.0,)), lon('lon0')
    orb = var('orb', 3, 10)
    sx, sy = var('sx', -0.8, 0.8), var('sy', -0.8, 0.8)
    rp = var('rp', 0.3, 0.45)
    ph = (180 + choice('turn', [0, 0, 360, -360, 720])) * u.deg + np.arcsin(sx / orb) * u.rad
    cosi = sy / (orb * np.cos(np.arcsin(sx / orb)))
    inc = np.arccos(cosi) * u.rad
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb * star.radius, radius=rp * star.radius, phase=ph,
                                    inclination=inc)
    lats, lons = star.gridmaker.grid()
    m = mu_spec(la0, lo0, lats, lons)
    x = (np.cos(lats) * np.sin(lons - lo0)).value
    y = (np.cos(la0) * np.sin(lats) - np.sin(la0) * np.cos(lats) * np.cos(lons - lo0)).value
    d = np.sqrt((x - sx)**2 + (y - sy)**2)
    size = 4 * np.sqrt(star.gridmaker.area) * np.where(m > 0, m, 0)
    outside = (m > 1e-3) & (d > rp + size + 0.03)
    check('pixels clear of the planet position are not hidden', (1.0 * mask < 1e-6) | ~outside)
    centre = (m > 0.1) & (d < 0.3 * rp)
    check('pixels at the planet position are hidden', (1.0 * mask > 0.02) | ~centre)

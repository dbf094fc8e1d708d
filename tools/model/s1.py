import numpy as np
import math
import functools
import itertools
import operator
import copy
from collections import defaultdict, namedtuple, OrderedDict
from dataclasses import dataclass, field
from typing import NamedTuple
import astropy.units as u
from astropy import units

a1 = np.array([3., 1., 2.])
a2 = np.array([[1., 2., 3.], [4., 5., 6.]])
m1 = np.array([True, False, True])
m2 = np.array([[True, False, True], [False, False, True]])
q1 = np.array([10., 20., 30.])*u.deg
t1 = np.linspace(0, 5, 6)*u.hr


def t_or_reduce(): return np.logical_or.reduce([m1, ~m1, m1])
def t_or_reduce2(): return np.logical_or.reduce(m2)
def t_and_reduce(): return np.logical_and.reduce([m1, m1])
def t_and_reduce_ax(): return np.logical_and.reduce(m2, axis=1)
def t_add_reduce(): return np.add.reduce(a2)
def t_add_reduce_none(): return np.add.reduce(a2, axis=None)
def t_min_reduce(): return np.minimum.reduce([a1, a1*2, a1-3])
def t_max_reduce(): return np.maximum.reduce(a2, axis=1)
def t_max_acc(): return np.maximum.accumulate(a1)
def t_add_acc(): return np.add.accumulate(a1)
def t_mul_outer(): return np.multiply.outer(a1, a1)
def t_sub_outer(): return np.subtract.outer(a1, a1)
def t_cumsum(): return np.cumsum(a1)
def t_cumsum_m(): return a1.cumsum()
def t_cumsum_bool(): return np.cumsum(m1)
def t_cumprod(): return np.cumprod(a1)
def t_sum_bool(): return m2.sum()
def t_sum_axis(): return m2.sum(axis=0)
def t_sum_keep(): return a2.sum(axis=1, keepdims=True)
def t_mean_axis(): return a2.mean(axis=0)
def t_mean_bool(): return m2.mean()
def t_any_list(): return np.any([m1, ~m1], axis=0)
def t_all_ax(): return np.all(m2, axis=1)
def t_argsort(): return np.argsort(a1)
def t_sort(): return np.sort(a1)
def t_sort_q(): return np.sort(q1[::-1])
def t_argmin(): return np.argmin(a2)
def t_argmax_ax(): return np.argmax(a2, axis=1)
def t_argmin_m(): return a1.argmin()
def t_unravel(): return np.unravel_index(np.argmax(a2), a2.shape)
def t_nonzero(): return np.nonzero(m1)
def t_nonzero_m(): return m2.nonzero()
def t_flatnonzero(): return np.flatnonzero(m2)
def t_argwhere(): return np.argwhere(m2)
def t_where1(): return np.where(m1)[0]
def t_where3(): return np.where(m1, a1, 0)
def t_where_int(): return np.where(m1, 1, 0)
def t_where_q(): return np.where(m1, q1, 0*u.deg)
def t_where_q2(): return np.where(q1 > 15*u.deg, q1, q1*2)
def t_select(): return np.select([a1 > 2, a1 > 1], [a1*10, a1*100], default=-1)
def t_select0(): return np.select([a1 > 2], [a1*10])
def t_piecewise(): return np.piecewise(a1, [a1 < 2, a1 >= 2], [lambda x: -x, lambda x: x*2])
def t_choose(): return np.choose(m1.astype(int), [a1, a1*10])
def t_clip(): return np.clip(a1, 1.5, 2.5)
def t_clip_none(): return np.clip(a1, None, 2.5)
def t_clip_m(): return a1.clip(1.5)
def t_clip_m2(): return a1.clip(max=1.5)
def t_clip_q(): return np.clip(q1, 15*u.deg, 25*u.deg)
def t_clip_py(): return np.clip(3.2, 0, 1)
def t_maximum_q(): return np.maximum(q1, 15*u.deg)
def t_maximum0_q(): return np.maximum(q1-20*u.deg, 0*u.deg)
def t_fmax(): return np.fmax(a1, 2)
def t_minpy(): return min(3, 2.5)
def t_minlist(): return min([q1[0], q1[1]])
def t_min_key(): return min([3, -4, 2], key=abs)
def t_max_default(): return max([], default=7)
def t_hypot(): return np.hypot(3., 4.)
def t_hypot_q(): return np.hypot(3.*u.m, 400*u.cm)
def t_arctan2_q(): return np.arctan2(1*u.m, 100*u.cm)
def t_arctan2(): return np.arctan2(a1, -a1)
def t_arccos(): return np.arccos(0.5)
def t_arccos_q(): return np.arccos(0.5*u.dimensionless_unscaled)
def t_arccos_qu(): return np.arccos(u.Quantity(0.5))
def t_sin_q(): return np.sin(q1)
def t_sin_deg2rad(): return np.sin(np.deg2rad(30.))
def t_radians(): return np.radians(a1)
def t_degrees(): return np.degrees(a1)
def t_rad2deg_q(): return np.rad2deg(1*u.rad)
def t_deg2rad_q(): return np.deg2rad(90*u.deg)
def t_math(): return (math.hypot(3, 4), math.sqrt(2), math.floor(2.5), math.ceil(2.1), math.pi, math.isnan(1.0), math.copysign(2, -3))
def t_math_fsum(): return math.fsum([.1, .2, .3])
def t_math_prod(): return math.prod([1, 2, 3])
def t_math_isclose(): return math.isclose(1.0, 1.0 + 1e-12)
def t_math_inf(): return math.inf > 1
def t_einsum(): return np.einsum('i,i->', a1, a1)
def t_einsum2(): return np.einsum('ij,ij->i', a2, a2)
def t_einsum_ij(): return np.einsum('i,j->ij', a1, a1)
def t_dot(): return np.dot(a1, a1)
def t_dot2(): return a2 @ a1
def t_vdot(): return np.vdot(a1, a1)
def t_inner(): return np.inner(a1, a1)
def t_outer(): return np.outer(a1, a1)
def t_outer_q(): return np.outer(q1, a1)
def t_tensordot(): return np.tensordot(a1, a1, axes=1)
def t_dot_m(): return a1.dot(a1)
def t_cross(): return np.cross(a1, np.array([1., 0, 0]))
def t_norm(): return np.linalg.norm(a1)
def t_norm_ax(): return np.linalg.norm(a2, axis=1)
def t_polyval(): return np.polyval([1, 2, 3], a1)
def t_interp(): return np.interp(1.5, [1, 2], [10, 20])
def t_interp_q(): return np.interp(1.5*u.m, [1, 2]*u.m, [10, 20]*u.K)
def t_trapz(): return np.trapz(a1, dx=0.5)
def t_trapz_x(): return np.trapz(a1, np.array([0., 1., 3.]))
def t_trapz_q(): return np.trapz(a1*u.m, t1[:3])
def t_trapz_2(): return np.trapz(a2, axis=0)
def t_diff(): return np.diff(a1)
def t_diff_q(): return np.diff(t1)
def t_ediff(): return np.ediff1d(a1)
def t_gradient(): return np.gradient(a1)
def t_linspace_q(): return np.linspace(0*u.hr, 1*u.day, 3)
def t_linspace_noend(): return np.linspace(0, 1, 4, endpoint=False)
def t_linspace_step(): return np.linspace(0, 1, 4, retstep=True)
def t_arange_q(): return np.arange(0, 3)*u.deg
def t_arange_f(): return np.arange(0., 1., .25)
def t_arange_i(): return np.arange(5)
def t_arange_neg(): return np.arange(5, 0, -2)
def t_logspace(): return np.logspace(0, 2, 3)
def t_geomspace(): return np.geomspace(1, 100, 3)
def t_meshgrid(): return np.meshgrid(a1, a1[:2])
def t_meshgrid_ij(): return np.meshgrid(a1, a1[:2], indexing='ij')
def t_meshgrid_q(): return np.meshgrid(q1, q1[:2])
def t_meshgrid_sparse(): return np.meshgrid(a1, a1[:2], sparse=True)
def t_mgrid(): return np.mgrid[0:2, 0:3]
def t_ogrid(): return np.ogrid[0:2, 0:3]
def t_ix(): return a2[np.ix_([0, 1], [0, 2])]
def t_indices(): return np.indices((2, 2))
def t_broadcast(): return np.broadcast_to(a1, (2, 3))
def t_broadcast_arrays(): return np.broadcast_arrays(a1, a2)
def t_tile(): return np.tile(a1, (2, 1))
def t_repeat(): return np.repeat(a1, 2)
def t_repeat_arr(): return np.repeat(a1, np.array([1, 2, 0]))
def t_roll(): return np.roll(a1, 1)
def t_flip(): return np.flip(a1)
def t_pad(): return np.pad(a1, 1)
def t_concat(): return np.concatenate([a1, a1])
def t_concat_q(): return np.concatenate([q1, [1]*u.rad])
def t_append(): return np.append(a1, 4)
def t_append_q(): return np.append(q1, 1*u.deg)
def t_insert(): return np.insert(a1, 0, 9.)
def t_delete(): return np.delete(a1, 1)
def t_hstack(): return np.hstack([a1, a1])
def t_vstack(): return np.vstack([a1, a1])
def t_stack(): return np.stack([a1, a1], axis=-1)
def t_column_stack(): return np.column_stack([a1, a1])
def t_r_(): return np.r_[a1, 0, a1]
def t_c_(): return np.c_[a1, a1]
def t_atleast(): return np.atleast_1d(3.)
def t_atleast_q(): return np.atleast_1d(3.*u.m)
def t_atleast2(): return np.atleast_2d(a1)
def t_squeeze(): return np.squeeze(a1[None, :])
def t_ravel(): return a2.ravel()
def t_flatten(): return a2.flatten()
def t_T(): return a2.T
def t_swap(): return np.swapaxes(a2, 0, 1)
def t_moveaxis(): return np.moveaxis(a2, 0, -1)
def t_transpose(): return np.transpose(a2)
def t_reshape(): return a2.reshape(-1, 2)
def t_reshape2(): return np.reshape(a2, (3, 2))
def t_unique(): return np.unique(np.array([3, 1, 3, 2]))
def t_unique_inv(): return np.unique(np.array([3., 1., 3., 2.]), return_inverse=True)
def t_unique_counts(): return np.unique(np.array([3., 1., 3., 2.]), return_counts=True)
def t_unique_q(): return np.unique([3, 1, 3]*u.K)
def t_bincount(): return np.bincount(np.array([0, 1, 1, 3]))
def t_bincount_w(): return np.bincount(np.array([0, 1, 1, 3]), weights=np.array([1., 2., 3., 4.]))
def t_bincount_min(): return np.bincount(np.array([0, 1]), minlength=4)
def t_searchsorted(): return np.searchsorted([1, 2, 3], 2.5)
def t_searchsorted_r(): return np.searchsorted(np.array([1, 2, 3]), [2, 3], side='right')
def t_digitize(): return np.digitize(a1, [1.5, 2.5])
def t_histogram(): return np.histogram(a1, bins=2)
def t_percentile(): return np.percentile(a1, 30)
def t_percentile2(): return np.percentile(a1, [10, 90])
def t_quantile(): return np.quantile(a1, .3)
def t_median(): return np.median(a1)
def t_nanmean(): return np.nanmean(np.array([1., np.nan, 3.]))
def t_nansum_all(): return np.nansum(np.array([np.nan]))
def t_nanmax(): return np.nanmax(np.array([1., np.nan, 3.]))
def t_nan2num(): return np.nan_to_num(np.array([1., np.nan]))
def t_isclose(): return np.isclose(a1, a1 + 1e-12)
def t_allclose(): return np.allclose(a1, a1)
def t_array_equal(): return np.array_equal(a1, a1.copy())
def t_array_equal_q(): return np.array_equal(q1, q1.copy())
def t_isin(): return np.isin(a1, [1, 2])
def t_in1d(): return np.in1d(a1, [1, 2])
def t_count_nonzero(): return np.count_nonzero(m2)
def t_count_nonzero_ax(): return np.count_nonzero(m2, axis=0)
def t_ptp(): return np.ptp(a1)
def t_std(): return np.std(a1)
def t_var(): return np.var(a2, axis=0)
def t_average(): return np.average(a1, weights=np.array([1., 2., 3.]))
def t_sign(): return np.sign(np.array([-2., 0., 3.]))
def t_copysign(): return np.copysign(2., -3)
def t_heaviside(): return np.heaviside(a1 - 2, 0.5)
def t_mod(): return np.mod(-1.5, 1)
def t_mod_q(): return np.mod(370*u.deg, 360*u.deg)
def t_mod_op_q(): return (370*u.deg) % (360*u.deg)
def t_fmod(): return np.fmod(-1.5, 1)
def t_remainder(): return np.remainder(a1, 2)
def t_divmod(): return divmod(7, 3)
def t_divmod_q(): return divmod(370*u.deg, 360*u.deg)
def t_floordiv_q(): return (25*u.hr)//(1*u.day)
def t_floor_divide(): return np.floor_divide(a1, 2)
def t_power(): return np.power(a1, 2)
def t_float_power(): return np.float_power(a1, 2)
def t_square(): return np.square(a1)
def t_reciprocal(): return np.reciprocal(a1)
def t_negative(): return np.negative(a1)
def t_abs(): return np.abs(-a1)
def t_fabs(): return np.fabs(-a1)
def t_absq(): return abs(-q1)
def t_exp2(): return np.exp2(a1)
def t_log10(): return np.log10(a1)
def t_cbrt(): return np.cbrt(27.)
def t_sqrt_q(): return np.sqrt(4*u.m**2)
def t_sqrt_scalar_type(): return np.sqrt(4)
def t_round(): return np.round(a1/3, 2)
def t_around(): return np.around(2.567, 1)
def t_rint(): return np.rint(a1/2)
def t_round_py(): return round(2.567, 1)
def t_round_py0(): return round(2.5)
def t_int(): return int(2.7)
def t_int_np(): return int(np.ceil(2.1))
def t_ceil(): return np.ceil(2.1)
def t_floor_q(): return np.floor(2.5*u.one)
def t_trunc(): return np.trunc(-2.5)
def t_fix(): return np.fix(-2.5)
def t_full(): return np.full((2, 2), 3.)
def t_full_like(): return np.full_like(a1, 5)
def t_full_q(): return np.full(3, 4*u.K)
def t_full_like_q(): return np.full_like(q1, 5*u.deg)
def t_zeros_like(): return np.zeros_like(m1)
def t_zeros_like_f(): return np.zeros_like(m1, dtype=float)
def t_ones_q(): return np.ones(3)*u.K
def t_ones_unit(): return np.ones((2, 2))*300*u.K
def t_empty_shape(): return np.empty((2, 3)).shape
def t_empty0(): return np.array([])
def t_eye(): return np.eye(2)
def t_identity(): return np.identity(2)
def t_diag(): return np.diag(a1)
def t_triu(): return np.triu(np.ones((2, 2)))
def t_fromiter(): return np.fromiter((x for x in [1, 2, 3]), dtype=float)
def t_fromfunction(): return np.fromfunction(lambda i, j: i + j, (2, 2))
def t_vectorize(): return np.vectorize(lambda x: x*2)(a1)
def t_apply_along(): return np.apply_along_axis(lambda r: r.sum(), 1, a2)
def t_asarray(): return np.asarray([1, 2])
def t_asarray_q(): return np.asarray(q1)
def t_array_q_list(): return u.Quantity([1*u.m, 2*u.km])
def t_q_str(): return u.Quantity('3.00 K')
def t_q_unit(): return u.Quantity(3, u.K)
def t_q_convert(): return u.Quantity(3*u.km, u.m)
def t_ndim(): return (np.ndim(3), np.ndim(a2), np.shape(a1), np.size(a2), len(a2))
def t_dtype_float(): return np.array([1, 2], dtype=float)
def t_astype(): return m1.astype(float)
def t_astype_int(): return (a1*1.5).astype(int)
def t_bool_mul(): return m1*a1
def t_invert(): return ~m1
def t_xor(): return m1 ^ m1
def t_bool_minus(): return 1 - m1
def t_logical_xor(): return np.logical_xor(m1, m1)
def t_item(): return a1[0].item()
def t_tolist(): return a1.tolist()
def t_take(): return np.take(a1, [0, 2])
def t_take_m(): return a1.take([2])
def t_compress(): return np.compress(m1, a1)
def t_extract(): return np.extract(m1, a1)
def t_putmask():
    x = a1.copy()
    np.putmask(x, m1, 0)
    return x
def t_copyto():
    x = a1.copy()
    np.copyto(x, 7, where=m1)
    return x
def t_place():
    x = a1.copy()
    np.place(x, m1, [8.])
    return x
def t_put():
    x = a1.copy()
    np.put(x, [0], [8.])
    return x
def t_fill():
    x = a1.copy()
    x.fill(2)
    return x
def t_inplace():
    x = a1.copy()
    x[x > 1.5] *= 2
    return x
def t_inplace_and():
    x = m1.copy()
    x &= np.array([True, True, False])
    return x
def t_inplace_or():
    x = m1.copy()
    x |= np.array([True, True, False])
    return x
def t_out():
    x = np.zeros(3)
    np.multiply(a1, 2, out=x)
    return x
def t_where_kw():
    x = np.zeros(3)
    np.multiply(a1, 2, out=x, where=m1)
    return x
def t_divide_where():
    return np.divide(a1, np.array([1., 0., 2.]), out=np.zeros(3), where=np.array([True, False, True]))
def t_sum_where(): return np.sum(a1, where=m1)
def t_add_at():
    x = np.zeros(3)
    np.add.at(x, np.array([0, 0, 2]), 1)
    return x
def t_nditer():
    return [float(x) for x in np.nditer(a1)]
def t_ndenumerate():
    return [(i, float(x)) for i, x in np.ndenumerate(a2)]
def t_ndindex(): return list(np.ndindex(2, 2))
def t_flat(): return [float(x) for x in a2.flat]
def t_iter2(): return [r.sum() for r in a2]
def t_zip(): return [x + y for x, y in zip(a1, a1)]
def t_enumerate(): return [(i, x) for i, x in enumerate(a1, 1)]
def t_reversed(): return list(reversed([1, 2]))
def t_sorted_key(): return sorted([3, 1, 2], key=lambda x: -x)
def t_map_filter(): return list(map(lambda x: x*2, filter(lambda x: x > 1, [1, 2, 3])))
def t_map2(): return list(map(operator.add, [1, 2], [3, 4]))
def t_reduce(): return functools.reduce(lambda x, y: x + y, [1, 2, 3], 10)
def t_reduce_or(): return functools.reduce(np.logical_or, [m1, ~m1])
def t_partial(): return functools.partial(pow, 2)(3)
def t_chain(): return list(itertools.chain([1], [2, 3]))
def t_chain_it(): return list(itertools.chain.from_iterable([[1], [2]]))
def t_product(): return list(itertools.product([1, 2], [3]))
def t_accumulate(): return list(itertools.accumulate([1, 2, 3]))
def t_islice(): return list(itertools.islice([1, 2, 3], 2))
def t_takewhile(): return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]))
def t_compress_it(): return list(itertools.compress([1, 2, 3], m1))
def t_groupby(): return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])]
def t_pairwise(): return list(itertools.pairwise([1, 2, 3]))
def t_repeat_it(): return list(itertools.repeat(1, 2))
def t_count_it(): return [next(c) for c in [itertools.count(3)] for _ in range(2)]
def t_starmap(): return list(itertools.starmap(pow, [(2, 3)]))
def t_zip_longest(): return list(itertools.zip_longest([1, 2], [3]))
def t_sum_gen(): return sum(x for x in [1, 2, 3])
def t_sum_start(): return sum([q1[0], q1[1]], 0*u.deg)
def t_any_gen(): return any(x > 2 for x in [1, 2, 3])
def t_all_gen(): return all(x > 0 for x in [1, 2])
def t_dictcomp(): return {k: v*2 for k, v in {'a': 1, 'b': 2}.items()}
def t_dict_get(): return {'a': 1}.get('b', 5)
def t_dict_setdefault():
    d = {}
    d.setdefault('a', []).append(1)
    return d
def t_dict_merge(): return {**{'a': 1}, 'b': 2}
def t_dict_or(): return {'a': 1} | {'b': 2}
def t_dict_pop():
    d = {'a': 1, 'b': 2}
    return d.pop('a'), d.pop('z', None), d
def t_dict_zip(): return dict(zip('ab', [1, 2]))
def t_dict_kw(): return dict(a=1, **{'b': 2})
def t_dict_update():
    d = {'a': 1}
    d.update(b=2)
    d.update({'a': 3})
    return d
def t_dict_keyquant():
    d = {}
    d[3.0*u.K] = 1
    d[3.0*u.K] = 2
    return len(d)
def t_defaultdict():
    d = defaultdict(float)
    d['a'] += 2
    return dict(d)
def t_defaultdict_list():
    d = defaultdict(list)
    d['a'].append(2)
    return dict(d)
def t_ordered():
    d = OrderedDict([('a', 1)])
    d['b'] = 2
    return list(d)
def t_set(): return len({1, 2, 1})
def t_set_ops(): return sorted({1, 2} - {2} | {5})
def t_listops():
    x = [1, 2]
    x.extend([3])
    x.insert(0, 9)
    x += [4]
    x.remove(2)
    return x, x.pop(), x.index(3), x[::-1], x*2, [*x, 7]
def t_list_slice_assign():
    x = [1, 2, 3]
    x[:] = [y for y in x if y > 1]
    return x
def t_del():
    x = [1, 2, 3]
    del x[0]
    return x
def t_del_d():
    d = {'a': 1}
    del d['a']
    return d
def t_star():
    a, *b = [1, 2, 3]
    return a, b
def t_swap_v():
    a, b = 1, 2
    a, b = b, a
    return a, b
def t_walrus():
    if (n := len(a1)) > 2:
        return n
def t_ternary(): return 1 if a1[0] > 2 else 0
def t_chaincmp(): return 1 < 2 < 3
def t_match():
    x = (1, 2)
    match x:
        case (1, y):
            return y
        case _:
            return 0
def t_match_str():
    match 'iso':
        case 'iso' | 'isotropic':
            return 1
        case other:
            return other
def t_while_else():
    i = 0
    while i < 3:
        i += 1
        if i == 5:
            break
    else:
        i = 100
    return i
def t_try():
    try:
        raise ValueError('x')
    except (TypeError, ValueError) as e:
        return str(e)
    finally:
        pass
def t_try_else():
    try:
        x = 1
    except ValueError:
        x = 2
    else:
        x = 3
    return x
def t_raise_from():
    try:
        try:
            {}['a']
        except KeyError as e:
            raise ValueError('bad') from e
    except ValueError as e:
        return str(e)
def t_assert():
    assert 1 == 1, 'no'
    return 1
def t_closure():
    n = 0
    def f():
        nonlocal n
        n += 1
        return n
    f()
    return f()
def t_gen():
    def g():
        for i in range(3):
            yield i
        yield from [7, 8]
    return list(g())
def t_gen_next():
    g = (x for x in [1, 2])
    return next(g), next(g), next(g, None)
def t_deco():
    def d(f):
        @functools.wraps(f)
        def w(*a, **k):
            return f(*a, **k)*2
        return w
    @d
    def h(x, y=2):
        return x + y
    return h(1, y=5)
def t_ctx():
    class C:
        def __enter__(self):
            return 5
        def __exit__(self, *a):
            return False
    with C() as c:
        return c
def t_contextlib():
    import contextlib
    with contextlib.suppress(KeyError):
        {}['a']
    return 1
def t_contextmanager():
    from contextlib import contextmanager
    @contextmanager
    def cm():
        yield 3
    with cm() as x:
        return x
def t_errstate():
    with np.errstate(divide='ignore', invalid='ignore'):
        return np.array([1.])/np.array([0.])
def t_namedtuple():
    P = namedtuple('P', 'x y')
    p = P(1, y=2)
    return p.x, p.y, p._replace(x=5), list(p)
def t_typed_nt():
    class P(NamedTuple):
        x: float
        y: float = 3.
        def norm(self):
            return self.x + self.y
    return P(1.).norm(), P(1., 2.)[1]
def t_dataclass():
    @dataclass
    class D:
        a: int
        b: list = field(default_factory=list)
        @property
        def c(self):
            return self.a + len(self.b)
    return D(3).c, D(a=1, b=[1]).c
def t_enum():
    from enum import Enum
    class E(Enum):
        A = 1
        B = 2
    return E.A is E.A, E.B.value, E(1) is E.A, E.A == E.B
def t_classvar():
    class C:
        n = 3
        def __init__(self):
            self.m = self.n
        @classmethod
        def make(cls):
            return cls()
        @staticmethod
        def two():
            return 2
    return C.make().m, C.two(), C().two()
def t_inherit():
    class B:
        def f(self):
            return 1
    class C(B):
        def f(self):
            return super().f() + 1
    return C().f(), isinstance(C(), B), issubclass(C, B)
def t_property_setter():
    class C:
        def __init__(self):
            self._x = 1
        @property
        def x(self):
            return self._x
        @x.setter
        def x(self, v):
            self._x = v*2
    c = C()
    c.x = 4
    return c.x
def t_slots():
    class C:
        __slots__ = ('a',)
        def __init__(self):
            self.a = 1
    return C().a
def t_dunder():
    class C:
        def __init__(self, v):
            self.v = v
        def __add__(self, o):
            return C(self.v + o.v)
        def __eq__(self, o):
            return self.v == o.v
        def __len__(self):
            return self.v
        def __iter__(self):
            return iter(range(self.v))
        def __getitem__(self, i):
            return i*self.v
        def __contains__(self, x):
            return x == self.v
        def __call__(self, x):
            return x + self.v
        def __bool__(self):
            return False
    c = C(2) + C(1)
    return c.v, c == C(3), len(c), list(c), c[4], 3 in c, c(1), bool(c)
def t_getattr(): return getattr(np, 'pi'), hasattr([], 'append'), getattr(3, 'zz', 9)
def t_setattr():
    class C:
        pass
    c = C()
    setattr(c, 'k', 3)
    return c.k, vars(c)
def t_cached_property():
    class C:
        @functools.cached_property
        def x(self):
            return [1]
    c = C()
    return c.x is c.x
def t_lru():
    @functools.lru_cache(maxsize=None)
    def f(x):
        return [x]
    return f(1) is f(1)
def t_singledispatch():
    @functools.singledispatch
    def f(x):
        return 0
    @f.register(int)
    def _(x):
        return 1
    return f(3), f('a')
def t_fstring(): return f'{3.14159:.2f}|{5:03d}|{"a":>3}|{2+2!r}'
def t_format(): return '{:.2f} {}'.format(1.234, 5)
def t_percent(): return '%.2f %s %d' % (1.234, 'a', 5)
def t_fstr_q(): return f'{3.0*u.K:.2f}'
def t_str_q(): return str(3.0*u.K)
def t_str_methods(): return 'a b'.split(), ' x '.strip(), 'ab'.upper(), 'x'.join(['a', 'b']), 'abc'.replace('b', 'z'), 'abc'.startswith('a'), 'abc'.endswith('c')
def t_isinstance(): return isinstance(3*u.K, u.Quantity), isinstance(a1, np.ndarray), isinstance(3, (int, float)), isinstance(u.K, u.UnitBase), isinstance(True, int)
def t_isscalar(): return np.isscalar(3), np.isscalar(a1), (3*u.K).isscalar, q1.isscalar
def t_iterable(): return np.iterable(a1), np.iterable(3)
def t_range(): return list(range(5, 0, -2)), len(range(4)), 3 in range(4)
def t_copy():
    x = [1, [2]]
    y = copy.copy(x)
    z = copy.deepcopy(x)
    return y[1] is x[1], z[1] is x[1], z
def t_id(): return a1 is a1
def t_lambda_default(): return [f() for f in [lambda i=i: i for i in range(3)]]
def t_nested_comp(): return [x*y for x in [1, 2] for y in [3, 4] if x != y]
def t_kwonly():
    def f(a, *, b=2, **k):
        return a, b, k
    return f(1, b=3, c=4)
def t_posonly():
    def f(a, /, b):
        return a, b
    return f(1, b=2)
def t_global_type(): return type(3).__name__, type(a1) is np.ndarray
def t_bitwise(): return 5 & 3, 5 | 3, 5 ^ 3, ~5, 1 << 3
def t_complex_cmp(): return (1, 2) < (1, 3), [1] == [1], 'a' < 'b'
def t_none(): return None is None, None == 0
def t_bool_arith(): return True + True, sum([True, False])
def t_int_div(): return 7//2, -7//2, 7 % 3, -7 % 3, 2**10, 2**-1
def t_float_ops(): return 1e308*10, float('inf'), -0.0, 1/3
def t_float_str(): return float('3.5'), int('4')
def t_is_integer(): return (3.0).is_integer()

import numpy as np
import astropy.units as u
from astropy import constants as c
from copy import copy, deepcopy

a1 = np.array([3., 1., 2.])
a2 = np.array([[1., 2., 3.], [4., 5., 6.]])
m1 = np.array([True, False, True])
q1 = np.array([10., 20., 30.])*u.deg
t1 = np.linspace(0, 5, 6)*u.hr
q2 = np.array([[1., 2., 3.], [4., 5., 6.]])*u.K


def t_mul(): return 3*u.m*2
def t_mulq(): return (3*u.m)*(2*u.s)
def t_div(): return (3*u.km)/(2*u.m)
def t_div_to(): return ((3*u.km)/(2*u.m)).to(u.one)
def t_div_tov(): return ((3*u.km)/(2*u.m)).to_value(u.dimensionless_unscaled)
def t_div_decomp(): return ((3*u.km)/(2*u.m)).decompose()
def t_float_q(): return float((3*u.km)/(2*u.m))
def t_float_bad(): return float(3*u.m)
def t_add(): return 3*u.km + 2*u.m
def t_add_bad(): return 3*u.km + 2*u.s
def t_add_num(): return 3*u.km + 2
def t_add_zero(): return 3*u.km + 0
def t_add_dimless(): return 3*u.one + 2
def t_add_dimless2(): return 1 - (3*u.m)/(2*u.km)
def t_sub_arr(): return q1 - 10*u.deg
def t_pow(): return (3*u.m)**2
def t_pow_half(): return (4*u.m**2)**0.5
def t_pow4(): return ((300*u.K)**4)**0.25
def t_neg(): return -q1
def t_cmp(): return 3*u.km > 2*u.m
def t_cmp_bad(): return 3*u.km > 2*u.s
def t_cmp_num(): return 3*u.km > 2
def t_cmp_zero(): return 3*u.km > 0
def t_eq_bad(): return 3*u.km == 2*u.s
def t_eq(): return 3*u.km == 3000*u.m
def t_ne(): return 3*u.km != 3000*u.m
def t_eq_arr(): return q1 == 20*u.deg
def t_cmp_arr(): return q1 <= 0.4*u.rad
def t_to(): return q1.to(u.rad)
def t_to_bad(): return q1.to(u.m)
def t_to_value(): return q1.to_value(u.rad)
def t_value(): return q1.value
def t_unit(): return q1.unit
def t_unit_eq(): return q1.unit == u.deg, u.km == 1000*u.m, u.hr == u.h
def t_si(): return (3*u.km).si
def t_cgs(): return (3*u.km).cgs
def t_decomp(): return (3*u.hr).decompose()
def t_physical(): return str((3*u.km).unit.physical_type)
def t_is_equiv(): return (3*u.km).unit.is_equivalent(u.m), u.km.is_equivalent(u.s)
def t_unit_to(): return u.km.to(u.m), u.deg.to(u.rad, 180)
def t_lshift(): return 3 << u.km
def t_lshift2(): return (3*u.km) << u.m
def t_quant_arr(): return u.Quantity([1, 2, 3], u.m)
def t_quant_arr2(): return u.Quantity(a1, 'K')
def t_quant_dtype(): return u.Quantity(3, u.m).dtype == float
def t_quant_list(): return u.Quantity([1*u.hr, 60*u.min])
def t_quant_listto(): return u.Quantity([1*u.hr, 60*u.min], u.day)
def t_list_mul_unit(): return [1, 2]*u.m
def t_tuple_mul_unit(): return (1, 2)*u.m
def t_arr_div_unit(): return a1/u.s
def t_one_div(): return 1/(2*u.s)
def t_unit_div(): return u.m/u.s
def t_unit_pow(): return u.m**2
def t_unit_str(): return u.Unit('km/s')
def t_len(): return len(q1), q1.shape, q1.size, q1.ndim
def t_idx(): return q1[1]
def t_idx_neg(): return q1[-1]
def t_slice(): return q1[1:]
def t_mask(): return q1[m1]
def t_fancy(): return q1[[0, 2]]
def t_2d(): return q2[0, 1:]
def t_2dmask(): return q2[q2 > 2*u.K]
def t_iter(): return [x for x in q1]
def t_zip(): return [(x, y) for x, y in zip(q1, a1)]
def t_setitem():
    x = q1.copy()
    x[0] = 1*u.rad
    return x
def t_setitem_num():
    x = q1.copy()
    x[0] = 1
    return x
def t_setitem_zero():
    x = q1.copy()
    x[0] = 0
    return x
def t_setitem_mask():
    x = q2.copy()
    x[x > 3*u.K] = 7*u.K
    return x
def t_setitem_arr():
    x = q2.copy()
    x[:, 0] = [8, 9]*u.K
    return x
def t_iadd():
    x = q1.copy()
    y = x
    x += 1*u.deg
    return x, y
def t_iadd_scalar():
    x = 1*u.deg
    y = x
    x += 1*u.deg
    return x, y
def t_imul():
    x = q1.copy()
    y = x
    x *= 2
    return x, y
def t_imul_unit():
    x = q1.copy()
    x *= u.m
    return x
def t_itruediv():
    x = q1.copy()
    y = x
    x /= 2
    return x, y
def t_isub_conv():
    x = q1.copy()
    x -= 0.1*u.rad
    return x
def t_view():
    x = a1.copy()
    y = x[1:]
    y[0] = 9
    return x
def t_view_T():
    x = a2.copy()
    y = x.T
    y[0, 1] = 9
    return x
def t_view_ravel():
    x = a2.copy()
    y = x.ravel()
    y[0] = 9
    return x
def t_flatten_copy():
    x = a2.copy()
    y = x.flatten()
    y[0] = 9
    return x
def t_reshape_view():
    x = a2.copy()
    y = x.reshape(3, 2)
    y[0, 0] = 9
    return x
def t_fancy_copy():
    x = a1.copy()
    y = x[[0, 1]]
    y[0] = 9
    return x
def t_mask_copy():
    x = a1.copy()
    y = x[m1]
    y[0] = 9
    return x
def t_value_view():
    x = q1.copy()
    y = x.value
    y[0] = 99
    return x
def t_to_copy():
    x = q1.copy()
    y = x.to(u.deg)
    y[0] = 99*u.deg
    return x
def t_to_value_view():
    x = q1.copy()
    y = x.to_value(u.deg)
    y[0] = 99
    return x
def t_quant_copy():
    x = q1.copy()
    y = u.Quantity(x)
    y[0] = 99*u.deg
    return x
def t_quant_nocopy():
    x = q1.copy()
    y = u.Quantity(x, copy=False)
    y[0] = 99*u.deg
    return x
def t_asarray_view():
    x = a1.copy()
    y = np.asarray(x)
    y[0] = 9
    return x
def t_array_copy():
    x = a1.copy()
    y = np.array(x)
    y[0] = 9
    return x
def t_asarray_q_view():
    x = q1.copy()
    y = np.asarray(x)
    y[0] = 9
    return x
def t_mul_unit_copy():
    x = a1.copy()
    y = x*u.m
    y[0] = 9*u.m
    return x
def t_lshift_view():
    x = a1.copy()
    y = x << u.m
    y[0] = 9*u.m
    return x
def t_where_copy():
    x = a1.copy()
    y = np.where(m1, x, x)
    y[0] = 9
    return x
def t_broadcast_ro():
    y = np.broadcast_to(a1, (2, 3))
    y[0, 0] = 4
    return y
def t_atleast_view():
    x = a1.copy()
    y = np.atleast_1d(x)
    y[0] = 9
    return x
def t_squeeze_view():
    x = a1.copy()[None]
    y = np.squeeze(x)
    y[0] = 9
    return x
def t_row_view():
    x = a2.copy()
    for r in x:
        r[0] = 0
    return x
def t_row_view_q():
    x = q2.copy()
    r = x[0]
    r[0] = 9*u.K
    return x
def t_clip_copy():
    x = a1.copy()
    y = np.clip(x, 0, 10)
    y[0] = 9
    return x
def t_abs_copy():
    x = a1.copy()
    y = abs(x)
    y[0] = 9
    return x
def t_astype_copy():
    x = a1.copy()
    y = x.astype(float)
    y[0] = 9
    return x
def t_astype_nocopy():
    x = a1.copy()
    y = x.astype(float, copy=False)
    y[0] = 9
    return x
def t_sort_inplace():
    x = a1.copy()
    x.sort()
    return x
def t_deepcopy():
    x = [a1.copy()]
    y = deepcopy(x)
    y[0][0] = 9
    return x
def t_listmul_alias():
    x = [[0]]*2
    x[0].append(1)
    return x
def t_dict_alias():
    d = {'a': a1.copy()}
    e = dict(d)
    e['a'][0] = 9
    return d
def t_default_mut():
    def f(x=[]):
        x.append(1)
        return len(x)
    f()
    return f()
def t_ufunc_out_q():
    x = q1.copy()
    np.add(x, 1*u.deg, out=x)
    return x
def t_sum(): return q1.sum()
def t_sum2(): return np.sum(q2, axis=0)
def t_mean(): return q1.mean()
def t_min(): return q1.min(), q1.max()
def t_prod_bad(): return np.prod(q1)
def t_cumsum(): return np.cumsum(q1)
def t_std(): return q1.std()
def t_pysum(): return sum(q1)
def t_pymin(): return min(q1), max(q1)
def t_sorted(): return sorted([2*u.m, 100*u.cm])
def t_abs(): return np.abs(-3*u.m)
def t_sin(): return np.sin(30*u.deg), np.cos(q1), np.tan(45*u.deg)
def t_sin_bad(): return np.sin(3*u.m)
def t_sin_dimless(): return np.sin(3*u.one)
def t_arcsin(): return np.arcsin(0.5*u.one)
def t_arcsin_bad(): return np.arcsin(0.5*u.m)
def t_exp(): return np.exp((1*u.m)/(1*u.km))
def t_exp_bad(): return np.exp(1*u.m)
def t_exp_num(): return np.exp(-(2*u.hr)/(1*u.day))
def t_log(): return np.log((1*u.km)/(1*u.m))
def t_pow_arr(): return 10**a1
def t_pow_q_exp(): return 10**(2*u.one)
def t_pow_q_exp2(): return (2*u.one)**a1
def t_sqrt(): return np.sqrt((3*u.km)**2 + (4*u.km)**2)
def t_isnan(): return np.isnan(q1)
def t_isfinite(): return np.isfinite(q1)
def t_dot(): return np.dot(q1, a1)
def t_matmul(): return q2 @ a1
def t_concat(): return np.concatenate([q1, q1.to(u.rad)])
def t_append(): return np.append(q1, q1[:1])
def t_stack(): return np.stack([q1, q1])
def t_hstack_list(): return np.hstack([1*u.deg, q1])
def t_array_list(): return np.array([1*u.deg, 2*u.deg])
def t_array_list_mul(): return np.array([x.value for x in q1])*u.deg
def t_zeros_q(): return np.zeros(3)*u.deg
def t_zeros_like(): return np.zeros_like(q1)
def t_ones_like(): return np.ones_like(q1)
def t_ones_like_num(): return np.ones_like(q1.value)*q1.unit
def t_where_mixed(): return np.where(m1, q1, 0)
def t_where_bad(): return np.where(m1, q1, 1)
def t_clip_num(): return np.clip(q1, 0, 1)
def t_max_num(): return np.maximum(q1, 0)
def t_max_bad(): return np.maximum(q1, 1)
def t_isclose(): return np.isclose(q1, 20*u.deg)
def t_isclose_atol(): return np.isclose(q1, 20*u.deg, atol=11*u.deg)
def t_allclose(): return np.allclose(1*u.km, 1000*u.m)
def t_allclose_u(): return u.allclose(1*u.km, 1000*u.m)
def t_any(): return np.any(q1 > 25*u.deg), np.all(q1 > 5*u.deg), (q1 > 25*u.deg).any()
def t_argsort(): return np.argsort(q1[::-1])
def t_argmax(): return np.argmax(q1), q1.argmin()
def t_searchsorted(): return np.searchsorted(q1, 0.4*u.rad)
def t_unique(): return np.unique(q2)
def t_median(): return np.median(q1)
def t_percentile(): return np.percentile(q1, 50)
def t_mod(): return (q1*20) % (360*u.deg)
def t_mod_bad(): return q1 % 360
def t_floor_div(): return t1//(2*u.hr)
def t_round(): return np.round(q1/3, 1)
def t_round_m(): return (q1/3).round(1)
def t_ceil_bad(): return np.ceil(1.5*u.m)
def t_ceil_ratio(): return np.ceil((25*u.hr)/(1*u.day))
def t_int_ratio(): return int((25*u.hr)/(1*u.day))
def t_int_to(): return int(((25*u.hr)/(1*u.day)).to(u.one).value)
def t_bool_q(): return bool(3*u.m > 0*u.m)
def t_truth_arr():
    if q1 > 5*u.deg:
        return 1
def t_isscalar(): return q1[0].isscalar
def t_item(): return q1[0].item()
def t_value_type(): return q1[0].value
def t_scalar_value(): return (3*u.m).value
def t_scalar_int_value(): return (3*u.m).to(u.cm).value
def t_flat(): return q2.flatten(), q2.ravel(), q2.T, q2.reshape(3, 2)
def t_squeeze(): return q1[None].squeeze()
def t_newaxis(): return q1[:, None] - q1[None, :2]
def t_bcast(): return np.broadcast_to(q1, (2, 3), subok=True)
def t_bcast_nosub(): return np.broadcast_to(q1, (2, 3))
def t_tile(): return np.tile(q1, (2, 1))
def t_repeat(): return np.repeat(q1, 2)
def t_roll(): return np.roll(q1, 1)
def t_diff(): return np.diff(q1)
def t_outer(): return np.outer(q1, q1)
def t_meshgrid(): return np.meshgrid(q1, t1[:2])
def t_arange(): return np.arange(0, 2, .5)*u.hr
def t_linspace_u(): return np.linspace(0, 1, 3)*u.day
def t_linspace_mixed(): return np.linspace(1*u.hr, 2*u.day, 3)
def t_full(): return np.full(2, 3.)*u.m
def t_full_like(): return np.full_like(q1, 3*u.rad)
def t_interp(): return np.interp(15*u.deg, q1, a1)
def t_trapz(): return np.trapz(a1, t1[:3])
def t_polyval(): return np.polyval([1, 2], a1)
def t_const(): return c.sigma_sb, c.R_sun.to(u.km)
def t_const_expr(): return (c.sigma_sb*(5000*u.K)**4).to(u.erg/u.s/u.cm**2)
def t_angle_num(): return np.sin(0.5)
def t_solid(): return (4*np.pi*u.steradian).to(u.deg**2)
def t_equiv(): return (1*u.rad).to(u.one, equivalencies=u.dimensionless_angles())
def t_equiv2(): return (1*u.m/u.m).to(u.rad, equivalencies=u.dimensionless_angles())
def t_rad_mul(): return (1*u.rad)*(2*u.km)
def t_rad_to_len(): return ((1*u.rad)*(2*u.km)).to(u.km, equivalencies=u.dimensionless_angles())
def t_percent(): return (50*u.percent).to(u.one), 1 - 50*u.percent
def t_fmt(): return f'{5.0*u.deg:.1f}', f'{(5.0*u.deg).value:.1f}', str(q1[0].unit)
def t_repr(): return repr(3.0*u.K)
def t_quantstr(): return u.Quantity('2.5 km')
def t_quantstr2(): return u.Quantity('3000.00 K') + 1*u.K
def t_isinst(): return isinstance(3*u.deg, u.Quantity), isinstance(3, u.Quantity), isinstance(u.deg, u.Unit)
def t_hash(): return hash(3*u.m) == hash(3*u.m)
def t_dict_key(): return {3*u.m: 1}[3*u.m]
def t_dict_key_miss(): return {3*u.m: 1}[300*u.cm]
def t_in_list(): return 3*u.m in [1*u.m, 3*u.m]
def t_nan(): return np.nan*u.K
def t_inf_cmp(): return 3*u.K < np.inf*u.K
def t_inf_cmp2(): return 3*u.K < np.inf
def t_astype(): return q1.astype(int)
def t_int_arr_q(): return np.array([1, 2])*u.m
def t_tolist(): return q1.value.tolist()
def t_copy_q():
    x = 3*u.m
    y = copy(x)
    return y
def t_setattr_unit():
    x = 3*u.m
    x.unit = u.s
    return x
def t_quantity_input():
    @u.quantity_input
    def f(a: u.m):
        return a
    return f(3*u.km)
def t_quantity_input_kw():
    @u.quantity_input(a=u.m)
    def f(a):
        return a
    return f(3*u.km)
def t_quantity_input_bad():
    @u.quantity_input(a=u.m)
    def f(a):
        return a
    return f(3*u.s)
def t_quantity_input_num():
    @u.quantity_input(a=u.m)
    def f(a):
        return a
    return f(3)
def t_quantity_input_one():
    @u.quantity_input(a=u.one)
    def f(a):
        return a
    return f(3)
def t_bool_index_q(): return q1[q1 > 15*u.deg]
def t_int_index_arr(): return a1[np.array([0, 2])]
def t_neg_step(): return q1[::-1]
def t_ellipsis(): return q2[..., 0]
def t_assign_slice():
    x = np.zeros(4)
    x[1:3] = 5
    return x
def t_assign_2mask():
    x = np.zeros((2, 3))
    x[a2 > 2] = a2[a2 > 2]
    return x
def t_bad_index(): return a1[5]
def t_bad_shape(): return a1 + np.zeros(2)
def t_zero_div(): return 1/0
def t_np_zero_div(): return np.float64(1)/0
def t_key(): return {}['a']
def t_attr(): return (3).foo
def t_call_bad():
    def f(a):
        return a
    return f()
def t_unpack_bad():
    a, b = [1]
    return a
def t_int_q_arr(): return (np.arange(3)*u.deg).value
def t_ptp(): return np.ptp(q1)
def t_hypot(): return np.hypot(q1, q1)
def t_arctan2(): return np.arctan2(q1, q1)
def t_arctan2_mixed(): return np.arctan2(1.0, 2.0*u.one)
def t_arctan2_bad(): return np.arctan2(1.0, 2.0*u.m)
def t_radians_q(): return np.radians(180*u.deg)
def t_degrees_q(): return np.degrees(np.pi*u.rad)
def t_unwrap(): return np.unwrap(np.array([0., 7.]))
def t_sign_q(): return np.sign(-q1)
def t_nan_to_num_q(): return np.nan_to_num(np.array([1., np.nan])*u.K)
def t_flatnonzero_q(): return np.flatnonzero(q1 > 15*u.deg)
def t_average_w(): return np.average(q1, weights=a1)
def t_count(): return [1, 2, 1].count(1)
def t_power_frac(): return (8*u.m**3)**(1/3)
def t_lat_clip(): return np.clip(100*u.deg, -90*u.deg, 90*u.deg)
def t_max_py_q(): return max(3*u.m, 400*u.cm)
def t_quantity_view(): return q1.view(np.ndarray)
def t_nonzero_q(): return np.nonzero(q1)
def t_isin_q(): return np.isin(q1, [10]*u.deg)
def t_where_nested(): return np.where(a1 > 2, 'a', 'b').tolist()
def t_inplace_pow():
    x = a1.copy()
    x **= 2
    return x
def t_inplace_bool():
    x = np.zeros(3, dtype=bool)
    x[1] = True
    return x
def t_bool_assign_num():
    x = np.zeros(3, dtype=bool)
    x[1] = 2
    return x
def t_int_assign_float():
    x = np.zeros(3, dtype=int)
    x[1] = 2.7
    return x
def t_int_iadd_float():
    x = np.zeros(3, dtype=int)
    x += 1.5
    return x
def t_bool_iadd():
    x = np.zeros(3, dtype=bool)
    x += True
    return x
def t_bool_sum_q(): return (q1 > 15*u.deg).sum()*u.m
def t_empty_sum(): return np.array([]).sum(), np.sum([])
def t_empty_mean(): return np.mean(np.array([]))
def t_empty_max(): return np.max(np.array([]))
def t_empty_q(): return np.array([])*u.deg
def t_empty_list_q(): return u.Quantity([], u.deg)
def t_empty_q_cmp(): return (np.array([])*u.deg) > 1*u.deg
def t_empty_stack(): return np.concatenate([np.array([]), a1])
